from vf import H
TITLE = "Growable memory blocks and vectors keep contents and respect ownership"
ASSUMPTIONS = ["malloc/realloc succeed (allocation failure is outside the claim)", "block sizes <= N bytes, vectors <= PUSH elements"]
HARNESSES = [
    H("mem_block_steps", "mem.c", defs={"N": 3, "STEPS": 2, "PUSH": 3}, tdefs={"N": 4, "STEPS": 3}, engine="se", leak=True,
      bounds="two blocks in any valid state, sizes/capacities 0..N, any STEPS operations"),
    H("mem_block_unowned", "mem.c", defs={"N": 4, "STEPS": 2, "PUSH": 3}, tdefs={"N": 8}, engine="se", leak=True, bounds="wrapped caller memory of N bytes"),
    H("kp_vector", "mem.c", defs={"N": 4, "STEPS": 2, "PUSH": 3}, tdefs={"PUSH": 5}, engine="se", leak=True, bounds="PUSH operations"),
]
STATEMENT = 'A growable memory block or element vector always holds exactly the bytes/elements that were put into it, in order, through any sequence of reserving, resizing, copying, swapping and appending, and never touches memory outside what it owns. Memory it allocated is released exactly once; memory borrowed from the caller is never freed or reallocated.'
QUANT = (['histories', 'inputs'], 'every operation sequence from every valid state, all contents')
WHY = 'tests run a handful of fixed sequences with fixed contents'
FILES = ['src/nx_mem_block.c', 'src/nx_vector_gen.c', 'include/virg/nexus/nx_mem_block.h']
MECH = [('growth and ownership', 'src/nx_mem_block.c'), ('generic vector template', 'src/nx_vector_gen.c')]
