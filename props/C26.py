from vf import H
TITLE = "Random samplers: range, reproducibility, the SFMT sequence, finite Gaussians"
def S(n, b, defs={}, t={}, **k): return H(n, "sampler.c", defs=defs, tdefs=t, engine="se", leak=True, bounds=b, **k)
HARNESSES = [S("smp_range","every pair of generator words, bit-precise floating point",{"STUB_SFMT":1},exclude=("src/SFMT/SFMT.c",),se="--fp"),
  S("smp_index","every generator word, six sizes up to 65537, bit-precise floating point",{"STUB_SFMT":1},exclude=("src/SFMT/SFMT.c",),se="--fp"),
  S("smp_gauss","0..N samples, up to MAXDRAW draws on a five by five grid of the square",{"STUB_UNIFORM":1,"N":3,"MAXDRAW":6},{"N":4,"MAXDRAW":8},exclude=("src/nx_uniform_sampler.c",)),
  S("smp_sfmt","four seeds, the first BLOCKS blocks of 624 words",{"BLOCKS":2},{"BLOCKS":4}),S("smp_state","every value of any one of sixteen words of the state, the next WORDS samples",{"WORDS":16},{"WORDS":40}),S("smp_seed","every 32-bit seed, the first eight words of the state"),S("smp_repeat","every seed, N samples",{"N":6}),S("smp_fill","four seeds, 624 to 632 words")]
STATEMENT = """Single and double precision uniform samples are in [0, 1), never 1, for every output of the generator, so that a sample times n is always an index below n. A sampler made with a seed produces the documented SFMT-19937 sequence of that seed, 32-bit samples one word at a time, 64-bit samples two words, and arrays filled in one call the same words; the same seed gives the same sequence whatever other samplers do, seeding again starts over, and the shared sampler is one object until it is freed. Gaussian sampling sets exactly n values, each finite for every sequence of uniform draws, and each pair is the polar-method image of the drawn point, scaled by sigma and moved by the mean. Nothing leaks."""
QUANT = (["inputs", "histories"], "every generator output and every seed or state word within the bounds; every sequence of draws of the grid")
WHY = "The failures are one draw in 2^25 (a sample of exactly 1) or in 2^48 (the centre of the disc): tests never see them, and a wrong word of a generator is not visible in any sample."
FILES = ["src/nx_uniform_sampler.c", "src/nx_gaussian_sampler.c", "src/SFMT/SFMT.c", "src/SFMT/SFMT.h"]
MECH = [("range", "the generator is replaced by one that answers any word; floating point is bit-precise"), ("sequence", "an independent word-level implementation of the recursion in the harness"), ("Gaussian", "every draw is a choice of the solver among a grid that contains the centre and points outside the disc")]
ASSUMPTIONS = ["the configuration without SSE2 intrinsics of SFMT, which is the one built"]
