from vf import H
TITLE = "Bit counting, rotation, byte order and bit arrays are exact"
D={"NB":20}
HARNESSES = [
    H("bits_count32", "bits.c", defs=D, unwind=33, overflow=True, bounds="all 2^32 values"),
    H("bits_count64", "bits.c", defs=D, unwind=65, overflow=True, bounds="all 2^64 values"),
    H("bits_rot", "bits.c", defs=D, overflow=True, bounds="all values, rotation 1..width-1"),
    H("bits_endian", "bits.c", defs=D, unwind=9, overflow=True, bounds="all values"),
    H("bits_array", "bits.c", defs=D, tdefs={"NB":40}, unwind=22, tunwind=42, bounds="arrays of 1..NB bits, any contents, any write"),
]
STATEMENT = 'Population counts, rotations, byte-order packing/unpacking and bit arrays give the mathematically exact result for every word value, bit position and length. Setting or clearing one bit of a bit array changes that bit only.'
QUANT = (['inputs'], 'all 32/64-bit values; all bit array lengths and positions within the bound')
WHY = 'tests sample a few words out of 2^64'
FILES = ['include/virg/nexus/nx_bit_ops.h', 'src/nx_bit_ops.c']
MECH = [('bit operations', 'include/virg/nexus/nx_bit_ops.h'), ('bit arrays', 'src/nx_bit_ops.c')]
