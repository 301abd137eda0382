from vf import H
TITLE = "SHA-256 digests equal FIPS 180-4 for every message and any chunking"
HARNESSES = [
    H("sha_fips", "sha.c", defs={"ALL":0}, tdefs={"ALL":1}, engine="se", se="--noflat --canon", bounds="every message of the listed lengths (0..4, 8, 31, 32, 54..57, 62..65, 111, 118..121, 127..129; thorough 0..190), all contents"),
    H("sha_multi", "sha.c", defs={"ALL":0}, tdefs={"ALL":1}, engine="se", se="--noflat --canon", bounds="lengths 0, 3, 55, 56, 63, 64, 65, 129 (thorough 0..190), 1..3 buffers split at 0, 1, half, 64 and all"),
]
STATEMENT = 'The SHA-256 digest of any message equals the FIPS 180-4 digest, whatever its length, in particular around the padding boundaries. Hashing a message supplied as several buffers gives the digest of their concatenation however it is split, and only the given bytes are read.'
QUANT = (['inputs'], 'all message contents for the listed lengths, listed splits')
WHY = 'tests compare a few known digests and cannot cover every length/padding/splitting combination'
FILES = ['src/nx_hash_sha256.c', 'src/nx_string.c']
MECH = [('compression and padding', 'src/nx_hash_sha256.c'), ('buffer gathering', 'src/nx_string.c: nx_memncpy_multi')]
