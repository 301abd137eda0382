from vf import H
TITLE = "Binary string and string-array streams round-trip and reject damage"
D={"N":3,"K":2,"VF_FCAP":128,"STEPS":2,"CAPN":6,"GN":14}
HARNESSES = [
    H("strio_rt", "strio.c", defs=D, tdefs={"N":6}, engine="se", leak=True, bounds="two strings up to N and 2 bytes, cut at every byte"),
    H("strio_wfail", "strio.c", defs=D, tdefs={"N":6}, engine="se", bounds="write failure at every byte"),
    H("strio_any", "strio.c", defs=D, tdefs={"N":6}, engine="se", bounds="any stream of up to 8+N bytes with length field <= N+2 or >= 2^32"),
    H("strio_array_rt", "strio.c", defs=D, tdefs={"K":3}, engine="se", leak=True, bounds="arrays of up to K strings of up to 2 bytes, cut at every byte"),
    H("strio_array_wfail", "strio.c", defs=D, engine="se", bounds="arrays of up to 2 strings, write failure at every byte"),
    H("strio_array_any", "strio.c", defs=D, engine="se", bounds="any stream of up to 21 bytes, count <= 3 including negatives"),
]
STATEMENT = 'A string or string list written to a binary stream is read back identical, and reading consumes exactly the bytes written. Truncated, oversized or otherwise damaged input is reported as a failure (or fatal error for the checked variants), never as success, and never corrupts memory; a write that the stream refuses is never reported as success.'
QUANT = (['inputs', 'fault_sequences'], 'all contents, every truncation point, every write-failure point, arbitrary bytes as input')
WHY = 'tests only round-trip intact files'
FILES = ['src/nx_string.c', 'src/nx_string_array.c']
MECH = [('stream write/read', 'src/nx_string.c: nx_strwrite, nx_strread'), ('array stream', 'src/nx_string_array.c')]
