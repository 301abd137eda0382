from vf import H
TITLE = "String helpers duplicate, format, escape and decode text exactly"
D={"N":4,"FLO":58,"FHI":67,"GL":2}
HARNESSES = [
    H("str_dup", "str.c", defs=D, tdefs={"N":8}, engine="se", leak=True, bounds="strings up to N bytes, all byte values"),
    H("str_fmt", "str.c", defs=D, tdefs={"FLO":0,"FHI":140}, engine="se", leak=True, bounds="formatted lengths FLO..FHI+6, integers -99..99"),
    H("str_readable_rt", "str.c", defs=D, tdefs={"N":6}, engine="se", leak=True, bounds="strings up to N bytes, all byte values"),
    H("str_dquoted_rt", "str.c", defs=D, tdefs={"N":9}, engine="se", leak=True, bounds="strings up to N bytes, all byte values"),
    H("str_readable_any", "str.c", defs=D, tdefs={"N":6}, engine="se", bounds="escaped inputs up to N bytes, all byte values"),
    H("str_hash", "str.c", defs=D, engine="se", leak=True, bounds="digests up to 3 bytes"),
    H("str_gather", "str.c", defs=D, tdefs={"GL":3}, engine="se", leak=True, bounds="1..3 source buffers of 0..GL bytes, 3 gathers of 0..GL+1 bytes"),
]
STATEMENT = 'Duplicating, formatting, joining, escaping, quoting, hashing-to-text and gathering helpers return exactly the text or bytes their description promises for every input, including empty and non-ASCII text. Escaped or quoted text decodes back to the original, and malformed escapes are refused; no helper reads or writes outside its buffers.'
QUANT = (['inputs'], 'all strings and byte values up to the length bound')
WHY = 'tests use a few ASCII samples; escaping, length boundaries and bytes above 127 are not covered'
FILES = ['src/nx_string.c']
MECH = [('escape/unescape', 'src/nx_string.c: nx_xstr_from_readable, nx_xreadable_from_str'), ('gather', 'src/nx_string.c: nx_memncpy_multi')]
