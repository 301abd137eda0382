from vf import H
TITLE = "JSON text is accepted exactly when well-formed and yields the right tree"
D={"N":5,"M":6,"L":4,"T":5,"NMAX":24,"SL":1,"DEPTH":1,"WIDTH":2}
HARNESSES = [
    H("json_any", "json.c", defs=D, tdefs={"N":6}, engine="se", leak=False, bounds="any text of up to N bytes, all byte values"),
    H("json_number", "json.c", defs=D, tdefs={"M":7}, engine="se", bounds="any number-like text of up to M characters inside an array"),
    H("json_string", "json.c", defs=D, tdefs={"L":5}, engine="se", leak=False, bounds="any string body of up to L bytes"),
    H("json_tokens", "json.c", defs=D, tdefs={"T":7}, engine="se", leak=False, bounds="any sequence of up to T tokens out of 13 kinds"),
]
STATEMENT = "Reading JSON text accepts every well-formed array or object document and produces the tree the text denotes, with element order, names, decoded strings and number spellings preserved; malformed documents are refused with a fatal error. Whatever the bytes of the input, no memory outside the text and the tree is touched. Looking up array elements and object members returns the element of the requested position or name if it exists and has a requested type, and nothing otherwise."
QUANT = (["inputs"], "all byte strings up to the length bound and all token sequences up to the token bound")
WHY = "tests parse a few fixed well-formed files; malformed, truncated and non-ASCII input is not covered"
FILES = ["src/nx_lexer.c", "src/nx_json_lexer.c", "src/nx_json_parser.c", "src/nx_json_tree.c"]
MECH = [("tokenising", "src/nx_lexer.c, src/nx_json_lexer.c"), ("grammar", "src/nx_json_parser.c"), ("tree access", "src/nx_json_tree.c")]
