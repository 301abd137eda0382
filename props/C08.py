from vf import H
TITLE = "A JSON tree printed and read back is the same tree"
D={"N":4,"M":5,"L":3,"T":5,"NMAX":24,"SL":1,"DEPTH":1,"WN":4,"WIDTH":2,"VF_FCAP":256}
HARNESSES = [
    H("json_tree_rt", "json.c", defs=D, tdefs={"SL":2,"DEPTH":2}, engine="se", leak=True, bounds="objects/arrays of up to WIDTH values (thorough: one more nesting level), strings up to SL bytes of any value, print levels 0..2"),
    H("json_tree_wide", "json.c", defs=D, tdefs={"WN":6}, engine="se", leak=True, bounds="objects/arrays of up to WN values, one of them an object/array of 0..3 values, print levels 0..2"),
]
STATEMENT = "Any JSON tree assembled from objects, arrays, strings, numbers and literals, printed at any pretty-print level and read back, gives a tree with the same structure, order, names, text and types. The tree owns its nodes and releases all of them once."
QUANT = (["inputs","histories"], "all trees up to the width/depth bound, all string contents up to the length bound, all print levels up to 2")
WHY = "tests never re-read printed trees with arbitrary names and strings"
FILES = ["src/nx_json_tree.c", "src/nx_string.c", "src/nx_json_parser.c"]
MECH = [("printing", "src/nx_json_tree.c: nx_json_tree_fprint"), ("building", "src/nx_json_tree.c: nx_json_*_add"), ("escaping", "src/nx_string.c: nx_fputs_readable")]
