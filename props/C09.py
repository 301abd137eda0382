from vf import H
TITLE = "Values bundled into JSON and unbundled come back unchanged"
D={"LIM":999,"SL":3,"AN":2,"VF_FCAP":768}
HARNESSES = [
    H("jb_int", "jbundle.c", defs=D, tdefs={"LIM":99999}, engine="se", leak=True, bounds="all integers in -LIM..LIM"),
    H("jb_scalars", "jbundle.c", defs=D, tdefs={"SL":6}, engine="se", leak=True, bounds="boundary integers and sizes, 8 representative reals, all booleans and bytes, all strings up to SL bytes"),
    H("jb_arrays", "jbundle.c", defs=D, tdefs={"AN":3}, engine="se", leak=True, bounds="arrays of up to AN values through text, integers -99..99, 4 reals, strings up to 1 byte"),
    H("jb_keypoint", "jbundle.c", defs=D, engine="se", leak=True, bounds="0..2 keypoints through text, symbolic positions, boundary ids"),
]
STATEMENT = "Bundling a truth value, character, byte, integer, size, real number, string, array of those, or keypoint into JSON and unbundling it, directly or through printed text, gives back the same value, reals to the printed precision. Sizes and identifiers keep their full range, bytes are clamped to 0..255, and arrays keep length and order."
QUANT = (["inputs"], "all values within the stated ranges")
WHY = "no test bundles boundary values or re-reads printed bundles"
FILES = ["src/nx_json_bundle.c", "src/nx_json_tree.c"]
MECH = [("bundling", "src/nx_json_bundle.c")]
NOTE = "reals are checked for representative concrete values only (printf %e is modelled by the host's)"
