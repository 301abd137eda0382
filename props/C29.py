from vf import H
TITLE = "FAST corners are exactly the nine-pixel arcs, scored and suppressed rightly"
D = {"B":20,"B0":20,"B1":20,"PADV":0,"CAP":3,"BSC":20,"ND":1,"E0":16}
HARNESSES = [
    H("fast_test", "fast.c", defs=dict(D,BSYM=1), engine="se", bounds="every 7 by 7 byte image, every threshold 0..255"),
    H("fast_score", "fast.c", defs=dict(D,ND=1,E0=16), tdefs={"ND":3}, engine="se", bounds="every centre and every pattern of circle pixels equal to the centre or 100 (thorough: also 140 and 30) levels brighter or darker; threshold 20"),
    H("fast_scan", "fast.c", defs=dict(D), engine="se", leak=True, bounds="images up to 9 by 8, every subset of dark interior pixels, capacities 0..3"),
    H("fast_nonmax", "fast.c", defs=dict(D,NP=3), tdefs={"GW":3,"GH":3}, engine="se", leak=True, bounds="every set of at most NP keypoints on a 3 by 2 grid (thorough: 3 by 3) with any byte scores, capacities 0..CAP"),
    H("fast_nonmax4", "fast.c", entry="fast_nonmax", defs=dict(D,NP=4,SMASK=3,GW=3,GH=3), tdefs={"NP":5}, engine="se", leak=True, bounds="every set of at most NP keypoints on a 3 by 3 grid with scores 0..3, capacities 0..CAP"),
    H("fast_adapt", "fast.c", defs=dict(D), engine="se", leak=True, bounds="any threshold in 5..250 and any counts up to a million"),
    H("fast_pyr", "fast.c", defs=dict(D), engine="se", leak=True, bounds="pyramids of 1..2 levels up to 9 by 8, subsets of dark pixels, patch radii 1..4"),
]
STATEMENT = """FAST detection reports a pixel exactly when at least nine contiguous pixels of the sixteen on its circle are all brighter than it by more than the threshold or all darker; corners come in raster order,
never more than the caller has room for. Its score is the largest threshold at which it is still a corner, suppression keeps exactly the corners scoring above all their neighbours, detection over a pyramid labels
keypoints with their level, and the adaptive threshold moves towards the wanted number while staying within 5 to 250."""
QUANT = (["inputs"], "all images, thresholds, score sets and counts within the bounds")
WHY = "the detector is a generated decision tree of thousands of branches, of which image tests visit few"
FILES = ["src/nx_fast_detector.c","src/fast/fast_9.c","src/fast/fast_nonmax.c"]
MECH = [("segment test and score", "src/fast/fast_9.c"), ("suppression", "src/fast/fast_nonmax.c"), ("detector", "src/nx_fast_detector.c")]
ASSUMPTIONS = ["thresholds are not negative"]
