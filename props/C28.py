from vf import H
TITLE = "Keypoints survive storage; Harris corners are the strict score maxima"
HARNESSES = [
    H("key_rt", "feat.c", defs={"NK":2,"VF_FCAP":128,"WIN":0}, engine="se", bounds="up to NK keypoints with any contents, stream cut at every byte, plain and checked variants"),
    H("key_wfail", "feat.c", defs={"NK":2,"VF_FCAP":128,"WIN":0}, engine="se", bounds="up to NK keypoints, write failure at every byte"),
    H("key_base", "feat.c", defs={"WIN":0}, engine="se", bounds="x in 0..255 or 50000..50255, y in 0..255, scales 1 to 16"),
    H("harris_deriv", "feat.c", defs={"W":3,"HH":3,"WIN":1}, engine="se", leak=True, bounds="all byte images up to W by HH with and without padding, with and without window"),
    H("harris_score", "feat.c", defs={"WIN":0}, engine="se", leak=True, bounds="all derivative images up to 2 by 2, three values of k, in exact arithmetic"),
    H("harris_detect", "feat.c", defs={"WIN":0,"DW":6,"DH":5}, tdefs={"DW":7}, engine="se", leak=True, bounds="all score images up to DW by DH, any threshold, capacities 0..2"),
]
STATEMENT = """Keypoints written to a stream are read back identical; a cut or refusing stream is reported with the number of complete keypoints, or is fatal for the checked variants.
Harris derivative images are the products of the image derivatives (smoothed by the requested window), the score is their determinant minus k times the squared trace, and detection reports exactly the
strict local maxima above the threshold away from the border, in raster order, with position, score and running id, never more than the caller has room for."""
QUANT = (["inputs","fault_sequences"], "all keypoint contents, cuts and write failures; all images and thresholds within the bounds")
WHY = "detection on a few natural images cannot show that no maximum is missed, doubled or written past the buffer"
FILES = ["src/nx_keypoint.c","src/nx_harris_detector.c","include/virg/nexus/nx_keypoint.h"]
MECH = [("streams", "src/nx_keypoint.c"), ("scores and detection", "src/nx_harris_detector.c")]
ASSUMPTIONS = ["image arithmetic is treated as exact"]
