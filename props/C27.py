from vf import H
TITLE = "Universal sample consensus returns the best scoring model of its rounds"
EX=("src/nx_svd.c","src/nx_uniform_sampler.c")
HARNESSES = [H("usac_generic", "usac.c", defs={"ITER":2,"MODELS":2}, tdefs={"ITER":3}, engine="se", exclude=EX, leak=True, bounds="up to ITER rounds, up to MODELS models each, every answer of every callback, three scores"),
 H("usac_homography", "usac.c", defs={"ITER":1,"RN":5,"MAXDRAW":6}, tdefs={"ITER":2,"MAXDRAW":9}, engine="se", exclude=EX, leak=True, bounds="3..RN matches with at most one outlier, three homographies, up to ITER rounds, any MAXDRAW draws")]
STATEMENT = """The sample consensus loop, whatever its callbacks answer, hands the caller's data to each of them, draws one sample for every round that termination allows and none afterwards, fits only samples that passed their check, scores only models that passed theirs, refines only models that are not degenerate, and returns the best scoring model (the first of equals, locally refined where that scored better), replaced by its final refinement exactly when that scores higher; the returned score is the score of the returned model, termination always sees the best model and score so far, a fit may return several models in a buffer it enlarged, and nothing leaks. Estimating a homography with it, whatever the random draws, loses no match, leaves them in order of cost, returns the number of matches the returned homography transfers within the tolerance and leaves exactly those marked; when all matches agree on one homography one round suffices to make them all inliers; with too few matches or no rounds it returns zero."""
QUANT = (["programs", "histories", "inputs"], "every sequence of callback answers and of random draws up to the bound")
WHY = "Tests run the estimator with one seed on one scene; a stale best model, a refinement that replaces a better one or a sample with the same match twice needs a particular sequence of scores or draws."
FILES = ["src/nx_usac.c", "src/nx_usac_homography.c", "include/virg/nexus/nx_usac.h"]
MECH = [("consensus", "every callback answer is a choice of the solver; a record kept by the callbacks is the oracle"), ("homography", "every draw is a choice of the solver; the returned homography is applied to every match again")]
ASSUMPTIONS = ["the random sampler returns values in [0, 1) (C26)"]
