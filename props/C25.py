from vf import H
TITLE = "Epipolar geometry: distances, estimates, poses and RANSAC obey their equations"
D={"NM":2,"ITER":1,"MAXDRAW":10,"FIXED":6}
EX=("src/nx_svd.c","src/nx_uniform_sampler.c")
HARNESSES = [H(n, "epipolar.c", defs=D, tdefs=t, engine="se", exclude=EX, bounds=b) for n, t, b in [
    ("epi_distance",{},"three matrices and a match, any one of thirteen numbers free within 8"),("epi_mark",{"NM":3},"up to NM matches, one coordinate or the tolerance free"),("epi_equations",{},"7..10 matches, any marks on three of them, any answers of the decompositions"),
    ("epi_essential",{},"any matrix and any two calibrations with entries within 4"),("epi_Rt",{},"any entries within 4"),("epi_decompose",{},"a hundred pairs of orthogonal factors of either orientation, any singular values"),("epi_pick",{},"one or two points, one coordinate in seven places, twenty four motions, any order of the candidates"),
    ("epi_ransac",{"ITER":2,"MAXDRAW":18,"FIXED":15},"7..9 matches, up to ITER iterations, MAXDRAW draws of which the first FIXED are fixed, either of two answers of the decomposition")]]
STATEMENT = """The epipolar distance of a match is the distance of its second point from the line F x, for any matrix and points with a line. Marking inliers marks exactly the matches nearer to their line than the tolerance, returns how many, and touches nothing else. The linear estimate sets up one equation x'^T F x = 0 for exactly the matches asked for (eight given indices, all, or the marked ones), reads the solver's answer in the same order, removes the smallest singular value so that the matrix has rank two, returns the residual (zero for a minimal sample) and refuses fewer than eight matches leaving the output alone. The essential matrix of a fundamental one is K'^T F K for any two calibrations including skew and principal points; that of a pose is [t]x R. Decomposition gives four different poses, each a proper rotation and a unit translation, each giving the matrix back up to sign. Among them the one with the points in front of both cameras is picked, in whatever order they come. RANSAC, whatever the random draws and whatever the decomposition answers, draws samples of different matches, loses no match, leaves them in order of cost, and returns the number of inliers it leaves marked, which are exactly the matches near their lines under the returned matrix; with too few matches or no iterations it returns zero."""
QUANT = (["inputs", "histories"], "every matrix, calibration, pose and match within the bounds; every sequence of draws and solver answers up to the bound")
WHY = "There are no tests of this module at all; transposed indices, a sample drawn with a repeated match, or a best hypothesis that was never set show only in particular geometries or for particular draws."
FILES = ["src/nx_epipolar.c", "include/virg/nexus/nx_epipolar.h", "src/nx_point_match_2d_stats.c", "include/virg/nexus/nx_mat234.h"]
MECH = [("matrix identities", "symbolic entries; both sides compared as polynomials"), ("estimates", "the LAPACK decompositions are oracles that record the equations and answer anything"), ("poses", "orthogonal factors of both orientations are chosen by the solver; the poses are multiplied out again"), ("RANSAC", "every draw after the fixed ones and every answer of the decomposition is a choice of the solver")]
ASSUMPTIONS = ["floating point arithmetic is real arithmetic (comparisons with a tolerance of 0.001)", "the LAPACK decompositions themselves are not encoded", "the random sampler returns values in [0, 1) (C26)"]
