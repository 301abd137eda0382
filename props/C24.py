from vf import H
TITLE = "Homographies map, mark, score and are estimated as their equations say"
D={"NM":2,"RN":5,"ITER":1,"MAXDRAW":6}
EX=("src/nx_svd.c","src/nx_uniform_sampler.c")
HARNESSES = [H(n, "homog.c", defs=D, tdefs=t, engine="se", exclude=EX, bounds=b) for n, t, b in [
    ("hom_unit",{},"three quadrilaterals, any one coordinate moved by up to 0.75"),("hom_4pt",{},"pairs of quadrilaterals, any one of sixteen coordinates moved by up to 0.5"),("hom_4pt_degenerate",{},"any two points equal on either side"),("hom_transfer",{},"any homography with entries within 4"),
    ("hom_mark",{"NM":3},"up to NM matches anywhere, three homographies, any tolerance"),("hom_error",{},"NM matches on one axis"),("hom_error_persp",{},"NM matches, three homographies"),("hom_check",{},"affine squares with one entry anything, two scales"),("hom_dlt",{},"3..6 matches, any marks, any solver answer"),
    ("hom_ransac",{"ITER":2,"MAXDRAW":9},"3..RN matches, up to ITER iterations, any MAXDRAW draws"),("hom_normalize",{},"three matches, one coordinate anything"),("hom_denorm",{},"any matrix, centroid and scale")]]
STATEMENT = """Transferring a point by a homography is the projective map: the returned scale is the third homogeneous coordinate and the point is divided by it. Four correspondences give the homography that maps each of the four points to its match, whichever entries of the list they are; a sample with two equal points on either side is reported by determinant zero. The linear (DLT) estimate sets up, for exactly the matches used (all, or only those marked as inliers), the two equations saying that the match is transferred to its partner, reads the solver's last singular vector in the same order, and refuses fewer than four matches. Marking inliers marks exactly the matches transferred to within the tolerance, forward or by the inverse, returns how many those are and touches no other entry. The transfer error is the mean distance over the inliers, forward, backward, or the average of the two. The check of a homography refuses a mirrored square and one whose diagonals are closer in direction than the given angle, and depends on neither scale nor position. RANSAC estimation, whatever the random draws, loses no match, leaves them in order of cost, returns the number of matches the returned homography transfers within the tolerance and leaves exactly those marked; when all matches agree on one homography they are all inliers; with too few matches or no iterations it returns zero. Normalisation moves the centroid to the origin and the mean distance to one, scales the uncertainties alike, is undone by denormalisation, works for any number of matches and for coincident points, and denormalising a homography or fundamental matrix conjugates it by the two normalising maps."""
QUANT = (["inputs", "histories"], "every point, matrix and tolerance within the bounds; every sequence of random draws up to the bound")
WHY = "The tests estimate homographies from a few noiseless samples; a wrong term in the 200-line unit square formula, a wrong equation, an index compared twice in the sampler or a hypothesis used before it was set shows only for particular points and particular draws."
FILES = ["src/nx_homography.c", "src/nx_point_match_2d_stats.c", "src/nx_point_match_2d.c", "src/nx_mat234.c", "include/virg/nexus/nx_homography.h"]
MECH = [("projective map", "products of the symbolic entries compared as polynomials with the defining equations"), ("estimates", "the LAPACK decomposition is an oracle: it records the equations and answers anything"), ("RANSAC", "every draw is a choice of the solver; the returned homography is applied to every match again and compared with the marks"), ("normalisation", "the conjugation by the two similarity maps is multiplied out by the harness")]
ASSUMPTIONS = ["floating point arithmetic is real arithmetic (comparisons with a tolerance of 0.001)", "the LAPACK decomposition itself is not encoded", "the random sampler returns values in [0, 1) (C26)"]
