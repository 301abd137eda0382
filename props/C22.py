from vf import H
TITLE = "Planar transforms are the products of motions they claim to be"
HARNESSES = [
    H("xf_similarity", "xform.c", engine="se", bounds="every parameter: offsets within 100, scale within 8, any angle; every entry, float and double"),
    H("xf_affine", "xform.c", engine="se", bounds="every parameter: offsets within 100, scale within 8, any angle with a tilt cosine above 0.01"),
    H("xf_perspective", "xform.c", engine="se", bounds="three quadrilaterals, any one of the eight coordinates moved by up to 0.75"),
]
STATEMENT = """For every parameter, the similarity filled in is T(post) * scale * R(theta) * T(pre) and the affinity is T(post) * scale * R(psi) * tilt(1/cos theta, 1) * R(phi) * T(pre), column-major with last
row 0 0 1, in float and in double; the perspective transform of a quadrilateral takes its four corners, in order, to (0,0), (1,0), (1,1), (0,1) whenever the determinant it returns is not zero."""
QUANT = (["inputs"], "every parameter within the bounds")
WHY = "the identities are polynomial in many parameters; a wrong sign or factor in one entry shows only for particular combinations; no test calls them"
FILES = ["src/nx_transform_2d.c"]
MECH = [("closed forms of matrix products", "src/nx_transform_2d.c: nx_transform_2d_fill_similarity_s/_d, nx_transform_2d_fill_affine_s/_d"), ("perspective", "src/nx_transform_2d.c: nx_transform_2d_fill_perspective_s/_d")]
ASSUMPTIONS = ["floating point as real arithmetic, tolerance 1e-3; sine and cosine are any point of the unit circle, equal for equal angles"]
