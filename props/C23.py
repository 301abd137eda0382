from vf import H
TITLE = "Matrix, vector, rotation and quaternion algebra obeys its identities"
D={"MD":3,"TD":4}
B="entries within 8 in magnitude, real arithmetic"
HARNESSES = [H(n, "alg.c", defs=D, tdefs={"MD":4,"TD":7}, engine="se", bounds=b) for n, b in [
    ("alg_mul","3x3 and 4x4, "+B),("alg_mul_gen","m, n, k up to MD, padded columns"),("alg_transpose","up to TD by TD"),("alg_inv","3x3, determinants above 0.01; "+B),("alg_inv_singular","3x3 with equal columns"),("alg_mat3",B),("alg_vec","lengths 0..MD"),("alg_ivec","lengths 0..MD, every value"),("alg_vec3",B),("alg_rot","every angle"),("alg_axis","every angle and axis of length above 0.1"),("alg_quat",B),("alg_qrot",B)]]
HARNESSES += [H("alg_from_R", "alg.c", defs=D, engine="se", bounds="twelve diagonals under any entries in [-1,1] off them, and any diagonal alone: agreement with one large component of the quaternion")]
STATEMENT = """For every matrix, vector, angle and quaternion: matrix products have the sums of products of rows and columns (padded columns respected), transposition in place moves (r,c) to (c,r) for every shape,
inversion returns the determinant and a matrix that multiplies back to the identity (all zeros when singular), the composed rotations equal the product of axis rotations in the order named, axis-angle
rotations follow Rodrigues' formula, quaternion product, conjugate and norm are Hamilton's, rotating by a quaternion is q v conj(q) and agrees with its matrix, and a rotation matrix gives back its unit
quaternion up to sign whichever component is largest; maxima of vectors are the first of the largest elements; nothing past a vector or matrix is written."""
QUANT = (["inputs"], "every entry, angle and shape within the bounds")
WHY = "polynomial identities in up to 32 variables; a wrong sign in one term agrees with the tests' few rotations"
FILES = ["src/nx_quaternion.c", "src/nx_rotation_3d.c", "include/virg/nexus/nx_mat.h", "include/virg/nexus/nx_mat234.h", "include/virg/nexus/nx_vec.h", "include/virg/nexus/nx_vec234.h", "include/virg/nexus/nx_quaternion.h", "include/virg/nexus/nx_rotation_3d.h"]
MECH = [("matrices", "include/virg/nexus/nx_mat234.h, nx_mat.h: products, inverses, transpose"), ("rotations", "src/nx_rotation_3d.c"), ("quaternions", "src/nx_quaternion.c, include/virg/nexus/nx_quaternion.h"), ("vectors", "include/virg/nexus/nx_vec.h, nx_vec234.h")]
ASSUMPTIONS = ["floating point as real arithmetic, tolerance 1e-3; sine and cosine are any point of the unit circle, equal for equal angles"]
