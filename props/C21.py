from vf import H
TITLE = "Image warps sample the mapped source point, background or mirrored outside"
D={"SW":3,"RNG":4,"RW":4,"NQ":4,"SM":2}
HARNESSES = [
    H("warp_pos", "warp.c", defs=D, tdefs={"RNG":7,"NQ":7,"SM":3}, engine="se", leak=True, bounds="sources 1..SW by 1..SM either way, every position within RNG along one axis and NQ along the other, all background modes"),
    H("warp_pix", "warp.c", defs=D, engine="se", leak=True, bounds="sources up to SW by 2, every pixel value, five transforms, all background modes, padded or not"),
    H("warp_rot45", "warp.c", defs=D, tdefs={"RW":6}, engine="se", leak=True, bounds="sources up to RW squared, destinations up to 3 by 2, bytes and floats of any value, both directions"),
]
STATEMENT = """A pixel of an affinely warped image is the bilinear interpolation of the source at the position its coordinates map to; where that position has no four source neighbours it is black, white, or noise, or the
nearest edge pixels (repeat) or the reflected ones (mirror), as asked, for every position however far outside, and for sources as small as one pixel. Rotation by 45 degrees turns about the image centres
in the direction asked, for byte and float images alike, black outside. No warp reads outside the source or writes outside the destination."""
QUANT = (["inputs","configurations"], "every position, pixel value, shape and background mode within the bounds")
WHY = "the wrong neighbour shows only at fractional or out-of-range positions; no test warps at all"
FILES = ["src/nx_image_warp.c"]
MECH = [("affine warp and background modes", "src/nx_image_warp.c: nx_image_warp_affine_bilinear"), ("rotation", "src/nx_image_warp.c: nx_image_rotate45_uc, nx_image_rotate45_f32")]
