from vf import H
TITLE = "Pixel conversions, image arithmetic and colour maps compute what they say"
D={"W":2,"HH":2,"NW":3,"ALLK":0}
HARNESSES = [
    H("img_dtype", "image.c", defs=D, tdefs={"W":3,"HH":3}, engine="se", leak=True, bounds="gray images up to W by HH, padded or not, every byte and every value in [-4,4], both directions"),
    H("img_type", "image.c", defs=D, engine="se", leak=True, bounds="images up to W by HH, gray and RGBA, bytes and floats, every value"),
    H("img_arith", "image.c", defs=D, engine="se", leak=True, bounds="images up to W by HH, every value, factors -1..1, offsets -128..127"),
    H("img_norm", "image.c", defs=D, tdefs={"NW":4}, engine="se", leak=True, bounds="up to NW pixels or one RGBA pixel; minimum and maximum from nine pairs at any position, every value between them"),
    H("img_cmap", "image.c", defs=D, tdefs={"ALLK":1}, engine="se", leak=True, bounds="all maps, bytes, and real values in [-10,10] around the first, second, middle and last entries (all entries when thorough)"),
]
STATEMENT = """Converting between byte and float images, between gray and RGBA, subtracting, scaling-and-shifting and normalising give for every pixel the value of the defining formula, cut to whole levels and clamped
to the byte range where the result is bytes (within one level) and never wrapped around; rows outside the image and padding are not mixed in. Normalisation maps the smallest value to 0 and the largest to 1
wherever they are, and a constant image to 0. Colour maps give an opaque colour between the two neighbouring entries of the map, and the end colours for values outside the unit interval."""
QUANT = (["inputs"], "every pixel value and shape within the bounds")
WHY = "wrap-around, clamping and stride errors show only for particular pixel values and shapes"
FILES = ["src/nx_image.c","src/nx_colorspace.c","include/virg/nexus/nx_colorspace.h"]
MECH = [("conversion", "src/nx_image.c: nx_image_convert_dtype, nx_image_convert_type, nx_image_axpy, nx_image_subtract, nx_image_normalize_to_zero_one"), ("colour maps", "src/nx_colorspace.c: nx_color_map_apply")]
