from vf import H
TITLE = "Scaling, halving and doubling images samples only the image, rightly weighted"
D={"W":2,"HH":2,"AW":6,"NSC":5}
HARNESSES = [
    H("res_scale", "imgres.c", defs=D, tdefs={"W":3,"HH":3,"NSC":7}, engine="se", leak=True, bounds="1..W by 1..HH pixels, bytes and floats of any value, padded or not, NSC scale factors from 1/4 to 3"),
    H("res_down", "imgres.c", defs=D, engine="se", leak=True, bounds="up to W+2 by HH+2 pixels"),
    H("res_up", "imgres.c", defs=D, tdefs={"W":3,"HH":3}, engine="se", leak=True, bounds="up to W by HH pixels"),
    H("res_aa", "imgres.c", defs=D, tdefs={"AW":9}, engine="se", leak=True, bounds="1..AW pixels along the halved direction, 1..2 across, both directions"),
]
STATEMENT = """For every image of at least one pixel, scaling by a factor gives an image of the scaled size whose pixels are the bilinear interpolation of the source at the inverse scaled position, repeating the last
row and column; halving keeps every second pixel; doubling keeps the source pixels and puts the mean of the neighbours between them; smoothed halving weights 1-6-11-6-1 with the image mirrored at its ends.
No pixel outside the image (padding included) is ever read into a result, however small the image, and destinations of any previous shape are accepted."""
QUANT = (["inputs","configurations"], "every pixel value, shape and padding within the bounds")
WHY = "border handling depends on the parity and size of the image; tests use one or two large images"
FILES = ["src/nx_image.c"]
MECH = [("scaling", "src/nx_image.c: nx_image_scale_uc, nx_image_scale_f32"), ("halving and doubling", "src/nx_image.c: nx_image_downsample, nx_image_upsample, nx_image_downsample_aa_x, nx_image_downsample_aa_y")]
