from vf import H
TITLE = "Filters and derivatives equal their defining sums at every pixel"
D={"W":2,"HH":2,"N":3}
HARNESSES = [
    H("flt_border", "filt.c", defs=D, tdefs={"N":4}, engine="se", leak=True, bounds="1..N elements, borders up to N (mirror: shorter than the data), strides 1 and 2, bytes and floats of any value"),
    H("flt_convolve", "filt.c", defs=D, tdefs={"N":5}, engine="se", leak=True, bounds="1..N elements of any value, box radius 1..3, three symmetric kernels of 3 and 5 taps"),
    H("flt_size", "filt.c", defs=D, engine="se", bounds="every deviation and truncation in (0,8]"),
    H("flt_smooth", "filt.c", defs=D, tdefs={"W":3,"HH":3}, engine="se", leak=True, bounds="up to W by HH pixels of any value, bytes and floats, padded, in place or not, three pairs of deviations"),
    H("flt_box", "filt.c", defs=D, tdefs={"W":3,"HH":3}, engine="se", leak=True, bounds="up to W by HH pixels of any value, radii 1 and 2, in place or not, own or given buffer"),
    H("flt_deriv", "filt.c", defs=D, engine="se", leak=True, bounds="up to W+1 by HH+2 pixels of any value, bytes and floats"),
]
STATEMENT = """A row or column copied for filtering carries its zero, repeated or mirrored border; convolution with a symmetric kernel and with a box equals the weighted sum over the neighbourhood at every position;
Gaussian smoothing and box filtering of an image equal the separable sums with repeated borders, in place or into another image, with a caller's buffer or without, on images of any size including one row, one
column or one pixel (bytes: within one level per pass); derivatives are the difference of the two neighbours, twice the one-sided difference at the ends, zero where there is none, and never depend on row padding.
Gaussian kernel lengths are odd, at least three and as long as the truncation asks for."""
QUANT = (["inputs","configurations"], "every pixel value, shape and option within the bounds")
WHY = "errors sit at borders, odd sizes, padding and in-place use, for particular values; tests use a single smooth image"
FILES = ["src/nx_filter.c","src/nx_image.c"]
MECH = [("borders", "src/nx_filter.c: fill_buffer_border"), ("convolution", "src/nx_filter.c: nx_convolve_sym, nx_convolve_box"), ("images", "src/nx_image.c: nx_image_smooth, nx_image_filter_box, nx_image_deriv_x, nx_image_deriv_y")]
