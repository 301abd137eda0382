from vf import H
TITLE = "PNM images are saved and loaded without loss, and bad files are refused"
D={"W":2,"HH":2,"NB":5,"VF_FCAP":96}
HARNESSES = [
    H("pnm_save", "pnm.c", defs=D, tdefs={"W":3,"HH":3}, engine="se", leak=True, bounds="images of 0..W by 0..HH pixels, gray and RGBA, rows padded or not, every pixel value; also a full device"),
    H("pnm_load", "pnm.c", defs=D, engine="se", leak=True, bounds="1..W by 1..HH pixels, 0..2 comment lines, blanks of each kind, complete or cut by one byte, all modes and pixel values"),
    H("pnm_refuse", "pnm.c", defs=D, engine="se", bounds="22 malformed, oversized or truncated files with arbitrary pixels, and a missing file"),
    H("pnm_bytes", "pnm.c", defs=D, tdefs={"NB":6}, engine="se", leak=True, bounds="any NB bytes after the magic number (one-digit numbers), then 20 bytes"),
]
STATEMENT = """Saving an 8-bit image as PNM writes its magic number, size, depth 255 and exactly its pixels row by row, whatever its row padding; a save whose data is lost reports failure.
Loading returns the pixels of every well formed file (blank or comment separated header, any pixel values, including values that look like blanks), converted to the requested mode: gray to RGBA replicates the
value with full opacity, colour to gray takes the luminance to within one level. A file that is cut short, is not a binary PNM, has an impossible size or more than 8 bits per sample is refused, by a failure
result or fatally in the checked variant, and never touches memory outside the image."""
QUANT = (["inputs","fault_sequences"], "all pixel values, sizes, header layouts and malformed headers within the bounds")
WHY = "tests load a couple of fixed images; every pixel value, header layout, truncation and hostile size has to be covered"
FILES = ["src/nx_image_io_pnm.c","src/nx_image.c","include/virg/nexus/nx_colorspace.h"]
MECH = [("save", "src/nx_image_io_pnm.c: save_as_pnm"), ("load", "src/nx_image_io_pnm.c: read_pnm_attributes, read_pnm_data")]
