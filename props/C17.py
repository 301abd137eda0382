from vf import H
TITLE = "Images keep shape, memory and pixels consistent through every history"
D={"W":2,"HH":2,"K":3,"NS":6}
HARNESSES = [
    H("img_container", "image.c", defs=D, tdefs={"NS":8}, engine="se", leak=True, bounds="histories of K operations (resize, copy, swap, release, wrap, clear, like) on two images, NS shapes up to 2 by 2 with and without row padding"),
    H("img_new", "image.c", defs={"W":3,"HH":3}, engine="se", leak=True, bounds="all constructors, sizes up to W by HH"),
    H("img_stride", "image.c", defs={"W":2,"HH":2}, engine="se", leak=True, bounds="all shapes up to W by HH, all requested strides from -2 to 4W+3, three starting states"),
    H("img_size", "imgsize.c", exclude=("src/nx_mem_block.c",), engine="se", bounds="every width up to 2^29-1 and every stride of an int, ten heights up to 2^31-1, for both data types and channel counts; memory blocks are a recording stand-in"),
]
STATEMENT = """After any history of resizing, copying, swapping, wrapping, clearing and releasing, an image reports the shape and stride it was last given, its stride covers a whole row of all channels, all its
rows lie in memory it may use, and copies and swaps carry every pixel. A copy is independent of its source; wrapped memory is used in place and freed exactly when ownership was handed over."""
QUANT = (["histories","inputs"], "all histories of K operations and all shapes within the bounds")
WHY = "stride, capacity and ownership errors need particular histories that tests do not sample"
FILES = ["src/nx_image.c","src/nx_mem_block.c"]
MECH = [("storage", "src/nx_image.c: nx_image_resize, nx_image_copy, nx_image_wrap, nx_image_swap"), ("blocks", "src/nx_mem_block.c")]
