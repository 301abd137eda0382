from vf import H
TITLE = "Stream helpers report failure whenever data was not transferred"
D={"N":4,"LL":40,"VF_FCAP":64}
HARNESSES = [
    H("io_close", "io.c", defs=D, engine="se", bounds="up to 4 bytes on a good stream, one refusing data after 0..4 bytes at once, or one losing it at flush"),
    H("io_transfer", "io.c", defs=D, engine="se", bounds="0..2 items of 1..3 bytes, streams of 0..N bytes"),
    H("io_open", "io.c", defs=D, engine="se", bounds="existing and missing file"),
    H("io_getline", "io.c", defs=D, tdefs={"N":6}, engine="se", leak=True, bounds="any N bytes as input, initial buffer absent or of 1..5 bytes"),
    H("io_getline_long", "io.c", defs=D, tdefs={"LL":200,"VF_FCAP":256}, engine="se", leak=True, bounds="lines of 0..LL bytes, one byte arbitrary"),
    H("io_puts_fail", "io.c", defs=D, engine="se", bounds="strings up to 2 bytes, stream refusing after 0..6 bytes"),
]
STATEMENT = """Opening, reading, writing and closing through the stream helpers never reports success when data was not transferred: a missing file, a short read,
a refused write or data lost when the stream is flushed at closing gives a failure result, or a fatal error in the checked variants, and complete transfers always succeed.
Reading lines returns every line of any input once, in order and of any length, with its terminator, and -1 at the end of input."""
QUANT = (["inputs","fault_sequences"], "all contents, sizes and failure points within the bounds")
WHY = "tests never make a stream fail; the failure point is a parameter only a symbolic stream can range over"
FILES = ["src/nx_io.c"]
MECH = [("closing", "src/nx_io.c: nx_fclose, nx_xfclose"), ("line reading", "src/nx_io.c: nx_getline"), ("transfer", "src/nx_io.c: nx_xfread, nx_xfwrite")]
