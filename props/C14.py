from vf import H
TITLE = "Summary statistics and ordering helpers are right for every sample"
D={"NV":3,"NE":3,"NS":4,"NSD":3}
HARNESSES = [
    H("stat_d", "misc.c", defs=dict(D,NS=6), tdefs={"NS":7,"NSD":4}, engine="se", bounds="samples of 0..NS reals in [-1000,1000], in exact arithmetic (standard deviation up to NSD values)"),
    H("stat_i", "misc.c", defs=D, tdefs={"NS":5}, engine="se", bounds="samples of 0..NS integers, each any 8-bit value or any multiple of 2^24 (extremes included)"),
    H("stat_long", "misc.c", defs=dict(D,NL=12), tdefs={"NL":20}, engine="se", bounds="samples of 5..NL strictly increasing reals with any gaps, or integers of which one is free, given in increasing, decreasing or riffled order (order statistics)"),
    H("stat_i_mean", "misc.c", defs=D, engine="se", bounds="1..3 integers from a small set and INT_MAX (mean, deviation)"),
    H("order_int", "misc.c", defs=D, engine="se", ub=True, bounds="all pairs of 32-bit integers"),
    H("order_fp", "misc.c", defs=D, engine="se", se="--fp", bounds="all pairs of IEEE numbers except NaN"),
]
STATEMENT = """The count, minimum, maximum, mean, median, quartiles, interquartile range and standard deviation reported for a sample of reals or integers equal their
definitions for every sample and size, including empty and single-element samples and extreme integers (quartiles are medians of the halves
below and above the median). The comparison, sign, minimum and maximum helpers order all numbers correctly."""
QUANT = (["inputs"], "all samples within the bounds; all pairs for the ordering helpers")
WHY = "tests have no statistics cases beyond a few fixed samples; order-dependent selection and integer overflow need all orderings"
FILES = ["src/nx_statistics.c", "include/virg/nexus/nx_math.h"]
MECH = [("statistics", "src/nx_statistics.c"), ("comparison helpers", "include/virg/nexus/nx_math.h")]
ASSUMPTIONS = ["stat_d/stat_i treat double arithmetic as exact (rounding is not modelled)"]
