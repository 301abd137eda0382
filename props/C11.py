from vf import H
TITLE = "Data frames behave as typed tables and survive saving to CSV"
D={"N":4,"B":4,"RW":3,"NMAX":8,"OPS":4,"FN":2,"VF_FCAP":160,"RTI":0}
HARNESSES = [
    H("df_csv_rt", "csv.c", defs=dict(D,RTI=1), engine="se", leak=True, workers=7, bounds="1 column x 0..2 rows and 2 columns x 0..1 rows, every type, any one-byte labels and strings, integers 0..9 and extremes, 4 reals (one needing 17 digits and an exponent)"),
    H("df_ops", "csv.c", defs=D, tdefs={"OPS":6}, engine="se", leak=True, bounds="any OPS operations (add row/column, set, clear, set from own value) on every column type"),
    H("df_factor", "csv.c", defs=D, tdefs={"FN":3}, engine="se", leak=True, bounds="columns of up to FN rows of every type converted to factors"),
]
STATEMENT = "A data frame is a table of typed, possibly missing values: after any sequence of adding rows and columns, setting and clearing cells, every cell reads back what was last stored and no other cell changes. Converting a column to a factor keeps every value and gap, with one level per distinct value in order of first appearance; a table saved as CSV and loaded again has the same labels, size, values and gaps."
QUANT = (["histories","inputs"], "all operation sequences and contents within the bounds")
WHY = "tests build two fixed frames; arbitrary labels/strings (quotes, commas, newlines) and missing-value patterns are not covered"
FILES = ["src/nx_data_frame.c", "src/nx_csv_parser.c", "src/nx_string_array.c"]
MECH = [("columns and cells", "src/nx_data_frame.c"), ("factor levels", "src/nx_data_frame.c: nx_data_frame_make_factor"), ("CSV output", "src/nx_data_frame.c: nx_data_frame_fprintf")]
