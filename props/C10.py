from vf import H
TITLE = "CSV text is read into the table it denotes, or refused when malformed"
D={"N":4,"B":4,"RW":3,"NMAX":64,"OPS":4,"FN":2,"RTI":0}
HARNESSES = [
    H("csv_any", "csv.c", defs=dict(D,NMAX=8), tdefs={"N":6,"NMAX":10}, engine="se", bounds="any text of up to N bytes, all byte values (fields that only look like numbers in hex/inf/nan or after blanks, and carriage returns, are left open)"),
    H("csv_body", "csv.c", defs=dict(D,NMAX=12), tdefs={"B":6,"NMAX":14}, engine="se", bounds="1- and 2-column tables with any body of up to B characters out of separators, quotes, digits, sign, point, e, q"),
    H("csv_rows", "csv.c", defs=D, tdefs={"RW":4}, engine="se", bounds="1-column tables of up to RW rows, 12 kinds of fields"),
]
STATEMENT = "Reading CSV text yields exactly the table it denotes: labels from the first record, one row per further record, quoted fields unescaped, empty fields missing, and each column typed as the narrowest of integer, real, truth value and text that holds all its values, with every value preserved. Malformed text (unbalanced or misplaced quotes, records of differing width, empty input) is refused; strings become factors exactly when requested."
QUANT = (["inputs","configurations"], "all texts up to the length bound and all row combinations of the listed field kinds, with and without factors")
WHY = "tests load two fixed files; typing across mixed rows, quoting corner cases and malformed text are not covered"
FILES = ["src/nx_csv_lexer.c", "src/nx_csv_parser.c", "src/nx_data_frame.c", "src/nx_lexer.c"]
MECH = [("tokens", "src/nx_csv_lexer.c"), ("records and column typing", "src/nx_csv_parser.c"), ("loading", "src/nx_data_frame.c: nx_data_frame_load_csv_stream")]
