from vf import H
TITLE = "Command-line options take the values given, and defaults otherwise"
D={"ARGS":2,"NMAX":5,"MANY":12,"VF_FCAP":600}
HARNESSES = [
    H("opt_parse", "options.c", defs=D, tdefs={"ARGS":3}, engine="se", leak=True, bounds="every command line of up to ARGS words over the option names, numbers and any text up to 2 bytes; integer default any; rest absent/optional/required"),
    H("opt_again", "options.c", defs=D, engine="se", leak=True, bounds="two successive command lines of up to 2 words"),
    H("opt_required", "options.c", defs=D, engine="se", leak=True, bounds="every choice of required options and of options given"),
    H("opt_names", "options.c", defs=D, tdefs={"NMAX":7}, engine="se", leak=True, bounds="every option-name text up to NMAX bytes"),
    H("opt_query", "options.c", defs=D, engine="se", leak=True, bounds="all getters x 10 names"),
    H("opt_many", "options.c", defs=D, ub=True, tdefs={"MANY":40}, engine="se", leak=True, bounds="MANY options with long names"),
    H("opt_print", "options.c", defs=D, engine="se", leak=True, bounds="printed values of one option of each kind and the remaining arguments"),
]
STATEMENT = """After parsing a command line every option holds the value last given for it under either of its names, or its
default when not given, and is reported as given exactly then; parsing another command line starts afresh. Arguments that belong to no option are
kept, in order, as the remaining arguments. Illegal or duplicate option names, a switch without its value, a missing required option or argument, and
asking for an unknown option or another type are refused with a fatal error. Values are private copies, and printing shows each of them."""
QUANT = (["inputs","histories"], "all command lines, option names and required sets within the bounds")
WHY = "tests run a few fixed command lines; the space of argument orders, names and repeated parsing is not sampled"
FILES = ["src/nx_options.c"]
MECH = [("parsing", "src/nx_options.c: nx_options_set_from_args"), ("names and lookup", "src/nx_options.c: nx_option_data_set_names, nx_options_find_in_map"), ("defaults and required", "src/nx_options.c: nx_options_check_required")]
