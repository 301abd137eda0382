from vf import H
TITLE = "String arrays behave as a growable list of owned strings"
D={"N":3,"K":2,"VF_FCAP":128,"STEPS":2,"CAPN":6,"GN":14}
HARNESSES = [
    H("sarr_ops", "strio.c", defs=D, tdefs={"STEPS":3,"CAPN":7}, engine="se", leak=True, bounds="any STEPS operations from an empty array or one of 0..3 unset elements, strings up to 2 bytes"),
    H("sarr_grow", "strio.c", defs=D, tdefs={"GN":40}, engine="se", leak=True, bounds="arrays up to GN elements"),
]
STATEMENT = 'A string array behaves as a growable list of privately owned strings: after any sequence of adding, setting, resizing, copying and clearing, its size and every element equal those of the plain list model. Elements are independent copies of what was passed in and are released exactly once.'
QUANT = (['histories', 'inputs'], 'all operation sequences up to the step bound, all string contents up to the length bound')
WHY = 'tests follow single fixed scripts'
FILES = ['src/nx_string_array.c']
MECH = [('array growth and ownership', 'src/nx_string_array.c')]
