NO_ATTEMPT = 2**0
NONPOS_FLUX = 2**3
NONPOS_SIZE = 2**4
LOW_DET = 2**5
MAXITER = 2**6
NONPOS_VAR = 2**7
GMIX_RANGE_ERROR = 2**8
NONPOS_SHAPE_VAR = 2**9
ZERO_DOF = 2**10
CEN_SHIFT = 2**11
DIV_ZERO = 2**12

NAME_MAP = {
    NO_ATTEMPT: "no attempt",
    NONPOS_FLUX: "flux <= 0",
    NONPOS_SIZE: "T <= 0",
    LOW_DET: "determinant near zero",
    MAXITER: "max iterations reached",
    NONPOS_VAR: "non-positive (zero or neg.) variance",
    GMIX_RANGE_ERROR: "GMixRangeError raised",
    NONPOS_SHAPE_VAR: "non-positive shape variance",
    ZERO_DOF: "dof zero",
    CEN_SHIFT: "center shifted by too much",
    DIV_ZERO: "divide by zero",
}
for k, v in list(NAME_MAP.items()):
    NAME_MAP[v] = k


def get_flags_str(val, name_map=None):
    if name_map is None:
        name_map = NAME_MAP
    names = []
    for i in range(31):
        v = 2**i
        if val & v:
            names.append(name_map.get(v, "bit 2**%d" % i))
    return "|".join(names)
