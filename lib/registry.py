"""Which specification, driver and case generators decide each property."""
import vlib

CHECKS = {}


def check(prop):
    def deco(f):
        CHECKS[prop] = f
        return f
    return deco


def mc_cfg(prefix, consts="", depth=4, emit=True, trans=True):
    return ("SPECIFICATION Spec\nVIEW View\nINVARIANT StateOK\n" + ("PROPERTY TransOK\n" if trans else "") +
            "ACTION_CONSTRAINT EmitCase\nCHECK_DEADLOCK FALSE\nCONSTANTS\n S0 <- {p}Init\n OpsOf <- {p}Ops\n"
            " Step <- {p}Step\n Inv <- {p}Inv\n TransInv <- {p}Trans\n Depth = {d}\n Emit = {e}\n{c}\n").format(
                p=prefix, d=depth, e="TRUE" if emit else "FALSE", c=consts)


def trace_cfg(prefix):
    return ("SPECIFICATION Spec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n"
            "CONSTANTS\n S0 <- {p}Init\n Check <- {p}Check\n").format(p=prefix)


def numbered(cases, tag):
    return [("%s%d" % (tag, i), c) for i, c in enumerate(cases)]


import gens  # noqa: E402  (the random case generators)
import checks_core  # noqa: E402,F401
import checks_geom  # noqa: E402,F401
import checks_mesh  # noqa: E402,F401
import checks_topo  # noqa: E402,F401
import checks_phys  # noqa: E402,F401
import checks_io  # noqa: E402,F401
import checks_arg  # noqa: E402,F401
import checks_out  # noqa: E402,F401
import checks_fun  # noqa: E402,F401
