"""Shared by C01, C02 and C04: spec/RunLoop.tla against trajectory::run."""
import vlib
from p_c05 import UT


def go(chk, exhaustive, simulated):
    exe = vlib.build("runloop", ["runloop.cc", "version.cc"], UT)
    for c in exhaustive:
        r = chk.model("MCRunLoop", "RunLoop_%s.cfg" % c)
        chk.replay(exe, r["emitted"], "exhaustive " + c)
    for c, n in simulated:
        r = chk.model("MCRunLoop", "RunLoop_%s.cfg" % c, simulate=n, depth=600, seed=chk.seed)
        chk.replay(exe, r["emitted"], "simulated " + c)
