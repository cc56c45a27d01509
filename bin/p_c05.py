"""C05: adaptive stepping. spec/OdeStep.tla against ode_engine::Base (scripted stepper, three ways of driving it) and
against the real Boost and GSL steppers on a right-hand side they integrate without error."""
import vlib
TECHNIQUE = "TLA+ model of the stepping protocol (OdeStep.tla) checked with TLC; its behaviours replayed into ode_engine::Base"
NOTE = "exhaustive histories of 2-3 calls over small constants, simulated histories of 14 calls; scripted stepper through three entry points plus the real Boost and GSL steppers"
UT = "utils"


def via(bs, v, drop=()):
    r = []
    for b in bs:
        e = [{k: x for k, x in o.items() if k not in drop} for o in b["exp"]]
        r.append({"in": {"via": v, "ops": b["in"]}, "exp": e})
    return r


def run(chk):
    exe = vlib.build("ode", ["ode.cc", "version.cc"], UT)
    thorough = chk.tier == "thorough"
    r = chk.model("MCOdeStep", "OdeStep_quick.cfg", consts={"MaxCalls": 3 if thorough else 2})
    chk.replay(exe, via(r["emitted"], "direct"), "engine, exhaustive")
    chk.replay(exe, via(r["emitted"][::1 if not thorough else 7], "inout"), "engine in/out, exhaustive")
    chk.replay(exe, via(r["emitted"][::1 if not thorough else 7], "simulated"), "Simulated, exhaustive")
    r = chk.model("MCOdeStep", "OdeStep_sim.cfg", simulate=1500 if thorough else 80, depth=200, seed=chk.seed)
    for v in "direct", "inout", "simulated":
        chk.replay(exe, via(r["emitted"], v), "long histories, " + v)
    for e in "boost", "gsl":
        r = chk.model("MCOdeStep", "OdeStep_%s.cfg" % e, consts={"MaxCalls": 4 if thorough else 3})
        chk.replay(exe, via(r["emitted"], e, ("c", "left")), "real stepper " + e)
    chk.note("times are integer ticks (dyadic), so that rounding plays no role",
             "the error-controlled stepper is the environment: any pattern of rejections (halving) and accepted growth",
             "real steppers are exercised where their local error vanishes (y'=1)")
