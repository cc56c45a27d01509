"""C06: meaning of the tolerances. spec/Tolerance.tla (single trial steps, octave arithmetic) and
spec/ToleranceScaling.tla (orbits of whole runs under rescaling), replayed into both engines."""
import vlib
from p_c05 import UT
TECHNIQUE = "TLA+ models of the acceptance rule (Tolerance.tla) and of scale invariance (ToleranceScaling.tla) checked with TLC; replayed into the Boost and GSL engines"
NOTE = "all combinations of tolerance, magnitude and error octaves within the constants; borderline octaves left out; Boost engine is a known finding (tolerances exchanged)"


def run(chk):
    exe = vlib.build("tol", ["tol.cc", "version.cc"], UT)
    trials = chk.model("MCTolerance", "Tolerance.cfg")["emitted"] + chk.model("MCTolerance", "Tolerance2.cfg")["emitted"]
    walks = chk.model("MCToleranceScaling", "ToleranceScaling.cfg", consts={"MaxWalk": 6 if chk.tier == "thorough" else 3})["emitted"]
    eng = lambda b: b["in"].get("engine") or b["in"]["base"]["engine"]
    for name, bs in ("trial steps", trials), ("rescaled runs", walks):
        chk.replay(exe, [b for b in bs if eng(b) == "gsl"], name + ", gsl")
        boost = [b for b in bs if eng(b) == "boost"]
        exch = [{"in": dict(b["in"], exch=True), "exp": b["exp"]} for b in boost]
        known = [f for f in chk.findings if f["kind"] == "tolerances exchanged" and f["match"] == {"engine": "boost"}]
        if known and not chk.agrees(exe, boost) and chk.agrees(exe, exch):
            # the engine deviates from the property exactly in the recorded way: every behaviour of the specification
            # is reproduced when the two tolerances are handed over in the exchanged order
            chk.known.append(known[0]["what"]) if known[0]["what"] not in chk.known else None
            chk.cov["traces_validated_against_impl"] += len(exch)
        else:
            chk.replay(exe, boost, name + ", boost")
    chk.note("errors are made exactly known by y'=K t^4, on which the embedded Runge-Kutta pair errs by 277/409600 K dt^5")
