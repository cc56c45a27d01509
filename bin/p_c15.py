"""C15: quantum data. spec/QData.tla, spec/Entangle.tla"""
import vlib
TECHNIQUE = "TLA+ model of quantum data as a state machine with exact Gaussian-integer state (QData.tla), checked with TLC; every behaviour replayed into StateVector, DensityOperator and the functions on them; exactly solvable cases (Entangle.tla) for the entanglement measures"
NOTE = "all operation sequences up to length 2 (4 in simulation) on ranks 1-3, every ordered choice of retained axes"


def build():
    return vlib.build("qdata", ["qdata.cc", "qdata_red.cc", "version.cc"], "utils core")


def run(chk):
    t = chk.tier == "thorough"
    exe = build()
    r = chk.model("MCQData", "QData_t.cfg" if t else "QData_q.cfg")
    chk.replay(exe, r["emitted"], "operation sequences")
    r = chk.model("MCQData", "QData_s.cfg", simulate=6000 if t else 250, depth=6, seed=chk.seed)
    chk.replay(exe, r["emitted"], "long operation sequences")
    exe = vlib.build("entangle", ["entangle.cc", "version.cc"], "utils core")
    r = chk.model("MCEntangle", "Entangle_t.cfg" if t else "Entangle_q.cfg")
    chk.replay(exe, r["emitted"], "entanglement measures")
