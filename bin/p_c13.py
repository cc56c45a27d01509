"""C13: interaction-picture operators and exact propagation. spec/StructOps.tla (rotations), spec/ExactProp.tla"""
import vlib
from p_c12 import build
TECHNIQUE = "TLA+ stack machine over dense operators carrying the generator of their rotation (StructOps.tla) and call histories of exact propagators and Hamiltonians (ExactProp.tla), checked with TLC and replayed into Tridiagonal, TridiagonalHamiltonian, FreeExact and the time-dependence dispatchers"
NOTE = "rotations are powers of 2 and of i (exact); all histories of up to 6 operations on rank 1-2, longer ones up to rank 3 simulated"


def run(chk):
    t = chk.tier == "thorough"
    exe = build()
    for cfg, name, c in (("rot", "rotated operators", {"MaxOps": 5} if t else {}), ("rot2", "rotated operators in sequence", {})):
        r = chk.model("MCStructOps", "StructOps_%s.cfg" % cfg, consts=c)
        chk.replay(exe, r["emitted"], name)
    r = chk.model("MCStructOps", "StructOps_rots.cfg", simulate=20000 if t else 1500, depth=14, seed=chk.seed)
    chk.replay(exe, r["emitted"], "long histories")
    exe = vlib.build("exactprop", ["exactprop.cc", "version.cc"], "utils core")
    for n in 1, 2:
        r = chk.model("MCExactProp", "ExactProp_w%d.cfg" % n)
        chk.replay(exe, r["emitted"], "exact propagation and Hamiltonians")
        r = chk.model("MCExactProp", "ExactProp_s%d.cfg" % n, simulate=20000 if t else 500, depth=12, seed=chk.seed)
        chk.replay(exe, r["emitted"], "long call histories")
