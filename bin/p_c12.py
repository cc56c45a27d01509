"""C12: structured operators against dense matrices. spec/StructOps.tla"""
import vlib
TECHNIQUE = "TLA+ stack machine over dense operators (StructOps.tla) checked with TLC; every history replayed into Tridiagonal/Sigma and compared element by element"
NOTE = "all histories of up to 4 operations over dimensions 2-3, ranks up to 4, distances 0-2; longer histories simulated; exact Gaussian-integer matrices"
SRC = "utils core"


def build():
    return vlib.build("structops", ["structops.cc", "structops_sig.cc", "version.cc"], SRC)


def run(chk):
    t = chk.tier == "thorough"
    exe = build()
    for cfg, name, c in (("ctor", "construction", {}), ("alg", "algebra", {"MaxOps": 5} if t else {}), ("kron", "tensor products", {}), ("sig", "elementary transitions", {})):
        r = chk.model("MCStructOps", "StructOps_%s.cfg" % cfg, consts=c)
        chk.replay(exe, r["emitted"], name)
    r = chk.model("MCStructOps", "StructOps_algs.cfg", simulate=6000 if t else 400, depth=12, seed=chk.seed)
    chk.replay(exe, r["emitted"], "long histories")
