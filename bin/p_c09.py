"""C09: ensembles. spec/Ensemble.tla, spec/JumpEnsemble.tla"""
import os, vlib
TECHNIQUE = "TLA+ models of ensembles (Ensemble.tla: members with their own step sizes, nesting, saving; JumpEnsemble.tla: quantum-jump members on consecutive random streams, mean of projectors), checked with TLC; every behaviour replayed into trajectory::Ensemble and mcwf::makeEnsemble"
NOTE = "plain and nested ensembles of 1-4 members, every combination of member step sizes and advances; quantum-jump ensembles with scripted random streams"


def build():
    return (vlib.build("ensemble", ["ensemble.cc", "version.cc"], "utils", ["-DCPPQED_HAS_GSL"]),
            vlib.build("jumpensemble", ["jumpensemble.cc", "version.cc"], "utils core", ["-DCPPQED_HAS_GSL", "-I" + os.path.join(vlib.VERIF, "shim", "scripted")]))


def run(chk):
    e, j = build()
    t = chk.tier == "thorough"
    r = chk.model("MCEnsemble", "Ensemble_%s.cfg" % ("t" if t else "q"))
    chk.replay(e, r["emitted"], "ensembles")
    r = chk.model("MCJumpEnsemble", "JumpEnsemble_q.cfg")
    chk.replay(j, r["emitted"], "quantum-jump ensembles")
    r = chk.model("MCJumpEnsemble", "JumpEnsemble_s.cfg", simulate=20000 if t else 1000, depth=8, seed=chk.seed)
    chk.replay(j, r["emitted"], "longer quantum-jump ensembles")
