"""C16: command-line parameters. spec/CmdLine.tla against parameters::Table/update."""
import os, vlib
from p_c05 import UT
TECHNIQUE = "TLA+ models of the parameter table and the word-by-word parser (CmdLine.tla) and of the parameters of whole simulations (ElemPars.tla) and of vector-valued parameters (VecPars.tla) checked with TLC; command lines replayed into parameters::update and the parameter classes of drivers, elements and interactions"
NOTE = "all command lines of up to 3-4 words over an alphabet of 22 words and all registration sequences of length 3; longer ones and repeated updates simulated; each in a process of its own"


def build():
    vlib.build("cmdline", ["cmdline.cc", "version.cc"], UT)
    vlib.build("vecpars", ["vecpars.cc", "version.cc"], "utils core elements")
    return vlib.build("elempars", ["elempars.cc", "version.cc"], "utils core elements", ["-DCPPQED_HAS_GSL", "-I" + os.path.join(vlib.VERIF, "shim", "scripted")])


def run(chk):
    simulations = build()
    chk.replay(simulations, chk.model("MCElemPars", "ElemPars_q.cfg")["emitted"], "parameters of whole simulations")
    chk.replay(simulations, chk.simulate("MCElemPars", "ElemPars_s.cfg", 60000 if chk.tier == "thorough" else 3000, 8), "parameters of whole simulations, longer lines")
    t = chk.tier == "thorough"
    vec = vlib.build("vecpars", ["vecpars.cc", "version.cc"], "utils core elements")
    chk.replay(vec, chk.model("MCVecPars", "VecPars_q.cfg")["emitted"], "vectors, at most one mistake")
    chk.replay(vec, chk.simulate("MCVecPars", "VecPars_s.cfg", 60000 if t else 3000, 8), "vectors, up to three mistakes")
    exe = vlib.build("cmdline", ["cmdline.cc", "version.cc"], UT)
    for c, k in ("full", {"MaxWords": 5} if t else {"MaxWords": 4}), ("four", {"MaxWords": 6} if t else {"MaxWords": 5}), ("reg", {"MaxWords": 3} if t else {}), ("two", {"MaxWords": 3} if t else {}):
        r = chk.model("MCCmdLine", "CmdLine_%s.cfg" % c, consts=k)
        bs = r["emitted"]
        cap = 60000 if t else 8000
        if len(bs) > cap:   # every process costs a fork: an even subset, chosen by the seed
            import random
            bs = random.Random(chk.seed).sample(bs, cap)
        chk.replay(exe, bs, "command lines, " + c)
    r = chk.model("MCCmdLine", "CmdLine_sim.cfg", simulate=20000 if t else 1200, depth=60, seed=chk.seed)
    chk.replay(exe, r["emitted"][:60000 if t else 10000], "long command lines")
    chk.note("negative values for unsigned parameters and values glued to a following prefix are not exercised")
