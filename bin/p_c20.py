"""C20: evolution drivers. spec/Evolve.tla"""
import os, vlib
TECHNIQUE = "TLA+ model of the evolution drivers (Evolve.tla: method, picture, entry point, measures of entanglement and exactly soluble dynamics with rational states), checked with TLC; every behaviour replayed through the command line, evolve/evolveMaster and real elements, ODE engines and ensembles, sampled averages, key and resulting state compared"
NOTE = "one excitation shared by one or two atoms and a mode, with resonant exchange, detuning, decay and scripted jumps; rank 2 (binary) and 3 (composite)"


def build():
    return vlib.build("evolve", ["evolve.cc", "evolve_3.cc", "version.cc"], "utils core elements", ["-DCPPQED_HAS_GSL", "-I" + os.path.join(vlib.VERIF, "shim", "scripted")])


def run(chk):
    exe = build()
    r = chk.model("MCEvolve", "Evolve_q.cfg")
    chk.replay(exe, r["emitted"], "drivers")
    chk.replay(exe, chk.simulate("MCEvolve", "Evolve_s.cfg", 60000 if chk.tier == "thorough" else 2000, 6), "drivers, at random")
