"""C22: quasi-probability distributions. spec/PhaseSpace.tla"""
import os, vlib
TECHNIQUE = "TLA+ model of the Wigner and Q functions and of their maps (PhaseSpace.tla: exact integer values from Gaussian-integer states), checked with TLC; every behaviour replayed into wignerFunction, qFunction and scanFunction on state vectors and density operators, values and map lines compared"
NOTE = "dimensions 1-4, points on a half-integer grid, all truncations; maps with symmetric and individual limits from the command line"


def build():
    return vlib.build("phasespace", ["phasespace.cc", "version.cc"], "utils core", [])


def run(chk):
    exe = build()
    chk.replay(exe, chk.model("MCPhaseSpace", "PhaseSpace_%s.cfg" % ("t" if chk.tier == "thorough" else "q"))["emitted"], "values")
    chk.replay(exe, chk.model("MCPhaseSpace", "PhaseSpace_s.cfg")["emitted"], "maps")
