"""C21: initial conditions. spec/States.tla"""
import os, vlib
TECHNIQUE = "TLA+ model of the initial conditions (States.tla: parameter assignments on the command line, dispatch, exact amplitudes of Fock, coherent, qubit, wave-packet and oscillator states), checked with TLC; every behaviour replayed through the parameter table and the functions making the states, amplitudes compared"
NOTE = "cutoffs up to 12 (200 for high elements of coherent states), Gaussian-integer amplitudes, grids of 4 and 8 points with widths making Gaussians exact powers of two"


def build():
    return vlib.build("states", ["states.cc", "version.cc"], "utils core elements", [])


def run(chk):
    exe = build()
    chk.replay(exe, chk.model("MCStates", "States_q.cfg")["emitted"], "modes, qubits and words")
    chk.replay(exe, chk.model("MCStates", "States_p.cfg")["emitted"], "particles")
    chk.replay(exe, chk.simulate("MCStates", "States_s.cfg", 200000 if chk.tier == "thorough" else 4000, 10), "longer command lines, at random")
