"""C23: the closed solution of the driven damped oscillator. spec/Oscillator.tla"""
import vlib
TECHNIQUE = "TLA+ model of the oscillator's equation (Oscillator.tla: all derivatives of the solution in exact Gaussian integers, checked against the closed solutions with TLC); histories of readings and restarts replayed into the library's closed solution"
NOTE = "under-, critically and overdamped, undamped and resonantly driven oscillators, nearly critical and nearly resonant ones, drives of either sense, early and late starting times; every history of two operations, random ones of eight"


def build():
    return vlib.build("oscillator", ["oscillator.cc", "version.cc"], "utils", [])


def run(chk):
    exe = build()
    chk.replay(exe, chk.model("MCOscillator", "Oscillator_q.cfg")["emitted"], "histories of two")
    chk.replay(exe, chk.simulate("MCOscillator", "Oscillator_s.cfg", 60000 if chk.tier == "thorough" else 1500, 10), "longer histories")
