"""C04: automatic stopping. spec/RunLoop.tla, replayed into trajectory::run with real files in a scratch directory."""
import runloop
TECHNIQUE = "TLA+ model of the run loop and its files (RunLoop.tla) checked with TLC; behaviours replayed into trajectory::run"
NOTE = "exhaustive over small configurations and step sequences, simulated beyond; the trajectory is a scripted environment, files are real"


def run(chk):
    t = chk.tier == "thorough"
    runloop.go(chk, ["C04q", "C042"], [("C04s", 20000 if t else 1500)])
    chk.note("values exactly on the border of the precision are not generated (rounding of the running average decides there)")
