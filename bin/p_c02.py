"""C02: state files and continuation. spec/RunLoop.tla, replayed into trajectory::run with real files in a scratch directory."""
import runloop
TECHNIQUE = "TLA+ model of the run loop and its files (RunLoop.tla) checked with TLC; behaviours replayed into trajectory::run"
NOTE = "exhaustive over small configurations and step sequences, simulated beyond; the trajectory is a scripted environment, files are real"


def run(chk):
    t = chk.tier == "thorough"
    runloop.go(chk, ["C02q", "C02k"], [("C02s", 20000 if t else 1500)])
    chk.note("histories of 2 runs exhaustively, of 5 runs (with removal of either file) by simulation",
             "torn or truncated state files are outside the property")
