"""C01: sampling schedule. spec/RunLoop.tla, replayed into trajectory::run with real files in a scratch directory."""
import runloop
TECHNIQUE = "TLA+ model of the run loop and its files (RunLoop.tla) checked with TLC; behaviours replayed into trajectory::run"
NOTE = "exhaustive over small configurations and step sequences, simulated beyond; the trajectory is a scripted environment, files are real"


def run(chk):
    t = chk.tier == "thorough"
    runloop.go(chk, ["C01t", "C01f"], [("C01s", 60000 if t else 4000)])
    chk.note("times are dyadic, so adding them up is exact", "end times up to 31 ticks; another family with intervals and remainders differing by a factor of 2^22")
