"""C07: the quantum-jump trajectory. spec/MCWF.tla"""
import vlib
TECHNIQUE = "TLA+ model of Monte Carlo wave-function trajectories (MCWF.tla: exact rational times, rates and random numbers, states as Gaussian integers), checked with TLC; every behaviour replayed into MCWF_Trajectory driven by an ODE engine and a random engine that do what the behaviour says"
NOTE = "all capability combinations, 0-3 channels, special channels, step-backs, limits, jumps drawn in the middle and at the edges of each channel's interval, resumption"
HARNESS = ["mcwf.cc", "version.cc"]
EXTRA = ["-DCPPQED_HAS_GSL"]


def build():
    return vlib.build("mcwf", HARNESS, "utils core", EXTRA)


def run(chk):
    exe = build()
    r = chk.model("MCMCWF", "MCWF_t.cfg" if chk.tier == "thorough" else "MCWF_q.cfg")
    chk.replay(exe, r["emitted"], "quantum-jump trajectories")
    r = chk.model("MCMCWF", "MCWF_s.cfg", simulate=20000 if chk.tier == "thorough" else 1500, depth=8, seed=chk.seed)
    chk.replay(exe, r["emitted"], "longer quantum-jump trajectories")
