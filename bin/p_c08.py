"""C08: the Master equation. spec/Master.tla"""
import vlib
TECHNIQUE = "TLA+ model of Master-equation trajectories (Master.tla: exact integer density operators, rational times), checked with TLC; every behaviour replayed into quantumtrajectory::Master driven by an ODE engine that does what the behaviour says"
NOTE = "all capability combinations, 0-3 channels with and without superoperator, one and two subsystems, state-vector and density-operator initial conditions, refusals, resumption"
HARNESS = ["master.cc", "master_2.cc", "version.cc"]
EXTRA = ["-DCPPQED_HAS_GSL"]


def build():
    return vlib.build("master", HARNESS, "utils core", EXTRA)


def run(chk):
    exe = build()
    t = chk.tier == "thorough"
    r = chk.model("MCMaster", "Master_t.cfg" if t else "Master_q.cfg")
    chk.replay(exe, r["emitted"], "Master-equation trajectories")
    r = chk.model("MCMaster", "Master_s.cfg", simulate=20000 if t else 1000, depth=8, seed=chk.seed)
    chk.replay(exe, r["emitted"], "longer Master-equation trajectories")
