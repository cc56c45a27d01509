"""C03: resumption. spec/Resume.tla"""
import vlib
TECHNIQUE = "TLA+ model of interruption and resumption (Resume.tla: the saved state determines the future, the uninterrupted run is the reference), checked with TLC; every interruption history replayed on real trajectories (both ODE engines, pcg64), through archives in memory and through cppqedutils::run and its state files, compared bit for bit with the uninterrupted execution"
NOTE = "Simulated, MCWF_Trajectory, Master, Ensemble; all capability combinations with time-dependent parts; all compositions of the run into up to three (thorough: four) parts"


def build():
    vlib.build("randomstate", ["randomstate.cc", "version.cc"], "utils", ["-DCPPQED_HAS_GSL"])
    return vlib.build("resume", ["resume.cc", "resume_q.cc", "version.cc"], "utils core", ["-DCPPQED_HAS_GSL"])


def run(chk):
    exe = build()
    r = chk.model("MCResume", "Resume_t.cfg" if chk.tier == "thorough" else "Resume_q.cfg")
    chk.replay(exe, r["emitted"], "interruptions")
    # the engines by themselves
    rnd = vlib.build("randomstate", ["randomstate.cc", "version.cc"], "utils", ["-DCPPQED_HAS_GSL"])
    chk.replay(rnd, chk.model("MCRandomState", "RandomState_q.cfg")["emitted"], "random engines")
    chk.replay(rnd, chk.simulate("MCRandomState", "RandomState_s.cfg", 60000 if chk.tier == "thorough" else 1200, 16), "random engines, longer histories")
