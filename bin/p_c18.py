"""C18: dissipation and observables of the elements. spec/Elements.tla"""
import vlib
TECHNIQUE = "TLA+ model of every element (Elements.tla: parameters -> Hamiltonian, jump operators, averages, in exact integer arithmetic on scaled bases); Lindblad consistency checked on it with TLC; every behaviour replayed into the real elements"
NOTE = "small cutoffs and integer parameters exhaustively, longer call sequences on the same object by simulation; LossySpin with S>1/2 is a known finding"
HARNESS = ["elements.cc", "elements_free.cc", "elements_ml.cc", "elements_ia.cc", "version.cc"]


def build():
    return vlib.build("elements", HARNESS, "utils core elements")


def run(chk):
    t = chk.tier == "thorough"
    exe = build()
    chk.replay(exe, chk.model("MCElements", "Elements_dq.cfg")["emitted"], "elements")
    chk.deviating(exe, chk.model("MCElements", "Elements_kd.cfg")["emitted"], "spin effective Hamiltonian", "spins with S>1/2")
    chk.replay(exe, chk.simulate("MCElements", "Elements_ds.cfg", 9000 if t else 240, 10), "sequences of calls")
    chk.note("entries compared in exactly scaled bases with tolerance 1e-6; IP versions compared through the exact propagator")
