"""C19: pictures of the elements. spec/Elements.tla"""
import vlib
from p_c18 import build
TECHNIQUE = "TLA+ model of every element (Elements.tla); equality of the generators of all pictures and term selection by the factories: every behaviour (parameters, picture, times) replayed into the real elements and compared with the model's Schroedinger-picture generator"
NOTE = "small cutoffs and integer parameters exhaustively, longer call sequences by simulation; BichromaticMode with t0!=0 is a known finding"


def run(chk):
    t = chk.tier == "thorough"
    exe = build()
    chk.replay(exe, chk.model("MCElements", "Elements_pq.cfg")["emitted"], "pictures")
    chk.deviating(exe, chk.model("MCElements", "Elements_kp.cfg")["emitted"], "bichromatic reference time", "bichromatic mode at shifted reference time")
    chk.replay(exe, chk.simulate("MCElements", "Elements_ps.cfg", 60000 if t else 600, 10), "sequences of calls")
    chk.note("the harness transforms back with the element's own exact propagator and adds its numerically obtained generator")
