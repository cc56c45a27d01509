"""C14: slicing, multi-index counters and combination tables. spec/Slicing.tla, spec/Counting.tla"""
import vlib
TECHNIQUE = "TLA+ models of slice iteration (Slicing.tla) and of counters and combination tables (Counting.tla) checked with TLC; every case replayed into SliceIterator, the row/column iterators, MultiIndexIterator and CWR_Dir"
NOTE = "every ordered choice of retained axes up to rank 4 (selected ones of rank 5 and 6), extents 1-3, three different storages in lockstep"


def build():
    return vlib.build("slicing", ["slicing.cc", "slicing_A.cc", "slicing_B.cc", "slicing_C.cc", "slicing_D.cc", "slicing_E.cc", "version.cc"], "utils")


def run(chk):
    t = chk.tier == "thorough"
    exe = build()
    r = chk.model("MCSlicing", "Slicing_t.cfg" if t else "Slicing_q.cfg")
    chk.replay(exe, r["emitted"], "slices")
    r = chk.model("MCCounting", "Counting_t.cfg" if t else "Counting_q.cfg")
    chk.replay(exe, r["emitted"], "counters and tables")
