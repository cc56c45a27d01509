"""C10: what composites do. spec/Composite.tla"""
import vlib
TECHNIQUE = "TLA+ model of composite systems (Composite.tla: parts with any subset of the capabilities, tensored with identities, exact integer data), checked with TLC; every behaviour replayed into binary::make / composite::make with parts of the same operators"
NOTE = "all 512 capability combinations of a binary system, six composite layouts of rank 2-4 with permuted axes, inconsistent legs"
HARNESS = ["composite.cc", "composite_parts.cc", "composite_ia2.cc", "composite_ia3.cc", "composite_bin.cc", "composite_3.cc", "composite_4.cc", "version.cc"]
PROP = "C10"


def build():
    return vlib.build("composite", HARNESS, "utils core")


def run(chk, prop=PROP):
    t = chk.tier == "thorough"
    exe = build()
    r = chk.model("MCComposite", "Composite_b%s%s.cfg" % (prop, "t" if t else "q"))
    chk.replay(exe, r["emitted"], "binary systems")
    r = chk.model("MCComposite", "Composite_c%s%s.cfg" % (prop, "t" if t else "q"))
    chk.replay(exe, r["emitted"], "composite systems")
    r = chk.model("MCComposite", "Composite_%ss.cfg" % prop, simulate=3000 if t else 100, depth=5, seed=chk.seed)
    chk.replay(exe, r["emitted"], "sequences of operations")
