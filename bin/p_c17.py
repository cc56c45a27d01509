"""C17: text output. spec/TextOut.tla (commenting streams and data sharing a sink) and spec/NumberOut.tla (columns, keys)."""
import vlib
from p_c05 import UT
TECHNIQUE = "TLA+ models of commenting streams (TextOut.tla) and of columns and keys (NumberOut.tla) checked with TLC; replayed into CommentingStream, FormDouble and KeyPrinter"
NOTE = "all 4-operation interleavings over a small alphabet of text, long texts and histories simulated; every precision 1-17 with all exponent classes; key sequences exhaustively"


def run(chk):
    t = chk.tier == "thorough"
    exe = vlib.build("textout", ["textout.cc", "version.cc"], UT)
    r = chk.model("MCTextOut", "TextOut_q.cfg", consts={"MaxOps": 5 if t else 4})
    chk.replay(exe, r["emitted"], "interleaved text")
    r = chk.model("MCTextOut", "TextOut_l.cfg")
    chk.replay(exe, r["emitted"], "long text")
    r = chk.model("MCTextOut", "TextOut_s.cfg", simulate=1500 if t else 100, depth=40, seed=chk.seed)
    chk.replay(exe, r["emitted"], "long histories")
    r = chk.model("MCNumberOut", "NumberOut_q.cfg")
    chk.replay(exe, r["emitted"], "numbers and keys")
    r = chk.model("MCNumberOut", "NumberOut_s.cfg", simulate=200 if t else 6, depth=20, seed=chk.seed)
    bs = r["emitted"]
    chk.replay(exe, bs[:: max(1, len(bs) // 60000)], "lines of numbers")
