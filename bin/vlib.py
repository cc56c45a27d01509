#!/usr/bin/env python3
"""Shared machinery: harness build (content-addressed object cache), TLC runs, replay, evidence."""
import concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4

INCLUDE = ["CPPQEDutils", "CPPQEDcore/quantumdata", "CPPQEDcore/quantumoperator", "CPPQEDcore/structure",
           "CPPQEDcore/composites", "CPPQEDcore/quantumtrajectory", "CPPQEDcore/high",
           "CPPQEDelements/frees", "CPPQEDelements/interactions", "CPPQEDelements/utils"]
CXXFLAGS = ["-std=c++20", "-O1", "-fPIC", "-w", "-DNDEBUG", "-DBZ_HAVE_BOOST_SERIALIZATION", "-fno-strict-aliasing",
            "-DBOOST_BIND_GLOBAL_PLACEHOLDERS", "-I/usr/include/eigen3",
            "-include", "boost/preprocessor/iteration/iterate.hpp"]
LIBS = ["-lboost_serialization", "-lboost_iostreams", "-lboost_system", "-lbz2", "-lgsl", "-lgslcblas", "-lblitz", "-lpthread"]


class CheckError(Exception):
    """The machinery itself could not give an answer (exit code 2)."""


def say(*a):
    print(*a, flush=True)


def incs():
    return ["-I" + os.path.join(VERIF, "shim"), "-I" + os.path.join(VERIF, "harness")] + \
           ["-I" + os.path.join(REPO, d) for d in INCLUDE]


def _compile(src, extra):
    flags = CXXFLAGS + list(extra) + incs()
    r = subprocess.run(["g++"] + flags + ["-E", "-P", src], capture_output=True)
    if r.returncode:
        raise CheckError("preprocessing failed: %s\n%s" % (src, r.stderr.decode(errors="replace")[-3000:]))
    key = hashlib.sha256("\0".join(CXXFLAGS + list(extra)).encode() + b"\0" + r.stdout).hexdigest()[:40]
    obj = os.path.join(BUILD, "obj", key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        r = subprocess.run(["g++"] + flags + ["-c", src, "-o", tmp], capture_output=True)
        if r.returncode:
            err = r.stderr.decode(errors="replace")
            raise CheckError("compilation failed: %s\n%s" % (src, "\n".join(l for l in err.splitlines() if "error" in l)[:4000] or err[-3000:]))
        os.replace(tmp, obj)
    return obj, key


GROUPS = {"utils": ["CPPQEDutils"], "core": ["CPPQEDcore/quantumdata", "CPPQEDcore/quantumoperator", "CPPQEDcore/structure", "CPPQEDcore/composites",
                    "CPPQEDcore/quantumtrajectory", "CPPQEDcore/high"],
          "elements": ["CPPQEDelements/frees", "CPPQEDelements/interactions", "CPPQEDelements/utils"]}
SKIP = {"Version.cc", "Transformation.cc"}     # not part of the build, cannot be compiled offline (harness/version.cc stands in)


def group_sources(groups):
    """All sources of whole parts of the repository: functions may move between files."""
    return sorted(os.path.relpath(f, REPO) for g in groups for d in GROUPS[g] for f in glob.glob(os.path.join(REPO, d, "*.cc"))
                  if os.path.basename(f) not in SKIP)


def build(name, harness_sources, repo_sources, extra=()):
    """Compile harness + the repository's own sources from the current tree, link, return the executable."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    grouped = isinstance(repo_sources, str)
    if grouped:
        repo_sources = group_sources(repo_sources.split())
    nh, failed = len(harness_sources), []
    srcs = [os.path.join(VERIF, "harness", s) for s in harness_sources] + [os.path.join(REPO, s) for s in repo_sources]
    t = time.time()
    with concurrent.futures.ThreadPoolExecutor(NCPU) as ex:
        def one(arg):
            i, src = arg
            try:
                return _compile(src, extra)
            except CheckError as e:
                if i < nh or not grouped:
                    raise
                failed.append(str(e))      # the linker decides whether it was needed
                return None
        objs = list(ex.map(one, enumerate(srcs)))
    objs = objs[:nh] + [o for o in objs[nh:] if o]
    exe = os.path.join(BUILD, "bin", name + "-" + hashlib.sha256("".join(k for _, k in objs).encode()).hexdigest()[:24])
    if not os.path.exists(exe):
        tmp = exe + ".%d.tmp" % os.getpid()
        ar = tmp + ".a"
        r = subprocess.run(["ar", "rcs", ar] + [o for o, _ in objs[nh:]], capture_output=True)
        if r.returncode:
            raise CheckError("ar failed: %s" % r.stderr.decode(errors="replace")[-1000:])
        r = subprocess.run(["g++", "-Wl,-z,muldefs", "-o", tmp] + [o for o, _ in objs[:nh]] + [ar] + LIBS, capture_output=True)
        os.unlink(ar)
        if r.returncode:
            raise CheckError("link failed: %s\n%s\n%s" % (name, r.stderr.decode(errors="replace")[-3000:], "\n".join(failed)))
        os.replace(tmp, exe)
    say("[build] %s in %.1fs" % (name, time.time() - t))
    return exe


TLC_RE = re.compile(r"([\d,]+) states generated, ([\d,]+) distinct states found")


def tlc(module, cfg, simulate=None, depth=100, seed=1, env=None, workers=None, timeout=800, consts=None, heap="6g"):
    """Run TLC on spec/<module>.tla with the given config text/name. Returns dict(ok, states, transitions, emitted, out)."""
    wd = tempfile.mkdtemp(prefix="vtlc.")
    try:
        for f in glob.glob(os.path.join(VERIF, "spec", "*.tla")):
            shutil.copy(f, wd)
        text = open(os.path.join(VERIF, "spec", cfg)).read()
        if consts:
            # override constants "X = value" in the cfg
            for k, v in consts.items():
                text, n = re.subn(r"(?m)^(\s*(?:CONSTANTS?\s+)?%s\s*=\s*).*$" % re.escape(k), lambda m: m.group(1) + str(v), text)
                if not n:
                    raise CheckError("constant %s not in %s" % (k, cfg))
        with open(os.path.join(wd, "run.cfg"), "w") as f:
            f.write(text)
        out = os.path.join(wd, "emit.txt")
        e = dict(os.environ, OUT=out)
        e.update(env or {})
        cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + wd, "-cp", JAR, "tlc2.TLC", "-metadir", os.path.join(wd, "meta"),
               "-config", "run.cfg", "-noGenerateSpecTE", "-fp", "7"]
        if simulate:
            cmd += ["-workers", "1", "-simulate", "num=%d" % simulate, "-depth", str(depth), "-seed", str(seed)]
        else:
            cmd += ["-workers", str(workers or NCPU)]
        cmd.append(module + ".tla")
        t = time.time()
        try:
            r = subprocess.run(cmd, cwd=wd, env=e, capture_output=True, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            raise CheckError("TLC timed out on %s/%s" % (module, cfg))
        o = r.stdout + r.stderr
        res = {"out": o, "rc": r.returncode, "wall": time.time() - t, "states": 0, "transitions": 0, "emitted": []}
        m = TLC_RE.findall(o)
        if m:
            res["transitions"] = int(m[-1][0].replace(",", ""))
            res["states"] = int(m[-1][1].replace(",", ""))
        else:
            m = re.findall(r"The number of states generated: ([\d,]+)", o)
            if m:
                res["states"] = res["transitions"] = int(m[-1].replace(",", ""))
        if os.path.exists(out):
            seen = set()
            for line in open(out):
                line = line.rstrip("\n")
                if line and line not in seen:
                    seen.add(line)
            res["emitted"] = [json.loads(json.loads(l)) for l in sorted(seen)]
        res["ok"] = r.returncode == 0
        return res
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def model(module, cfg, **kw):
    """A design-level model run: must succeed, otherwise the machinery is broken."""
    cache = os.environ.get("VERIF_TLC_CACHE")      # development only: many runs against variants of the code, the model unchanged
    if cache:
        key = hashlib.sha256((module + cfg + repr(sorted(kw.items())) + "".join(open(f).read() for f in sorted(glob.glob(VERIF + "/spec/*")))).encode()).hexdigest()
        cf = os.path.join(cache, key)
        if os.path.exists(cf):
            return json.load(open(cf))
    r = tlc(module, cfg, **kw)
    if cache and r["ok"]:
        os.makedirs(cache, exist_ok=True)
        json.dump(r, open(cf, "w"))
    if not r["ok"]:
        raise CheckError("TLC failed on %s/%s (rc %d):\n%s" % (module, cfg, r["rc"], r["out"][-3500:]))
    say("[tlc] %s/%s: %d states, %d transitions, %d behaviours, %.1fs" % (module, cfg, r["states"], r["transitions"], len(r["emitted"]), r["wall"]))
    return r


def run_harness(exe, lines, args=(), timeout=600, env=None):
    """run_harness1 in parallel processes on contiguous parts of the input."""
    n = min(NCPU, max(1, len(lines) // 200))
    if n == 1:
        return run_harness1(exe, lines, args, timeout, env)
    size = (len(lines) + n - 1) // n
    parts = [lines[i:i + size] for i in range(0, len(lines), size)]
    with concurrent.futures.ThreadPoolExecutor(n) as ex:
        res = list(ex.map(lambda p: run_harness1(exe, p, args, timeout, env), parts))
    outs = []
    for part, (o, fail, log) in zip(parts, res):
        outs += o
        if fail or len(o) < len(part):
            return outs, fail or "no answer", log
    return outs, None, res[-1][2]


def run_harness1(exe, lines, args=(), timeout=600, env=None):
    """Feed JSON lines, collect one JSON line of observations per input line. Returns (outputs, failure|None)."""
    wd = tempfile.mkdtemp(prefix="vrun.")
    inp = os.path.join(wd, "in.ndjson")
    with open(inp, "w") as f:
        for l in lines:
            f.write(json.dumps(l, separators=(",", ":")) + "\n")
    outp = os.path.join(wd, "out.ndjson")
    scratch = os.path.join(wd, "scratch")
    os.mkdir(scratch)
    fail = None
    try:
        with open(outp, "w") as fo, open(os.path.join(wd, "log"), "w") as fl:
            try:
                r = subprocess.run([exe, inp, outp] + list(args), cwd=scratch, stdout=fl, stderr=subprocess.STDOUT, timeout=timeout,
                                   env=dict(os.environ, **(env or {})))
                if r.returncode:
                    fail = "exit status %d" % r.returncode
            except subprocess.TimeoutExpired:
                fail = "no progress within %d s" % timeout
        outs = []
        for l in open(outp):
            try:
                outs.append(json.loads(l))
            except ValueError:
                break
        log = open(os.path.join(wd, "log"), errors="replace").read()[-2000:]
        return outs, fail, log
    finally:
        shutil.rmtree(wd, ignore_errors=True)


def diff(exp, obs, path=""):
    """First difference between expected and observed JSON values, or None. Keys absent from exp are ignored."""
    if isinstance(exp, dict):
        if not isinstance(obs, dict):
            return (path, exp, obs)
        for k in exp:
            if k not in obs:
                return (path + "." + k, exp[k], "<missing>")
            d = diff(exp[k], obs[k], path + "." + k)
            if d:
                return d
        return None
    if isinstance(exp, list):
        if not isinstance(obs, list) or len(exp) != len(obs):
            return (path, exp, obs)
        for i, (a, b) in enumerate(zip(exp, obs)):
            d = diff(a, b, "%s[%d]" % (path, i))
            if d:
                return d
        return None
    if isinstance(exp, bool) or isinstance(obs, bool):
        return None if exp is obs else (path, exp, obs)
    return None if exp == obs else (path, exp, obs)


class Check:
    def __init__(self, prop, tier, level):
        self.prop, self.tier, self.level = prop, tier, level
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.assumptions = []
        self.violations = []
        self.known = []
        self.findings = load_findings(prop)

    def model(self, module, cfg, **kw):
        r = model(module, cfg, **kw)
        self.cov["states"] += r["states"]
        self.cov["transitions"] += r["transitions"]
        return r

    def simulate(self, module, cfg, n, depth, procs=6, **kw):
        """n random behaviours, from several TLC processes with different seeds."""
        procs = max(1, min(procs, n // 20))
        with concurrent.futures.ThreadPoolExecutor(procs) as ex:
            rs = list(ex.map(lambda i: self.model(module, cfg, simulate=(n + procs - 1) // procs, depth=depth,
                                                  seed=self.seed * 1000 + i, heap="3g", **kw), range(procs)))
        seen = {json.dumps(b, sort_keys=True): b for r in rs for b in r["emitted"]}
        return [seen[k] for k in sorted(seen)]

    def deviating(self, exe, emitted, kind, name):
        """Behaviours of which those with p.as=TRUE describe a recorded deviation (a known finding), the others what is correct."""
        correct = [b for b in emitted if not b["in"]["p"]["as"]]
        asis = [b for b in emitted if b["in"]["p"]["as"]]
        f = [f for f in self.findings if f["kind"] == kind]
        if f and not self.agrees(exe, correct) and self.agrees(exe, asis):
            self.known.append(f[0]["what"])
            self.cov["traces_validated_against_impl"] += len(asis)
        else:
            self.replay(exe, correct, name)

    def note(self, *a):
        self.assumptions.extend(a)

    def agrees(self, exe, behaviours, args=(), timeout=600):
        """Does the code agree with the specification on all of these behaviours? (no report)"""
        outs, fail, _ = run_harness(exe, [b["in"] for b in behaviours], args, timeout)
        return not fail and len(outs) == len(behaviours) and all(diff(b["exp"], o) is None for b, o in zip(behaviours, outs))

    def replay(self, exe, behaviours, name, args=(), timeout=600, project=None):
        """behaviours: list of {"in":..., "exp":...}. Runs the real code on every input and compares with the
        specification's expectation. A disagreement is reported only if it repeats on a fresh process."""
        if not behaviours:
            raise CheckError("no behaviours generated for " + name)
        ins = [b["in"] for b in behaviours]
        outs, fail, log = run_harness(exe, ins, args, timeout)
        bad = []
        for i, b in enumerate(behaviours):
            if i >= len(outs):
                bad.append((i, ("", "an answer", "none: " + str(fail))))
                break
            d = diff(b["exp"], outs[i])
            if d:
                bad.append((i, d))
                if len(bad) >= 5:
                    break
        self.cov["traces_validated_against_impl"] += min(len(outs), len(behaviours))
        for i in ([0, len(behaviours) // 2] if len(self.cov["samples"]) < 8 else []):
            self.cov["samples"].append(json.dumps({"kind": name, "in": behaviours[i]["in"]}, separators=(",", ":"))[:600])
        say("[replay] %s: %d behaviours, %d disagreements%s" % (name, len(behaviours), len(bad), "" if not fail else " (" + fail + ")"))
        confirmed = []
        for i, d in bad:
            o2, f2, log2 = run_harness(exe, [ins[i]], args, min(timeout, 120))
            if not o2:
                d2 = ("", "an answer", "none: " + str(f2))
            else:
                d2 = diff(behaviours[i]["exp"], o2[0])
            if d2:
                confirmed.append((i, d2, o2[0] if o2 else None, log2))
        if bad and not confirmed:
            raise CheckError("a disagreement did not repeat: %r log: %s" % (bad[0], log))
        for i, d, o, lg in confirmed:
            self.violation(name, {"in": ins[i], "expected": behaviours[i]["exp"], "observed": o, "first_difference":
                                  {"at": d[0], "expected": d[1], "observed": d[2]}, "log": lg})
        return not confirmed

    def violation(self, name, detail):
        for f in self.findings:
            if f.get("kind") == name and diff(f["match"], detail.get("in")) is None:
                if f["what"] not in self.known:
                    self.known.append(f["what"])
                return
        self.violations.append((name, detail))

    def finish(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
              "wall_s": round(time.time() - self.t0, 2), "assumptions": self.assumptions, "violations": len(self.violations)}
        rc = 0
        lines = []
        if self.violations:
            rc = 1
            rd = os.path.join(VERIF, "replays", self.prop)
            os.makedirs(rd, exist_ok=True)
            for n, (name, detail) in enumerate(self.violations[:5]):
                p = os.path.join(rd, "%s-%d.json" % (re.sub(r"\W+", "_", name), n))
                with open(p, "w") as f:
                    json.dump({"property": self.prop, "kind": name, "detail": detail}, f, indent=1, default=str)
                fd = detail.get("first_difference")
                if fd:
                    say("  %s: at %s expected %s observed %s" % (name, fd["at"], json.dumps(fd["expected"])[:300], json.dumps(fd["observed"])[:300]))
                lines.append("VIOLATION property=%s replay=%s" % (self.prop, p))
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for k in self.known:
            say("KNOWN-FINDING: property=%s %s" % (self.prop, k))
        for l in lines[:1] if lines else []:
            say(l)
        say("[%s] %s in %.1fs: %s" % (self.prop, self.tier, time.time() - self.t0, "VIOLATED" if rc else "held on everything explored"))
        return rc


def load_findings(prop):
    p = os.path.join(VERIF, "known_findings.jsonl")
    res = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                d = json.loads(l)
                if d.get("property") == prop and d.get("status") == "known":
                    res.append(d)
    return res
