#!/usr/bin/env python3
"""Random single-edit mutants of the repository's files against the checks: which ones survive?
usage: mutate.py N SEED OUT FILE... -- PROP...      (mutants are made in a scratch copy, never in /repo)"""
import os, random, re, subprocess, sys, json, tempfile, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SUBS = [(r"(?<![<\-=!>])<(?![<=])(?=[^<>]*[;){&|])", "<="), (r"<=", "<"), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r"&&", "||"), (r"\|\|", "&&"),
        (r"(?<![+\w(,=])\+(?![+=])", "-"), (r"(?<![-\w(,=<>&|e])-(?![->=])", "+"), (r"\+=", "-="), (r"-=", "+="), (r"\*=", "/="), (r"\+\+", "--"),
        (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\b0\b(?!\.)", "1"), (r"\b1\b(?!\.)", "2"), (r"\b1\b(?!\.)", "0"), (r"\b2\.", "1."), (r"\b2\b(?!\.)", "3"),
        (r"!(?=\w|\()", ""), (r"\bconj\(", "("), (r"\bmin\b", "max"), (r"\bmax\b", "min"), (r"\bif \(", "if (!("),
        (r"\.begin\(\)", ".begin()+1"), (r"\bfirst\b", "second"), (r"\bM\b", "N"), (r"\bt0\b", "t"), (r"\breal\(", "imag("), (r"\bsqr\(", "("), (r"(?<=\w)\*(?=\w)", "/")]


def mutants(path, text):
    res, infn = [], 0
    lines = text.split("\n")
    comment = False
    for i, l in enumerate(lines):
        s = l.strip()
        if comment:
            if "*/" in s: comment = False
            continue
        if s.startswith("/*"):
            if "*/" not in s: comment = True
            continue
        if not s or s.startswith(("//", "#", "*", "template", "using", "typedef", "namespace", "class", "struct", "static_assert", "friend", "extern")):
            continue
        code = l.split("//")[0]
        for a, b in SUBS:
            for m in re.finditer(a, code):
                if '"' in code[:m.start()] and code[:m.start()].count('"') % 2: continue
                if a.startswith(r"\bif") :
                    j = code.find(")", m.end())
                    n = code[:m.start()] + b + code[m.end():]
                    # negate simple conditions only
                    depth, k = 1, m.end()
                    while k < len(code) and depth:
                        depth += code[k] == "("; depth -= code[k] == ")"; k += 1
                    if depth: continue
                    n = code[:m.start()] + "if (!(" + code[m.end():k - 1] + "))" + code[k:]
                else:
                    n = code[:m.start()] + b + code[m.end():]
                res.append((i, n))
        if re.match(r"^\s+[\w:.>\-\[\]()*&, ]+(=|\+=|-=|\()[^{}]*;\s*$", code) and not re.match(r"^\s*(return|const|auto|typedef|using|double|int|bool|size_t|dcomp)\b", code):
            res.append((i, re.match(r"^\s*", code).group(0) + ";"))
    return [(i, n) for i, n in res if n != lines[i].split("//")[0]], lines


def main():
    n, seed, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    k = sys.argv.index("--")
    files, props = sys.argv[4:k], sys.argv[k + 1:]
    rnd = random.Random(seed)
    wt = tempfile.mkdtemp(prefix="mut.")
    subprocess.run("tar -C /repo --exclude=./.git --exclude=./_build -cf - . | tar -C %s -xf -" % wt, shell=True, check=True)
    try:
        allm = []
        for f in files:
            ms, lines = mutants(f, open("/repo/" + f).read())
            allm += [(f, i, x) for i, x in ms]
        print(len(allm), "candidates", flush=True)
        rnd.shuffle(allm)
        done = 0
        for f, i, x in allm:
            if done >= n: break
            src = open("/repo/" + f).read().split("\n")
            old = src[i]
            src[i] = x
            open(wt + "/" + f, "w").write("\n".join(src))
            verdict = "survived"
            for p in props:
                e = dict(os.environ, VERIF_REPO=wt, VERIF_SEED="1", VERIF_TLC_CACHE="/tmp/tlccache")
                r = subprocess.run(["python3", V + "/bin/check.py", p, "quick"], cwd=V, env=e, capture_output=True, text=True)
                if "VIOLATION property" in r.stdout: verdict = "killed " + p; break
                if r.returncode != 0:
                    verdict = ("invalid " if "failed: " in r.stdout else "error ") + p + " " + r.stdout[-200:].replace("\n", " ")
                    break
            open(wt + "/" + f, "w").write("\n".join(open("/repo/" + f).read().split("\n")))
            done += not verdict.startswith("invalid")
            with open(out, "a") as fo:
                fo.write(json.dumps({"file": f, "line": i + 1, "old": old.strip(), "new": x.strip(), "verdict": verdict[:300]}) + "\n")
    finally:
        shutil.rmtree(wt)


main()
