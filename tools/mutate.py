#!/usr/bin/env python3
"""Development tool: one-line changes to a copy of the library, to find behaviour no check looks at.

mutate.py list [FILE-REGEX]            print all changes
mutate.py run N SEED OUT [FILE-REGEX]  try N random ones; results as JSON lines in OUT
"""
import json, os, random, re, subprocess, sys, time, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from plan import PLAN
SRC = "/repo"
WORK = "/tmp/mw/repo"
SKIP = re.compile(r"kqueue|wepoll|/arch/|windows|-wait4\b")
FACTOR = float(os.environ.get("FACTOR", "0.15"))

def anchors():
    m = {}
    for l in open(os.path.join(V, "properties.jsonl")):
        p = json.loads(l)
        for f in set(re.findall(r"src/[\w/.-]+\.[chS]", l)):
            m.setdefault(f, []).append(p["id"])
    return m

def strip(l):
    return re.sub(r'/\*.*?\*/|//.*', '', l)

def mutants(path, rel):
    lines = open(path).read().split("\n")
    out = []
    depth = 0
    comment = False
    prev = ""
    for i, l in enumerate(lines):
        raw = l
        if comment:
            if "*/" in l:
                comment = False
            continue
        if l.strip().startswith("/*") and "*/" not in l:
            comment = True
            continue
        code = strip(l)
        inside = depth > 0
        depth += code.count("{") - code.count("}")
        s = code.strip()
        if not inside or not s or s.startswith("#"):
            continue
        def add(new, op):
            if new != l:
                out.append((rel, i, op, new))
        decl = re.match(r"\s*(static |const |unsigned |struct |int |size_t |ssize_t |void \*|Hev\w+ |char |short )", code)
        whole = prev.endswith((";", "{", "}", ":", ")")) or prev in ("", "else")
        if s.endswith(";") and not decl and whole and not re.match(r"(return|case|default)\b", s):
            add(re.match(r"\s*", l).group(0) + ";", "delete")
        if re.match(r"return\b", s):
            m = re.match(r"(\s*return\s+)(-1|0|1|-2|NULL);", code)
            if m:
                for v in ("-1", "0", "1"):
                    if v != m.group(2):
                        add(m.group(1) + v + ";", "return")
        m = re.match(r"(\s*(?:\} else )?(?:if|while) \()(.*)(\)\s*\{?)$", code)
        if m and m.group(2).count("(") == m.group(2).count(")"):
            add(m.group(1) + "!(" + m.group(2) + ")" + m.group(3), "negate")
            add(m.group(1) + "0 && (" + m.group(2) + ")" + m.group(3), "never")
            add(m.group(1) + "1 || (" + m.group(2) + ")" + m.group(3), "always")
        for a, bs in (("<=", ["<"]), (">=", [">"]), ("==", ["!="]), ("!=", ["=="]), (" < ", [" <= "]), (" > ", [" >= "]),
                      ("&&", ["||"]), ("||", ["&&"]), (" + ", [" - "]), (" - ", [" + "]), (" += ", [" = ", " -= "]), (" -= ", [" = ", " += "]),
                      ("++", ["--"]), ("--", ["++"]), (" |= ", [" = "]), (" &= ", [" |= "]), (" | ", [" & "]), (" & ", [" | "])):
            for mm in re.finditer(re.escape(a), code):
                for b in bs:
                    add(code[:mm.start()] + b + code[mm.end():], "op %s" % a.strip())
        for mm in re.finditer(r"(?<![\w.])([0-9]+)(?![\w.x])", code):
            v = int(mm.group(1))
            for b in {v + 1, max(0, v - 1)} - {v}:
                add(code[:mm.start()] + str(b) + code[mm.end():], "const")
        prev = s
    return out

def all_mutants(rx):
    r = []
    for d, _, fs in os.walk(os.path.join(SRC, "src")):
        for f in fs:
            p = os.path.join(d, f)
            rel = os.path.relpath(p, SRC)
            if f.endswith((".c", ".h")) and not SKIP.search(rel) and (not rx or re.search(rx, rel)):
                r += mutants(p, rel)
    return sorted(set(r))

def sh(cmd, t, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t, env=env)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired as e:
        return 99, ""

def attempt(m, anc, first_only=True, order=None):
    rel, i, op, new = m
    f = os.path.join(WORK, rel)
    shutil.copy(os.path.join(SRC, rel), f)
    lines = open(f).read().split("\n")
    old = lines[i]
    lines[i] = new
    open(f, "w").write("\n".join(lines))
    env = dict(os.environ, SIM_REPO=WORK)
    res = {"file": rel, "line": i + 1, "op": op, "old": old.strip(), "new": new.strip()}
    try:
        rc, out = sh(["python3", os.path.join(V, "build.py")], 120, env)
        if rc:
            res["result"] = "build"
            return res
        sims = dict(l.split()[:2] for l in out.strip().split("\n") if len(l.split()) >= 2)
        near = anc.get(rel, [])
        for stage, props in (("near", near), ("far", [p for p in PLAN if p not in near])):
            hits = {}
            for p in props:
                for v, n in PLAN[p]["variants"].items():
                    rc, out = sh([sims[v], "--prop", p, "--runs", str(max(500, int(n * FACTOR))), "--time", "20", "--minimise", "0", "--jobs", "8",
                                  "--replay-out", "/tmp/mw/rep.txt"], 60)
                    if rc == 1:
                        w = re.search(r"violation: (.*)", out)
                        hits[p] = v + ": " + (w.group(1)[:100] if w else "?")
                        break
                    if rc not in (0, 1):
                        hits[p] = "%s: rc %d" % (v, rc)
                if hits and stage == "far":
                    break
            if hits:
                res["result"] = stage
                res["hits"] = hits
                return res
        res["result"] = "SURVIVED"
        return res
    finally:
        shutil.copy(os.path.join(SRC, rel), f)

def main():
    rx = None
    if sys.argv[1] == "list":
        rx = sys.argv[2] if len(sys.argv) > 2 else None
        ms = all_mutants(rx)
        for m in ms:
            print(m[0], m[1] + 1, m[2], m[3].strip())
        print(len(ms))
        return
    n, seed, outp = int(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    rx = sys.argv[5] if len(sys.argv) > 5 else None
    ms = all_mutants(rx)
    random.Random(seed).shuffle(ms)
    os.makedirs("/tmp/mw", exist_ok=True)
    subprocess.run(["rsync", "-a", "--delete", SRC + "/", WORK + "/"]) if shutil.which("rsync") else (
        shutil.rmtree(WORK, ignore_errors=True), shutil.copytree(SRC, WORK, symlinks=True))
    anc = anchors()
    with open(outp, "a") as o:
        for m in ms[:n]:
            r = attempt(m, anc)
            o.write(json.dumps(r) + "\n")
            o.flush()
main()
