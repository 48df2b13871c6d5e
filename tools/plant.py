#!/usr/bin/env python3
"""plant.py ID PROPERTY FILE NEEDS BREAKS < edits: writes seeded/ID/{patch.diff,meta.json,demo.sh} from OLD/NEW text pairs.
stdin: blocks '<<<<\\nold\\n====\\nnew\\n>>>>', optionally preceded by a line 'file: path'."""
import sys, os, re, subprocess, json
i, prop, f, needs, breaks = sys.argv[1:6]
d = "/verif/seeded/" + i
os.makedirs(d, exist_ok=True)
assert not subprocess.check_output(["git", "-C", "/repo", "status", "--short"]).strip()
t = sys.stdin.read()
try:
    for m in re.finditer(r"(?:file: (\S+)\n)?<<<<\n(.*?)====\n(.*?)>>>>\n", t, re.S):
        p = "/repo/" + (m.group(1) or f)
        s = open(p).read()
        assert s.count(m.group(2)) == 1, (s.count(m.group(2)), m.group(2))
        open(p, "w").write(s.replace(m.group(2), m.group(3)))
    open(d + "/patch.diff", "wb").write(subprocess.check_output(["git", "-C", "/repo", "diff"]))
finally:
    subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
open(d + "/demo.sh", "w").write('''#!/bin/bash
# cwd is /repo, built with build.sh
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
gcc -O1 -w -I include -o "$d/demo" "$(dirname "$0")/demo.c" _build/bin/libhev-task-system.a -lpthread || exit 2
timeout 100 "$d/demo"
''')
