#!/usr/bin/env python3
"""Generates and validates the planted bugs of seeded/ from tools/seeds/*.py.

usage: seed.py [ID...]   (needs /repo; works in /tmp/seedwork)
"""
import os, sys, json, subprocess, shutil, glob
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"
SEEDS = []

def seed(id, property, edits, demo, needs, breaks):
    """edits: list of (file, old, new); demo: body of main (Go)."""
    SEEDS.append(dict(id=id, property=property, edits=edits, demo=demo, needs=needs, breaks=breaks))

for f in sorted(glob.glob(os.path.join(ROOT, "tools", "seeds", "*.py"))):
    exec(open(f).read())

PRELUDE = '''package main

import (
%s)

func check(ok bool, what string) {
	if !ok {
		fmt.Println("BROKEN:", what)
		os.Exit(1)
	}
}
'''
PKGS = {"jsval": "github.com/lestrrat-go/jsval", "schema": "github.com/lestrrat-go/jsschema", "builder": "github.com/lestrrat-go/jsval/builder",
        "server": "github.com/lestrrat-go/jsval/server",
        "json": "encoding/json", "time": "time", "strings": "strings", "sync": "sync", "bytes": "bytes", "regexp": "regexp", "exec": "os/exec",
        "ioutil": "io/ioutil", "filepath": "path/filepath", "errors": "errors", "format": "go/format", "parser": "go/parser", "token": "go/token",
        "httptest": "net/http/httptest", "http": "net/http", "url": "net/url", "rand": "math/rand", "runtime": "runtime", "atomic": "sync/atomic", "sort": "sort", "reflect": "reflect", "io": "io", "strconv": "strconv", "net": "net", "ast": "go/ast", "context": "context"}

HELPERS = open(os.path.join(ROOT, "tools", "demo_helpers.go.txt")).read().split("//// ")
HELPERS = {h.split("\n", 1)[0].strip(): h.split("\n", 1)[1] for h in HELPERS if h.strip()}

def program(body):
    used, text = set(), body
    changed = True
    while changed:
        changed = False
        for n, h in HELPERS.items():
            if n not in used and (n + "(") in text:
                used.add(n); text += "\n" + h; changed = True
    imps = ["fmt", "os"] + [p for n, p in PKGS.items() if (n + ".") in text.replace("//" + n, "")]
    import re
    imps = ["fmt", "os"] + [p for n, p in PKGS.items() if re.search(r'(?<![\w."/`])' + n + r'\.[A-Z]', text)]
    lines = "".join('\t%s"%s"\n' % ("schema " if p.endswith("jsschema") else "", p) for p in sorted(set(imps)))
    decl, main = "", text
    if "func main()" not in body:
        # helpers after body
        extra = text[len(body):]
        decl, main = extra, "func main() {\n" + body + "\n}\n"
        # top-level declarations in body are put before @@
        if "@@" in body:
            top, b = body.split("@@", 1)
            main = top + "\nfunc main() {\n" + b + "\n}\n"
        main = main + decl
    return PRELUDE % lines + "\n" + main

DEMO = '''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
from=$PWD
. /opt/vp/env.sh
cd "$from"
exec go run %s"$here/main.go"
'''

def sh(cmd, cwd=W, **kw):
    return subprocess.run(["bash", "-c", ". /opt/vp/env.sh; cd " + cwd + "; " + cmd], cwd=cwd, capture_output=True, text=True, **kw)

def reset():
    shutil.rmtree(W, ignore_errors=True)
    subprocess.check_call(["cp", "-a", "/repo", W])

def main():
    want = sys.argv[1:]
    os.makedirs(os.path.join(ROOT, "seeded"), exist_ok=True)
    ids = [s["id"] for s in SEEDS]
    assert len(ids) == len(set(ids)), "duplicate ids"
    bad = []
    reset()
    for s in SEEDS:
        if want and s["id"] not in want:
            continue
        d = os.path.join(ROOT, "seeded", s["id"])
        if os.path.exists(d) and not want:
            continue
        sh("git checkout -q -- . && git clean -fdq")
        tmp = "/tmp/seedout"
        shutil.rmtree(tmp, ignore_errors=True); os.makedirs(tmp)
        race = "-race " if "RACE" in s["demo"] else ""
        open(tmp + "/main.go", "w").write(program(s["demo"]))
        subprocess.run(["gofmt", "-w", tmp + "/main.go"])
        open(tmp + "/demo.sh", "w").write(DEMO % race)
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["breaks"]), open(tmp + "/meta.json", "w"), indent=1)
        r0 = sh("timeout 250 bash %s/demo.sh" % tmp)
        if r0.returncode != 0:
            print("FAIL", s["id"], "demo fails on the unchanged tree:", r0.stdout[-800:], r0.stderr[-1500:]); bad.append(s["id"]); continue
        ok = True
        for f, old, new in s["edits"]:
            t = open(W + "/" + f).read()
            if t.count(old) < 1:
                print("FAIL", s["id"], "text not found in", f, repr(old)); ok = False; break
            if t.count(old) > 1:
                print("note", s["id"], "text occurs", t.count(old), "times, first replaced")
            open(W + "/" + f, "w").write(t.replace(old, new, 1))
        if not ok:
            bad.append(s["id"]); continue
        diff = sh("git diff").stdout
        open(tmp + "/patch.diff", "w").write(diff)
        b = sh("go build ./... && go test -vet=off ./... 2>&1")
        if b.returncode != 0:
            print("FAIL", s["id"], "build/tests:", b.stdout[-1500:], b.stderr[-1500:]); bad.append(s["id"]); continue
        r1 = sh("timeout 250 bash %s/demo.sh" % tmp)
        if r1.returncode == 0:
            print("FAIL", s["id"], "demo passes with the change"); bad.append(s["id"]); continue
        if "BROKEN" not in r1.stdout and "RACE" not in s["demo"] and "PANIC" not in s["demo"]:
            print("FAIL", s["id"], "demo fails oddly:", r1.stdout[-500:], r1.stderr[-800:]); bad.append(s["id"]); continue
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(tmp, d)
        print("ok  ", s["id"], s["property"], (r1.stdout.strip().splitlines() or r1.stderr.strip().splitlines() or ["?"])[0][:120])
    shutil.rmtree(W, ignore_errors=True)
    shutil.rmtree("/tmp/seedout", ignore_errors=True)
    if bad:
        print("BAD:", bad); sys.exit(1)
main()
