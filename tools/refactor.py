#!/usr/bin/env python3
"""Behaviour-preserving changes on which every check must stay quiet.

usage: refactor.py [-j N] [ID...]     needs JC (analyser binary) or uses /tmp/jc
Each entry of tools/refactors/*.py: refactor(id, properties, [edit...]) with edit
  (file, old, new)       replace text once
  (file, "func NAME", body)   replace the top-level function or method NAME ("T.m" for methods)
  (file, "append", text)      append text
Development tool: no check uses it.
"""
import os, sys, re, glob, shutil, subprocess
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = []
def refactor(id, props, edits): R.append((id, props.split(), edits))
for f in sorted(glob.glob(os.path.join(ROOT, "tools", "refactors", "*.py"))): exec(open(f).read())
JC = os.environ.get("JC", "/tmp/jc")

def sh(cmd, cwd):
    return subprocess.run(["bash", "-c", ". /opt/vp/env.sh; cd %s; %s" % (cwd, cmd)], capture_output=True, text=True)

def funcspan(s, name):
    if "." in name:
        t, m = name.split(".")
        rx = r"^func \(\w+ \*?%s\) %s\(" % (t, m)
    else:
        rx = r"^func %s\(" % name
    m = re.search(rx, s, re.M)
    assert m, "no function " + name
    e = re.compile(r"^}$", re.M).search(s, m.start()).end()
    return m.start(), e

def imports(s, add):
    for a in add:
        if '"%s"' % a not in s:
            s = re.sub(r"import \(\n", 'import (\n\t"%s"\n' % a, s, count=1) if "import (" in s else s.replace("\nimport ", '\nimport "%s"\nimport ' % a, 1)
    return s

def apply(w, edits):
    for e in edits:
        p = os.path.join(w, e[0]); s = open(p).read()
        if e[1].startswith("func ") and "(" not in e[1]:
            a, b = funcspan(s, e[1][5:]); s = s[:a] + e[2].strip("\n") + s[b:]
        elif e[1] == "append": s += "\n" + e[2]
        elif e[1] == "import": s = imports(s, e[2].split())
        elif e[1] == "unimport":
            for a in e[2].split(): s = re.sub(r'\n\t?(\w+ )?"%s"' % re.escape(a), "", s, count=1)
        else:
            assert e[1] in s, "text not found: " + e[1][:60]
            s = s.replace(e[1], e[2], 1)
        open(p, "w").write(s)

def run(r):
    id, props, edits = r
    w = "/tmp/rw/" + id; root = "/tmp/rwroot/" + id
    shutil.rmtree(w, ignore_errors=True); shutil.rmtree(root, ignore_errors=True)
    os.makedirs("/tmp/rw", exist_ok=True); os.makedirs(root)
    subprocess.check_call(["cp", "-a", "/repo", w])
    shutil.copytree(ROOT + "/harness", root + "/harness"); shutil.copy(ROOT + "/known_findings.json", root)
    out = []
    try:
        apply(w, edits)
        r = sh("go build ./... && go test -vet=off -count=1 ./... 2>&1", w)
        if r.returncode: return id, "BROKEN REFACTORING\n" + (r.stdout + r.stderr)[-1500:]
        for p in props:
            c = sh("timeout 880 %s -property %s -repo %s -root %s" % (JC, p, w, root), w)
            o = c.stdout + c.stderr
            u = [l for l in o.splitlines() if "UNDECIDED" in l]
            v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
            if v or c.returncode: out.append("%s rc=%d ALARM\n%s" % (p, c.returncode, o[:1500]))
            elif u: out.append("%s undecided %d: %s" % (p, len(u), u[0][:200]))
        return id, "; ".join(out) or "quiet (%s)" % " ".join(props)
    except Exception as ex:
        return id, "ERROR %s" % ex
    finally:
        shutil.rmtree(w, ignore_errors=True); shutil.rmtree(root, ignore_errors=True)

if __name__ == "__main__":
    a = sys.argv[1:]; j = 2
    if a[:1] == ["-j"]: j = int(a[1]); a = a[2:]
    with ThreadPoolExecutor(j) as ex:
        for id, res in ex.map(run, [r for r in R if not a or r[0] in a]): print(id, ":", res, flush=True)
