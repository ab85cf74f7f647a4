#!/usr/bin/env python3
"""plant.py [--check] NAME..: makes planted bugs in seeded/ from bugs.py, each
tried out in a scratch copy of /repo: the patch has to build and to pass the
stable tests, the demonstration to pass without it and to fail with it; then,
with --check, the check of its property is run against it (results: --check
--tier thorough, --seed N)."""
import json, os, shutil, subprocess, sys, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/sh
# exit 0: the property holds in this case; 1: it does not
export HOME=/root PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d) || exit 2
trap 'rm -rf "$d"' EXIT
cp "$here/demo.go" "$d/main.go"
cp "$repo/go.sum" "$d/go.sum"
cat > "$d/go.mod" <<END
module demo
go 1.20
require github.com/grepsuzette/joeson v0.0.0
require golang.org/x/exp v0.0.0-20221114191408-850992195362 // indirect
replace github.com/grepsuzette/joeson => $repo
END
cd "$d" && go build -o demo . && timeout 60 ./demo
"""
ENV = dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
           PATH="/opt/veriftools/go1.27.3/bin:" + os.environ["PATH"])


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, **kw)


def passing(cwd):
    out = sh(["go", "test", "-json", "-vet=off", "-count=1", "-timeout", "2m", "./..."], cwd).stdout.decode(errors="replace")
    good = set()
    for l in out.splitlines():
        try:
            e = json.loads(l)
        except ValueError:
            continue
        if e.get("Action") == "pass" and e.get("Test"):
            good.add((e["Package"], e["Test"]))
    return good


def plant(name, bug, check):
    d = os.path.join(V, "seeded", name)
    tmp = tempfile.mkdtemp(prefix="plant-")
    new = os.path.join(tmp, "new")
    os.mkdir(new)
    try:
        r = os.path.join(tmp, "repo")
        sh(["git", "clone", "-q", "/repo", r], "/")
        for f, old, neu in bug["edits"]:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) != 1:
                return "edit matches %d times: %s %r" % (s.count(old), f, old)
            open(p, "w").write(s.replace(old, neu))
        sh(["gofmt", "-w"] + sorted({f for f, *_ in bug["edits"]}), r)
        open(os.path.join(new, "patch.diff"), "wb").write(sh(["git", "diff"], r).stdout)
        if "sh" in bug:
            open(os.path.join(new, "demo.sh"), "w").write(bug["sh"])
        else:
            open(os.path.join(new, "demo.sh"), "w").write(DEMO)
            open(os.path.join(new, "demo.go"), "w").write(bug["demo"].lstrip("\n"))
            sh(["gofmt", "-w", "demo.go"], new)
        os.chmod(os.path.join(new, "demo.sh"), 0o755)
        json.dump({"property": bug["property"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]},
                  open(os.path.join(new, "meta.json"), "w"), indent=1)
        b = sh(["go", "build", "./..."], r)
        if b.returncode:
            return "does not build: " + b.stdout.decode()
        lost = BASE - passing(r)
        if lost:
            return "tests fail: %s" % sorted(lost)[:5]
        a = sh([os.path.join(new, "demo.sh")], "/repo")
        b = sh([os.path.join(new, "demo.sh")], r)
        if a.returncode or not b.returncode:
            return "demo: without %d, with %d\n%s\n%s" % (a.returncode, b.returncode, a.stdout.decode(errors="replace")[-500:], b.stdout.decode(errors="replace")[-500:])
        shutil.rmtree(d, ignore_errors=True)
        shutil.copytree(new, d)
        if not check:
            return "ok"
        e = dict(ENV, JOESON_REPO=r, EVIDENCE_DIR=tmp)
        e.setdefault("VERIF_SEED", "1")
        c = subprocess.run(["python3", "check.py", bug["property"], os.environ.get("TIER", "quick")], cwd=V, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        out = c.stdout.decode(errors="replace")
        return "%s (exit %d)\n%s" % ("CAUGHT" if "VIOLATION property=" + bug["property"] in out else "MISSED", c.returncode, out[:700])
    finally:
        shutil.rmtree(tmp)


if __name__ == "__main__":
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    from bugs import BUGS
    names = [a for a in sys.argv[1:] if not a.startswith("-")] or sorted(BUGS)
    BASE = passing("/repo")
    for n in names:
        print("==", n, BUGS[n]["property"], plant(n, BUGS[n], "--check" in sys.argv), flush=True)
