#!/usr/bin/env python3
"""mutants.py test N SEED OUT: draws N small changes of /repo and keeps those
that build and pass its tests.  mutants.py check IN OUT [ID..]: runs the
checks on each until one reports it.  Works in scratch copies under /tmp."""
import json, os, random, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import plant  # noqa: E402

ENV = plant.ENV
SKIP = ("colors.go", "helpers/stripansi.go", "helpers/mapsorter.go")


def sh(cmd, cwd, timeout=900, env=None):
    try:
        return subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env or ENV, timeout=timeout)
    except subprocess.TimeoutExpired as e:
        return subprocess.CompletedProcess(cmd, 124, e.stdout or b"", b"")


def changes():
    d = tempfile.mkdtemp(prefix="mut-")
    sh(["go", "build", "-o", d + "/mutate", "."], os.path.join(V, "tools", "mutate"))
    files = [f for f in subprocess.check_output(["git", "ls-files", "*.go"], cwd="/repo", text=True).split()
             if not f.endswith("_test.go") and not f.startswith(("contrib", "examples")) and f not in SKIP]
    out = subprocess.check_output([d + "/mutate"] + files, cwd="/repo", text=True)
    shutil.rmtree(d)
    return [json.loads(l) for l in out.splitlines()]


def apply(c, r):
    p = os.path.join(r, c["file"])
    s = open(os.path.join("/repo", c["file"]), "rb").read()
    open(p, "wb").write(s[:c["off"]] + c["new"].encode() + s[c["end"]:])


def copy():
    d = tempfile.mkdtemp(prefix="mut-")
    r = os.path.join(d, "repo")
    sh(["git", "clone", "-q", "/repo", r], "/")
    return d, r


def passing(cwd):
    out = sh(["go", "test", "-json", "-vet=off", "-count=1", "-timeout", "60s", "./..."], cwd, 200).stdout.decode(errors="replace")
    good = set()
    for l in out.splitlines():
        try:
            e = json.loads(l)
        except ValueError:
            continue
        if e.get("Action") == "pass" and e.get("Test"):
            good.add((e["Package"], e["Test"]))
    return good


def test(n, seed, out):
    cs = changes()
    random.Random(seed).shuffle(cs)
    cs = cs[:n]
    base = plant.passing("/repo")

    def one(part):
        d, r = copy()
        kept = []
        for c in part:
            apply(c, r)
            if sh(["go", "build", "./..."], r).returncode == 0 and base <= passing(r):
                kept.append(c)
            sh(["git", "checkout", "-q", "."], r)
        shutil.rmtree(d)
        return kept
    k = int(os.environ.get("PAR", "4"))
    with ThreadPoolExecutor(k) as ex:
        kept = [c for part in ex.map(one, [cs[i::k] for i in range(k)]) for c in part]
    open(out, "w").write("".join(json.dumps(c) + "\n" for c in kept))
    print("%d of %d pass the tests" % (len(kept), len(cs)))


def check(inp, out, ids):
    done = set()
    if os.path.exists(out):
        done = {(json.loads(l)["file"], json.loads(l)["off"], json.loads(l)["new"], json.loads(l)["what"]) for l in open(out)}
    for l in open(inp):
        c = json.loads(l)
        if (c["file"], c["off"], c["new"], c["what"]) in done:
            continue
        d, r = copy()
        apply(c, r)
        c["caught"] = None
        order = ids
        first = FIRST.get(c["file"], [])
        order = [i for i in first if i in ids] + [i for i in ids if i not in first]
        for pid in order:
            env = dict(ENV, JOESON_REPO=r, EVIDENCE_DIR=d, SCALE=os.environ.get("SCALE", "0.5"), VERIF_SEED=os.environ.get("VERIF_SEED", "1"))
            p = sh(["python3", os.path.join(V, "check.py"), pid, "quick"], V, 900, env)
            if p.returncode == 1:
                c["caught"] = pid
                break
            if p.returncode != 0:
                c["caught"] = "%s exit %d %s" % (pid, p.returncode, p.stdout.decode(errors="replace")[-300:])
                break
        shutil.rmtree(d)
        open(out, "a").write(json.dumps(c) + "\n")
        print("%-6s %s:%d %s" % (c["caught"], c["file"], c["line"], c["what"].replace("\n", " ")[:110]), flush=True)


FIRST = {
    "codestream_rune.go": ["C13", "C14"], "codestream_token.go": ["C14", "C16"], "helpers/bisect.go": ["C13"],
    "native_map.go": ["C17"], "native_array.go": ["C17"], "native_int.go": ["C17"], "native_string.go": ["C17"],
    "parsectx.go": ["C25"], "packrat.go": ["C06", "C25"], "parser_pattern.go": ["C08"], "traceoptions.go": ["C23", "C25"],
    "joeson_intention.go": ["C18"], "joeson_handcompiled.go": ["C19"], "grammar.go": ["C07", "C25"],
}

if __name__ == "__main__":
    if sys.argv[1] == "test":
        test(int(sys.argv[2]), int(sys.argv[3]), sys.argv[4])
    else:
        allids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
        check(sys.argv[2], sys.argv[3], sys.argv[4:] or allids)
