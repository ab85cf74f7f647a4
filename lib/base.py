"""Building the harness, running it and TLC."""
import json, os, re, shutil, subprocess, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("JOESON_REPO", "/repo")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
PROBLEMS = ("crash", "dead")


class ToolError(Exception):
    pass


def go_env():
    e = dict(os.environ)
    e.update(HOME="/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off")
    e["GORACE"] = "halt_on_error=1 exitcode=66"
    e["PATH"] = "/opt/veriftools/go1.27.3/bin:" + e.get("PATH", "")
    for k in ("TRACE", "trace"):
        e.pop(k, None)
    return e


class Result:
    def __init__(self, name):
        self.name, self.violations, self.samples = name, [], []
        self.states = self.transitions = self.traces = 0
        self.note, self.wall = "", 0.0

    def add(self, what, text, **more):
        self.violations.append(dict(what=what, text=text, stage=self.name, **more))


class Ctx:
    def __init__(self, pid, tier, seed, tmp):
        self.pid, self.tier, self.seed, self.tmp = pid, tier, seed, tmp
        self.quick = tier == "quick"
        self.jv = os.path.join(tmp, "jv")
        self.flags = []

    def n(self, quick, thorough):
        return max(1, int(quick * float(os.environ.get("SCALE", "1")))) if self.quick else thorough

    def run(self, cmd, cwd=None, timeout=800, env=None, ok=(0,), input=None):
        p = subprocess.run(cmd, cwd=cwd or self.tmp, env=env or go_env(), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, timeout=timeout, input=input)
        if p.returncode not in ok:
            raise ToolError("%s: exit %s\n%s\n%s" % (" ".join(cmd), p.returncode,
                            p.stdout.decode(errors="replace")[-3000:], p.stderr.decode(errors="replace")[-3000:]))
        return p.stdout.decode("utf-8", errors="replace")

    def build(self):
        """builds the harness against the current tree of the repository"""
        mod = open(os.path.join(VERIF, "harness", "go.mod")).read().replace("=> /repo", "=> " + REPO)
        d = os.path.join(self.tmp, "mod")
        os.mkdir(d)
        open(os.path.join(d, "go.mod"), "w").write(mod)
        shutil.copy(os.path.join(VERIF, "harness", "go.sum"), d)
        self.run(["go", "build"] + self.flags + ["-trimpath", "-modfile=" + os.path.join(d, "go.mod"), "-o", self.jv, "."],
                 cwd=os.path.join(VERIF, "harness"))

    def env(self, kind):
        """for the harness; sessions with the REPL need that"""
        e = go_env()
        if kind.startswith("lisp"):
            e["JV_LISP"] = os.path.join(self.tmp, "lisp")
            if not os.path.exists(e["JV_LISP"]):
                self.run(["go", "build", "-trimpath", "-o", e["JV_LISP"], "./examples/lisp-repl"], cwd=REPO)
        return e

    def dir(self, name):
        d = os.path.join(self.tmp, name)
        os.makedirs(d, exist_ok=True)
        return d

    def tlc(self, res, d, module, cfg=None, workers=8, args=(), consts=None, allow=(), heap="6g"):
        """runs TLC in d, counts states into res, returns what was printed.
        consts: replacements in the cfg file."""
        for f in os.listdir(os.path.join(VERIF, "spec")):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(VERIF, "spec", f), d)
        text = open(os.path.join(VERIF, "spec", (cfg or module) + ".cfg")).read()
        for k, v in (consts or {}).items():
            text, n = re.subn(r"(?m)^(\s*%s\s*=).*$" % re.escape(k), lambda m: m.group(1) + " " + str(v), text)
            if n != 1:
                raise ToolError("no constant %s in %s" % (k, cfg or module))
        open(os.path.join(d, "MC.cfg"), "w").write(text)
        meta = os.path.join(d, "meta")
        cmd = ["java", "-Xss64m", "-Xmx" + heap, "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + d, "-cp", JARS, "tlc2.TLC",
               "-noGenerateSpecTE", "-workers", str(workers), "-metadir", meta, "-config", "MC.cfg", *args, module + ".tla"]
        out = self.run(cmd, cwd=d, ok=tuple(range(0, 256)))
        shutil.rmtree(meta, ignore_errors=True)
        if not ("Model checking completed. No error has been found" in out or
                ("-simulate" in args and "Finished in" in out and "Error:" not in out)):
            if not any(a in out for a in allow):
                i = out.find("Error:")
                raise ToolError("TLC on %s (%s):\n%s" % (module, cfg, out[max(0, i - 1500) if i > 0 else -3000:][:7000]))
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if m:
            res.transitions += int(m[-1][0])
            res.states += int(m[-1][1])
        elif "-simulate" in args:
            m = re.findall(r"The number of states generated: (\d+)", out)
            if m:
                res.transitions += int(m[-1])
                res.states += int(m[-1])
        return out


def printed(out, tag):
    """what the specification printed with PrintT(ToJson(<<tag, ..>>))"""
    found = []
    for line in out.splitlines():
        if line.startswith('"[\\"%s\\"' % tag):
            found.append(json.loads(json.loads(line)))
    return found


def read_lines(path):
    with open(path) as f:
        return [json.loads(x) for x in f if x.strip()]


def show_text(b):
    return repr(bytes(b))[1:]


class Stage:
    name = "stage"

    def run(self, ctx):
        r = Result(self.name)
        t = time.time()
        self.work(ctx, r)
        r.wall = time.time() - t
        return r


class Cases(Stage):
    """Random grammars and texts, parsed by the real code; the outcomes (and
    calls of parse functions) are validated against the specification."""

    def __init__(self, kind, n, module, counts, seed=0, name=None, cfg=None, keyed=False):
        self.keyed = keyed
        self.kind, self.num, self.module, self.counts, self.seed, self.cfg = kind, n, module, counts, seed, cfg
        self.name = name or "%s-%s" % (kind, module)

    def generate(self, ctx, d):
        path = os.path.join(d, "cases.ndjson")
        ctx.run([ctx.jv, "cases", "-kind", self.kind, "-n", str(self.num), "-seed", str(ctx.seed * 1000 + self.seed), "-out", path])
        return path

    def work(self, ctx, r):
        d = ctx.dir(self.name)
        cases = read_lines(self.generate(ctx, d))
        out = ctx.tlc(r, d, self.module, self.cfg, workers=4)
        byid = {c["id"]: c for c in cases}
        r.traces = sum(len(c["inputs"]) for c in cases)
        tally = {}
        for c in cases:
            for i in c["inputs"]:
                tally[i["out"][0]] = tally.get(i["out"][0], 0) + 1
        r.note = "%d grammars, outcomes %s" % (len(cases), json.dumps(tally, sort_keys=True))
        for c in cases[:2]:
            i = c["inputs"][0]
            r.samples.append({"grammar": c["text"], "input": show_text(i["in"]), "outcome": i["out"]})
        for _, cid, ix, what, exp in printed(out, "MISMATCH"):
            if what not in self.counts:
                continue
            c = byid[cid]
            i = c["inputs"][ix - 1]
            if i["out"] == ["dead", "skipped"]:
                continue
            text = "grammar:\n  %s\ninput: %s\nexpected: %s\nobserved: %s" % (
                "\n  ".join(c["text"]), show_text(i["in"]), json.dumps(exp), json.dumps(i["out"]))
            if "call" in what:
                text += "\ncalls: " + json.dumps(i["log"])
            more = dict(key="%s-%d:%s" % (self.kind, cid, show_text(i["in"]))) if self.keyed else {}
            r.add(what, text, **more, case={"g": c["g"], "input": i, "text": c["text"]}, expected=exp)
        shutil.rmtree(d, ignore_errors=True)


class Model(Stage):
    """Model checking of the specification itself."""

    def __init__(self, module, cfg, consts=None, name=None, heap="8g", workers=6):
        self.module, self.cfg, self.consts, self.heap, self.workers = module, cfg, consts, heap, workers
        self.name = name or "model-" + cfg

    def work(self, ctx, r):
        d = ctx.dir(self.name)
        ctx.tlc(r, d, self.module, self.cfg, consts=self.consts, heap=self.heap, workers=self.workers)
        r.note = "model checked: %s" % self.cfg
        shutil.rmtree(d, ignore_errors=True)


class Hist(Stage):
    """Random histories of operations on the real thing, validated by TLC.
    show: turns (case, index of the operation) into text."""

    def __init__(self, kind, n, module, counts=None, seed=0, name=None, show=None, workers=4):
        self.kind, self.num, self.module, self.counts, self.seed = kind, n, module, counts, seed
        self.name, self.show, self.workers = name or "%s-%s" % (kind, module), show or show_ops, workers

    def work(self, ctx, r):
        d = ctx.dir(self.name)
        path = os.path.join(d, "cases.ndjson")
        ctx.run([ctx.jv, "hist", "-kind", self.kind, "-n", str(self.num), "-seed", str(ctx.seed * 1000 + self.seed), "-out", path], env=ctx.env(self.kind))
        cases = read_lines(path)
        dead = [c for c in cases if "dead" in c]
        cases = [c for c in cases if "dead" not in c]
        for c in dead:
            if c["dead"] != "skipped":
                r.add("crash", "the history ends the process (%s):\n%s" % (c["dead"], json.dumps(c["item"])), case=c["item"])
        write_lines(path, cases)
        r.traces = len(cases)
        r.note = "%d histories, %d operations" % (len(cases), sum(len(c.get("ops", [])) for c in cases))
        for c in cases[:2]:
            r.samples.append({"history": self.show(c, min(6, len(c.get("ops", []))))})
        byid = {c["id"]: c for c in cases}
        if cases:
            out = ctx.tlc(r, d, self.module, workers=self.workers)
            for _, cid, ix, what, exp in printed(out, "MISMATCH"):
                if self.counts and what not in self.counts:
                    continue
                c = byid[cid]
                r.add(what, "%s\nexpected: %s" % (self.show(c, ix), json.dumps(exp)), case=c, at=ix, expected=exp)
        shutil.rmtree(d, ignore_errors=True)


class Replay(Stage):
    """TLC enumerates the steps of a model; each is replayed on the real thing
    and has to have the result the model says."""

    def __init__(self, module, cfg, kind, consts=None, name=None, counts=None, show=None, workers=4, args=(), heap="6g", key=None):
        self.key = key
        self.module, self.cfg, self.kind, self.consts, self.counts = module, cfg, kind, consts, counts
        self.name, self.show, self.workers, self.args, self.heap = name or "replay-" + cfg, show or show_ops, workers, args, heap

    def work(self, ctx, r):
        d = ctx.dir(self.name)
        out = ctx.tlc(r, d, self.module, self.cfg, consts=self.consts, workers=self.workers, args=self.args, heap=self.heap)
        steps = {json.dumps(c, sort_keys=True): c for _, c in printed(out, "STEP")}
        steps = [steps[k] for k in sorted(steps)]
        if not steps:
            raise ToolError("%s printed no steps" % self.module)
        for i, c in enumerate(steps):
            c["id"] = i + 1
        a, b = os.path.join(d, "steps.ndjson"), os.path.join(d, "done.ndjson")
        write_lines(a, steps)
        ctx.run([ctx.jv, "replay", "-kind", self.kind, "-in", a, "-out", b], env=ctx.env(self.kind))
        done = read_lines(b)
        r.traces = len(done)
        r.note = "%d behaviours of the model replayed" % len(done)
        for c in done[:: max(1, len(done) // 2)][:2]:
            if "dead" not in c:
                r.samples.append({"behaviour": self.show(c, len(c["ops"]))})
        for c in done:
            if "dead" in c:
                if c["dead"] != "skipped":
                    r.add("crash", "the behaviour ends the process (%s):\n%s" % (c["dead"], json.dumps(c["item"])), case=c["item"])
                continue
            for i, op in enumerate(c["ops"]):
                if self.counts and op["o"] not in self.counts:
                    continue
                if op["r"] == ["skipped"]:  # after too many that never ended
                    continue
                if op["x"] != op["r"] or op.get("px", 0) != op.get("p", 0):
                    more = dict(key=self.key(op)) if self.key else {}
                    r.add(op["o"], self.show(c, i + 1), case=c, at=i + 1, **more)
                    break
        shutil.rmtree(d, ignore_errors=True)


def write_lines(path, items):
    with open(path, "w") as f:
        for x in items:
            f.write(json.dumps(x) + "\n")


def show_ops(c, upto):
    """a history in words, up to an operation"""
    rest = {k: v for k, v in c.items() if k not in ("ops", "id")}
    return json.dumps(rest) + "\n" + "\n".join("%3d %s" % (i + 1, json.dumps({k: v for k, v in op.items() if v not in ([], None, "")}))
                                               for i, op in enumerate(c.get("ops", [])[:upto]))
