"""Which stages decide which property."""
import json
from base import Cases, Hist, Model, Replay, show_text

PARSE = ("match", "value", "crash", "panic")
CALLS = ("call", "extra call", "missing call")

PROPS = {}


def show_deep(c, i):
    op = c["ops"][0]
    return "family %s, size %d: %s (grammar: see harness/deep.go)" % (op["o"], op["n"], json.dumps(op["r"]))


def deep(x, families="", quick=10, thorough=40):
    """grammars and texts of all sizes, of some families"""
    k = len(families.split(",")) if families else 24
    return Hist("deep" + (families and ":" + families), k * x.n(quick, thorough), "Deep", seed=5, name="deep", show=show_deep)


def prop(pid, stages, assumptions=(), flags=()):
    PROPS[pid] = dict(stages=stages, assumptions=list(assumptions), flags=list(flags))


prop("C01", lambda x: [
    Cases("core", x.n(700, 6000), "PegCheck", ("match", "crash"), 1),
    Cases("back", x.n(300, 3000), "PegCheck", ("match", "crash"), 2),
    Cases("regex", x.n(400, 5000), "PegCheck", ("match", "crash"), 3),
])
prop("C02", lambda x: [
    Cases("shape", x.n(900, 8000), "PegCheck", ("value", "crash"), 1),
    Cases("core", x.n(200, 2000), "PegCheck", ("value", "crash"), 2),
    Cases("merge", x.n(300, 4000), "PegCheck", ("value", "crash"), 3),
    deep(x, "labels,list,right"),
])
prop("C03", lambda x: [
    Cases("skip", x.n(700, 6000), "PegCheck", PARSE, 1),
    Model("PackratMC", "PackratMC_no", dict(MaxAltA=1, MaxText=2) if x.quick else dict(MaxText=3)),
    deep(x, "rules,again"),
])
prop("C04", lambda x: [
    Cases("memo", x.n(600, 5000), "PackratCheck", CALLS, 1),
    Model("PackratMC", "PackratMC_no", dict(MaxAltA=1, MaxText=2) if x.quick else dict(MaxText=3)),
    deep(x, "rules,again,right,chain"),
])
prop("C05", lambda x: [
    Cases("expr", x.n(250, 2000), "PegCheck", PARSE, 1),
    Cases("lrd", x.n(500, 5000), "PegCheck", PARSE, 2),
    Model("PackratMC", "PackratMC_direct", dict(MaxText=2) if x.quick else dict(MaxAltB=2)),
    deep(x, "left,postfix,far"),
])
prop("C06", lambda x: [
    Cases("member", x.n(200, 2000), "PegCheck", PARSE, 1),
    Cases("lr", x.n(500, 5000), "PackratCheck", PARSE, 2),
    Cases("retry", x.n(200, 2500), "PackratCheck", PARSE, 3),
    Cases("entry", 4, "PegCheck", PARSE, keyed=True),
    Model("PackratMC", "PackratMC_any", dict() if x.quick else dict(MaxSeq=2, MaxAltB=1)),
    deep(x, "cycle,mutual"),
])
prop("C07", lambda x: [
    Cases("lines", x.n(500, 4000), "PackratCheck", ("match", "errpos", "linecol", "crash"), 1),
    Cases("lr", x.n(200, 2000), "PackratCheck", ("match", "errpos", "linecol", "crash"), 2),
    deep(x, "unclosed,long,lines,badtoken"),
])
prop("C08", lambda x: [
    Cases("rep", x.n(700, 6000), "PegCheck", PARSE, 1),
    deep(x, "list,long,word,exactly,fewer,more"),
])
prop("C09", lambda x: [
    Cases("back", x.n(600, 6000), "PackratCheck", PARSE, 1),
    Cases("shape", x.n(300, 3000), "PackratCheck", PARSE, 2),
])
prop("C10", lambda x: [
    Cases("cb", x.n(800, 7000), "PackratCheck", PARSE + CALLS, 1),
])
prop("C13", lambda x: [
    Hist("rune", x.n(1500, 20000), "StreamCheck", seed=1),
    Replay("StreamMC", "StreamMC_rune", "stream", None if x.quick else dict(MaxLen=4)),
])
COORDS = ("ptl", "ptc", "line", "col", "lines", "len", "code", "crash")
prop("C14", lambda x: [
    Hist("tok", x.n(1500, 20000), "StreamCheck", seed=1),
    Replay("StreamMC", "StreamMC_tok", "stream", None if x.quick else dict(MaxLen=4)),
])
prop("C15", lambda x: [
    Cases("tokens", x.n(600, 6000), "PackratCheck", PARSE + ("errpos", "linecol") + CALLS, 1),
    deep(x, "tokens,badtoken"),
])
def show_go(c, i):
    op = c["ops"][0]
    return "source: %s\nobserved: %s" % (
        show_text(c["src"]), op["err"] and op["msg"] or show_text(op["work"]) + " " + json.dumps(op["places"]))


prop("C16", lambda x: [
    Hist("golex", x.n(2000, 30000), "GoLexCheck", seed=1, show=show_go),
])
prop("C17", lambda x: [
    Hist("native", x.n(1500, 20000), "NativeCheck", seed=1),
    Replay("NativeMC", "NativeMC", "native", None if x.quick else dict(MaxOps=4)),
])
def show_session(c, upto):
    t = ["grammar %d:\n  %s" % (i + 1, "\n  ".join(g["text"])) for i, g in enumerate(c["grams"])]
    t += ["text %d: %s" % (i + 1, show_text(x["in"])) for i, x in enumerate(c["texts"])]
    return "\n".join(t + ["%3d %s" % (i + 1, json.dumps(e)) for i, e in enumerate(c["log"][:upto])])


prop("C11", lambda x: [
    Hist("session", x.n(600, 6000), "Session", seed=1, show=show_session),
    Cases("weave", x.n(300, 3000), "PackratCheck", PARSE + CALLS + ("errpos", "linecol"), 2),
])
prop("C12", lambda x: [
    Cases("trace", x.n(400, 4000), "TraceCheck", PARSE + CALLS + ("errpos", "linecol"), 1),
])
def show_rules(c, i):
    op = c["ops"][i - 1]
    return "grammar (trace options %s):\n  %s\n%s: %s" % (json.dumps(c["topt"]), "\n  ".join(c["text"]), op["o"], json.dumps(op["r"]))


prop("C20", lambda x: [
    Hist("rules", x.n(1200, 12000), "RuleTableCheck", seed=1, show=show_rules),
    Cases("layout", x.n(400, 4000), "PackratCheck", PARSE + CALLS, 2),
    deep(x, "chain,rules"),
])
prop("C21", lambda x: [
    deep(x, "", 12, 60),
])
def show_lisp(c, upto):
    return "\n".join("> %s\n%s" % (op["s"], json.dumps(op["r"], ensure_ascii=False)) for op in c["ops"][:upto]) + (
        "\nexpected: %s" % json.dumps(c["ops"][upto - 1]["x"], ensure_ascii=False) if c["ops"] and "x" in c["ops"][upto - 1] else "")


prop("C22", lambda x: [
    Hist("lisp", x.n(700, 6000), "LispCheck", seed=1, show=show_lisp),
    Replay("LispMC", "LispMC", "lisp1", dict(MaxLen=3 if x.quick else 4, Alphabet=1), name="reading", show=show_lisp),
    Replay("LispMC", "LispMC", "lisp1", dict(MaxLen=3 if x.quick else 4, Alphabet=2, Every=5 if x.quick else 17), name="evaluating", show=show_lisp),
    Replay("LispSaid", "LispSaid", "lispsaid", name="said", show=show_lisp, key=lambda op: (op["s"] + ":" + json.dumps(op["r"])).replace(" ", "_")),
])
prop("C26", lambda x: [
    Replay("Helpers", "Helpers", "helpers", dict() if x.quick else dict(MaxPieces=3, MaxList=6, MaxLife=7)),
])
prop("C23", lambda x: [
    Replay("Options", "Options", "options", dict(MaxItems=3),
           key=lambda op: "%s(%s)%s:%s" % (op["o"], json.dumps(op["d"]).replace(" ", "") if op["o"] == "or" else "", repr(op["env"]), json.dumps(op["r"]).replace(" ", ""))),
])
prop("C24", lambda x: [
    Cases("origin", x.n(700, 7000), "PackratCheck", ("value", "call", "crash"), 1),
    deep(x, "far"),
])
prop("C25", lambda x: [
    Cases("trace", x.n(400, 4000), "TraceCheck", ("line", "missing line", "extra line", "noise", "crash"), 2),
])


prop("C27", lambda x: [
    Cases("gone", x.n(500, 5000), "PackratCheck", PARSE + CALLS, 1),
    Hist("building", x.n(1500, 20000), "SyntaxCheck", ("build", "crash"), 3, show=show_ruletext),
    Replay("Lines", "Lines", "declare", dict(MaxMore=2 if x.quick else 3)),
])


def show_rule(r):
    return r[0] if r[0] != "yes" else show_text(r[1])


def show_step(c, i):
    op = c["ops"][i - 1]
    return "rule text: %s\nexpected: %s\nobserved: %s" % (show_text(op["s"]), show_rule(op["x"]), show_rule(op["r"]))


def show_ruletext(c, i):
    op = c["ops"][min(i, len(c["ops"])) - 1]
    return "rule text: %s\nread by generation %d: %s" % (show_text(op["s"]), op["gen"], show_rule(op["r"]))


def enumerated(x, kind, more=0):
    n = 3 if x.quick else 4
    return [Replay("SyntaxMC", "SyntaxMC", kind, dict(MaxLen=n + more + (a == 1), Alphabet=a),
                   name="syntax-%d-%s" % (a, kind), show=show_step) for a in (0, 1, 2, 3)]


prop("C18", lambda x: enumerated(x, "rule1", -1) + enumerated(x, "rule2", -1) + [
    Hist("ruletext", x.n(1500, 20000), "SyntaxCheck", ("again", "crash"), 3, show=show_ruletext),
    Cases("again", x.n(400, 4000), "PegCheck", PARSE, 1),
])
prop("C19", lambda x: enumerated(x, "rule0") + [
    Hist("ruletext", x.n(2500, 40000), "SyntaxCheck", ("rule", "crash"), 1, show=show_ruletext),
    Cases("format", x.n(400, 4000), "PegCheck", PARSE, 2),
])
prop("C28", lambda x: [
    Cases("parallel", x.n(250, 4000), "PackratCheck", PARSE + CALLS + ("errpos", "linecol"), 1),
    Hist("golexpar", x.n(300, 5000), "GoLexCheck", seed=1, show=show_go),
    Model("Parallel", "Parallel", dict(Procs="{1, 2, 3}") if x.quick else dict(Procs="{1, 2, 3, 4}")),
], flags=["-race"])
