"""C15: what a program gets does not depend on the process it runs in.  The same history
of edits, reads, parses and dictation events in processes with other string hash seeds,
other clocks and identities gives the same bytes, orders and values."""
from .. import history as H, model as M, reads, sim
from ..core import Violation
from . import c13

ID = "C15"
RUNS = {"quick": 300, "thorough": 9000}
SHRINK = ("parts", "parts.*.ops", "procs")
RULE = ("a case is 5-14 histories (editing and reading a grammar; parsing what another one "
        "exports; resolving imports; a dictation session) played in 2 processes with "
        "different string hash seeds, environment and allocation patterns; non-trivial when every process got "
        "through them")
REAL = ["jsgf.expansions", "jsgf.rules", "jsgf.grammars", "jsgf.parser",
        "jsgf.ext.grammars", "jsgf.ext.rules", "jsgf.ext.expansions", "pyparsing",
        "python processes", "string hashing"]
STUB = ["random module (SimRandom, the same stream in each process)"]
PROBES = ["edits", "reads", "generated", "parsed", "session", "weights", "order-of-rules",
          "ties", "imports"]
ASSUMPTIONS = ["the random module is seeded alike in both processes"]


def prepare(base, tier, seed):
    H.warm(base)


def gen(rng, cfg):
    parts = []
    for _ in range(rng.randint(5, 14)):
        x = rng.random()
        if x < 0.2:
            parts.append(imports(rng))
        elif x < 0.75:
            spec, ed = H.gen_spec(rng, 4)
            import copy
            start = copy.deepcopy(ed.spec)
            ops = H.gen_ops(rng, ed, rng.randint(4, 14), rng.choice([0.2, 0.5]))
            if rng.random() < 0.5:
                ties(rng, start, ops)
            parts.append({"kind": "history", "spec": start, "ops": ops,
                          "back": rng.random() < 0.5})
        else:
            parts.append(dict(c13.gen(rng, cfg), kind="session"))
    return {"parts": parts, "procs": [[rng.randint(1, 4000000), rng.choice([0, 1, 1000])]
                                      for _ in range(1 if rng.random() < 0.8 else 2)]}


def imports(rng):
    """A grammar that imports from others, some of which have rules of the same name, are
    missing, broken or changed between the calls."""
    names = rng.sample(["lib", "com.acme.extra", "a.lib", "b.c.lib", "x-1"],
                       rng.randint(2, 5))
    pool = ["one", "two", "go", "play"]

    def text(n):
        rules = rng.sample(pool, rng.randint(1, 4))
        out = ["#JSGF V1.0;", "grammar %s;" % n]
        if rng.random() < 0.2:
            out.append("import <%s.%s>;" % (rng.choice(names), rng.choice(pool + ["*"])))
        for r in rules:
            out.append("%s<%s> = %s {%s-%s};" % (
                rng.choice(["public ", "public ", ""]), r, rng.choice(M.WORDS), n, r))
        return "\n".join(out) + "\n"

    def put():
        n = rng.choice(names)
        return ["put", rng.choice([n, n.replace(".", "/")]) +
                rng.choice([".jsgf", ".jsgf", ".jgram"]),
                rng.choice([text(n), text(n), text(n), "broken", None])]
    imps = []
    for n in rng.sample(names, rng.randint(1, len(names))):
        for r in rng.sample(pool + ["*", "*"], rng.randint(1, 3)):
            imps.append("%s.%s" % (n, r))
    rng.shuffle(imps)
    imps = list(dict.fromkeys(imps))
    refs = []
    for _ in range(rng.randint(1, 5)):
        n, r = rng.choice(names), rng.choice(pool)
        refs.append(rng.choice([r, r, "%s.%s" % (n.split(".")[-1], r), "%s.%s" % (n, r)]))
    ops = []
    if rng.random() < 0.8:
        ops += [["put", n + ".jsgf", text(n)] for n in names if rng.random() < 0.9]
    for _ in range(rng.randint(3, 9)):
        k = rng.choice(["res", "res", "get", "get", "find", "match", "env", "put", "imp",
                        "parse"])
        if k == "put":
            ops.append(put())
        elif k == "get":
            ops.append([k, rng.choice(refs + pool)])
        elif k == "find":
            ops.append([k, rng.choice(M.WORDS)])
        elif k == "match":
            ops.append([k, rng.randrange(len(refs)), rng.choice(M.WORDS)])
        elif k == "imp":
            ops.append([k, rng.choice(imps)])
        elif k == "parse":
            ops.append([k, rng.choice(names)])
        else:
            ops.append([k])
    return {"kind": "imports", "imports": imps, "refs": refs, "ops": ops}


def ties(rng, spec, ops):
    """A rule several alternatives of which match the same words, as they weigh the same:
    the library has to choose, but not by hash or address."""
    words = rng.sample(M.WORDS, 2)

    def same(k):
        lits = [{"k": "lit", "t": w} for w in words]
        e = [{"k": "lit", "t": " ".join(words)}, {"k": "seq", "c": lits},
             {"k": "grp", "c": lits}, {"k": "seq", "c": [lits[0], {"k": "opt", "c": [
                 lits[1]]}]},
             {"k": "alt", "c": [{"k": "seq", "c": lits}, {"k": "lit", "t": "other"}]},
             {"k": "seq", "c": [{"k": "rep", "c": [lits[0]]}, lits[1]]}][k]
        e["tag"] = "same%d" % k
        return e
    kids = [same(k) for k in rng.sample(range(6), rng.randint(2, 5))]
    alt = {"k": "alt", "c": kids}
    if rng.random() < 0.7:
        w = rng.choice([[1], [2], [1, 2], [0.5, 1]])
        alt["w"] = [rng.choice(w) for _ in kids]
    e = alt if rng.random() < 0.6 else {"k": rng.choice(["rep", "opt", "grp"]), "c": [alt]}
    spec["rules"].append({"n": "tied", "v": rng.random() < 0.8, "e": e})
    for _ in range(rng.randint(2, 5)):
        s = " ".join(words)
        op = rng.choice([["t", "tied", s], ["m", "tied", s], ["f", s], ["p", "tied",
                         "and " + s], ["rc", "tied", False], ["g", "tied",
                         rng.randrange(1000)], ["ht", "tied", "same1"]])
        ops.insert(rng.randint(0, len(ops)), ["r", op])


class Note(object):
    """A recorder that keeps what a session logs."""

    def __init__(self):
        self.out = []
        self.nontrivial = False

    def log(self, *ev):
        self.out.append(repr(ev))

    def probe(self, *a):
        pass
    fault = step = probe


def play(parts):
    """Everything the histories give, as JSON."""
    import jsgf as J
    import jsgf.ext as X
    import jsgf.parser as P
    out = []
    for p in parts:
        if p["kind"] == "session":
            out.append(session(p, J, X))
            continue
        if p["kind"] == "imports":
            out.append(importing(p, J, P))
            continue
        g = M.build_grammar(p["spec"], J)
        h = H.History(g, p["spec"], J)
        res = [h.do(op) for op in p["ops"]]
        res.append(h.all())
        res.append(order(h))
        if p["back"]:
            def back():
                q = P.parse_grammar_string(g.compile())
                return [q.compile(), q.rule_names, str(q.rules),
                        [r.name for r in q.find_matching_rules("alpha bravo")]]
            try:
                res.append(reads.attempt(back))
            except Exception as e:   # noqa
                res.append([type(e).__name__, str(e)])
        out.append(res)
    return out


def importing(p, J, P):
    """Play the part in a directory of its own."""
    import os
    import shutil
    import tempfile
    home, here = os.getcwd(), tempfile.mkdtemp(prefix="dst-c15-", dir=".")
    os.chdir(here)
    out = []
    try:
        g = J.Grammar("main")
        for imp in p["imports"]:
            g.add_import(J.Import(imp))
        for k, ref in enumerate(p["refs"]):
            g.add_rule(J.PublicRule("m%d" % k, J.NamedRuleRef(ref)))
        for op in p["ops"]:
            try:
                out.append(importing_op(g, op, J, P))
            except Exception as e:   # noqa
                out.append([type(e).__name__,
                            str(e) if type(e).__name__ != "RecursionError" else ""])
    finally:
        os.chdir(home)
        shutil.rmtree(os.path.join(home, here))
    return out


def importing_op(g, op, J, P):
    import os
    k = op[0]
    if k == "put":
        d = os.path.dirname(op[1])
        if d and not os.path.isdir(d):
            os.makedirs(d)
        if op[2] is None:
            if os.path.exists(op[1]):
                os.remove(op[1])
        else:
            with open(op[1], "w") as f:
                f.write(op[2])
        return "put"
    if k == "res":
        g.resolve_imports()
    elif k == "get":
        return str(g.get_rule(op[1]))
    elif k == "find":
        return [r.name for r in g.find_matching_rules(op[1])]
    elif k == "match":
        r = g.rules[op[1] % len(g.rules)]
        return [bool(r.matches(op[2])), r.matched_tags]
    elif k == "imp":
        return str(J.Import(op[1]).resolve())
    elif k == "parse":
        x = P.parse_grammar_file(op[1] + ".jsgf")
        x.resolve_imports()
        return [str(x), [[n, str(v)] for n, v in x.import_environment.items()]]
    return [[n, str(v)] for n, v in g.import_environment.items()]


def order(h):
    """Orders that come from the library alone."""
    g = h.g
    return [[r.name, reads.attempt(lambda: len(r.dependencies)),
             reads.attempt(lambda: [[t, [x.name for x in g.find_tagged_rules(t, True)]]
                                    for t in sorted(r.tags)])]
            for r in g.rules]


def session(scn, J, X):
    note = Note()
    try:
        s = c13.Session(scn, J, X, note)
        if not s.specs:
            return []
        out = []
        for i, op in enumerate(scn["ops"]):
            s.do(op, str(i))
            out.append([reads.attempt(s.g.compile),
                        reads.attempt(s.g.compile_as_root_grammar),
                        s.g.rule_names, [x.name for x in s.g.match_rules],
                        [str(x) for x in s.g.rules],
                        [[[y.name, s.g.get_original_rule(y).name]
                          for y in s.g.get_generated_rules(x)]
                         for x in s.rules.values()]])
    except Violation as v:      # C13's business
        out = [v.cls]
    return [out, note.out]


def run(scn, rec):
    if not scn["parts"]:
        return
    want = play(scn["parts"])
    for p in scn["parts"]:
        if p["kind"] == "session":
            rec.probe("session")
            continue
        if p["kind"] == "imports":
            rec.probe("imports")
            continue
        rec.probe("edits", sum(op[0] == "e" for op in p["ops"]))
        rec.probe("reads", sum(op[0] == "r" for op in p["ops"]))
        rec.probe("generated", sum(op[1][0] in ("g", "xg") for op in p["ops"]))
        rec.probe("parsed", p["back"])
        rec.probe("ties", any(r["n"] == "tied" for r in p["spec"]["rules"]))
        rec.probe("order-of-rules", len(p["spec"]["rules"]) > 1)
        rec.probe("weights", any("w" in x and x["k"] == "alt" for r in p["spec"]["rules"]
                                 for x in M.walk(r["e"])))
    rec.log(want)
    for seed, pad in scn["procs"]:
        rec.fault("other-process")
        got = H.other_process({"play": scn["parts"], "pad": pad}, seed)
        rec.step(sum(len(p["ops"]) for p in scn["parts"]))
        if "error" in got:
            raise Violation("other-process-error", got["error"])
        got = got["results"]
        import json
        ours = json.loads(json.dumps(want))
        for k, (a, b) in enumerate(zip(got, ours)):
            if a != b:
                raise Violation("differs", "history %d: %s" % (k, diff(a, b)))
        rec.nontrivial = True


def diff(a, b, at=""):
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return diff(x, y, at + "[%d]" % i)
    return "at %s: %r in the other process, %r in this one" % (at, a, b)
