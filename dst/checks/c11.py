"""C11: grammars that share nothing affect each other in nothing.  Clients in their own
threads, each parsing, editing, matching, compiling and checkpointing its own grammar, get
exactly what each gets when it runs alone, whatever the interleaving and whoever dies."""
import copy
import json
import os
import pickle

from .. import history as H, model as M, reads, sim
from ..core import Violation, pristine

ID = "C11"
RUNS = {"quick": 1000, "thorough": 20000}
SHRINK = ("switches", "clients")
RULE = ("a case is 2-4 clients with a grammar each (often equal ones) in threads that are "
        "preempted at chosen lines of library code, some killed half way; non-trivial "
        "when at least 5 preemptions took effect")
REAL = ["jsgf.expansions", "jsgf.rules", "jsgf.grammars", "jsgf.parser",
        "jsgf.ext.expansions", "pyparsing", "threads"]
STUB = ["random module (SimRandom, one stream per client)", "thread scheduling (one "
        "thread runs at a time; preemption at chosen lines)", "threading locks"]
PROBES = ["hot-function", "equal-grammars", "parts", "library", "file", "session", "header",
          "parsed", "import", "killed", "switch-in-match",
          "switch-in-parse", "switch-in-compile", "pickled"]
ASSUMPTIONS = ["preemption happens between lines of library code, not inside pyparsing"]


def gen(rng, cfg):
    n = rng.choice([2, 2, 3, 4])
    lib = rng.random() < 0.2
    same = rng.random() < 0.5
    extras = [k for k in ("parts", "lib", "file", "session", "header")
              if rng.random() < 0.4] \
        if rng.random() < 0.6 else []
    clients, base = [], None
    for _ in range(n):
        if base is None or not same:
            base = H.gen_spec(rng, 3)
            if lib:
                r = rng.choice(base[0]["rules"])
                r["e"] = {"k": "seq", "c": [r["e"], {"k": "ref", "n": "part"}]}
                base[0]["imports"] = [rng.choice(["lib.*", "lib.part"])]
                H.simple_edits(base[1], ["text", "tag", "vis", "active"])
        spec, ed = base
        ed = copy.deepcopy(ed)
        ed.rng = ed.gen.rng = rng
        ed.spec = copy.deepcopy(spec)
        ops = []
        for _ in range(rng.randint(2, 6)):
            x = rng.random()
            if x < 0.2:
                ops.append(["parse", rng.randrange(10 ** 6)])
            elif x < 0.27:
                ops.append(["pickle", rng.randint(0, 5)])
            elif x < 0.5 and extras:
                ops.append([rng.choice(extras), rng.randrange(10 ** 6)])
            else:
                ops += H.gen_ops(rng, ed, 1, rng.choice([0.1, 0.5]))
        clients.append({"spec": copy.deepcopy(spec), "ops": ops})
    k = rng.choice([6, 20, 60, 200])
    if rng.random() < 0.3:       # a burst: many switches close together
        a = rng.random()
        at = sorted(round(min(1, a + rng.random() * 0.03), 6) for _ in range(k))
    else:
        at = sorted(round(rng.random(), 6) for _ in range(k))
    kills = []
    if rng.random() < 0.25:
        kills = [[rng.randrange(n), round(rng.random(), 4)]]
    return {"clients": clients, "lib": lib, "kills": kills,
            "first": rng.randrange(n),
            "hot": [round(rng.random(), 6), rng.choice([1, 1, 2, 3, 7])]
            if rng.random() < 0.5 else None,
            "switches": [[f, rng.randrange(n)] for f in at]}


# Texts the parser is given: every construct, quick to parse.
TEXTS = ["#JSGF V1.0 UTF-8 en;\ngrammar t%d;\npublic <a> = alpha [bravo] (cargo|<b>)+ "
         "{t};\n<b> = /2/ delta | /1.5/ ember;\n",
         "#JSGF V1.0;\ngrammar t%d.x;\nimport <lib.*>;\npublic <a> = (alpha {x} | "
         "bravo {y})* cargo;\n",
         "#JSGF V1.0;\ngrammar t%d;\n/* c */ public <a> = <NULL> alpha <VOID>;\n",
         "#JSGF V1.0;\ngrammar t%d;\npublic <a> = alpha {x} {y} bravo;\n<b> = <a> "
         "[<a>];\n",
         "#JSGF V1.0;\ngrammar t%d;\npublic <a> = alpha+ {x};\n",
         "#JSGF V1.0;\ngrammar t%d;\npublic <a> = (alpha;\n"]


# Texts of single rules and expansions; clients often parse the same ones.
PARTS = [("public <a> = alpha [bravo] cargo {t};", "rule"),
         ("<b> = /2/ delta | /1/ (ember foxtrot);", "rule"),
         ("alpha | bravo {x} | [cargo]+", "expansion"),
         ("delta <b> ember*", "expansion")]
LIB = ("#JSGF V1.0;\ngrammar lib;\npublic <part> = library | imported words;\n"
       "public <other> = unrelated;\n")


def change(e, k, J):
    """Change a tree one owns, in a way every reader of it could see."""
    lits = J.filter_expansion(e, lambda x: isinstance(x, J.Literal) and x.text,
                               shallow=True)
    alts = J.filter_expansion(e, lambda x: isinstance(x, J.AlternativeSet),
                               shallow=True)
    if k % 3 == 0 or not lits:
        e.tag = "mine%d" % (k % 7)
    elif k % 3 == 1 or not alts or not alts[0].weights:
        lits[k % len(lits)].text = "own words %d" % (k % 7)
    else:
        alts[0].set_weight(alts[0].children[0], 1 + k % 7)


class Client(object):
    def __init__(self, c, J, P, k):
        self.c, self.J, self.P, self.k = c, J, P, k
        self.out = []
        self.h = None

    def step(self, op):
        J, P = self.J, self.P
        if op[0] == "parse":
            text = TEXTS[op[1] % len(TEXTS)] % (op[1] % 100)
            try:
                g = P.parse_grammar_string(text)
            except Exception as e:   # noqa
                if isinstance(e, sim.SimInterrupt):
                    raise
                return ["error", type(e).__name__, str(e)]
            out = [g.name, g.compile(), str(g.rules)]
            out.append(reads.attempt(lambda: [r.name for r in
                                              g.find_matching_rules("alpha bravo")]))
            return out
        if op[0] == "parts":
            text, kind = PARTS[op[1] % len(PARTS)]
            parse = P.parse_rule_string if kind == "rule" else P.parse_expansion_string
            out = []
            for k in (op[1], op[1] // 7):
                x = parse(text)
                out.append(x.compile() if kind == "rule" else x.compile(False))
                change(x.expansion if kind == "rule" else x, k, J)
                if kind == "rule" and k % 2:
                    x.name, x.visible = "mine%d" % (k % 5), False
                    g = J.Grammar("own")
                    g.add_rule(x)
                out.append(x.compile() if kind == "rule" else x.compile(True))
            return out
        if op[0] == "lib":
            imp = J.Import(["lib.*", "lib.part", "lib.other"][op[1] % 3])
            out = []
            for k in (op[1], op[1] // 7):
                x = imp.resolve()
                rules = x if isinstance(x, list) else [x]
                out.append([r.compile() for r in rules])
                change(rules[-1].expansion, k, J)
                if k % 2:
                    rules[0].name = "mine%d" % (k % 5)
                    rules[-1].visible = False
                out.append([[r.compile(), r.grammar.compile()] for r in rules])
            return out
        if op[0] == "file":
            path = "own%d.jsgf" % self.k
            self.h.g.compile_to_file(path, bool(op[1] % 2))
            out = [open(path, encoding="utf-8").read()]
            try:
                q = P.parse_grammar_file("lib.jsgf" if op[1] % 3 else path)
                out.append(q.compile())
                if q.rules:
                    change(q.rules[-1].expansion, op[1], J)
                out.append(q.compile())
            except (J.GrammarError, P.ParseException) as e:
                out.append(type(e).__name__)
            return out
        if op[0] == "header":
            g, k = self.h.g, op[1]
            if k % 3 == 0:
                out = [reads.attempt(lambda: g.compile_grammar(
                    "latin-%d" % (k % 5), "xx%d" % (k % 7), "1.%d" % k))]
            else:
                g.jsgf_version = "1.%d" % (k % 5)
                g.language_name = ["xx%d" % (k % 7), ""][k % 2]
                g.charset_name = "latin-%d" % (k % 5)
                out = [reads.attempt(g.compile)]
            new = J.Grammar()
            root = J.RootGrammar([J.PublicRule("a", "alpha")], name="own")
            return out + [new.name, new.jsgf_header, new.compile(), root.compile(),
                          P.parse_grammar_string(TEXTS[1 + k % 3] % 1).jsgf_header]
        if op[0] == "session":
            import jsgf.ext as X
            g = X.DictationGrammar()
            out = []
            for k in (op[1] % 3, op[1] // 3 % 3):
                e = [J.Sequence("alpha", X.Dictation(), "bravo"),
                     J.AlternativeSet("cargo", J.Sequence("delta", X.Dictation())),
                     J.Literal("ember")][k]
                g.add_rule(J.Rule("r%d%s" % (k, "ab"[len(out)]), True, e))
                out.append(k)
            out.append(g.compile())
            for s in ("alpha", "some words", "bravo", "cargo", "delta", "more"):
                got = reads.attempt(lambda: [r.name for r in g.find_matching_rules(s)])
                out += [got, g.compile_as_root_grammar()]
            if op[1] % 2:
                g.reset_sequence_rules()
                out.append(g.compile())
            return out
        if op[0] == "pickle":
            self.h.g = pickle.loads(pickle.dumps(self.h.g, op[1]))
            return self.h.all()
        if op[0] == "r" and op[1][0] in ("g", "xg"):
            return generated(self.h, op[1], J)
        return self.h.do(op)

    def __call__(self):
        spec = self.c["spec"]
        self.h = H.History(M.build_grammar(spec, self.J), spec, self.J)
        for op in self.c["ops"]:
            self.out.append(self.step(op))
        self.out.append(self.h.all())


def generated(h, op, J):
    """Draws of several clients mix, so judge the sentence instead of comparing it."""
    r = reads.find(h.g, op[1])
    if r is None:
        return None
    env = M.env_of(h.spec["rules"])
    unjudged = any(x["k"] in ("ref", "void", "dict") for x in M.walk(env[op[1]]))
    try:
        s = r.generate()
    except (J.GrammarError, J.JSGFImportError) as e:
        return "unjudged" if unjudged else type(e).__name__
    if unjudged:
        return "unjudged"
    return M.in_language(env[op[1]], s, env) or not r.active and not s


def run(scn, rec):
    import jsgf as J
    import jsgf.parser as P
    clients = [c for c in scn["clients"] if c["spec"]["rules"]]
    if len(clients) < 2:
        return
    with open("lib.jsgf", "w") as f:
        f.write(LIB)
    want, counts, names = [], [], set()

    def alone(c, k):
        sim.RANDOM.program(1)
        x = Client(c, J, P, k)
        with sim.Lines() as lines:
            x()
        return [x.out, lines.n, sorted(lines.names)]
    for k, c in enumerate(clients):      # in a process of its own
        out, n, seen = pristine(lambda: alone(c, k))
        names.update(seen)
        want.append(out)
        counts.append(n)
    total = sum(counts)
    kills = {k: max(1, int(f * counts[k])) for k, f in scn["kills"] if k < len(clients)}
    live = [Client(c, J, P, k) for k, c in enumerate(clients)]
    sim.RANDOM.program(2)
    ts = sim.ThreadSim(live, [[int(f * total), t % len(clients)]
                              for f, t in scn["switches"]],
                       scn["first"] % len(clients), kills,
                       sim.hot_function(scn.get("hot"), names))
    res = ts.run()
    rec.step(ts.lines)
    rec.fault("preemption", ts.taken)
    rec.probe("hot-function", ts.hot is not None)
    rec.nontrivial = ts.taken >= 5
    rec.log(ts.order[:50], ts.lines, [x.out for x in live])
    for _, _, where in ts.order:
        rec.probe({"_parse_action": "switch-in-match", "save": "switch-in-match",
                   "process": "switch-in-match", "postParse": "switch-in-match",
                   "_transform_tokens": "switch-in-parse",
                   "_post_process": "switch-in-parse", "post_process": "switch-in-parse",
                   "_make_grammar": "switch-in-parse",
                   "compile": "switch-in-compile"}.get(where, "switch-elsewhere"))
    rec.probe("import", scn["lib"])
    if all(c["spec"] == clients[0]["spec"] for c in clients):
        rec.probe("equal-grammars")
    for c in clients:
        rec.probe("parsed", sum(o[0] == "parse" for o in c["ops"]))
        rec.probe("pickled", sum(o[0] == "pickle" for o in c["ops"]))
        for kind, name in (("parts", "parts"), ("lib", "library"), ("file", "file"),
                           ("session", "session"), ("header", "header")):
            rec.probe(name, sum(o[0] == kind for o in c["ops"]))
    for k, (x, (how, e)) in enumerate(zip(live, res)):
        x.out = json.loads(json.dumps(x.out, default=str))
        if how == "raise":
            if isinstance(e, sim.SimInterrupt) and k in kills:
                rec.fault("killed-client")
                rec.probe("killed")
                done = x.out
                if done != want[k][:len(done)]:
                    raise Violation("crosstalk", "client %d before its death: %r instead "
                                    "of %r" % (k, done, want[k][:len(done)]))
                continue
            if isinstance(e, Exception) and not isinstance(e, sim.Deadlock):
                raise Violation("crosstalk-error", "client %d raised %s: %s; alone it "
                                "does not" % (k, type(e).__name__, e)) from e
            raise e
        if x.out != want[k]:
            i = [a == b for a, b in zip(x.out, want[k])].index(False)
            raise Violation("crosstalk", "client %d, step %d: %r instead of %r" % (
                k, i, x.out[i], want[k][i]))


def simplify(scn):
    if scn.get("hot"):
        yield dict(scn, hot=None)
    for k, c in enumerate(scn["clients"]):
        if len(scn["clients"]) > 2:
            d = json.loads(json.dumps(scn))
            del d["clients"][k]
            d["kills"] = []
            yield d
