"""C07: matching and compiling always reflect the current definition, whatever the
history of edits and earlier matches (editor and recogniser clients interleaved)."""
import copy

from .. import edits, model as M, sim
from ..core import Violation

ID = "C07"
RUNS = {"quick": 8000, "thorough": 40000}
SHRINK = ("ops", "spec")
RULE = ("a case is one seeded interleaving of an editor client (%d kinds of edit) and "
        "recogniser clients on one grammar of 1-5 rules; non-trivial when at least one "
        "edit lands between two matches of a rule that is still there" %
        len(set(edits.Editor.KINDS)))
REAL = ["jsgf.expansions", "jsgf.rules", "jsgf.grammars", "pyparsing"]
STUB = ["random source (SimRandom)"]
PROBES = ["match-true", "match-false", "match-error", "edit-after-match",
          "repeat-matched", "joint", "imp", "libedit", "removed-then-added", "model-compared"]
ASSUMPTIONS = ["weighted alternatives are edited as whole alternatives (weights are "
               "keyed by the alternative's value)",
               "objects are not shared between two trees"]


def gen(rng, cfg):
    names = list(M.RULE_NAMES)
    rng.shuffle(names)
    names = names[:rng.randint(3, 7)]
    g = M.Gen(rng, reuse=rng.choice([0.0, 0.1, 0.5]), tags=rng.choice([0.1, 0.4]),
              weights=rng.choice([0.1, 0.5]), max_depth=rng.randint(1, 3),
              caps=rng.choice([0, 0.3]))
    rules = g.rules(rng.randint(1, min(4, len(names))), safe=rng.random() < 0.6)
    order = sorted(rng.sample(names, len(rules)), key=names.index)
    ren = {r["n"]: order[i] for i, r in enumerate(rules)}
    for r in rules:
        r["n"] = ren[r["n"]]
        for x in M.walk(r["e"]):
            if x["k"] == "ref":
                x["n"] = ren[x["n"]]
                if rng.random() < 0.3:
                    x["o"] = 1
    spec = {"name": "g", "rules": rules}
    if rng.random() < 0.2:
        spec["cs"] = True
        for r in rules:
            M.set_cs(r["e"], True)
    kinds = [k for k in edits.Editor.KINDS if rng.random() < 0.6] or ["text"]
    ed = edits.Editor(rng, g, spec, names, kinds)
    ops, n = [], rng.randint(3, 16)
    p_edit = rng.choice([0.3, 0.5, 0.7])
    hot, said = None, []
    focused = rng.random() < 0.6
    libs = libraries(rng, ed, ops) if rng.random() < 0.25 else None
    if libs:
        spec = copy.deepcopy(ed.spec)
    while len(ops) < n:
        if libs and rng.random() < p_edit * 0.6:
            op = libs()
            if op and edits.apply_spec(ed.spec, op):
                ops.append(["e", op])
            continue
        if ops and rng.random() < p_edit:
            ed.focus = hot if focused else None
            op = ed.op()
            if op:
                ops.append(["e", op])
                if op[0] == "rename" and hot == op[1]:
                    hot = op[2]
            continue
        rs, env = ed.spec["rules"], known(ed.spec)["rules"]
        if focused and edits.rule_of(ed.spec, hot) is not None and rng.random() < 0.7:
            u = utter(rng, [edits.rule_of(ed.spec, hot)], env)
        else:
            u = utter(rng, rs, env)
        if said and rng.random() < 0.15:
            u = rng.choice(said)     # what was said before, perhaps before an edit
        said.append(u)
        r = rng.random()
        if r < 0.5:
            if hot is None or rng.random() < (0.15 if focused else 0.5):
                hot = rng.choice(rs)["n"]
            ops.append(["m", hot, u])
        elif r < 0.75:
            ops.append(["f", u])
        elif r < 0.82:
            ops.append(["p", rng.choice(rs)["n"], u])
        elif r < 0.9:
            ops.append(["c", rng.random() < 0.4])
        elif r < 0.95:
            ops.append(["g", rng.choice(rs)["n"], rng.randrange(10 ** 6)])
        else:
            ops.append(["q", rng.choice(rs)["n"], rng.randrange(10 ** 6)])
    for r in ed.spec["rules"]:
        for _ in range(2):
            ops.append(["m", r["n"], utter(rng, [r], known(ed.spec)["rules"])])
    ops.append(["c", False])
    return {"spec": spec, "ops": ops}


LIBS = ["liba", "com.x.libb"]
LIB_RULES = ["part", "more"]


def libraries(rng, ed, ops):
    """Libraries with the same rule names that the grammar may import from; returns a
    generator of edits of import statements and of imported rules."""
    spec, words = ed.spec, iter(rng.sample(M.WORDS, len(M.WORDS)))

    def exp():
        n = {"k": "lit", "t": next(words)}
        if rng.random() < 0.4:
            n = {"k": "alt", "c": [n, {"k": "lit", "t": next(words)}]}
        return n

    spec["libs"] = {n: {"name": n, "rules": [{"n": r, "v": True, "e": exp()}
                                             for r in LIB_RULES]} for n in LIBS}
    spec["imports"] = [m for m in ["%s.%s" % (rng.choice(LIBS), rng.choice(
        ["part", "more", "*"])) for _ in range(rng.choice([1, 1, 2]))]]
    spec["imports"] = sorted(set(spec["imports"]))
    for r in rng.sample(spec["rules"], rng.randint(1, len(spec["rules"]))):
        ref = {"k": "ref", "n": rng.choice(["part", "part", "more", "libb.part",
                                            "liba.more", "com.x.libb.more"])}
        r["e"] = {"k": rng.choice(["seq", "alt"]), "c": rng.sample([r["e"], ref], 2)}
    spec.pop("cs", None)
    for r in spec["rules"]:
        M.set_cs(r["e"], False)
    # Rules of libraries take their case sensitivity from whoever imports them first.
    ed.kinds = [k for k in ed.kinds if k not in ("gcs", "rcs")] or ["text"]

    def edit():
        if rng.random() < 0.5:
            imps = ed.spec["imports"]
            if imps and rng.random() < 0.5:
                return ["imp", rng.choice(imps), False]
            return ["imp", "%s.%s" % (rng.choice(LIBS), rng.choice(
                ["part", "more", "*"])), True]
        how = rng.choice(["text", "text", "exp", "wrap", "active"])
        value = {"text": lambda: next(words), "exp": exp, "wrap": lambda: next(words),
                 "active": lambda: rng.random() < 0.5}[how]
        return ["libedit", rng.choice(LIBS), rng.choice(LIB_RULES), how, value()]

    def guarded():
        try:
            return edit()
        except (StopIteration, RuntimeError):
            return None
    return guarded


def known(spec):
    """The spec with what its import statements make available, under every name."""
    if not spec.get("libs"):
        return spec
    got = []
    for imp in spec["imports"]:
        lib, rule = imp.rsplit(".", 1)
        got += [(lib, r) for r in spec["libs"][lib]["rules"] if rule in ("*", r["n"])]
    rules = list(spec["rules"])
    mine = {r["n"] for r in rules}
    for x in [x for r in spec["rules"] for x in M.walk(r["e"]) if x["k"] == "ref"]:
        if x["n"] in mine:
            continue
        q = ".".join(x["n"].split(".")[-2:])
        hits = [r for lib, r in got if x["n"] == r["n"] or
                q == "%s.%s" % (lib.split(".")[-1], r["n"])]
        if len({id(r) for r in hits}) == 1:
            rules.append(dict(hits[0], n=x["n"]))
            mine.add(x["n"])
    return {"rules": rules}


def build(spec, J):
    """A fresh grammar of the definition."""
    g = M.build_grammar(spec, J)
    for op in spec.get("libedits", ()):
        edits.apply_live(g, spec, op, J)
    return g


def utter(rng, rules, env_rules=None):
    try:
        u = utterance(rng, rules, env_rules or rules)
    except KeyError:           # a dangling reference
        u = rng.choice(M.WORDS)
    return u


def utterance(rng, rules, env_rules):
    env = M.env_of(env_rules)
    r = rng.choice(rules)
    toks = M.sample(r["e"], rng, env) or [rng.choice(M.WORDS)]
    if rng.random() < 0.25:
        m = rng.random()
        if m < 0.3:
            toks = toks + [rng.choice(M.WORDS)]
        elif m < 0.6 and len(toks) > 1:
            del toks[rng.randrange(len(toks))]
        elif m < 0.8:
            toks[rng.randrange(len(toks))] = rng.choice(M.WORDS)
        else:
            rng.shuffle(toks)
    if rng.random() < 0.15:
        i = rng.randrange(len(toks))
        toks[i] = toks[i].upper() if rng.random() < 0.5 else toks[i].lower()
    return " ".join(toks)


def attempt(fn):
    from jsgf import GrammarError
    from jsgf.errors import JSGFImportError
    try:
        return ["ok", fn()]
    except GrammarError:
        return ["GrammarError", ""]
    except JSGFImportError:
        return ["JSGFImportError", ""]


def find(g, name):
    for r in g.rules:
        if r.name == name:
            return r
    return None


def do_match(g, op, J):
    k = op[0]
    if k == "m":
        r = find(g, op[1])
        res = attempt(lambda: bool(r.matches(op[2])))
        view = None
        if res[0] == "ok" and r.active:
            view = attempt(lambda: M.match_view(r, J))
        return [res, view]
    if k == "f":
        return attempt(lambda: [r.name for r in g.find_matching_rules(op[1])])
    if k == "p":
        return attempt(lambda: find(g, op[1]).find_matching_part(op[2]))
    if k == "c":
        return attempt(lambda: g.compile_as_root_grammar() if op[1] else g.compile())
    if k == "g":
        sim.RANDOM.program(op[2])
        return attempt(lambda: find(g, op[1]).generate())
    if k == "q":
        r = find(g, op[1])
        return attempt(lambda: relations(r, op[2], J))


def relations(rule, pick, J):
    """Tree relations after the documented invalidation for structural edits."""
    nodes = list(M.nodes_of(rule.expansion))
    J.map_expansion(rule.expansion, lambda e: e.invalidate_calculations(), shallow=True)
    out = []
    for k in range(6):
        a = nodes[(pick + 7 * k) % len(nodes)]
        b = nodes[(pick // 7 + 3 * k) % len(nodes)]
        out.append([bool(a.is_descendant_of(b)), bool(a.mutually_exclusive_of(b)),
                    bool(a.is_optional), bool(a.is_alternative)])
    return out


def simple(spec, name):
    """The reference recogniser is exact for this rule's matcher."""
    env = M.env_of(spec["rules"])
    e = env[name]
    if not all(x["n"] in env for r in spec["rules"] for x in M.walk(r["e"])
               if x["k"] == "ref"):
        return False
    return M.ll1(e, env)


def run(scn, rec):
    import jsgf as J
    spec = copy.deepcopy(scn["spec"])
    for name, lib in sorted(spec.get("libs", {}).items()):
        with open(name + ".jsgf", "w") as f:
            f.write(M.build_grammar(lib, J).compile())
    g = M.build_grammar(spec, J)
    matched, edited, removed = set(), False, set()
    for i, op in enumerate(scn["ops"]):
        rec.step()
        if op[0] == "e":
            before = copy.deepcopy(spec)
            if not edits.apply_spec(spec, op[1]):
                spec = before
                continue
            edits.apply_live(g, before, op[1], J)
            rec.log(i, "edit", op[1])
            rec.fault("edit-%s" % op[1][0])
            if op[1][0] in ("joint", "imp", "libedit"):
                rec.probe(op[1][0])
            if op[1][0] == "rmrule":
                removed.add(op[1][1])
            if op[1][0] == "addrule" and op[1][1]["n"] in removed:
                rec.probe("removed-then-added")
            if matched:
                edited = True
                rec.probe("edit-after-match")
            continue
        if op[0] in ("m", "p", "g", "q") and edits.rule_of(spec, op[1]) is None:
            continue
        fresh = build(spec, J)
        want = do_match(fresh, op, J)
        got = do_match(g, op, J)
        rec.log(i, op, got)
        if op[0] in ("m", "f", "p"):
            if edited:
                rec.nontrivial = True
            matched.add(op[0])
        if op[0] == "m":
            rec.probe("match-%s" % str(got[0][1] if got[0][0] == "ok"
                                       else "error").lower())
            if got[1] and got[1][0] == "ok" and any(
                    len(n) > 4 and n[4] for n in got[1][1]["nodes"]):
                rec.probe("repeat-matched")
        if got != want:
            raise Violation("stale-%s" % op[0], "after %d operations %r gives %r, a "
                            "freshly built equal definition gives %r" %
                            (i, op, got, want))
        if op[0] == "m" and not edits.rule_of(spec, op[1]).get("off") and \
                simple(known(spec), op[1]):
            env = M.env_of(known(spec)["rules"])
            m = M.in_language(env[op[1]], op[2], env)
            rec.probe("model-compared")
            if [["ok", m]] != [got[0]]:
                raise Violation("not-the-definition", "%r gives %r; the definition "
                                "says %r" % (op, got[0], m))


def simplify(scn):
    """Candidates with smaller subtrees: drop tags and weights."""
    import json
    for key in ("tag", "w", "o"):
        c = json.loads(json.dumps(scn))
        hit = False
        for r in c["spec"]["rules"]:
            for x in M.walk(r["e"]):
                if key in x:
                    del x[key]
                    hit = True
        if hit:
            yield c
