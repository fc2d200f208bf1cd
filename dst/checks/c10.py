"""C10: an edit that is refused changes nothing.  Whatever invalid edit a client attempts
at whatever point of a history, it raises, and the grammar then behaves in every respect
as if it had never been attempted.  The same goes for an edit with nothing to do."""
import copy

from .. import edits, history as H, model as M, reads
from ..core import Violation

ID = "C10"
RUNS = {"quick": 5000, "thorough": 50000}
SHRINK = ("ops", "spec")
RULE = ("a case is one interleaving of an editor, recognisers and a client that attempts "
        "invalid edits (50 kinds) on one grammar; non-trivial when at least one invalid "
        "edit was refused (or one of 13 kinds with nothing to do was made) and another operation followed")
REAL = ["jsgf.expansions", "jsgf.rules", "jsgf.grammars", "jsgf.ext.expansions",
        "pyparsing"]
STUB = ["random module (SimRandom)"]
PROBES = []
ASSUMPTIONS = ["batches (add_rules, remove_imports) are refused one element at a time"]

BAD_NAMES = ["NULL", "VOID", "", "two words", "a<b", "x*", '"q"', "e{f}", "g.h",
             None, 5, True, 2.5]
BAD_REFS = ["NULL.x y", "", "a b", "x..y<", "{t}", None, 5, 2.5]
KINDS = ["tag", "kids", "append", "extend", "insert", "setitem", "slice", "iterfail",
         "pop", "remove", "index", "parent", "text", "refname", "refnull", "w-neg",
         "w-type", "w-index", "w-batch", "w-dict", "rname", "rexp", "gname", "add-dup",
         "add-type", "add-noname", "rm-name", "rm-dep", "rm-foreign", "en-name",
         "dis-foreign", "imp-type", "imp-absent", "imp-name", "get-name", "cm", "ms",
         "newrule", "newref", "newrep", "order", "joint",
         "newseq", "add-stolen", "root", "rm-twice", "iadd", "xslice", "cycle",
         "cycle-parent", "joint-cycle"]
IDLE = ["import", "rule", "rules", "active", "tag", "text", "lcs", "name", "gname",
        "refname", "weight", "visible", "gcs"]
PROBES = ["refused-" + k for k in KINDS] + ["idle-" + k for k in IDLE]


def gen(rng, cfg):
    spec, ed = H.gen_spec(rng)
    if rng.random() < 0.2:
        spec["imports"] = ["lib.*", "aux.more"][:rng.randint(1, 2)]
        ed.spec = copy.deepcopy(spec)
    if rng.random() < 0.2:
        r = rng.choice(spec["rules"])
        r["e"] = {"k": "alt", "c": [r["e"], {"k": "ref", "n": "nowhere"}]}
        ed.spec = copy.deepcopy(spec)
    kinds = [k for k in KINDS if rng.random() < 0.7] or KINDS
    ops, p = [], rng.choice([0.1, 0.4])
    for _ in range(rng.randint(5, 14)):
        if not ed.spec["rules"]:
            break
        if rng.random() < 0.15:
            ops.append(["idle", rng.choice(IDLE), rng.choice(ed.spec["rules"])["n"],
                        rng.randrange(10 ** 6)])
            continue
        if rng.random() < 0.5:
            ops.append(["bad", rng.choice(kinds), rng.choice(ed.spec["rules"])["n"],
                        rng.randrange(10 ** 6), rng.randrange(10 ** 6)])
        else:
            ops += H.gen_ops(rng, ed, 1, p)
    ops += H.gen_ops(rng, ed, rng.randint(1, 3), 0.2)
    return {"spec": spec, "ops": ops}


class Boom(Exception):
    pass


def parts(offered, J):
    """What was offered to an edit, as it is now."""
    out = []
    for x in offered:
        e = x.expansion if isinstance(x, J.Rule) else x
        out.append([str(x), x.compile(), e.parent is None,
                    x.grammar is None if isinstance(x, J.Rule) else e.rule is None,
                    [n.case_sensitive for n in M.nodes_of(e)
                     if isinstance(n, J.Literal)]])
    return out


def attempt_bad(h, kind, name, pick, pick2, offered, J):
    """The invalid edit as a function of no arguments; None if the grammar has no place
    for it.  `offered` receives what it offers to the grammar."""
    g = h.g
    r = reads.find(g, name)
    if r is None:
        return None
    nodes = list(M.nodes_of(r.expansion))

    def some(*types):
        pool = [e for e in nodes if isinstance(e, types)]
        return pool[pick % len(pool)] if pool else None

    e = nodes[pick % len(nodes)]
    var = some(J.Sequence, J.AlternativeSet)
    alt, lit = some(J.AlternativeSet), some(J.Literal)
    ref, null = some(J.NamedRuleRef), some(J.NullRef, J.VoidRef)
    junk = [None, 5, 2.5, object(), {"a": 1}, ["x"], ("x",), b"x"][pick2 % 8]
    spare = J.Literal("Spare")
    offered.append(spare)
    bad_name = BAD_NAMES[pick2 % len(BAD_NAMES)]
    bad_ref = BAD_REFS[pick2 % len(BAD_REFS)]
    dup = [x for x in h.spec["rules"]][pick2 % len(h.spec["rules"])]["n"]

    def setter(obj, attr, value):
        return lambda: setattr(obj, attr, value)

    if kind == "tag":
        return setter(e, "tag", [5, 2.5, ["x"], {"a": 1}][pick2 % 4])
    if kind == "kids":
        return setter(e, "children", [None, "text", 5, ["a", 5], [None], (spare, {}),
                                      iter(["a"])][pick2 % 7])
    if kind == "append":
        return var and (lambda: var.children.append(junk))
    if kind == "extend":
        return var and (lambda: var.children.extend([spare, "ok", junk]))
    if kind == "insert":
        return var and (lambda: var.children.insert(pick2 % 3, junk))
    if kind == "setitem":
        return var and (lambda: var.children.__setitem__(
            [99, -99][pick2 % 2] if pick2 % 3 else 0, junk if not pick2 % 3 else spare))
    if kind == "slice":
        return var and (lambda: var.children.__setitem__(slice(0, 2), [spare, junk]))
    if kind == "iterfail":
        def items():
            yield "first"
            yield spare
            raise Boom()
        if not var:
            return None
        return [lambda: var.children.extend(items()),
                lambda: var.children.__setitem__(slice(0, 1), items())][pick2 % 2]
    if kind == "iadd":
        def iadd():
            c = var.children
            c += [spare, junk]
        return var and iadd
    if kind == "xslice":
        if not var or len(var.children) < 2:
            return None
        return [lambda: var.children.__setitem__(slice(None, None, 2), [spare] * 9),
                lambda: var.children.__setitem__(slice(0, 2, -1), [spare]),
                lambda: var.children.__setitem__(slice(0, 2, 0), [spare]),
                lambda: var.children.__setitem__(slice("a", 2), [spare])][pick2 % 4]
    if kind in ("cycle", "cycle-parent"):
        # An expansion below itself.
        low = nodes[pick % len(nodes)]
        above = [low]
        while above[-1].parent is not None:
            above.append(above[-1].parent)
        a = above[pick2 % len(above)]
        if kind == "cycle-parent":
            return setter(a, "parent", low)
        if not isinstance(low, (J.Sequence, J.AlternativeSet)):
            return None
        return [lambda: low.children.append(a), lambda: low.children.insert(0, a),
                lambda: low.children.extend([spare, a]),
                lambda: low.children.__setitem__(0, a),
                lambda: low.children.__setitem__(slice(0, 1), [spare, a]),
                setter(low, "children", [spare, a])][pick2 // 7 % 6]
    if kind == "joint-cycle":
        # Joining the trees of rules that refer to each other.
        loop = J.Grammar("loop")
        loop.add_rule(J.PublicRule("x", J.Sequence("a", J.NamedRuleRef("y"))))
        part = M.env_of(h.spec["rules"])[name]
        plain = edits.copyable(part) and not any(x["k"] == "ref" for x in M.walk(part))
        loop.add_rule(J.PublicRule("y", J.Sequence(e.copy() if plain else "b",
                                                   J.NamedRuleRef("x"))))

        def loops():
            with J.JointTreeContext(loop.rules[pick2 % 2].expansion):
                pass
        return loops
    if kind == "pop":
        return var and (lambda: var.children.pop([99, -99][pick2 % 2]))
    if kind == "remove":
        return var and (lambda: var.children.remove(J.Literal("absent words")))
    if kind == "index":
        return var and (lambda: var.children.index(J.Literal("absent words")))
    if kind == "parent":
        return setter(e, "parent", [5, "text", r, g][pick2 % 4])
    if kind == "text":
        return lit and setter(lit, "text", [5, None, ["x"], spare][pick2 % 4])
    if kind == "refname":
        return ref and setter(ref, "name", bad_ref)
    if kind == "refnull":
        return null and setter(null, "name", ["other", "null", ""][pick2 % 3])
    if kind in ("w-neg", "w-type", "w-index", "w-batch", "w-dict"):
        if not alt or len(alt.children) < 2:
            return None
        first, last = alt.children[0], alt.children[len(alt.children) - 1]
        if kind == "w-neg":
            return lambda: alt.set_weight(pick2 % 2, [-1, -0.001][pick2 % 2])
        if kind == "w-type":
            return lambda: alt.set_weight(first, ["x", None, [1]][pick2 % 3])
        if kind == "w-index":
            return lambda: alt.set_weight([99, -99][pick2 % 2], 2)
        if kind == "w-batch":
            return setter(alt, "weights", {0: 7, 1: [-2, "x", None][pick2 % 3]})
        return setter(alt, "weights", {first: 3, last: -1} if first != last else None)
    if kind == "rname":
        return setter(r, "name", bad_name)
    if kind == "rexp":
        return setter(r, "expansion", junk)
    if kind == "gname":
        return setter(g, "name", ["", "two words", "a.b c", "<x>", "x;y z", None, 5,
                                2.5][pick2 % 8])
    if kind == "add-dup":
        low = J.Literal("Never USED before", case_sensitive=bool(pick2 % 2))
        again = J.Rule(dup, bool(pick2 % 3), J.Sequence(low, J.NamedRuleRef(name)))
        low.case_sensitive = not pick2 % 2
        offered.append(again)
        if pick % 2:
            return lambda: g.add_rules(again)
        return lambda: g.add_rule(again)
    if kind == "add-type":
        return lambda: g.add_rule(junk if junk is not None else spare)
    if kind == "add-noname":
        return lambda: g.add_rule(J.Rule(bad_name, True, "words"))
    if kind == "rm-name":
        return lambda: g.remove_rule(["absent", "absent.rule", ""][pick2 % 3])
    if kind == "rm-dep":
        if not any(x["k"] == "ref" and x["n"] == name and o["n"] != name
                   for o in h.spec["rules"] for x in M.walk(o["e"])):
            return None
        return lambda: g.remove_rule([name, r][pick2 % 2])
    if kind == "rm-foreign":
        return lambda: g.remove_rule(J.Rule(["absent", name][pick2 % 2], True,
                                            "never used before"), bool(pick2 % 3))
    if kind == "en-name":
        return lambda: g.enable_rule("absent")
    if kind == "dis-foreign":
        return lambda: g.disable_rule([J.Rule("absent", True, "words"),
                                       "absent"][pick2 % 2])
    if kind == "imp-type":
        return lambda: g.add_import(["lib.*", 5, None, r][pick2 % 4])
    if kind == "imp-absent":
        return lambda: g.remove_import([J.Import("absent.*"), "lib.*", 5][pick2 % 3])
    if kind == "imp-name":
        return lambda: g.add_import(J.Import(["nodots", "", "a b.*", "x.y z"][pick2 % 4]))
    if kind == "get-name":
        return lambda: g.get_rule_from_name([5, None, "a b", "", "<x>"][pick2 % 5])
    if kind == "cm":
        return setter(e, "current_match", [5, ["x"], b"x"][pick2 % 3]) \
            if not isinstance(e, (J.NullRef, J.VoidRef)) else None
    if kind == "ms":
        return setter(e, "matching_slice", [5, "x", (0, 1)][pick2 % 3])
    if kind == "newrule":
        return lambda: J.Rule(bad_name, True, r.expansion)
    if kind == "newref":
        return lambda: J.Sequence(e, J.NamedRuleRef(bad_ref))
    if kind == "newrep":
        cls = [J.Repeat, J.KleeneStar, J.OptionalGrouping][pick % 3]
        return lambda: cls(junk)
    if kind == "order":
        return lambda: J.map_expansion(r.expansion, lambda x: None, order=7)
    if kind == "joint":
        if not any(x["k"] == "ref" and M.env_of(h.spec["rules"]).get(x["n"]) is None
                   for n in reads.reach(h.spec, name)
                   for x in M.walk(M.env_of(h.spec["rules"])[n])):
            return None

        def enter():
            with J.JointTreeContext(r.expansion):
                pass
        return enter
    if kind == "newseq":
        cls = [J.Sequence, J.AlternativeSet, J.RequiredGrouping][pick % 3]
        bad = junk if junk is not None else 5
        return lambda: cls(e, "ok", bad)
    if kind == "add-stolen":
        other = J.Grammar("elsewhere")
        theirs = J.Rule(dup, True, J.Sequence("never used before"))
        other.add_rule(theirs)

        def steal():
            try:
                g.add_rule(theirs)
            finally:
                if theirs.grammar is not other or other.rules != [theirs] or \
                        not theirs.matches("never used before"):
                    raise Violation("foreign-changed", "a refused rule no longer works "
                                    "in its own grammar")
        return steal
    if kind == "root":
        if not isinstance(g, J.RootGrammar):
            return None
        return lambda: g.add_rule(J.Rule("root", True, "words"))
    if kind == "rm-twice":
        gone = J.Rule("gone", True, J.Sequence("never used before"))
        g.add_rule(gone)
        g.remove_rule(gone, True)
        return lambda: g.remove_rule([gone, "gone"][pick2 % 2])
    raise ValueError(kind)


def attempt_idle(h, kind, name, pick, J):
    """An edit that says again what already is so."""
    g, r = h.g, reads.find(h.g, name)
    if kind == "import":
        if not g.imports:
            return None
        again = J.Import(g.imports[pick % len(g.imports)].name)
        return [lambda: g.add_import(again), lambda: g.add_imports(again)][pick % 2]
    if kind == "gname":
        return lambda: setattr(g, "name", g.name)
    if kind == "gcs":
        # Literals may have been set one by one.
        if any(e.case_sensitive != g.case_sensitive for x in g.rules
               for e in M.nodes_of(x.expansion) if isinstance(e, J.Literal)) or \
                any(x.case_sensitive != g.case_sensitive for x in g.rules):
            return None
        return lambda: setattr(g, "case_sensitive", g.case_sensitive)
    if r is None:
        return None
    part = M.env_of(h.spec["rules"])[name]
    if kind in ("rule", "rules"):
        x = r
        if pick % 3 and edits.copyable(part) and not reads.has_ref(h.spec, name):
            x = type(r)(r.name, r.visible, r.expansion.copy())
            if x != r:
                return None
        return (lambda: g.add_rule(x)) if kind == "rule" else lambda: g.add_rules(x, r)
    if kind == "active":
        by = [r, name][pick % 2]
        return (lambda: g.enable_rule(by)) if r.active else lambda: g.disable_rule(by)
    if kind == "name":
        return lambda: setattr(r, "name", r.name)
    if kind == "visible":
        return lambda: setattr(r, "visible", r.visible)
    types, attr = {"tag": (J.Expansion, "tag"), "text": (J.Literal, "text"),
                   "lcs": (J.Literal, "case_sensitive"),
                   "refname": (J.NamedRuleRef, "name"),
                   "weight": (J.AlternativeSet, None)}[kind]
    pool = [e for e in M.nodes_of(r.expansion) if isinstance(e, types)
            and not (kind == "refname" and isinstance(e, J.RuleRef))]   # that cuts it off
    if not pool or kind == "text" and any(x["t"] != x["t"].lower()
                                          for x in M.walk(part) if x["k"] == "lit"):
        return None     # `text` does not tell the case of a literal that ignores it
    e = pool[pick % len(pool)]
    if attr:
        return lambda: setattr(e, attr, getattr(e, attr))
    if not e.weights or len(set(map(str, e.children))) < len(e.children):
        return None
    i = pick % len(e.children)
    by = [e.children[i], i][pick // 7 % 2]
    if pick % 3 == 0:
        return lambda: setattr(e, "weights", e.weights)
    return lambda: e.set_weight(by, e.weights[e.children[i]])


def run(scn, rec):
    import jsgf as J
    if not scn["spec"]["rules"]:
        return

    def fresh():
        return H.History(M.build_grammar(scn["spec"], J), scn["spec"], J)

    live, twin = fresh(), fresh()
    refused = 0

    def check_all(i, what):
        got, want = live.all(), twin.all()
        got.append([live.g.imports == twin.g.imports,
                    [[x.parent is p for x in p.children] for r in live.g.rules
                     for p in M.nodes_of(r.expansion)],
                    [x.rule is r for r in live.g.rules
                     for x in M.nodes_of(r.expansion)],
                    [r.expansion.parent is None for r in live.g.rules]])
        want.append([True,
                     [[x.parent is p for x in p.children] for r in twin.g.rules
                      for p in M.nodes_of(r.expansion)],
                     [x.rule is r for r in twin.g.rules
                      for x in M.nodes_of(r.expansion)],
                     [r.expansion.parent is None for r in twin.g.rules]])
        if got != want:
            raise Violation("trace-left", "operation %d, %s: %s" % (i, what, "; ".join(
                "%r instead of %r" % p for p in zip(got, want) if p[0] != p[1])[:900]))

    for i, op in enumerate(scn["ops"]):
        rec.step()
        if op[0] == "bad":
            offered = []
            fn = attempt_bad(live, op[1], op[2], op[3], op[4], offered, J)
            if not fn:
                continue
            before = parts(offered, J)
            try:
                fn()
            except Violation:
                raise
            except Exception as e:   # noqa
                rec.log(i, op, type(e).__name__)
            else:
                if op[1] in ("index", "order", "joint"):
                    continue
                raise Violation("accepted-%s" % op[1], "invalid edit %r raised nothing"
                                % (op,))
            rec.fault("refused-edit")
            rec.probe("refused-%s" % op[1])
            refused += 1
            check_all(i, op)
            if parts(offered, J) != before:
                raise Violation("offered-changed", "operation %d %r: what was offered is "
                                "%r afterwards, %r before" %
                                (i, op, parts(offered, J), before))
            continue
        if op[0] == "idle":
            fn = attempt_idle(live, op[1], op[2], op[3], J)
            if fn:
                fn()
                rec.fault("idle-edit")
                rec.probe("idle-" + op[1])
                refused += 1
                check_all(i, op)
            continue
        if op[0] == "e" and H.try_spec(live.spec, op[1]) is None:
            continue
        want, got = twin.do(op), live.do(op)
        rec.log(i, op, got)
        if refused:
            rec.nontrivial = True
        if got != want:
            raise Violation("differs-%s" % op[1][0], "operation %d %r gives %r; without "
                            "the refused edits it gives %r" % (i, op, got, want))
    check_all(len(scn["ops"]), "end")


def simplify(scn):
    import json
    for key in ("tag", "w", "o", "cs", "off"):
        c = json.loads(json.dumps(scn))
        hit = False
        for r in c["spec"]["rules"]:
            hit = r.pop(key, None) is not None or hit
            for x in M.walk(r["e"]):
                hit = x.pop(key, None) is not None or hit
        if hit:
            yield c
