"""Read operations: everything a client can ask of a grammar without changing it.

An operation is a JSON list [kind, ...]; `gen_read` makes one for a spec, `do_read`
performs it and returns a JSON-able result free of object identities, so that the same
operation on an equal replica must give an equal result.
"""
from . import edits, model as M, sim

# Operations that run the matcher (they replace match records); all others must not.
MATCHING = ("m", "f", "p", "t", "jm", "xm", "cm")


def find(g, name):
    for r in g.rules:
        if r.name == name:
            return r
    return None


def attempt(fn):
    from jsgf import GrammarError
    from jsgf.errors import JSGFImportError
    try:
        return ["ok", fn()]
    except GrammarError:
        return ["GrammarError", ""]
    except JSGFImportError:
        return ["JSGFImportError", ""]


def reach(spec, name):
    """Names of the rules a match of `name` runs through (itself included)."""
    env = M.env_of(spec["rules"])
    seen, todo = set(), [name]
    while todo:
        n = todo.pop()
        if n in seen or n not in env:
            continue
        seen.add(n)
        todo.extend(x["n"] for x in M.walk(env[n]) if x["k"] == "ref")
    return seen


def view(rule, J):
    return attempt(lambda: M.match_view(rule, J))


def deep_view(g, spec, name, J):
    return [[n, view(find(g, n), J)] for n in sorted(reach(spec, name))]


def utter(rng, spec, name=None):
    rules = spec["rules"]
    r = rng.choice([x for x in rules if x["n"] == name] or rules)
    try:
        toks = M.sample(r["e"], rng, M.env_of(rules)) or [rng.choice(M.WORDS)]
    except KeyError:
        toks = [rng.choice(M.WORDS)]
    if rng.random() < 0.25:
        m = rng.random()
        if m < 0.3:
            toks = toks + [rng.choice(M.WORDS)]
        elif m < 0.6 and len(toks) > 1:
            del toks[rng.randrange(len(toks))]
        elif m < 0.8:
            toks[rng.randrange(len(toks))] = rng.choice(M.WORDS)
        else:
            rng.shuffle(toks)
    if rng.random() < 0.1:
        i = rng.randrange(len(toks))
        toks[i] = toks[i].upper()
    return " ".join(toks)


KINDS = ["m", "m", "m", "f", "p", "t", "T", "ht", "c", "c", "rc", "xc", "g", "xg", "q",
         "s", "d", "jm", "xm", "cm", "cp", "lv", "nm", "eq", "jq", "ls", "ce"]


def gen_read(rng, spec, kinds=None, hot=None):
    k = rng.choice(kinds or KINDS)
    n = hot if hot and rng.random() < 0.6 else rng.choice(spec["rules"])["n"]
    pick = rng.randrange(10 ** 6)
    if k in ("m", "p", "t", "jm", "cm"):
        return [k, n, utter(rng, spec, n if rng.random() < 0.75 else None)]
    if k == "f":
        return [k, utter(rng, spec)]
    if k == "xm":
        return [k, n, pick, utter(rng, spec, n)]
    if k in ("T", "ht"):
        tag = rng.choice(M.TAGS)
        return [k, tag, rng.random() < 0.5] if k == "T" else [k, n, tag]
    if k == "c":
        return [k, rng.random() < 0.4]
    if k == "rc":
        return [k, n, rng.random() < 0.4]
    if k == "xc":
        return [k, n, pick, rng.random() < 0.4]
    if k in ("g", "q", "cp", "lv", "jq", "ls", "ce"):
        return [k, n, pick]
    if k == "xg":
        return [k, n, pick, rng.randrange(10 ** 6)]
    if k in ("s", "d", "nm"):
        return [k, n]
    if k == "eq":
        return [k, n, rng.choice(spec["rules"])["n"], pick]
    raise ValueError(k)


def node(rule, pick):
    nodes = list(M.nodes_of(rule.expansion))
    return nodes[pick % len(nodes)]


def pairs(nodes, pick):
    out = []
    for k in range(6):
        a = nodes[(pick + 7 * k) % len(nodes)]
        b = nodes[(pick // 7 + 3 * k) % len(nodes)]
        out.append([bool(a.is_descendant_of(b)), bool(a.mutually_exclusive_of(b)),
                    bool(a.is_optional), bool(a.is_alternative),
                    a.repetition_ancestor is not None])
    return out


def shape(e):
    return "%s%s" % (type(e).__name__, "#" + e.tag if e.tag else "")


def do_read(g, spec, op, J):
    """The result of the operation; None if its rule is gone."""
    k = op[0]
    if k not in ("f", "T", "c"):
        r = find(g, op[1])
        if r is None:
            return None
    if k == "m":
        res = attempt(lambda: bool(r.matches(op[2])))
        if not r.active:        # rules it refers to keep what they have
            return [res, attempt(lambda: M.match_view(r, J)["nodes"])]
        return [res, deep_view(g, spec, op[1], J)]
    if k == "f":
        res = attempt(lambda: [x.name for x in g.find_matching_rules(op[1])])
        names = set()
        for q in spec["rules"]:
            if q["v"] and not q.get("off"):
                names |= reach(spec, q["n"])
        return res + [[[n, view(find(g, n), J)] for n in sorted(names)]
                      if res[0] == "ok" else None]
    if k in ("p", "t"):
        res = attempt(lambda: r.find_matching_part(op[2]) if k == "p" else
                      list(r.get_tags_matching(op[2])))
        return res + [deep_view(g, spec, op[1], J)
                      if res[0] == "ok" and r.active else None]
    if k == "T":
        return attempt(lambda: [x.name for x in g.find_tagged_rules(op[1], op[2])])
    if k == "ht":
        return attempt(lambda: [bool(r.has_tag(op[2])), list(r.tags)])
    if k == "c":
        return attempt(lambda: g.compile_as_root_grammar() if op[1] else g.compile())
    if k == "rc":
        return attempt(lambda: r.compile(op[2]))
    if k == "xc":
        return attempt(lambda: node(r, op[2]).compile(op[3]))
    if k == "g":
        sim.RANDOM.program(op[2])
        return attempt(r.generate)
    if k == "xg":
        sim.RANDOM.program(op[3])
        return attempt(lambda: node(r, op[2]).generate())
    if k == "q":
        return attempt(lambda: pairs(list(M.nodes_of(r.expansion)), op[2]))
    if k == "jq":
        def joint():
            nodes = []
            with J.JointTreeContext(r.expansion):
                J.map_expansion(r.expansion, nodes.append)
                return pairs(nodes, op[2])
        return attempt(joint)
    if k == "s":
        return [str(r), repr(r.expansion), str(g), r.qualified_name,
                r.fully_qualified_name]
    if k == "d":
        return [attempt(lambda: sorted(x.name for x in r.dependencies)),
                attempt(lambda: sorted(x.name for x in r.dependent_rules)),
                attempt(lambda: r.reference_count)]
    if k == "jm":
        def joint():
            with J.JointTreeContext(r.expansion):
                res = bool(r.matches(op[2]))
                return [res, M.match_view(r, J) if r.active else None]
        return attempt(joint)
    if k == "xm":
        def part():
            e = node(r, op[2])
            e.reset_for_new_match()
            return e.matches(op[3])
        return attempt(part)
    if k in ("cm", "cp"):
        if not edits.copyable(M.env_of(spec["rules"])[op[1]]):
            return None

        def dup():
            e = r.expansion.copy() if k == "cm" or op[2] % 2 else \
                node(r, op[2]).copy()
            if k == "cp":
                return [e.compile(), e == r.expansion, r.expansion == e,
                        hash(e) == hash(r.expansion)]
            c = J.Rule(r.name, r.visible, e)
            c.grammar = g
            return [bool(c.matches(op[2])), M.match_view(c, J)]
        if k == "cm" and has_ref(spec, op[1], True):
            return None      # a new Rule resets the case of rules it refers to
        return attempt(dup)
    if k == "lv":
        def leaves():
            e = node(r, op[2])
            out = [[shape(x) for x in e.leaves],
                   [shape(x) for x in e.collect_leaves(shallow=True)],
                   shape(e.root_expansion),
                   [shape(x) for x in J.flat_map_expansion(
                       e, order=J.TraversalOrder.PostOrder)],
                   [shape(x) for x in J.filter_expansion(
                       e, lambda x: isinstance(x, J.Literal))]]
            f = J.find_expansion(e, lambda x: isinstance(x, J.Literal))
            out.append(None if f is None else f.text)
            if not e.children:
                out.append([shape(x) for x in e.leaves_after])
                out.append([shape(x) for x in e.matchable_leaves_after])
            return out
        return attempt(leaves)
    if k == "nm":
        return attempt(lambda: [g.rule_names, [x.name for x in g.visible_rules],
                                [x.name for x in g.match_rules], g.import_names,
                                g.get_rule_from_name(op[1]) is r, bool(r.active),
                                bool(r.visible), bool(r.case_sensitive),
                                g.jsgf_header])
    if k == "ls":
        return attempt(lambda: lists(g, r, node(r, op[2]), op[2], J))
    if k == "ce":
        if not edits.copyable(M.env_of(spec["rules"])[op[1]]):
            return None
        return attempt(lambda: edit_copy(node(r, op[2]), op[2], J))
    if k == "eq":
        o = find(g, op[2])
        if o is None:
            return None
        return attempt(lambda: [bool(r == o), bool(r != o), bool(r == r),
                                bool(node(r, op[3]) == node(o, op[3])),
                                bool(node(r, op[3]) in node(r, op[3]))])
    raise ValueError(k)


def lists(g, r, e, pick, J):
    """Lists that are handed out belong to the caller, who changes them."""
    out = []
    for x in (g.rules, g.imports, g.rule_names, g.import_names, g.visible_rules,
              g.match_rules, r.tags, e.leaves, e.collect_leaves(shallow=True),
              J.flat_map_expansion(e), g.find_tagged_rules("T1"),
              list(r.dependencies), r.matched_tags):
        out.append(len(x))
        if isinstance(x, list):
            [x.reverse, x.clear, lambda: x.append(None)][pick % 3]()
    for x in M.nodes_of(r.expansion):
        if isinstance(x, J.Repeat) and x.children:
            for y in (x.get_expansion_matches(x.children[0]),
                      x.get_expansion_slices(x.children[0])):
                y.append(None)
    return out[:-1]      # the matched tags are a record of the last match


def edit_copy(e, pick, J):
    """A copy belongs to the caller, who changes it."""
    c = e.copy()
    nodes = list(M.nodes_of(c))
    c.tag = "changed"
    for x in nodes[pick % len(nodes)::2]:
        if isinstance(x, J.AlternativeSet) and x.weights:
            x.set_weight(0, 77)
        elif isinstance(x, J.Literal) and type(x) is J.Literal:
            x.text, x.case_sensitive = "Changed", True
        elif isinstance(x, (J.Sequence, J.AlternativeSet)):
            x.children.insert(0, "changed")
        x.tag = "T%d" % (pick % 5)
    return [shape(x) for x in M.nodes_of(c)]


def has_ref(spec, name, obj=False):
    env = M.env_of(spec["rules"])
    return any(x["k"] == "ref" for x in M.walk(env[name]))


def touched(spec, op):
    """Rules whose match records the operation may replace."""
    k = op[0]
    if k not in MATCHING:
        return set()
    if k == "f":
        out = set()
        for r in spec["rules"]:
            out |= reach(spec, r["n"])
        return out
    if k == "cm":
        return set()
    return reach(spec, op[1])
