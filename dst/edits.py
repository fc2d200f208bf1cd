"""Edit operations applied in parallel to a spec (plain data) and to live jsgf objects.

An operation is a JSON list [kind, ...].  `Editor` generates operations that are valid
for the current spec; `apply_spec` and `apply_live` carry one out.  Nodes are addressed
by rule name and a path of child indexes.
"""
import copy

from . import model as M

RANK = {}


def rule_of(spec, name):
    for r in spec["rules"]:
        if r["n"] == name:
            return r
    return None


def node_at(root, path):
    for i in path:
        root = root["c"][i]
    return root


def live_at(e, path):
    for i in path:
        e = e.children[i]
    return e


def nodes(root, path=()):
    yield list(path), root
    for i, c in enumerate(root.get("c", ())):
        for x in nodes(c, path + (i,)):
            yield x


def frozen(root, path):
    """True if the node lies below a weighted alternative (weights are keyed by the
    alternative's value, so documented use sets weights after building it)."""
    return False


def copyable(node):
    """An optional or repetition without its child cannot be copied."""
    return not any(x["k"] in ("opt", "rep", "star") and not x["c"] for x in M.walk(node))


def cascade_cs(spec, node, value, seen=None):
    seen = set() if seen is None else seen
    for x in M.walk(node):
        if x["k"] == "lit":
            if value:
                x["cs"] = 1
            else:
                x.pop("cs", None)
        elif x["k"] == "ref" and x["n"] not in seen:
            seen.add(x["n"])
            r = rule_of(spec, x["n"])
            if r is not None:
                cascade_cs(spec, r["e"], value, seen)


def env_ok(spec):
    """No rule refers to itself; weighted alternatives are distinct."""
    env = M.env_of(spec["rules"])
    # What is not there (imported or dangling) is not nullable.
    for r in spec["rules"]:
        for x in M.walk(r["e"]):
            if x["k"] == "ref":
                env.setdefault(x["n"], {"k": "lit", "t": "x"})

    def loops(n, seen=()):
        return any(x["k"] == "ref" and (x["n"] in seen or loops(
            env[x["n"]], seen + (x["n"],))) for x in M.walk(n))

    for r in spec["rules"]:
        if loops(r["e"], (r["n"],)):
            return False
    for r in spec["rules"]:
        for x in M.walk(r["e"]):
            if x["k"] == "alt" and x.get("w"):
                if len({M.eqkey(c) for c in x["c"]}) < len(x["c"]):
                    return False
    return True


def apply_spec(spec, op):
    """Apply an edit to the spec in place.  Returns False if it does not apply (an
    operation whose context was removed by the minimiser)."""
    try:
        return _apply_spec(spec, op)
    except (IndexError, KeyError, TypeError, AttributeError):
        return False


def _apply_spec(spec, op):
    k = op[0]
    if k == "gcs":
        spec["cs"] = op[1]
        for r in spec["rules"]:
            cascade_cs(spec, r["e"], op[1])
        return True
    if k == "addrule":
        if rule_of(spec, op[1]["n"]) is not None:
            return False
        r = copy.deepcopy(op[1])
        for x in M.walk(r["e"]):
            if x["k"] == "ref" and x.get("o") and rule_of(spec, x["n"]) is None:
                return False
        M.set_cs(r["e"], spec.get("cs"))
        for x in M.walk(r["e"]):
            if x["k"] == "ref" and x.get("o"):
                # Building a Rule, then adding it, sets the case sensitivity of rules
                # it refers to by object.
                cascade_cs(spec, x, spec.get("cs"))
        spec["rules"].append(r)
        return True
    if k == "imp":
        # op: name, whether to add or remove it
        if (op[1] in spec.setdefault("imports", [])) == bool(op[2]):
            return False
        (spec["imports"].append if op[2] else spec["imports"].remove)(op[1])
        return True
    if k == "libedit":
        # op: library, rule, how, value: an edit of an imported rule
        e = rule_of(spec["libs"][op[1]], op[2])
        if op[3] == "text":
            [x for x in M.walk(e["e"]) if x["k"] == "lit"][0]["t"] = op[4]
        elif op[3] == "exp":
            e["e"] = copy.deepcopy(op[4])
        elif op[3] == "wrap":
            e["e"] = {"k": "seq", "c": [e["e"], {"k": "lit", "t": op[4]}]}
        elif op[3] == "active":
            e.pop("off", None)
            if not op[4]:
                e["off"] = 1
        spec.setdefault("libedits", []).append(op)
        return True
    r = rule_of(spec, op[1])
    if r is None:
        return False
    if k == "rmrule":
        spec["rules"].remove(r)
        return True
    if k == "rcs":
        cascade_cs(spec, r["e"], op[2])
        return True
    if k == "vis":
        r["v"] = op[2]
        return True
    if k == "active":
        if op[2]:
            r.pop("off", None)
        else:
            r["off"] = 1
        return True
    if k == "rexp":
        r["e"] = copy.deepcopy(op[2])
        return True
    if k == "rename":
        if rule_of(spec, op[2]) is not None:
            return False
        for q in spec["rules"]:
            for x in M.walk(q["e"]):
                if x["k"] == "ref" and x.get("o") and x["n"] == op[1]:
                    x["n"] = op[2]
        r["n"] = op[2]
        return True
    if k == "wrap":
        # The rule's expansion becomes the only or first child of a new root.
        r["e"] = {"k": op[2], "c": [r["e"]] + copy.deepcopy(op[3])}
        return not op[3] or op[2] in ("seq", "grp", "alt")
    if k == "promote":
        # A child of the root becomes the rule's expansion.
        if r["e"].get("w"):
            return False
        r["e"] = r["e"]["c"][op[2]]
        return True
    if k == "graft":
        # An expansion moves from one place to another: rule, path, index; rule, path,
        # index.  The path into the destination is the one before the removal.
        r2 = rule_of(spec, op[4])
        if r2 is None:
            return False
        a, b = node_at(r["e"], op[2]), node_at(r2["e"], op[5])
        ka = a["k"] in ("seq", "grp", "alt") and not a.get("w")
        kb = b["k"] in ("seq", "grp", "alt") and not b.get("w")
        if not ka or not kb or a is b or len(a["c"]) < 2 or \
                not 0 <= op[3] < len(a["c"]) or not 0 <= op[6] <= len(b["c"]):
            return False
        x = a["c"][op[3]]
        if any(y is b for y in M.walk(x)):
            return False
        del a["c"][op[3]]
        b["c"].insert(op[6], x)
        return True
    n = node_at(r["e"], op[2])
    if frozen(r["e"], op[2]):
        return False
    if k in ("inval", "joint"):
        return True
    if k == "tag":
        n.pop("tag", None)
        if op[3]:
            n["tag"] = op[3]
        return True
    if k == "text":
        if n["k"] != "lit":
            return False
        n["t"] = op[3]
        return True
    if k == "lcs":
        if n["k"] != "lit":
            return False
        if op[3]:
            n["cs"] = 1
        else:
            n.pop("cs", None)
        return True
    if k == "refname":
        if n["k"] != "ref" or n.get("o"):
            return False
        n["n"] = op[3]
        return True
    if k == "weight":
        if n["k"] != "alt":
            return False
        if not n.get("w") or not 0 <= op[3] < len(n["c"]):
            return False
        n["w"][op[3]] = op[5]
        return any(n["w"])
    if k == "weights":
        if n["k"] != "alt" or len(op[3]) != len(n["c"]):
            return False
        if len({M.eqkey(c) for c in n["c"]}) < len(n["c"]):
            return False
        n["w"] = list(op[3])
        return True
    kids = n["c"]
    w = n.get("w")
    var = n["k"] in ("seq", "grp", "alt")
    if k == "copy":
        if op[3] == -1:
            return not op[2] and copyable(n)
        return 0 <= op[3] < len(kids) and not w and copyable(kids[op[3]])
    if k == "empty":
        # op: rule, path, how
        n["c"] = []
        return not w and bool(kids)
    if k == "setitem":
        i, sub, wt = op[3], op[4], op[5]
        if not 0 <= i < len(kids):
            return False
        kids[i] = copy.deepcopy(sub)
        if w:
            w[i] = wt
            return any(w)
        return True
    if k == "children":
        if w:
            return False
        if not var and len(op[3]) != 1 or not op[3]:
            return False
        n["c"] = copy.deepcopy(op[3])
        return True
    if not var:
        return False
    if k == "append":
        kids.append(copy.deepcopy(op[3]))
        if w:
            w.append(op[4])
    elif k == "insert":
        if not 0 <= op[3] <= len(kids):
            return False
        kids.insert(op[3], copy.deepcopy(op[4]))
        if w:
            w.insert(op[3], op[5])
    elif k == "extend":
        if w:
            return False
        kids.extend(copy.deepcopy(op[3]))
    elif k in ("pop", "remove"):
        i = op[3]
        if len(kids) < 2 or not 0 <= i < len(kids):
            return False
        if k == "remove" and M.eqkey(kids[i]) in [M.eqkey(c) for c in kids[:i]]:
            return False
        del kids[i]
        if w:
            del w[i]
            if not any(w):
                return False
    elif k == "slice":
        i, j = op[3], op[4]
        if w or not 0 <= i <= j <= len(kids) or \
                not (len(kids) - (j - i) + len(op[5])):
            return False
        kids[i:j] = copy.deepcopy(op[5])
    elif k in ("replaceall", "refill"):
        if w or not op[3]:
            return False
        n["c"] = copy.deepcopy(op[3])
    elif k == "perm":
        # op: rule, path, i, j, indexes in i..j that stay, in this order, how
        i, j, keep = op[3], op[4], op[5]
        if not 0 <= i <= j <= len(kids) or len(kids) - (j - i) + len(keep) < 1 or \
                len(set(keep)) < len(keep) or not all(i <= x < j for x in keep):
            return False
        kids[i:j] = [kids[x] for x in keep]
        if w:
            w[i:j] = [w[x] for x in keep]
            return any(w)
    elif k == "iadd":
        if w:
            return False
        kids.extend(copy.deepcopy(op[3]))
    elif k == "xslice":
        # op: rule, path, start, step, new children
        i, step = op[3], op[4]
        if w or not 0 <= i < len(kids) or len(kids[i::step]) != len(op[5]):
            return False
        kids[i::step] = copy.deepcopy(op[5])
    elif k == "move":
        # op: rule, path, from index, to index (same list)
        i, j = op[3], op[4]
        if w or not 0 <= i < len(kids) or not 0 <= j < len(kids):
            return False
        kids.insert(j, kids.pop(i))
    else:
        return False
    return True


def apply_live(g, spec, op, J):
    """Apply the same edit to the live grammar g.  spec is the state *before* it."""
    k = op[0]

    def mk(node):
        # A new subtree: literals get the case sensitivity their spec says.
        refs = {r.name: r for r in g.rules}
        e = M.build(node, J, refs)
        return e

    def offer(node):
        # Plain words may be offered as a string.
        if set(node) == {"k", "t"} and len(node["t"]) % 2:
            return node["t"]
        return mk(node)

    def ix(i, n):
        # Some indexes count from the end.
        return i - n if (i + n) % 3 == 0 and i < n else i

    def find(name):
        for r in g.rules:
            if r.name == name:
                return r
        raise KeyError(name)

    if k == "gcs":
        g.case_sensitive = bool(op[1])
        return
    if k == "addrule":
        r = op[1]
        rule = J.Rule(r["n"], r["v"], mk(r["e"]))
        if r.get("off"):
            rule.disable()
        g.add_rule(rule)
        return
    if k == "imp":
        (g.add_import if op[2] else g.remove_import)(J.Import(op[1]))
        return
    if k == "libedit":
        rule = g.get_rule_from_name("%s.%s" % (op[1], op[2]))
        if op[3] == "text":
            [x for x in M.nodes_of(rule.expansion)
             if isinstance(x, J.Literal)][0].text = op[4]
        elif op[3] == "exp":
            rule.expansion = M.build(op[4], J, {})
        elif op[3] == "wrap":
            rule.expansion = J.Sequence(rule.expansion, op[4])
        elif op[3] == "active":
            (rule.enable if op[4] else rule.disable)()
        return
    rule = find(op[1])
    if k == "rmrule":
        g.remove_rule(op[1] if op[2] is True else rule, True)
        if op[2] == 2:          # it goes to another grammar
            J.Grammar("elsewhere").add_rule(rule)
    elif k == "rcs":
        rule.case_sensitive = bool(op[2])
    elif k == "vis":
        rule.visible = op[2]
    elif k == "active":
        how = op[3]
        if how == 0:
            (rule.enable if op[2] else rule.disable)()
        elif how == 1:
            (g.enable_rule if op[2] else g.disable_rule)(op[1])
        else:
            (g.enable_rule if op[2] else g.disable_rule)(rule)
    elif k == "rexp":
        rule.expansion = mk(op[2])
    elif k == "rename":
        rule.name = op[2]
    elif k == "wrap":
        old = rule.expansion
        cls = {"seq": J.Sequence, "grp": J.RequiredGrouping, "alt": J.AlternativeSet,
               "opt": J.OptionalGrouping, "rep": J.Repeat, "star": J.KleeneStar}[op[2]]
        rule.expansion = cls(old, *[mk(c) for c in op[3]])
    elif k == "promote":
        rule.expansion = rule.expansion.children.pop(op[2])
    elif k == "graft":
        a = live_at(rule.expansion, op[2])
        b = live_at(find(op[4]).expansion, op[5])
        if op[7] == 0:
            x = a.children.pop(op[3])
        elif op[7] == 1:
            x = a.children[op[3]]
            a.children[op[3]:op[3] + 1] = []
        else:
            x = a.children[op[3]]
            rest = [c for c in a.children if c is not x]
            a.children = rest
        if op[6] == len(b.children):
            b.children.append(x)
        else:
            b.children.insert(op[6], x)
    else:
        e = live_at(rule.expansion, op[2])
        if k == "inval":
            e.invalidate_matcher()
        elif k == "joint":
            try:
                with J.JointTreeContext(rule.expansion):
                    pass
            except (J.GrammarError, J.JSGFImportError):  # a rule that is not there
                pass
        elif k == "tag":
            e.tag = op[3]
        elif k == "text":
            e.text = op[3]
        elif k == "lcs":
            e.case_sensitive = bool(op[3])
        elif k == "refname":
            e.name = op[3]
        elif k == "weight":
            i, how, w = op[3], op[4], op[5]
            key = i if how == 0 else e.children[i]
            if how == 2:
                key = e.children[i].compile()
            e.set_weight(key, w)
        elif k == "weights":
            e.weights = {c: w for c, w in zip(list(e.children), op[3])}
        elif k == "copy":
            if op[3] == -1:
                rule.expansion = e.copy(bool(op[4]))
            else:
                e.children[op[3]] = e.children[op[3]].copy(bool(op[4]))
        elif k == "setitem":
            e.children[ix(op[3], len(e.children))] = offer(op[4])
            if getattr(e, "weights", None):
                e.set_weight(op[3], op[5])
        elif k == "children":
            kids = [offer(c) for c in op[3]]
            e.children = tuple(kids) if len(kids) % 2 else kids
        elif k == "append":
            e.children.append(offer(op[3]))
            if getattr(e, "weights", None):
                e.set_weight(len(e.children) - 1, op[4])
        elif k == "insert":
            e.children.insert(ix(op[3], len(e.children)), offer(op[4]))
            if getattr(e, "weights", None):
                e.set_weight(op[3], op[5])
        elif k == "extend":
            e.children.extend([offer(c) for c in op[3]])
        elif k == "pop":
            e.children.pop(ix(op[3], len(e.children)))
        elif k == "empty":
            if op[3] == 0:
                e.children.clear()
            elif op[3] == 1:
                e.children = []
            elif op[3] == 2:
                e.children[:] = ()
            else:
                while len(e.children):
                    e.children.pop()
        elif k == "remove":
            e.children.remove(e.children[op[3]])
        elif k == "slice":
            e.children[op[3]:op[4]] = [offer(c) for c in op[5]]
        elif k == "perm":
            i, j, m = op[3], op[4], len(e.children)
            kept = [e.children[x] for x in op[5]]
            if op[6] == 0:
                e.children[i:j] = kept
            elif op[6] == 1:
                e.children = e.children[:i] + kept + e.children[j:]
            else:
                e.children[i - m:j if j < m else None] = tuple(kept)
        elif k == "iadd":
            e.children += [offer(c) for c in op[3]]
        elif k == "xslice":
            e.children[op[3]::op[4]] = [offer(c) for c in op[5]]
        elif k == "replaceall":
            e.children.clear()
            for c in op[3]:
                e.children.append(mk(c))
        elif k == "refill":
            out = []
            while len(e.children):
                out.append(e.children.pop(op[4] % len(e.children)))
            for c in op[3]:
                e.children.append(mk(c))
            # What was taken out belongs to nobody and can be used elsewhere.
            for x in out:
                J.Sequence(x).children.pop()
        elif k == "move":
            x = e.children.pop(op[3])
            e.children.insert(op[4], x)
        else:
            raise ValueError(k)


class Editor(object):
    """Generates valid edit operations; keeps its own spec in step."""

    KINDS = ["text", "tag", "lcs", "append", "insert", "extend", "pop", "remove",
             "setitem", "slice", "replaceall", "children", "move", "copy", "weight",
             "weights", "rexp", "addrule", "rmrule", "vis", "active", "rcs", "gcs",
             "refname", "inval", "joint", "refill", "graft", "promote", "wrap",
             "rename", "perm", "iadd", "xslice", "empty"] + ["perm"] + ["weight"] * 5 + ["graft"] * 3

    def __init__(self, rng, gen, spec, names, kinds=None, obj_refs=0.3):
        self.rng, self.gen = rng, gen
        self.spec = copy.deepcopy(spec)
        self.names = names               # fixed order; references only go backwards
        self.kinds = kinds or self.KINDS
        self.obj_refs = obj_refs
        self.dropped = {}
        self.focus = None            # a rule most edits go to
        self.last = None             # kind, rule and path of the last edit
        self.vacant = None           # name of the rule that went last

    def lower(self, name):
        """Existing rules a rule called `name` may refer to."""
        i = self.names.index(name)
        return [r["n"] for r in self.spec["rules"] if self.names.index(r["n"]) < i]

    def sub(self, name, depth=1):
        n = self.gen.node(depth, self.lower(name))
        for x in M.walk(n):
            if x["k"] == "ref" and self.rng.random() < self.obj_refs:
                x["o"] = 1
            if x["k"] == "lit" and self.rng.random() < 0.15:
                x["cs"] = 1
        return n

    def op(self, tries=30):
        for _ in range(tries):
            cand = self._op()
            if cand is None:
                continue
            after = copy.deepcopy(self.spec)
            if not apply_spec(after, cand) or not env_ok(after):
                continue
            if len(list(self.size(after))) > 90:
                continue
            self.spec = after
            if cand[0] in ("rmrule", "rename"):
                self.vacant = cand[1]
            if len(cand) > 2 and isinstance(cand[2], list):
                self.last = cand[:3]
            return cand
        return None

    def size(self, spec):
        for r in spec["rules"]:
            for x in M.walk(r["e"]):
                yield x

    def _op(self):
        rng, spec = self.rng, self.spec
        k = rng.choice(self.kinds)
        vacant = self.vacant if self.vacant in self.names and \
            rule_of(spec, self.vacant) is None else None
        if vacant and "addrule" in self.kinds and rng.random() < 0.3:
            k = "addrule"
        if k == "gcs":
            return [k, rng.random() < 0.5]
        if k == "addrule":
            free = [n for n in self.names if rule_of(spec, n) is None]
            if not free or len(spec["rules"]) >= 5:
                return None
            n = vacant if vacant and rng.random() < 0.8 else rng.choice(free)
            return [k, {"n": n, "v": rng.random() < 0.7, "e": self.sub(n, 2)}]
        if not spec["rules"]:
            return None
        r = rng.choice(spec["rules"])
        if self.focus is not None and rng.random() < 0.6:
            r = rule_of(spec, self.focus) or r
        again = self.last if rng.random() < 0.25 else None
        if again and rule_of(spec, again[1]) is not None:
            k, r = again[0], rule_of(spec, again[1])
        else:
            again = None
        n = r["n"]
        if k == "rename":
            free = [m for m in self.names if rule_of(spec, m) is None]
            used = {x["n"] for x in M.walk(r["e"]) if x["k"] == "ref"}
            # References keep going backwards only.
            free = [m for m in free if all(self.names.index(u) < self.names.index(m)
                                           for u in used if u in self.names)]
            free = [m for m in free if self.names.index(m) < min(
                [self.names.index(q["n"]) for q in spec["rules"]
                 if any(x["k"] == "ref" and x["n"] in
                        ((m, n) if x.get("o") else (m,)) for x in M.walk(q["e"]))] +
                [99])]
            return [k, n, rng.choice(free)] if free else None
        if k == "wrap":
            kind = rng.choice(["seq", "grp", "alt", "opt", "rep", "star"])
            more = [self.sub(n) for _ in range(rng.randint(0, 2))] \
                if kind in ("seq", "grp", "alt") else []
            return [k, n, kind, more]
        if k == "promote":
            c = r["e"].get("c")
            return [k, n, rng.randrange(len(c))] if c else None
        if k == "rmrule":
            held = {x["n"] for x in self.size(spec) if x["k"] == "ref" and x.get("o")}
            if n in held or len(spec["rules"]) < 2:
                return None
            if rng.random() < 0.5 and not any(x["k"] == "ref" for x in M.walk(r["e"])):
                return [k, n, 2]
            return [k, n, rng.random() < 0.5]
        if k == "rcs":
            return [k, n, rng.random() < 0.5]
        if k == "vis":
            return [k, n, rng.random() < 0.6]
        if k == "active":
            return [k, n, rng.random() < 0.6, rng.randrange(3)]
        if k == "rexp":
            return [k, n, self.sub(n, 2)]
        want = {"text": ("lit",), "lcs": ("lit",), "refname": ("ref",),
                "weight": ("alt",), "weights": ("alt",),
                "append": ("seq", "grp", "alt"), "insert": ("seq", "grp", "alt"),
                "extend": ("seq", "grp", "alt"), "pop": ("seq", "grp", "alt"),
                "remove": ("seq", "grp", "alt"), "slice": ("seq", "grp", "alt"),
                "replaceall": ("seq", "grp", "alt"),
                "refill": ("seq", "grp", "alt"), "graft": ("seq", "grp", "alt"),
                "move": ("seq", "grp", "alt"), "perm": ("seq", "grp", "alt"),
                "iadd": ("seq", "grp", "alt"), "xslice": ("seq", "grp", "alt"),
                "empty": ("seq", "grp", "alt", "opt", "rep", "star"),
                "setitem": ("seq", "grp", "alt", "opt", "rep", "star"),
                "copy": ("seq", "grp", "alt", "opt", "rep", "star"),
                "children": ("seq", "grp", "alt", "opt", "rep", "star")}.get(k)
        pool = [(p, x) for p, x in nodes(r["e"])
                if (want is None or x["k"] in want) and not frozen(r["e"], p)]
        if not pool:
            return None
        p, x = rng.choice(pool)
        if again:
            p, x = ([y for y in pool if y[0] == again[2]] or [(p, x)])[0]
        if k in ("inval", "joint"):
            return [k, n, p]
        if k == "tag":
            return [k, n, p, rng.choice(M.TAGS + [""])]
        if k == "text":
            if rng.random() < 0.15:     # the same words with capitals
                t = x["t"]
                return [k, n, p, rng.choice([t.title(), t.upper(), t.lower()])]
            return [k, n, p, self.gen.lit()["t"]]
        if k == "lcs":
            return [k, n, p, rng.random() < 0.5]
        if k == "refname":
            low = [m for m in self.names[:self.names.index(n)]]
            if x.get("o") or not low:
                return None
            return [k, n, p, rng.choice(low)]
        c = x["c"]
        wt = rng.choice([0, 0.5, 1, 2, 3.25, 10])
        if k == "empty":
            return [k, n, p, rng.randrange(4)] if c else None
        if not c and k not in ("children", "append", "insert", "extend", "iadd",
                               "replaceall"):
            return None
        if k == "weight":
            i = rng.randrange(len(c))
            if x.get("w") and 0 in x["w"] and rng.random() < 0.5:
                i = x["w"].index(0)
            return [k, n, p, i, rng.randrange(3), wt]
        if k == "weights":
            return [k, n, p, [rng.choice([0, 1, 2, 0.5, 8]) or (i == 0)
                              for i in range(len(c))]]
        if k == "copy":
            shallow = rng.random() < 0.4
            if rng.random() < 0.3:
                return [k, n, [], -1, shallow]
            return [k, n, p, rng.randrange(len(c)), shallow]
        if k == "setitem":
            return [k, n, p, rng.randrange(len(c)), self.sub(n), wt]
        if k == "children":
            m = 1 if x["k"] in ("opt", "rep", "star") else rng.randint(1, 3)
            return [k, n, p, [self.sub(n) for _ in range(m)]]
        if k == "append":
            return [k, n, p, self.sub(n), wt]
        if k == "insert":
            return [k, n, p, rng.randrange(len(c) + 1), self.sub(n), wt]
        if k == "perm":
            i = rng.randrange(len(c)) if rng.random() < 0.5 else 0
            j = rng.randint(i, len(c)) if rng.random() < 0.5 else len(c)
            keep = rng.sample(range(i, j), j - i)
            if keep and rng.random() < 0.3:
                keep.pop()
            return [k, n, p, i, j, keep, rng.randrange(3)]
        if k == "xslice":
            i, step = rng.randrange(len(c)), rng.choice([2, 2, 3, -1, -2])
            return [k, n, p, i, step, [self.sub(n) for _ in range(len(c[i::step]))]]
        if k in ("extend", "iadd"):
            return [k, n, p, [self.sub(n) for _ in range(rng.randint(1, 2))]]
        if k in ("pop", "remove"):
            return [k, n, p, rng.randrange(len(c))]
        if k == "slice":
            i = rng.randrange(len(c) + 1)
            j = rng.randint(i, len(c))
            return [k, n, p, i, j, [self.sub(n) for _ in range(rng.randint(0, 2))]]
        if k == "refill":
            return [k, n, p, [self.sub(n) for _ in range(rng.randint(1, 2))],
                    rng.randrange(3)]
        if k == "graft":
            q = rng.choice([q for q in spec["rules"]
                            if self.names.index(q["n"]) >= self.names.index(n)])
            pp = [(y, z) for y, z in nodes(q["e"]) if z["k"] in want]
            if not pp:
                return None
            y, z = rng.choice(pp)
            return [k, n, p, rng.randrange(len(c)), q["n"], y,
                    rng.randrange(len(z["c"]) + 1), rng.randrange(3)]
        if k == "replaceall":
            return [k, n, p, [self.sub(n) for _ in range(rng.randint(1, 3))]]
        if k == "move":
            return [k, n, p, rng.randrange(len(c)), rng.randrange(len(c))]
        return None


