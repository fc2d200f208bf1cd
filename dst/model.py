"""Reference model of JSGF grammars used by every check.

A grammar is described by plain JSON ("spec"), independent of the jsgf package:

    node = {"k": "lit", "t": "one two"}            | {"k": "ref", "n": "rule"}
         | {"k": "opt"|"rep"|"star", "c": [node]}  | {"k": "seq"|"grp", "c": [...]}
         | {"k": "alt", "c": [...], "w": [..]?}    | {"k": "null"} | {"k": "void"}
         | {"k": "dict"}                             (Dictation)
    every node may carry "tag": "x"; one whose children were removed has "c": [] and
    stands for <NULL>
    rule = {"n": name, "v": visible, "e": node}

From a spec the module builds fresh jsgf objects, decides membership of a word
string in the rule's language (set-of-positions recogniser: exact, no back-tracking
limits), and reduces both a spec and a jsgf object tree to one canonical form.
"""

# No word is a prefix of another one; all survive str.lower()/upper() round trips.
WORDS = """alpha bravo cargo delta ember fjord gamma hotel indigo jumbo karma lemon mango
nylon opera piano quartz raven sierra tango umbra violet walnut xenon yonder zebra
acorn basil cedar dingo eagle falcon garnet hazel ivory jasper kettle lotus magnet
nectar onyx pepper quiver ribbon saffron tulip urchin velvet willow yarrow zipper
z\u00fcrich \u00e9toile na\u00efve caf\u00e9 don't x-ray 42nd 7up \u03b4\u03ad\u03bb\u03c4\u03b1 \u044f\u0431\u043b\u043e\u043a\u043e""".split()
TAGS = ["T1", "T2", "T3", "cmd-go", "x_y", "UP", "t\u00e4g", "it's", "two words", "{x}y",
        "b\\s"]
RULE_NAMES = ["r_a", "r_b", "r_c", "r_d", "r_e", "r-f", "$g", "h1+2", "\u00e9i", "j~k"]
assert not any(a != b and a.startswith(b) for a in WORDS for b in WORDS)


# ------------------------------------------------------------------ generation
class Gen(object):
    """Seeded generator of specs.  Words are handed out without repetition while the
    pool lasts, which keeps generated grammars unambiguous unless `reuse` is set."""

    def __init__(self, rng, reuse=0.0, tags=0.25, refs=True, nullable_rep=False,
                 specials=True, weights=0.35, max_depth=3, ascii_only=False,
                 caps=0.0):
        self.rng, self.reuse, self.tags = rng, reuse, tags
        self.refs, self.nullable_rep, self.specials = refs, nullable_rep, specials
        self.weights, self.max_depth, self.caps = weights, max_depth, caps
        pool = [w for w in WORDS if not ascii_only or all(ord(c) < 128 for c in w)]
        rng.shuffle(pool)
        self.pool, self.used = pool, []

    def word(self):
        if not self.pool or (self.used and self.rng.random() < self.reuse):
            w = self.rng.choice(self.used or WORDS)
        else:
            w = self.pool.pop()
            self.used.append(w)
        if self.caps and self.rng.random() < self.caps:
            w = w[0].upper() + w[1:]
        return w

    def tag(self, node, p=None):
        if self.rng.random() < (self.tags if p is None else p):
            node["tag"] = self.rng.choice(TAGS)
        return node

    def lit(self):
        n = 1 if self.rng.random() < 0.7 else 2
        return {"k": "lit", "t": " ".join(self.word() for _ in range(n))}

    def node(self, depth, refs=()):
        r = self.rng.random()
        if depth <= 0 or r < 0.28:
            if refs and self.refs and self.rng.random() < 0.4:
                return self.tag({"k": "ref", "n": self.rng.choice(list(refs))})
            if self.specials and self.rng.random() < 0.05:
                return {"k": "null"}
            return self.lit()
        if r < 0.40:
            return self.tag({"k": "opt", "c": [self.node(depth - 1, refs)]})
        if r < 0.50:
            c = self.node(depth - 1, refs)
            return {"k": "rep", "c": [c]}
        if r < 0.58:
            c = self.node(depth - 1, refs)
            return {"k": "star", "c": [c]}
        if r < 0.72:
            return self.tag({"k": "grp", "c": self.kids(depth, refs, 1, 3)})
        if r < 0.86:
            return {"k": "seq", "c": self.kids(depth, refs, 1, 3)}
        return self.alt(depth, refs)

    def alt(self, depth, refs=()):
        n = self.tag({"k": "alt", "c": self.kids(depth, refs, 2, 4)})
        if self.rng.random() < self.weights:
            self.weigh(n)
        return n

    def weigh(self, n):
        if len({eqkey(c) for c in n["c"]}) < len(n["c"]):
            return              # weights are keyed by alternative: keep them distinct
        ws = [self.rng.choice([0, 0.5, 1, 2, 2.5, 7, 10, 0.125, 100])
              for _ in n["c"]]
        if not any(ws):
            ws[self.rng.randrange(len(ws))] = 1
        n["w"] = ws

    def kids(self, depth, refs, lo, hi):
        return [self.node(depth - 1, refs)
                for _ in range(self.rng.randint(lo, hi))]

    def rules(self, n, safe=True, tries=40):
        """n rules; a rule refers only to earlier ones (no recursion)."""
        names = list(RULE_NAMES)
        self.rng.shuffle(names)
        out = []
        for i in range(n):
            env = {r["n"]: r["e"] for r in out}
            for t in range(tries):
                pool, used = list(self.pool), list(self.used)
                e = self.node(max(0, self.max_depth - t // 8),
                              [r["n"] for r in out])
                if not safe or ll1(e, env):
                    break
                self.pool, self.used = pool, used
            else:
                e = self.lit()
            out.append({"n": names[i], "v": self.rng.random() < 0.75, "e": e})
        if not any(r["v"] for r in out):
            out[-1]["v"] = True
        return out


def eqkey(node):
    """Nodes with different keys are never equal as jsgf expansions, nor after they were
    compiled and parsed (tags, weights, groupings and the order of alternatives are
    ignored)."""
    def norm(c):
        if c[0] == "A":
            return ("A", tuple(sorted((norm(x) for _, x in c[1]), key=repr)))
        return tuple(norm(x) if isinstance(x, tuple) and x else x for x in c)
    return norm(canon(node, False))


class DiskGen(Gen):
    """Rules of the sub-language on which compiling and parsing are exact inverses (the
    parser's text-level limits are pure functions of the text; see DESIGN.md)."""

    def atom(self, refs):
        if refs and self.rng.random() < 0.35:
            return self.tag({"k": "ref", "n": self.rng.choice(list(refs))})
        return self.tag(self.lit())

    def node(self, depth, refs=()):
        r = self.rng.random()
        if r < 0.2:
            n = {"k": "alt", "c": [self.seqn(0, refs)
                                   for _ in range(self.rng.randint(2, 4))]}
            return n
        if r < 0.35:
            n = {"k": "alt", "c": [self.lit() for _ in range(self.rng.randint(2, 4))]}
            self.weigh(n)
            return n
        return self.seqn(depth, refs)

    def seqn(self, depth, refs):
        n = self.rng.randint(1, 4)
        kids = [self.part(depth, refs) for _ in range(n)]
        flat = list(flatten(kids))
        for a, b in zip(flat, flat[1:]):
            if a["k"] == b["k"] == "lit" and not a.get("tag"):
                b.pop("tag", None)      # "a b {t}" tags both words when read back
        return kids[0] if n == 1 else {"k": "seq", "c": kids}

    def part(self, depth, refs):
        r = self.rng.random()
        if depth <= 0 or r < 0.45:
            return self.atom(refs)
        inner = self.seqn(depth - 1, refs)
        if r < 0.62:
            return self.tag({"k": "opt", "c": [inner]})
        if r < 0.70:
            return {"k": "rep", "c": [inner]}
        if r < 0.78:
            return {"k": "star", "c": [inner]}
        if r < 0.90:
            return self.tag({"k": "grp", "c": [inner]})
        alt = {"k": "alt", "c": [self.atom(()) for _ in range(self.rng.randint(2, 3))]}
        return self.tag({"k": "opt", "c": [alt]})


def flatten(kids):
    """The parts of a sequence with untagged groupings dissolved."""
    for k in kids:
        if k["k"] in ("seq", "grp") and not k.get("tag"):
            for x in flatten(k["c"]):
                yield x
        else:
            yield k


def walk(node):
    yield node
    for c in node.get("c", ()):
        for x in walk(c):
            yield x


NULL = {"k": "null"}


def only(node):
    """The child of an optional or repeated node."""
    return node["c"][0] if node["c"] else NULL


def env_of(rules):
    return {r["n"]: r["e"] for r in rules}


# ------------------------------------------------------- analysis of a spec
def active_kids(node):
    if node["k"] == "alt" and node.get("w"):
        return [c for c, w in zip(node["c"], node["w"]) if w > 0]
    return node.get("c") or [NULL]


def nullable(node, env):
    k = node["k"]
    if k in ("opt", "star", "null"):
        return True
    if k in ("lit", "void", "dict"):
        return False
    if k == "ref":
        return nullable(env[node["n"]], env)
    if k == "alt":
        return any(nullable(c, env) for c in active_kids(node))
    return all(nullable(c, env) for c in node["c"])  # seq grp rep


def first(node, env):
    k = node["k"]
    if k == "lit":
        return {node["t"].split()[0].lower()}
    if k in ("null", "void", "dict"):
        return set()
    if k == "ref":
        return first(env[node["n"]], env)
    if k == "alt":
        return set().union(*[first(c, env) for c in active_kids(node)] or [set()])
    if k in ("opt", "rep", "star"):
        return first(only(node), env)
    out = set()
    for c in node["c"]:
        out |= first(c, env)
        if not nullable(c, env):
            break
    return out


def ll1(node, env, follow=frozenset()):
    """True if a greedy, one-word-look-ahead matcher is exact for this node."""
    k = node["k"]
    if k in ("lit", "null", "void", "dict"):
        return True
    if k == "ref":
        return ll1(env[node["n"]], env, follow)
    if k in ("opt", "star", "rep"):
        c = only(node)
        f = first(c, env)
        if k == "opt":
            return not (f & follow) and ll1(c, env, follow)
        # A repetition of [x], x+ or x* is a repetition of x.
        while c["k"] in ("opt", "star", "rep", "ref") or \
                c["k"] in ("seq", "grp") and len(c["c"]) == 1:
            c = env[c["n"]] if c["k"] == "ref" else only(c)
        return not (f & follow) and ll1(c, env, frozenset(follow | f))
    if k == "alt":
        seen = set()
        for c in active_kids(node):
            f = first(c, env)
            if f & seen or not ll1(c, env, follow):
                return False
            seen |= f
        if nullable(node, env) and seen & follow:
            return False
        return sum(nullable(c, env) for c in active_kids(node)) <= 1
    for i, c in enumerate(node["c"]):
        f = set()
        for d in node["c"][i + 1:]:
            f |= first(d, env)
            if not nullable(d, env):
                break
        else:
            f |= follow
        if not ll1(c, env, frozenset(f)):
            return False
    return True


def deep(node, env):
    for x in walk(node):
        yield x
        if x["k"] == "ref":
            for y in deep(env[x["n"]], env):
                yield y


# ---------------------------------------------------------------- recogniser
def spans(node, toks, i, env, memo=None):
    """The set of end positions of matches of node starting at i."""
    memo = {} if memo is None else memo
    key = id(node), i
    if key not in memo:
        memo[key] = _spans(node, toks, i, env, memo)
    return memo[key]


def _spans(node, toks, i, env, memo):
    k = node["k"]
    if k == "lit":
        w = node["t"].split()
        seg = toks[i:i + len(w)]
        if not node.get("cs"):
            w = [x.lower() for x in w]
            seg = [x.lower() for x in seg]
        return {i + len(w)} if seg == w else set()
    if k == "null":
        return {i}
    if k == "void":
        return set()
    if k == "dict":
        return set(range(i + 1, len(toks) + 1))
    if k == "ref":
        return spans(env[node["n"]], toks, i, env, memo)
    if k == "opt":
        return {i} | spans(only(node), toks, i, env, memo)
    if k == "alt":
        out = set()
        for c in active_kids(node):
            out |= spans(c, toks, i, env, memo)
        return out
    if k in ("rep", "star"):
        out, todo = set(), {i}
        seen = set()
        while todo:
            p = todo.pop()
            if p in seen:
                continue
            seen.add(p)
            for q in spans(only(node), toks, p, env, memo):
                out.add(q)
                todo.add(q)
        return out | ({i} if k == "star" else set())
    cur = {i}
    for c in node["c"]:
        cur = set().union(*[spans(c, toks, p, env, memo) for p in cur] or [set()])
    return cur


def in_language(node, text, env):
    toks = text.split()
    return len(toks) in spans(node, toks, 0, env)


def sample(node, rng, env, maxrep=3):
    """A word list of the node's language (None for an unspeakable branch)."""
    k = node["k"]
    if k == "lit":
        return node["t"].split()
    if k == "null":
        return []
    if k == "void":
        return None
    if k == "dict":
        return [rng.choice(["some", "words", "spoken", "freely"])
                for _ in range(rng.randint(1, 2))]
    if k == "ref":
        return sample(env[node["n"]], rng, env, maxrep)
    if k == "opt":
        return sample(only(node), rng, env, maxrep) if rng.random() < 0.6 else []
    if k == "alt":
        kids = list(active_kids(node))
        rng.shuffle(kids)
        for c in kids:
            s = sample(c, rng, env, maxrep)
            if s is not None:
                return s
        return None
    if k in ("rep", "star"):
        n = rng.randint(1 if k == "rep" else 0, maxrep)
        parts = [sample(only(node), rng, env, maxrep) for _ in range(n)]
    else:
        parts = [sample(c, rng, env, maxrep) for c in node["c"]]
    if any(p is None for p in parts):
        return None
    return [w for p in parts for w in p]


def utterance(rng, rules, noise=0.3):
    """An utterance: usually in some rule's language, otherwise a mutation of one."""
    env = env_of(rules)
    r = rng.choice(rules)
    toks = sample(r["e"], rng, env) or [rng.choice(WORDS)]
    if rng.random() < noise:
        m = rng.random()
        if m < 0.3:
            toks = toks + [rng.choice(WORDS)]
        elif m < 0.6 and len(toks) > 1:
            del toks[rng.randrange(len(toks))]
        elif m < 0.8:
            toks[rng.randrange(len(toks))] = rng.choice(WORDS)
        else:
            rng.shuffle(toks)
    return " ".join(toks)


# ------------------------------------------------------------ jsgf objects
def set_cs(node, value):
    """Mark every literal below node as (not) case sensitive."""
    for x in walk(node):
        if x["k"] == "lit":
            if value:
                x["cs"] = 1
            else:
                x.pop("cs", None)


def build(node, J, refs=None):
    """Fresh jsgf expansion objects for a spec node.  refs: name -> Rule, used for
    references marked "o" (object references); other references are by name."""
    k = node["k"]
    if k == "lit":
        e = J.Literal(node["t"], bool(node.get("cs")))
    elif k == "null":
        e = J.NullRef()
    elif k == "void":
        e = J.VoidRef()
    elif k == "dict":
        e = J.ext.Dictation()
    elif k == "ref":
        if refs and node["n"] in refs and node.get("o"):
            e = J.RuleRef(refs[node["n"]])
        else:
            e = J.NamedRuleRef(node["n"])
    else:
        kids = [build(c, J, refs) for c in node["c"]]
        if k in ("opt", "rep", "star"):
            e = {"opt": J.OptionalGrouping, "rep": J.Repeat, "star": J.KleeneStar}[k](
                kids[0] if kids else "removed")
            if not kids:
                e.children.pop()
        elif k == "seq":
            e = J.Sequence(*kids)
        elif k == "grp":
            e = J.RequiredGrouping(*kids)
        elif k == "alt":
            e = J.AlternativeSet(*kids)
            if node.get("w"):
                for i, w in enumerate(node["w"]):
                    e.set_weight(i, w)
        else:
            raise ValueError(k)
    if node.get("tag"):
        e.tag = node["tag"]
    return e


def fix_cs(node, e, J):
    """Set literal case sensitivity from the spec (rules and grammars override it)."""
    if node["k"] == "lit":
        if e.case_sensitive != bool(node.get("cs")):
            e.case_sensitive = bool(node.get("cs"))
    for c, x in zip(node.get("c", ()), e.children):
        fix_cs(c, x, J)


def build_rule(r, J, refs=None):
    rule = J.Rule(r["n"], r["v"], build(r["e"], J, refs))
    if r.get("off"):
        rule.disable()
    return rule


def build_grammar(spec, J, cls=None, name=None):
    """spec: {"name", "rules", "cs"?, "charset"?, "lang"?, "version"?, "imports"?}"""
    cs = bool(spec.get("cs"))
    name = name or spec.get("name", "default")
    if cls is None and spec.get("root"):
        g = J.RootGrammar(name=name, case_sensitive=cs)
    else:
        g = (cls or J.Grammar)(name=name, case_sensitive=cs)
    if spec.get("version"):
        g.jsgf_version = spec["version"]
    if spec.get("charset"):
        g.charset_name = spec["charset"]
    if spec.get("lang"):
        g.language_name = spec["lang"]
    for i in spec.get("imports", ()):
        g.add_import(J.Import(i))
    refs, by_name = {}, {r["n"]: r for r in spec["rules"]}

    def make(r):
        # Object references need the rule they refer to first.
        for x in walk(r["e"]):
            if x["k"] == "ref" and x.get("o") and x["n"] in by_name and \
                    x["n"] not in refs:
                make(by_name[x["n"]])
        if r["n"] not in refs:
            refs[r["n"]] = build_rule(r, J, refs)

    for r in spec["rules"]:
        make(r)
    for r in spec["rules"]:
        g.add_rule(refs[r["n"]])
    for r in spec["rules"]:
        fix_cs(r["e"], refs[r["n"]].expansion, J)
    return g


# ----------------------------------------------------------- canonical form
def _seq(items):
    out = []
    for it in items:
        if it[0] == "S":
            out.extend(it[1])
        else:
            out.append(it)
    return out[0] if len(out) == 1 else ("S", tuple(out))


def _alt(pairs, weighted):
    if len(pairs) == 1 and not weighted:
        return pairs[0][1]
    flat = []
    for w, c in pairs:
        if c[0] == "A" and not weighted and not any(x[0] is not None for x in c[1]):
            flat.extend(c[1])
        else:
            flat.append((w, c))
    return ("A", tuple(flat))


def _tagged(c, tag):
    return ("T", tag, c) if tag else c


def canon(node, tags=True):
    """Canonical form of a spec: groupings and sequences flattened, literals split in
    words, one-armed alternatives collapsed."""
    k = node["k"]
    if k == "lit":
        t = node["t"] if node.get("cs") else node["t"].lower()
        c = _seq([("W", w) for w in t.split()])
    elif k == "null":
        c = ("R", "NULL")
    elif k in ("void", "dict"):
        c = ("R", k.upper())
    elif k == "ref":
        c = ("R", node["n"])
    elif k in ("opt", "rep", "star"):
        c = (k[0].upper() + k[1:], canon(only(node), tags))
    elif k in ("seq", "grp"):
        c = _seq([canon(x, tags) for x in node["c"] or [NULL]])
    elif k == "alt":
        w = node.get("w")
        c = _alt([(round(float(w[i]), 4) if w else None, canon(x, tags))
                  for i, x in enumerate(node["c"] or [NULL])], bool(w))
    else:
        raise ValueError(k)
    return _tagged(c, node.get("tag") if tags else None)


def canon_obj(e, J):
    """The same canonical form from jsgf objects, through their public attributes."""
    if isinstance(e, J.Literal):
        c = _seq([("W", w) for w in e.text.split()])
    elif isinstance(e, (J.NullRef, J.VoidRef, J.NamedRuleRef)):
        c = ("R", e.name)
    elif isinstance(e, J.KleeneStar):
        c = ("Star", canon_obj(e.children[0], J))
    elif isinstance(e, J.Repeat):
        c = ("Rep", canon_obj(e.children[0], J))
    elif isinstance(e, J.OptionalGrouping):
        c = ("Opt", canon_obj(e.children[0], J))
    elif isinstance(e, J.AlternativeSet):
        w = e.weights
        pairs = []
        for x in e.children:
            pairs.append((round(float(w[x]), 4) if w else None, canon_obj(x, J)))
        c = _alt(pairs, bool(w))
    elif isinstance(e, J.Sequence):
        c = _seq([canon_obj(x, J) for x in e.children])
    else:
        c = ("?", type(e).__name__)
    return _tagged(c, e.tag)


# -------------------------------------------------------------- observation
def nodes_of(e):
    """The expansion and its descendants, in pre-order, through .children."""
    yield e
    for c in e.children:
        for x in nodes_of(c):
            yield x


def match_view(rule, J):
    """Everything a caller can read about a rule's last match, by tree position."""
    out = []
    for e in nodes_of(rule.expansion):
        row = [type(e).__name__.replace("NamedR", "R"), e.current_match, bool(e.had_match)]
        s = e.matching_slice
        row.append(None if s is None else [s.start, s.stop])
        if isinstance(e, J.Repeat):
            row.append(e.repetitions_matched)
            for d in [d for c in e.children for d in nodes_of(c)]:
                row.append(e.get_expansion_matches(d))
        out.append(row)
    return {"nodes": out, "tags": rule.matched_tags, "was": rule.was_matched}
