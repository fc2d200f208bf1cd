"""C20: the records of a match describe that match.  Whatever a client did before, after
a successful match the recorded texts, slices, repetitions and tags are those of one
reading of what was said."""

import copy

from .. import history as H, model as M, reads, sim
from ..core import Violation

ID = "C20"
RUNS = {"quick": 14000, "thorough": 250000}
SHRINK = ("ops", "spec")
RULE = ("a case is one history of edits, matches, interrupted matches and other reads; "
        "non-trivial when a rule was matched after an earlier match or edit and its "
        "records were examined")
REAL = ["jsgf.expansions", "jsgf.rules", "jsgf.grammars", "pyparsing"]
STUB = ["random module (SimRandom)"]
PROBES = ["examined", "examined-again", "alternative", "optional-taken",
          "optional-left", "repeated", "star-none", "nested-repeat", "reference",
          "tag-matched", "tag-not-matched", "joined",
          "cut", "refused", "one-reading", "found", "not-found"]
ASSUMPTIONS = ["definitions are unambiguous (as documented), speech is single-spaced"]


def trap(rng, rules):
    """Make a rule of which some sentences start like other parts of it."""
    at = rng.randrange(len(rules))
    r = rules[at]
    env = M.env_of(rules)
    e = r["e"]
    if rng.random() < 0.3 and at + 1 < len(rules):
        e = {"k": "ref", "n": rules[rng.randrange(at + 1, len(rules))]["n"]}
        if any(x["n"] == r["n"] for x in M.deep(env[e["n"]], env) if x["k"] == "ref"):
            e = r["e"]
    said = M.sample(e, rng, env)
    if not said:
        return
    if len(said) < 2:
        e = {"k": "seq", "c": [e, {"k": "lit", "t": "xenon"}]}
        said = said + ["xenon"]
    start = said[:rng.randint(1, len(said) - 1)]
    k = rng.choice(["rep", "star", "opt", "alt", "alt"])
    if rng.random() < 0.3:
        k = rng.choice([k, "rep"])
        e = {"k": "seq", "c": [{"k": "alt", "c": [e, {"k": "lit", "t": "cargo"}]},
                               {"k": "lit", "t": "walnut"}]}
        start = said
    other = {"k": "lit", "t": " ".join(start + [rng.choice(["zulu", "zebra"])])}
    if rng.random() < 0.5:
        other["tag"] = rng.choice(M.TAGS)
    if k == "alt":
        kids = [{"k": "seq", "c": [e, {"k": "lit", "t": "yankee"}]}, other]
        rng.shuffle(kids)
        r["e"] = {"k": "alt", "c": kids}
        if rng.random() < 0.3:
            r["e"] = {"k": "rep", "c": [r["e"]]}
    else:
        r["e"] = {"k": "seq", "c": [{"k": k, "c": [e]}, other]}


def gen(rng, cfg):
    # With few words, parts of what is said are matched by the wrong expansion first.
    words = rng.choice([None, None, 2, 3, 4, 5])
    spec, ed = H.gen_spec(rng, dictation=0, words=words)
    if rng.random() < 0.4 and spec["rules"] and not spec.get("cs"):
        trap(rng, spec["rules"])
        ed.spec = copy.deepcopy(spec)
    ops, p = [], rng.choice([0, 0.3])
    cut = rng.choice([0, 0, 0.25])
    for _ in range(rng.randint(5, 16)):
        for op in H.gen_ops(rng, ed, 1, p, ["m", "m", "m", "m", "f", "t", "t", "p", "p", "c",
                                            "g", "q", "xm", "jm"]):
            if op[0] == "r" and op[1][0] == "jm":
                op = ["jx", op[1]]
            elif op[0] == "r" and rng.random() < cut:
                ops.append(["cut", op[1], rng.choice([rng.randrange(60),
                                                      rng.randrange(900)])])
                if rng.random() < 0.5:
                    continue
            ops.append(op)
    return {"spec": spec, "ops": ops}


def norm(s):
    return " ".join((s or "").split()).lower()


def derive(node, toks, i, j, env, path, out, memo):
    """Fill `out` with (path, start, end) of every node in the reading of toks[i:j]."""
    out.append((path, i, j))
    k = node["k"]
    if k == "ref":
        derive(env[node["n"]], toks, i, j, env, path + (0,), out, memo)
        return
    kids = node.get("c", ())

    def fits(c, a, b):
        memo["keep"].append(c)      # (the memo goes by identity)
        return b in M.spans(c, toks, a, env, memo)

    if k == "alt":
        for n, c in enumerate(kids):
            if c in M.active_kids(node) and fits(c, i, j):
                derive(c, toks, i, j, env, path + (n,), out, memo)
                return
    elif k == "opt":
        if kids and (i < j or fits(kids[0], i, j)):
            derive(kids[0], toks, i, j, env, path + (0,), out, memo)
    elif k in ("rep", "star"):
        while kids and i < j:
            end = [b for b in sorted(M.spans(kids[0], toks, i, env, memo)) if b > i and
                   (b == j or fits({"k": "star", "c": list(kids)}, b, j))][0]
            derive(kids[0], toks, i, end, env, path + (0,), out, memo)
            i = end
    elif k in ("seq", "grp"):
        for n, c in enumerate(kids):
            rest = {"k": "seq", "c": list(kids[n + 1:])}
            end = [b for b in sorted(M.spans(c, toks, i, env, memo))
                   if fits(rest, b, j)][-1]
            derive(c, toks, i, end, env, path + (n,), out, memo)
            i = end


def doubled(node, env):
    """A repetition of nothing but a repetition: it has several readings."""
    if node["k"] not in ("rep", "star"):
        return False
    c = M.only(node)
    while c["k"] in ("opt", "ref", "rep", "star") or \
            c["k"] in ("seq", "grp", "alt") and len(c["c"]) == 1:
        if c["k"] in ("rep", "star"):
            return True
        c = env[c["n"]] if c["k"] == "ref" else M.only(c)
    return False


def clear(spec, name):
    """Whether there is at most one reading of anything as a sentence of the rule."""
    env = M.env_of(spec["rules"])
    try:
        return M.ll1(env[name], env) and \
            not any(doubled(x, env) for x in M.deep(env[name], env))
    except KeyError:
        return False


def readings(node, toks, i, j, env, memo):
    """The number of readings of toks[i:j] that differ in more than empty parts."""
    key = (id(node), i, j)
    if key not in memo:
        memo["keep"].append(node)
        memo[key] = n = _readings(node, toks, i, j, env, memo)
        if i == j:
            memo[key] = min(n, 1)
    return memo[key]


def _readings(node, toks, i, j, env, memo):
    k = node["k"]
    kids = node.get("c", ())
    if k == "ref":
        return readings(env[node["n"]], toks, i, j, env, memo)
    if k == "alt":
        return sum(readings(c, toks, i, j, env, memo) for c in M.active_kids(node))
    if k == "opt":
        return 1 if i == j else readings(M.only(node), toks, i, j, env, memo)
    if k in ("rep", "star"):
        if i == j:
            return 1 if k == "star" else readings(M.only(node), toks, i, j, env, memo)
        ways = {i: 1}
        for a in range(i, j):
            for b in range(a + 1, j + 1) if a in ways else ():
                m = readings(M.only(node), toks, a, b, env, memo)
                if m:
                    ways[b] = ways.get(b, 0) + ways[a] * m
        return ways.get(j, 0)
    if k in ("seq", "grp"):
        ways = {i: 1}
        for c in kids:
            new = {}
            for a, n in ways.items():
                for b in range(a, j + 1):
                    m = readings(c, toks, a, b, env, memo)
                    if m:
                        new[b] = new.get(b, 0) + n * m
            ways = new
        return ways.get(j, 0)
    return 1 if j in M.spans(node, toks, i, env, memo["spans"]) else 0


def single(spec, name, speech):
    """Whether there is exactly one reading, whatever the matcher makes of others."""
    env = M.env_of(spec["rules"])
    toks = speech.split()
    if not resolved(spec, name) or any(doubled(x, env) for x in M.deep(env[name], env)):
        return False
    return readings(env[name], toks, 0, len(toks), env,
                    {"keep": [], "spans": {"keep": []}}) == 1


def says(spec, name, speech):
    """Whether `speech` is a sentence of the rule."""
    env = M.env_of(spec["rules"])
    return M.in_language(env[name], speech, env)


def unmatched(rule, speech, J):
    """No records are left of `speech`, which is not a sentence of `rule`."""
    left = []

    def look(e):
        if e.current_match or e.matching_slice is not None or \
                getattr(e, "repetitions_matched", 0):
            left.append("%s has %r, %r" % (e, e.current_match, e.matching_slice))

    J.map_expansion(rule.expansion, look)
    if rule.was_matched or rule.matched_tags or left:
        raise Violation("left-over", "%s did not match %r, but was_matched is %r, "
                        "matched_tags %r; %s" % (rule.compile(), speech,
                                                 rule.was_matched, rule.matched_tags,
                                                 "; ".join(left)))


def chain(rep):
    while rep:
        yield rep
        rep = rep[2]


def examine(rule, spec, name, speech, J, rec, joined=False):
    """The records of `rule`, which has just matched `speech`."""
    env = M.env_of(spec["rules"])
    toks = speech.split()
    out = []
    derive(env[name], toks, 0, len(toks), env, (), out, {"keep": []})
    at = {}
    for path, i, j in out:
        at.setdefault(path, []).append((i, j))
    starts, pos = [], 0
    for t in toks:
        starts.append(pos)
        pos += len(t) + 1

    def bad(what, e, want, got):
        raise Violation(what, "%s matched %r: %s has %r instead of %r" % (
            rule.compile(), speech, e, got, want))

    def text(i, j):
        return " ".join(toks[i:j]).lower()

    def slices(i, j):
        return [starts[i], starts[j - 1] + len(toks[j - 1])]

    uses = {}
    J.map_expansion(rule.expansion, lambda x: uses.__setitem__(
        id(x), uses.get(id(x), 0) + 1))
    tags, sure = [], [True]

    def visit(node, e, path, rep):
        """rep: the nearest repetition above, with its path, and what was above it."""
        mine = at.get(path, [])
        got = norm(e.current_match)
        if uses[id(e)] > 1:     # a rule that is referred to twice has its last use
            sure[0] = False
            return
        if rep is None:
            want = text(*mine[0]) if mine else ""
            if got != want:
                bad("other-words", e, want, e.current_match)
            s = e.matching_slice
            if want and [s.start, s.stop] != slices(*mine[0]):
                bad("wrong-slice", e, slices(*mine[0]), s)
        else:
            # One entry for each repetition, empty if it was not part of that one.  A
            # repetition in another one has those of its last match.
            inside, lo, hi = [], 0, len(toks)
            for above in reversed(list(chain(rep))):
                inside = [(i, j) for i, j in at.get(above[1] + (0,), [])
                          if lo <= i and j <= hi]
                lo, hi = inside[-1] if inside else (0, -1)
            want = []
            for i, j in inside:
                part = [text(a, b) for a, b in mine if i <= a and b <= j and a < b]
                want.append(part[-1] if part else "")
            had = [norm(x) for x in rep[0].get_expansion_matches(e)]
            if had != want:
                bad("repetitions-differ", e, want, had)
            if got != (want[-1] if want else ""):
                bad("not-the-last", e, want, e.current_match)
            for (i, j), x, y in zip(inside, want, rep[0].get_expansion_slices(e)):
                if x and norm(speech[y.start:y.stop]) != x:
                    bad("wrong-slice", e, x, y)
        rec.probe("nested-repeat", bool(rep and rep[2]))
        k = node["k"]
        if k == "ref":
            rec.probe("reference")
            # Which tags of a rule referred to in a repetition were matched is only
            # known for the last one, unless the trees are joined.
            sure[0] = sure[0] and (joined or rep is None)
            target = [x for x in spec["rules"] if x["n"] == node["n"]]
            visit(target[0]["e"], e.referenced_rule.expansion, path + (0,), rep)
        if k in ("rep", "star"):
            if rep is None:
                n = len(at.get(path + (0,), []))
                if e.repetitions_matched != n:
                    bad("repetition-count", e, n, e.repetitions_matched)
                rec.probe("repeated", n > 1)
                rec.probe("star-none", n == 0)
            rep = (e, path, rep)
        for i, (c, x) in enumerate(zip(node.get("c", ()), e.children)):
            visit(c, x, path + (i,), rep)
        if k == "alt":
            rec.probe("alternative")
        elif k == "opt":
            rec.probe("optional-taken" if any(a < b for a, b in mine)
                      else "optional-left")
        if e.tag:
            was = any(a < b for a, b in mine)
            rec.probe("tag-matched" if was else "tag-not-matched")
            if was:
                tags.append(e.tag)

    visit(env[name], rule.expansion, (), None)
    if sure[0] and rule.matched_tags != tags:
        bad("other-tags", rule, tags, rule.matched_tags)


def found(rule, spec, name, speech, part, rec):
    """What a search for a matching part has found."""
    env = M.env_of(spec["rules"])
    toks = speech.split()
    memo = {"keep": []}
    spans = [(i, j) for i in range(len(toks))
             for j in M.spans(env[name], toks, i, env, memo) if j > i]
    rec.probe("found" if part else "not-found")
    if part and (part not in speech or part.split() not in
                 [toks[i:j] for i, j in spans]):
        raise Violation("not-a-part", "%s finds %r in %r" % (rule.compile(), part,
                                                             speech))
    if spans and not part and not M.nullable(env[name], env):
        raise Violation("not-found", "%s finds nothing in %r" % (rule.compile(), speech))


def resolved(spec, name):
    env = M.env_of(spec["rules"])
    return all(x["n"] in env for n in reads.reach(spec, name)
               for x in M.walk(env[n]) if x["k"] == "ref")


def matched(h, op, got, J):
    """What a reading operation has matched: (rule, name, speech, joined) each."""
    k = op[0]
    if k in ("m", "t"):
        r = reads.find(h.g, op[1])
        if r is not None and r.active and got[0] in ("ok", ["ok", True], ["ok", False]):
            yield r, op[1], op[2]
    elif k == "f" and got[0] == "ok":
        # Rules that share one keep its last records only.
        used = {x["n"]: reads.reach(h.spec, x["n"]) for x in h.spec["rules"]
                if x["v"] and not x.get("off")}
        for n in sorted(used):
            if not any(used[n] & used[m] for m in used if m != n):
                yield reads.find(h.g, n), n, op[1]


def run(scn, rec):
    import jsgf as J
    if not scn["spec"]["rules"]:
        return
    h = H.History(M.build_grammar(scn["spec"], J), scn["spec"], J)
    before = 0

    def look(r, name, speech, joined=False):
        if not clear(h.spec, name):
            if not r.was_matched or not single(h.spec, name, speech):
                return
            rec.probe("one-reading")
        elif not says(h.spec, name, speech):
            unmatched(r, speech, J)
            rec.probe("refused")
            return
        if not r.was_matched:
            raise Violation("not-matched", "%s does not match %r" % (r.compile(), speech))
        examine(r, h.spec, name, speech, J, rec, joined)
        rec.probe("joined" if joined else "examined")
        if before:
            rec.probe("examined-again")
            rec.nontrivial = True

    for i, op in enumerate(scn["ops"]):
        rec.step()
        if op[0] == "cut":
            lines = sim.Lines(op[2])
            try:
                with lines:
                    h.do(["r", op[1]])
            except sim.SimInterrupt:
                rec.fault("interrupt")
                rec.probe("cut")
            rec.log(i, op, lines.fired)
            before += 1
            continue
        if op[0] == "jx":
            name, speech = op[1][1:]
            r = reads.find(h.g, name)
            if r is None or not r.active or not resolved(h.spec, name):
                continue
            with J.JointTreeContext(r.expansion):
                r.matches(speech)
                look(r, name, speech, True)
            rec.log(i, op)
        else:
            got = h.do(op)
            rec.log(i, op, got)
            if op[0] == "r" and op[1][0] == "p" and got[0] == "ok":
                name, speech = op[1][1:]
                r = reads.find(h.g, name)
                if r is not None and r.active and resolved(h.spec, name) and \
                        clear(h.spec, name):
                    found(r, h.spec, name, speech, got[1], rec)
            if op[0] == "r" and h.spec["rules"]:
                for x in matched(h, op[1], got, J):
                    look(*x)
        before += 1
