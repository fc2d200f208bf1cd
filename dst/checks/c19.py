"""C19: a copy of a definition is a whole and separate one.  Clients copy rules at any
point of a history, and the originals and the copies then live separate lives: each
behaves as a grammar that was built on its own and saw its own operations only."""
import copy

from .. import edits, history as H, model as M, reads
from ..core import Violation

ID = "C19"
RUNS = {"quick": 2500, "thorough": 40000}
SHRINK = ("ops", "spec")
RULE = ("a case is one interleaving of editors and recognisers of a grammar and of up to "
        "three grammars made of copies (also copies of copies); non-trivial when a copy "
        "was made and both it and what it was made of were edited or matched afterwards")
REAL = ["jsgf.expansions", "jsgf.rules", "jsgf.grammars", "jsgf.ext.expansions",
        "pyparsing"]
STUB = ["random module (SimRandom)"]
PROBES = ["forked", "forked-after-match", "forked-part", "copy-of-copy", "edited-original",
          "edited-copy", "weights", "tags", "dictation", "killed-copy"]
ASSUMPTIONS = ["references to rule objects are replaced by references by name: a copy "
               "refers to the same rules as the original"]


def plain(spec):
    spec = copy.deepcopy(spec)
    for r in spec["rules"]:
        for x in M.walk(r["e"]):
            x.pop("o", None)
    return spec


def forked(spec, part=None):
    """The definition that a copy of all rules has (with one replaced by a part of it)."""
    spec = plain(spec)
    spec.pop("root", None)
    for r in spec["rules"]:
        r.pop("off", None)
        if part and part[0] == r["n"]:
            r["e"] = node(r["e"], part[1])
        M.set_cs(r["e"], bool(spec.get("cs")))
    return spec


def node(n, path):
    for i in path:
        n = n["c"][i]
    return n


def gen(rng, cfg):
    spec, ed = H.gen_spec(rng)
    spec = plain(spec)
    ed.spec, ed.obj_refs = copy.deepcopy(spec), 0
    eds, ops = [ed], []
    p = rng.choice([0.3, 0.6])
    for _ in range(rng.randint(4, 12)):
        i = rng.randrange(len(eds))
        ed = eds[i]
        if len(eds) < 4 and rng.random() < (0.5 if len(eds) == 1 else 0.15) and \
                all(edits.copyable(r["e"]) for r in ed.spec["rules"]):
            part = None
            if rng.random() < 0.3:
                r = rng.choice(ed.spec["rules"])
                paths = [q for q, x in edits.nodes(r["e"])]
                part = [r["n"], rng.choice(paths)]
            new = forked(ed.spec, part)
            if not edits.env_ok(new):
                continue
            ops.append(["fork", i, part, rng.choice([0, 0, 0, rng.randint(1, 80)])])
            e = edits.Editor(rng, ed.gen, new, ed.names, ed.kinds, 0)
            e.dict = ed.dict
            eds.append(e)
            continue
        for op in H.gen_ops(rng, ed, rng.randint(1, 3), p):
            ops.append(["do", i, op])
    return {"spec": spec, "ops": ops}


class Stop(BaseException):
    pass


def interrupted(e, n):
    """A copy that is stopped at its n-th line."""
    import sys
    left = [n]

    def tr(frame, event, arg):
        if event == "line":
            left[0] -= 1
            if left[0] <= 0:
                raise Stop()
        return tr
    sys.settrace(tr)
    try:
        e.copy()
    except Stop:
        return True
    finally:
        sys.settrace(None)
    return False


def fork(h, part, kill, J, rec):
    g = h.g
    new = J.Grammar(g.name, bool(g.case_sensitive))
    rules = []
    for s in h.spec["rules"]:
        r = reads.find(g, s["n"])
        e = r.expansion
        if part and part[0] == s["n"]:
            for i in part[1]:
                e = e.children[i]
        if kill and interrupted(e, kill):
            rec.fault("killed-copy")
            rec.probe("killed-copy")
        c = e.copy()
        # (the hash of Dictation depends on what it is part of)
        free = any(isinstance(x, J.ext.Dictation) for x in M.nodes_of(e)) and part
        if not c == e or not e == c or c is e or not free and hash(c) != hash(e):
            raise Violation("copy-not-equal", "%s copied is %s" % (e, c))
        if c.compile() != e.compile() or [x.tag for x in M.nodes_of(c)] != \
                [x.tag for x in M.nodes_of(e)]:
            raise Violation("copy-differs", "%s copied is %s" % (e, c))
        if any(x.current_match is not None for x in M.nodes_of(c)
               if not isinstance(x, (J.NullRef, J.VoidRef))):
            raise Violation("copy-matched", "the copy of %s has match data" % e)
        rules.append(J.Rule(r.name, r.visible, c, r.case_sensitive))
    for r in rules:
        new.add_rule(r)
    return new


def nodes(g):
    return {id(x) for r in g.rules for x in M.nodes_of(r.expansion)}


def run(scn, rec):
    import jsgf as J
    if not scn["spec"]["rules"]:
        return

    def build(spec):
        return H.History(M.build_grammar(spec, J), spec, J)

    live, twin, origin = [build(scn["spec"])], [build(scn["spec"])], [None]
    done, matched = [0], [False]

    def check(what):
        for i, (a, b) in enumerate(zip(live, twin)):
            got, want = a.all(), b.all()
            if got != want:
                raise Violation("%s-changed" % ("copy" if i else "original"),
                                "after %r, grammar %d: %s" % (what, i, "; ".join(
                                    "%r instead of %r" % p for p in zip(got, want)
                                    if p[0] != p[1])[:900]))

    for op in scn["ops"]:
        rec.step()
        i = op[1] % len(live)
        if op[0] == "fork":
            spec = live[i].spec
            if not spec["rules"] or not all(edits.copyable(r["e"])
                                            for r in spec["rules"]):
                continue
            part = op[2]
            try:
                new = forked(spec, part)
            except LookupError:
                continue        # (after minimisation) no such part
            if not edits.env_ok(new):
                continue
            g = fork(live[i], part, op[3], J, rec)
            rec.probe("forked")
            rec.fault("copy")
            rec.probe("forked-after-match", matched[i])
            rec.probe("forked-part", bool(part))
            rec.probe("copy-of-copy", i > 0)
            text = repr(new)
            rec.probe("weights", "'w'" in text)
            rec.probe("tags", "'tag'" in text)
            rec.probe("dictation", "'dict'" in text)
            if any(nodes(g) & nodes(h.g) for h in live):
                raise Violation("shared", "the copy and the original share expansions")
            live.append(H.History(g, new, J))
            twin.append(build(new))
            origin.append(i)
            done.append(0)
            matched.append(False)
            check(op)
            continue
        want, got = twin[i].do(op[2]), live[i].do(op[2])
        rec.log(i, op, got)
        if got == ["skip"]:
            continue
        if got != want:
            raise Violation("differs-%s" % op[2][1][0], "%s %d: %r gives %r; on its own "
                            "it gives %r" % ("copy" if i else "original", i, op, got,
                                             want))
        matched[i] = matched[i] or op[2][0] == "r" and op[2][1][0] in reads.MATCHING
        if len(live) > 1:
            done[i] += 1
            if op[2][0] == "e":
                rec.probe("edited-copy" if i else "edited-original")
        check(op)
    if any(i is not None and done[k] and done[i] for k, i in enumerate(origin)):
        rec.nontrivial = True


def simplify(scn):
    import json
    for key in ("tag", "w", "cs", "off"):
        c = json.loads(json.dumps(scn))
        hit = False
        for r in c["spec"]["rules"]:
            hit = r.pop(key, None) is not None or hit
            for x in M.walk(r["e"]):
                hit = x.pop(key, None) is not None or hit
        if hit:
            yield c
