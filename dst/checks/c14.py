"""C14: a grammar checkpointed by pickling and restored after a crash, in this or another
process, continues exactly as the one that never stopped: same definition, same match
records, same answers to every later operation."""
import copy
import os
import pickle

from .. import history as H, model as M, reads, sim
from ..core import Violation

ID = "C14"
RUNS = {"quick": 2400, "thorough": 30000}
SHRINK = ("ops", "spec")
RULE = ("a case is one history of edits and reads of a grammar with checkpoints, crashes "
        "that lose everything since the checkpoint, restores, and moves to another "
        "process with other string hashes; non-trivial when a match or edit happened "
        "both before a checkpoint and after its restoration")
REAL = ["jsgf.expansions", "jsgf.rules", "jsgf.grammars", "jsgf.ext.expansions",
        "pickle", "pyparsing", "real processes for 'proc' steps"]
STUB = ["random module (SimRandom)", "object addresses seen by the library's "
        "calculation cache (numbered from zero again after each restart)"]
PROBES = ["restored", "crash-lost-ops", "other-process", "matched-before",
          "edited-after", "from-node", "from-rule", "import", "repeat-record",
          "weights", "relations-before", "dictation-mode", "put-back"]
ASSUMPTIONS = ["both processes run the same version of the code"]


def prepare(base, tier, seed):
    H.warm(base)


class Process(H.History):
    """A history in a process of its own."""

    def __init__(self, *a):
        super(Process, self).__init__(*a)
        self.ids, self.kept = Ids(), None

    def do(self, op):
        Ids.now = self.ids
        if op[0] == "e":
            self.kept = None
        elif op[0] == "sv":
            self.kept = keep(self, op[1], self.J)
            return [bool(self.kept)]
        elif op[0] == "rs":
            if self.kept:
                put_back(self.kept, op[1], self.J)
            return [bool(self.kept)]
        return super(Process, self).do(op)

    def all(self):
        Ids.now = self.ids
        return super(Process, self).all()


class Ids(object):
    """Stands in for id() in jsgf.expansions: addresses are reused after a restart.
    One instance per simulated process; `Ids.now` is the running one's."""
    now = None

    def __init__(self):
        self.restart()

    def __call__(self, x):
        k = id(x)
        if k not in self.map:
            self.map[k] = len(self.keep) + 1
            self.keep.append(x)
        return self.map[k]

    def restart(self):
        self.map, self.keep = {}, []


def gen(rng, cfg):
    spec, ed = H.gen_spec(rng)
    lib = rng.random() < 0.15
    if lib:
        spec["imports"] = ["lib.*"] if rng.random() < 0.5 else ["lib.part"]
        r = rng.choice(spec["rules"])
        r["e"] = {"k": "seq", "c": [r["e"], {"k": "ref", "n": "part"}]}
        H.simple_edits(ed, ["text", "tag", "lcs", "vis", "active"])
        ed.spec = copy.deepcopy(spec)
    dictated = any(x["k"] == "dict" for r in spec["rules"] for x in M.walk(r["e"]))
    ops, saved = [], None
    p = rng.choice([0.2, 0.5])
    for _ in range(rng.randint(2, 5)):
        ops += H.gen_ops(rng, ed, rng.randint(1, 4), p)
        if dictated and rng.random() < 0.6:
            ops.append(["d", rng.randrange(6), rng.choice(
                [None, "some", "some words", "spoken freely", ""]), rng.random() < 0.7])
        if rng.random() < 0.4:
            # Match data kept in memory and put back.
            kept = H.gen_ops(rng, ed, rng.randint(1, 3), 0, ["m", "m", "f", "t", "c", "p"])
            ops += [["sv", rng.randrange(10 ** 6)]] + kept + [["rs", rng.random() < 0.8]]
        r = rng.random()
        how = rng.choice(["g", "g", "r", "x", "t", "l", "n"])
        proto = rng.randint(0, pickle.HIGHEST_PROTOCOL)
        if r < 0.5 or lib:
            ops.append(["move", proto, how, rng.randrange(10 ** 6)])
        elif r < 0.75:
            ops.append(["ck", proto, how, rng.randrange(10 ** 6)])
            saved = copy.deepcopy(ed.spec)
        elif r < 0.82 and cfg["i"] % 3 == 0:
            part = H.gen_ops(rng, ed, rng.randint(1, 4), p)
            ops.append(["proc", proto, rng.randint(1, 9), part])
        elif saved is not None:
            ops.append(["crash"])
            ed.spec = copy.deepcopy(saved)
        if lib and rng.random() < 0.3:
            ops.append(["rmlib"])
    ops += H.gen_ops(rng, ed, rng.randint(2, 5), p)
    return {"spec": spec, "ops": ops, "lib": lib,
            "libspec": {"name": "lib", "rules": [
                {"n": "part", "v": True, "e": {"k": "alt", "c": [
                    {"k": "lit", "t": "library"}, {"k": "lit", "t": "imported words"}]}},
                {"n": "other", "v": rng.random() < 0.5,
                 "e": {"k": "lit", "t": "unrelated"}}]}}


def dump(g, proto, how, pick, J):
    rules = g.rules
    r = rules[pick % len(rules)]
    if how == "r":
        obj = r
    elif how == "x":
        obj = r.expansion
    elif how == "n":
        obj = [e for e in M.nodes_of(r.expansion)][pick // 7 %
                                                   len(list(M.nodes_of(r.expansion)))]
    elif how == "t":
        obj = (g, r, list(M.nodes_of(r.expansion)))
    elif how == "l":
        obj = rules
    else:
        obj = g
    return H.pickled(obj, proto)


def load(data, how, g):
    obj = H.unpickled(data)
    if how == "r":
        return obj.grammar
    if how in ("x", "n"):
        return obj.root_expansion.rule.grammar
    if how == "l":
        return obj[0].grammar
    if how == "t":
        new, r, nodes = obj
        if not any(x is r for x in new.rules):
            raise Violation("identity-lost", "a rule saved with its grammar is not the "
                            "restored grammar's rule")
        if [id(e) for e in M.nodes_of(r.expansion)] != [id(e) for e in nodes]:
            raise Violation("identity-lost", "expansions saved with their rule are not "
                            "in the restored tree")
        return new
    return obj


def run(scn, rec):
    import jsgf as J
    import jsgf.expansions as X
    X.id = lambda x: Ids.now(x)
    Ids.now = Ids()
    if not scn["spec"]["rules"]:
        return
    if scn["lib"]:
        with open("lib.jsgf", "w") as f:
            f.write(M.build_grammar(scn["libspec"], J).compile())

    def fresh():
        return Process(M.build_grammar(scn["spec"], J), scn["spec"], J)

    live, twin = fresh(), fresh()
    past, ck, kept = [], None, []
    before = after = restored = False

    def compare(i, what, got, want):
        if got != want:
            d = ""
            if isinstance(want, list) and isinstance(got, list):
                d = "; ".join("%r instead of %r" % p for p in zip(got, want)
                              if p[0] != p[1])
            raise Violation(what, "operation %d: the restored grammar gives %s" %
                            (i, (d or "%r instead of %r" % (got, want))[:900]))

    def step(i, op):
        want, got = twin.do(op), live.do(op)
        rec.step()
        past.append(op)
        rec.log(i, op, got)
        if restored:
            rec.probe("edited-after", op[0] == "e")
        elif op[0] == "r" and op[1][0] in reads.MATCHING:
            rec.probe("matched-before")
        if op[0] == "r" and op[1][0] in ("q", "jq"):
            rec.probe("relations-before")
        rec.probe("dictation-mode", op[0] == "d" and got != ["skip"])
        compare(i, "differs-%s" % (op[1][0] if op[0] != "d" else "d"), got, want)

    for i, op in enumerate(scn["ops"]):
        k = op[0]
        if k in ("sv", "rs"):
            if twin.kept is None or live.kept is None:
                twin.kept = live.kept = None        # of trees that are gone
            want, got = twin.do(op), live.do(op)
            past.append(op)
            rec.probe("put-back", k == "rs" and want == [True])
            compare(i, "differs-sv", got, want)
            compare(i, "restored-differs", live.all(), twin.all())
        elif k in ("e", "r", "d"):
            step(i, op)
            before = before or not restored
            after = after or restored
        elif k in ("move", "ck"):
            if not live.g.rules:
                continue
            state = live.all()
            data = dump(live.g, op[1], op[2], op[3], J)
            rec.fault("checkpoint")
            rec.probe({"n": "from-node", "x": "from-node", "r": "from-rule"}.get(
                op[2], "from-grammar"))
            if scn["lib"]:
                rec.probe("import")
            compare(i, "checkpoint-disturbs", live.all(), state)
            if k == "ck":
                ck = (data, op[2], list(past), copy.deepcopy(live.spec))
                continue
            live.ids.restart()
            live.g, live.kept = load(data, op[2], live.g), None
            restored = True
            check_all(i, live, twin, rec, compare, state)
        elif k == "crash":
            if ck is None:
                continue
            data, how, past_ck, spec = ck
            rec.fault("crash")
            if len(past) > len(past_ck):
                rec.probe("crash-lost-ops")
            twin = fresh()
            for o in past_ck:
                twin.do(o)
            past[:] = past_ck
            live = Process(load(data, how, None), spec, J)
            restored = True
            check_all(i, live, twin, rec, compare)
        elif k == "proc":
            job = {"blob": H.b64(H.pickled(live.g, op[1])), "spec": live.spec,
                   "ops": op[3], "proto": op[1]}
            out = H.other_process(job, op[2])
            rec.fault("process-move")
            rec.probe("other-process")
            if "error" in out:
                raise Violation("other-process-fails", out["error"])
            for o, got in zip(op[3], out["results"]):
                compare(i, "differs-in-process-%s" % o[1][0], got, twin.do(o))
                past.append(o)
            live = Process(H.unpickled(H.unb64(out["blob"])), twin.spec, J)
            restored = True
            check_all(i, live, twin, rec, compare)
        elif k == "rmlib":
            if os.path.exists("lib.jsgf"):
                os.remove("lib.jsgf")
    if before and after:
        rec.nontrivial = True


def data_of(e, J):
    out = []
    J.map_expansion(e, lambda x: out.append((x.current_match, x.matching_slice)))
    return out


def keep(h, pick, J):
    if not h.g.rules:
        return None
    r = h.g.rules[pick % len(h.g.rules)]
    nodes = list(M.nodes_of(r.expansion))
    e = nodes[pick // 7 % len(nodes)]
    try:
        return e, J.save_current_matches(e), data_of(e, J)
    except (J.GrammarError, J.JSGFImportError):
        return None         # what it refers to is not there


def put_back(kept, everything, J):
    """Each expansion gets back what it had (unless it had nothing and `everything` is
    false)."""
    e, values, had = kept
    now = data_of(e, J)
    J.restore_current_matches(e, values, everything)
    want = had if everything else [
        tuple(y if x is None else x for x, y in zip(a, b)) for a, b in zip(had, now)]
    got = data_of(e, J)
    if [(a or None, b) for a, b in got] != [(a or None, b) for a, b in want]:
        raise Violation("not-put-back", "match data %r were saved, %r were restored "
                        "over %r" % (had, got, now))


def check_all(i, live, twin, rec, compare, state=None):
    rec.probe("restored")
    got = live.all()
    want = twin.all()
    rec.log(i, "restored", got)
    compare(i, "restored-differs", got, want)
    text = repr(want)
    if "'Repeat'" in text or "'KleeneStar'" in text:
        rec.probe("repeat-record")
    if "/ " in text:
        rec.probe("weights")


def simplify(scn):
    import json
    for key in ("tag", "w", "o", "cs", "off"):
        c = json.loads(json.dumps(scn))
        hit = False
        for r in c["spec"]["rules"]:
            hit = r.pop(key, None) is not None or hit
            for x in M.walk(r["e"]):
                hit = x.pop(key, None) is not None or hit
        if hit:
            yield c
