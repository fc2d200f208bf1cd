"""C08: reading has no side effects and no memory.  However many clients matched,
compiled, generated, searched, copied or joined trees before, every read operation gives
what it gives on a freshly built equal grammar, and it replaces no match record but those
of the rules it matches."""
import copy

from .. import model as M, reads
from ..core import Violation

ID = "C08"
RUNS = {"quick": 3600, "thorough": 60000}
SHRINK = ("ops", "spec")
RULE = ("a case is one seeded interleaving of 2-4 reading clients (27 kinds of read "
        "operation) on one shared grammar of 1-5 rules that refer to each other; "
        "non-trivial when a matching operation follows another one on a common rule")
REAL = ["jsgf.expansions", "jsgf.rules", "jsgf.grammars", "jsgf.ext.expansions",
        "pyparsing"]
STUB = ["random module (SimRandom)"]
PROBES = ["match-true", "match-false", "shared-rule", "dictation", "record-kept",
          "joint", "error", "lists-changed", "copy-changed"]
ASSUMPTIONS = ["rules do not refer to themselves"]


def gen(rng, cfg):
    g = M.Gen(rng, reuse=rng.choice([0.0, 0.1, 0.5]), tags=rng.choice([0.1, 0.4]),
              weights=rng.choice([0.1, 0.5]), max_depth=rng.randint(1, 3),
              caps=rng.choice([0, 0.3]))
    rules = g.rules(rng.randint(1, 5), safe=rng.random() < 0.5)
    for r in rules:
        for x in M.walk(r["e"]):
            if x["k"] == "ref" and rng.random() < 0.3:
                x["o"] = 1
            if x["k"] == "lit" and rng.random() < 0.1:
                x["cs"] = 1
    if rng.random() < 0.3:      # a rule ending in free dictation
        names = {r["n"] for r in rules}
        free = [n for n in M.RULE_NAMES if n not in names]
        tail = {"k": "dict"}
        if rng.random() < 0.3:
            tail["tag"] = "D"
        if rng.random() < 0.3:
            tail = {"k": "opt", "c": [tail]}
        kids = [g.lit()]
        if rng.random() < 0.5:
            kids.append({"k": "ref", "n": rng.choice(rules)["n"]})
        mid = [{"k": "dict"}, g.lit()] if rng.random() < 0.4 else []
        e = {"k": "seq", "c": kids + mid + [tail]}
        if rng.random() < 0.3:
            e = {"k": "rep", "c": [{"k": "seq", "c": kids[:1] + [{"k": "dict"}]}]}
        rules.append({"n": free[0], "v": True, "e": e})
    if rng.random() < 0.1:      # a name that is not there
        rules[-1]["e"] = {"k": "alt", "c": [rules[-1]["e"], {"k": "ref", "n": "nowhere"}]}
    spec = {"name": rng.choice(["g", "com.acme.g"]), "rules": rules}
    if rng.random() < 0.2:
        spec["cs"] = True
        for r in rules:
            M.set_cs(r["e"], True)
    for r in rules:
        if rng.random() < 0.08:
            r["off"] = 1
    kinds = [k for k in reads.KINDS if rng.random() < 0.6] + ["m"]
    hot = rng.choice(rules)["n"]
    ops = [reads.gen_read(rng, spec, kinds, hot) for _ in range(rng.randint(4, 16))]
    ops += [["m", hot, reads.utter(rng, spec, hot)], ["nm", hot], ["s", hot], ["c", False]]
    return {"spec": spec, "ops": ops}


def run(scn, rec):
    import jsgf as J
    spec = scn["spec"]
    if not spec["rules"]:
        return
    g = M.build_grammar(spec, J)
    names = [r["n"] for r in spec["rules"]]
    records, met = {}, set()
    for i, op in enumerate(scn["ops"]):
        rec.step()
        fresh = M.build_grammar(spec, J)
        want = reads.do_read(fresh, spec, op, J)
        if want is None:
            continue
        got = reads.do_read(g, spec, op, J)
        rec.log(i, op, got)
        rec.fault("client-%s" % op[0])
        probe(op, got, rec, spec)
        if got != want:
            raise Violation("remembers-%s" % op[0], "after %d reads %r gives %r; on a "
                            "freshly built equal grammar it gives %r" %
                            (i, op, got, want))
        t = reads.touched(spec, op)
        if t & met:
            rec.nontrivial = True
            rec.probe("shared-rule")
        met |= t
        for n in names:
            v = reads.view(reads.find(g, n), J)
            if n in records and not reads.reach(spec, n) & t:
                rec.probe("record-kept")
                if v != records[n]:
                    raise Violation("record-lost", "%r changed the match record of rule "
                                    "%r: %r -> %r" % (op, n, records[n], v))
            records[n] = v


def probe(op, got, rec, spec):
    if op[0] == "m":
        rec.probe("match-%s" % str(got[0][1]).lower() if got[0][0] == "ok" else "error")
        if any(x["k"] == "dict" for x in M.walk(
                M.env_of(spec["rules"])[op[1]])) and got[0][1] is True:
            rec.probe("dictation")
    if op[0] in ("ls", "ce"):
        rec.probe("lists-changed" if op[0] == "ls" else "copy-changed")
    if op[0] in ("jm", "jq") and got[0] == "ok":
        rec.probe("joint")


def simplify(scn):
    import json
    for key in ("tag", "w", "o", "cs", "off"):
        c = json.loads(json.dumps(scn))
        hit = False
        for r in c["spec"]["rules"]:
            hit = r.pop(key, None) is not None or hit
            for x in M.walk(r["e"]):
                hit = x.pop(key, None) is not None or hit
        if hit:
            yield c
