"""C02: over many generations the random choices follow the definition: alternatives in
proportion to their weights (equal without weights), zero weights never, optional parts
both present and absent, repetitions of varying number."""
import copy
import math

from .. import model as M, sim
from ..core import Violation

ID = "C02"
RUNS = {"quick": 2500, "thorough": 60000}
SHRINK = ()
RULE = ("a case is one tree of marked choices, sampled a few hundred times by interleaved "
        "clients with weight edits in between; non-trivial when at least one choice was "
        "reached 60 times or more")
REAL = ["jsgf.expansions", "jsgf.rules", "jsgf.grammars"]
STUB = ["random module (SimRandom: seeded stream)"]
PROBES = ["alt-weighted", "alt-equal", "opt", "rep", "star", "zero-weight", "reweighted",
          "mute-alternative"]
ASSUMPTIONS = ["the random source is uniform; proportions are tested at 7 standard "
               "deviations of the seeded stream"]
Z = 7.0


def gen(rng, cfg):
    words = [w for w in M.WORDS]
    rng.shuffle(words)

    def marked(depth, rules):
        m = {"k": "lit", "t": words.pop()}
        if depth <= 0 or len(words) < 8 or rng.random() < 0.35:
            return m
        return {"k": rng.choice(["grp", "seq"]), "c": [m, choice(depth - 1, rules)]}

    def choice(depth, rules):
        r = rng.random()
        if r < 0.5:
            n = {"k": "alt", "c": [marked(depth, rules)
                                   for _ in range(rng.randint(2, 4))]}
            if rng.random() < 0.25:     # one alternative says nothing
                n["c"][rng.randrange(len(n["c"]))] = {"k": "null"}
            if rng.random() < 0.6:
                n["w"] = weights(rng, len(n["c"]))
            return n
        if r < 0.7:
            return {"k": "opt", "c": [marked(depth, rules)]}
        if r < 0.82:
            return {"k": "rep", "c": [marked(min(depth, 1), rules)]}
        if r < 0.92 or not rules:
            return {"k": "star", "c": [marked(min(depth, 1), rules)]}
        return {"k": "ref", "n": rules[-1]["n"]}

    rules = []
    for i in range(rng.randint(1, 3)):
        rules.append({"n": M.RULE_NAMES[i], "v": True, "e": {
            "k": "grp", "c": [{"k": "lit", "t": words.pop()},
                              choice(rng.randint(1, 3), rules)]}})
        if len(words) < 12:
            break
    env = M.env_of(rules)
    rules = [r for r in rules]
    phases = [[]]
    if rng.random() < 0.5:
        edits = []
        for r in rules:
            for p, x in walk_paths(r["e"]):
                if x["k"] == "alt" and x.get("w"):
                    edits.append([r["n"], p, weights(rng, len(x["c"])),
                                  rng.random() < 0.5])
        phases.append(edits)
    return {"spec": {"name": "g", "rules": rules}, "phases": phases,
            "n": rng.choice([250, 500]), "seed": rng.randrange(10 ** 9)}


def weights(rng, n):
    w = [rng.choice([0, 1, 2, 3.5, 0.5, 10, 1]) for _ in range(n)]
    if not any(w):
        w[0] = 1
    return w


def walk_paths(n, p=()):
    yield list(p), n
    for i, c in enumerate(n.get("c", ())):
        for x in walk_paths(c, p + (i,)):
            yield x


def marker(node):
    if node["k"] == "null":
        return None
    return node["t"] if node["k"] == "lit" else node["c"][0]["t"]


def tally(kids, counts, n):
    """How often each alternative was chosen in n choices."""
    got = [counts.get(m, 0) for m in kids]
    if None in kids:
        got[kids.index(None)] = n - sum(got)
    if sum(got) != n or min(got) < 0:
        raise Violation("not-one-alternative", "%s of %d" % (got, n))
    return got


def run(scn, rec):
    import jsgf as J
    spec = copy.deepcopy(scn["spec"])
    g = M.build_grammar(spec, J)
    sim.RANDOM.program(scn["seed"])
    for k, phase in enumerate(scn["phases"]):
        for name, path, ws, how in phase:
            r = [x for x in spec["rules"] if x["n"] == name][0]
            n, e = r["e"], [x for x in g.rules if x.name == name][0].expansion
            for i in path:
                n, e = n["c"][i], e.children[i]
            n["w"] = ws
            if how:
                e.weights = dict(zip(list(e.children), ws))
            else:
                for i, w in enumerate(ws):
                    e.set_weight(i, w)
            rec.probe("reweighted")
        counts, follow = {}, {}
        choices = [(marker(r["e"]), r["e"]["c"][1]) for r in spec["rules"]]
        stack = []
        for r in spec["rules"]:
            stack.append(r["e"])
        pairs = []
        while stack:
            n = stack.pop()
            if n["k"] in ("grp", "seq"):
                pairs.append((n["c"][0]["t"], n["c"][1]))
                stack.append(n["c"][1])
            else:
                stack.extend(n.get("c", ()))
        reps = {marker(x["c"][0]): p for p, x in pairs if x["k"] in ("rep", "star")}
        runs_of = {m: [] for m in reps}
        for i in range(scn["n"]):
            for rule in g.rules:
                toks = rule.generate().split()
                rec.step()
                for t in toks:
                    counts[t] = counts.get(t, 0) + 1
                for m, p in reps.items():
                    c = None
                    for t in toks:
                        if t == p:
                            if c is not None:
                                runs_of[m].append(c)
                            c = 0
                        elif t == m and c is not None:
                            c += 1
                    if c is not None:
                        runs_of[m].append(c)
        rec.log(k, sorted(counts.items()))
        extremes(scn["seed"] + k, g, pairs, rec)
        rec.probe("random-draws", sim.RANDOM.draws)
        for p, x in pairs:
            n = counts.get(p, 0)
            kids = [marker(c) for c in x.get("c", ())]
            got = [counts.get(m, 0) for m in kids]
            if x["k"] == "alt":
                w = x.get("w") or [1] * len(kids)
                got = tally(kids, counts, n)
                rec.probe("mute-alternative", None in kids)
                for m, wt, c in zip(kids, w, got):
                    q = float(wt) / sum(w)
                    if not wt:
                        rec.probe("zero-weight")
                        if c:
                            raise Violation("zero-weight-generated", "%s %d times" %
                                            (m, c))
                    if n < 60:
                        continue
                    rec.nontrivial = True
                    rec.probe("alt-weighted" if x.get("w") else "alt-equal")
                    if abs(c - n * q) > Z * math.sqrt(n * q * (1 - q)) + 4:
                        raise Violation("wrong-proportion", "alternative %r chosen %d "
                                        "times of %d, weights %s" % (m, c, n, w))
            elif x["k"] == "opt" and n >= 100:
                rec.nontrivial = True
                rec.probe("opt")
                if not 0 < got[0] < n:
                    raise Violation("optional-not-optional", "%d of %d" % (got[0], n))
            elif x["k"] in ("rep", "star") and n >= 100:
                rec.nontrivial = True
                rec.probe(x["k"])
                seen = set(runs_of[kids[0]])
                if len(runs_of[kids[0]]) != n:
                    continue
                lo = 1 if x["k"] == "rep" else 0
                if min(seen) != lo or not {lo, lo + 1} <= seen or max(seen) < lo + 2:
                    raise Violation("repetitions-not-varied", "%s over %d" % (
                        sorted(seen), n))


def extremes(seed, g, pairs, rec):
    """The random source at the ends of its range (and anywhere else): still exactly
    one alternative each time, and never one of weight zero."""
    state = sim.RANDOM.getstate()
    draws = sim.RANDOM.draws
    sim.RANDOM.program(seed, None, 0.4)
    counts = {}
    for i in range(12):
        for rule in g.rules:
            rec.step()
            for t in rule.generate().split():
                counts[t] = counts.get(t, 0) + 1
    if sim.RANDOM.edges:
        rec.fault("extreme-random-outcome", sim.RANDOM.edges)
    rec.log("extremes", sorted(counts.items()))
    for p, x in pairs:
        if x["k"] != "alt":
            continue
        kids = [marker(c) for c in x["c"]]
        got = tally(kids, counts, counts.get(p, 0))
        for m, w, c in zip(kids, x.get("w") or [1] * len(kids), got):
            if not w and c:
                raise Violation("zero-weight-generated", "%s %d times, with extreme "
                                "random outcomes" % (m, c))
    sim.RANDOM.program(seed + 1)
    sim.RANDOM.draws = draws
    sim.RANDOM.setstate(state)
