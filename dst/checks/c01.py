"""C01: whatever the random source returns, a generated string is a sentence of the
rule's current definition, and the library itself recognises it."""
import copy

from .. import edits, model as M, sim
from ..core import Violation

ID = "C01"
RUNS = {"quick": 6000, "thorough": 40000}
SHRINK = ("ops", "spec")
RULE = ("a case is one grammar and a history of generate calls (and some edits) under a "
        "programmed random source; non-trivial when a definition with an alternative, "
        "optional or repetition was generated from")
REAL = ["jsgf.expansions", "jsgf.rules", "jsgf.grammars", "pyparsing"]
STUB = ["random module (SimRandom: seeded stream with scripted extreme outcomes)"]
PROBES = ["matched", "empty-string", "edited", "long", "ref", "weighted", "subtree",
          "nested-repetition", "empty-repetition", "emptied",
          "dangling-elsewhere"]
ASSUMPTIONS = ["no VOID or Dictation expansions; at least one alternative of a weighted set "
               "has a positive weight"]


def gen(rng, cfg):
    names = list(M.RULE_NAMES)
    rng.shuffle(names)
    names = names[:rng.randint(2, 5)]
    g = M.Gen(rng, reuse=rng.choice([0, 0, 0.3]), weights=rng.choice([0.2, 0.7]),
              max_depth=rng.randint(2, 4), caps=rng.choice([0, 0.3]))
    rules = g.rules(rng.randint(1, min(4, len(names))), safe=rng.random() < 0.7)
    order = sorted(rng.sample(names, len(rules)), key=names.index)
    ren = {r["n"]: order[i] for i, r in enumerate(rules)}
    for r in rules:
        r["n"] = ren[r["n"]]
        for x in M.walk(r["e"]):
            if x["k"] == "ref":
                x["n"] = ren[x["n"]]
                if rng.random() < 0.4:
                    x["o"] = 1
            if x["k"] == "lit" and rng.random() < 0.1:
                x["cs"] = 1
    spec = {"name": "g", "rules": rules}
    ed = edits.Editor(rng, g, spec, names)
    ops = []
    p_edit = rng.choice([0, 0.1, 0.3, 0.5])
    for _ in range(rng.randint(3, 20 if p_edit else 14)):
        if rng.random() < p_edit:
            op = ed.op()
            if op:
                ops.append(["e", op])
                continue
        r = rng.choice(ed.spec["rules"])
        if ops and ops[-1][0] == "e" and rng.random() < 0.5:    # whom the edit affects
            users = [q for q in ed.spec["rules"] if any(
                x["k"] == "ref" for x in M.walk(q["e"]))]
            r = rng.choice(users or [r])
        script = {}
        mode = rng.random()
        if mode < 0.25:
            v = rng.choice(sim.SimRandom.EDGES)
            script = {str(k): v for k in range(rng.randint(1, 6))}
        elif mode < 0.5:
            script = {str(rng.randrange(8)): rng.choice(sim.SimRandom.EDGES)
                      for _ in range(3)}
        path = []
        if rng.random() < 0.25:
            path = rng.choice([p for p, _ in edits.nodes(r["e"])])
        ops.append(["g", r["n"], path, rng.randrange(10 ** 9), script,
                    rng.choice([0, 0, 0.1, 0.4])])
    return {"spec": spec, "ops": ops}


def run(scn, rec):
    import jsgf as J
    spec = copy.deepcopy(scn["spec"])
    g = M.build_grammar(spec, J)
    for i, op in enumerate(scn["ops"]):
        rec.step()
        if op[0] == "e":
            before = copy.deepcopy(spec)
            if not edits.apply_spec(spec, op[1]):
                spec = before
                continue
            edits.apply_live(g, before, op[1], J)
            rec.probe("edited")
            rec.log(i, "edit", op[1])
            continue
        _, name, path, seed, script, rate = op
        r = edits.rule_of(spec, name)
        if r is None:
            continue
        rule = [x for x in g.rules if x.name == name][0]
        try:
            node = edits.node_at(r["e"], path)
        except (IndexError, KeyError):
            continue
        env = {x["n"]: x["e"] for x in spec["rules"]}
        if any(x["k"] == "ref" and x["n"] not in env for x in edits_deep(node, env)):
            continue
        deep = nesting(node, env)
        if deep > 1:        # thousands of repetitions of repetitions take too long
            rec.probe("nested-repetition")
            script = {k: max(v, 0.1) for k, v in script.items()}
        sim.RANDOM.program(seed, script, 0.0 if deep > 1 else rate)
        s = rule.generate() if not path else edits.live_at(rule.expansion,
                                                           path).generate()
        edges, draws = sim.RANDOM.edges, sim.RANDOM.draws
        if edges:
            rec.fault("extreme-random-outcome", edges)
        rec.probe("random-draws", draws)
        rec.log(i, name, path, s, draws)
        kinds = {x["k"] for x in M.walk(node)}
        if kinds & {"alt", "opt", "rep", "star", "ref"}:
            rec.nontrivial = True
        for k, p in (("ref", "ref"),):
            if k in kinds:
                rec.probe(p)
        if any(x["k"] == "alt" and x.get("w") for x in M.walk(node)):
            rec.probe("weighted")
        if path:
            rec.probe("subtree")
        rec.probe("empty-repetition", any(x["k"] in ("rep", "star") and M.nullable(
            M.only(x), env) for x in M.walk(node)))
        rec.probe("emptied", any(x.get("c") == [] for x in M.walk(node)))
        if not isinstance(s, str):
            raise Violation("not-a-string", repr(s))
        if not path and r.get("off"):
            if s:
                raise Violation("disabled-rule-generated", "%r from %s" % (s, name))
            continue
        if s != " ".join(s.split()):
            raise Violation("superfluous-spaces", "%s generated %r" % (name, s))
        gone = {x["n"] for x in spec["rules"] if x.get("off")}
        env = {n: ({"k": "null"} if n in gone else e) for n, e in env.items()}
        if not M.in_language(node, s, env):
            raise Violation("not-a-sentence", "%s at %s generated %r; definition %s" % (
                name, path, s, node))
        if not s:
            rec.probe("empty-string")
        if len(s.split()) > 20:
            rec.probe("long")
        if path or gone or not s or len(s.split()) > 500 or M.nullable(node, env) or not M.ll1(node, env):
            continue
        rec.probe("matched")
        if not rule.matches(s):
            raise Violation("generated-not-matched", "%s generated %r, which it does "
                            "not match; definition %s" % (name, s, node))
        names = {x["n"] for x in spec["rules"]}
        if any(x["k"] == "ref" and x["n"] not in names for q in spec["rules"]
               for x in M.walk(q["e"])):
            rec.probe("dangling-elsewhere")
            continue
        if r["v"] and name not in [x.name for x in g.find_matching_rules(s)]:
            raise Violation("generated-not-found", "%s generated %r, which "
                            "find_matching_rules does not find" % (name, s))


def nesting(node, env):
    """How deep repetitions are nested in repetitions."""
    kids = [env[node["n"]]] if node["k"] == "ref" else node.get("c", [])
    return max([nesting(c, env) for c in kids] + [0]) + (node["k"] in ("rep", "star"))


def edits_deep(node, env, seen=()):
    for x in M.walk(node):
        yield x
        if x["k"] == "ref" and x["n"] in env and x["n"] not in seen:
            for y in edits_deep(env[x["n"]], env, seen + (x["n"],)):
                yield y
