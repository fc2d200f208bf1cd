"""C09: a read cut short leaves nothing behind.  Whatever read operation is interrupted,
runs out of memory or fails at whatever point, the grammar afterwards answers everything
as if that operation had never been started; only the match records of the rules it was
matching are undefined until they are matched again."""
import copy
import os

from .. import history as H, model as M, reads, sim
from ..core import Violation

ID = "C09"
RUNS = {"quick": 1500, "thorough": 30000}
SHRINK = ("ops", "spec")
RULE = ("a case is one history of reads and edits of a grammar in which some reads are "
        "cut short by an interrupt or a failing allocation between two lines of library "
        "code, or by a missing import; non-trivial when at least one read was cut short "
        "and another operation followed")
REAL = ["jsgf.expansions", "jsgf.rules", "jsgf.grammars", "jsgf.ext.expansions",
        "jsgf.parser", "pyparsing"]
STUB = ["random module (SimRandom)", "signal delivery and allocation failure (an "
        "exception raised at a chosen line of library code)"]
PROBES = ["cut-cold", "cut-warm", "not-reached", "import", "edited-after",
          "retried", "in-joint", "cut-again"]
ASSUMPTIONS = ["interrupts land between lines of library code, not inside pyparsing or "
               "while trees are being joined or detached"]

KINDS = ["m", "m", "m", "f", "p", "t", "T", "ht", "c", "c", "rc", "xc", "g", "xg", "q",
         "s", "d", "jm", "xm", "cm", "cp", "lv", "nm", "eq", "jq"]


def gen(rng, cfg):
    spec, ed = H.gen_spec(rng)
    lib = rng.random() < 0.25
    if lib:
        spec["imports"] = ["lib.*"] if rng.random() < 0.5 else ["lib.part"]
        if rng.random() < 0.3:
            spec["imports"].append("aux.more")
        r = rng.choice(spec["rules"])
        r["e"] = {"k": "seq", "c": [r["e"], {"k": "ref", "n": "part"}]}
        H.simple_edits(ed, ["text", "tag", "lcs", "vis", "active"])
        ed.spec = copy.deepcopy(spec)
    ops = []
    p = rng.choice([0, 0.15, 0.4])
    p_cut = rng.choice([0.3, 0.6])
    hide = rng.random() < 0.5
    for _ in range(rng.randint(5, 14)):
        more = H.gen_ops(rng, ed, 1, p, KINDS)
        if not more:
            break
        op = more[0]
        if op[0] == "r" and rng.random() < p_cut:
            if lib and rng.random() < 0.25:
                op = ["r", ["ri"]]
            # Where to cut: a fraction of the lines a cold run takes, or a line number.
            at = round(rng.random(), 4) if rng.random() < 0.7 else rng.randrange(60)
            times = 1 if rng.random() < 0.85 else rng.choice([2, 3, 8, 20])
            ops.append(["cut", op[1], at, rng.choice(["int", "mem"]), times])
            if rng.random() < 0.5:
                ops.append(op)
        else:
            ops.append(op)
        if lib and rng.random() < 0.15:
            ops.append(["files", True])     # what is resolved may stay bound
    return {"spec": spec, "ops": ops, "lib": lib, "files": not (lib and hide)}


LIB = {"name": "lib", "imports": ["aux.more"], "rules": [
    {"n": "part", "v": True, "e": {"k": "alt", "c": [
        {"k": "lit", "t": "library"}, {"k": "lit", "t": "imported words"},
        {"k": "ref", "n": "more"}]}},
    {"n": "other", "v": True, "e": {"k": "lit", "t": "unrelated"}}]}
AUX = {"name": "aux", "rules": [
    {"n": "more", "v": True, "e": {"k": "rep", "c": [{"k": "lit", "t": "again"}]}}]}


def files(there, J):
    for s in (LIB, AUX):
        path = s["name"] + ".jsgf"
        if there:
            with open(path, "w") as f:
                f.write(M.build_grammar(s, J).compile())
        elif os.path.exists(path):
            os.remove(path)


def read(h, op, J):
    if op[0] == "ri":
        def bound():
            env = h.g.resolve_imports()
            return [[k, sorted(r.name for r in env[k]) if isinstance(env[k], list)
                     else env[k].name] for k in h.g.import_names]
        return reads.attempt(bound)
    if not h.spec["rules"]:
        return ["skip"]
    return h.do(["r", op])


def cut_read(h, op, lines, J):
    """Perform a read with the interrupts of `lines` armed while library code runs on
    its behalf (not while trees are joined or detached)."""
    if op[0] in ("jm", "jq"):
        r = reads.find(h.g, op[1])
        if r is None:
            return
        try:
            with J.JointTreeContext(r.expansion):
                with lines:
                    if op[0] == "jm":
                        r.matches(op[2])
                        r.matched_tags
                    else:
                        nodes = []
                        J.map_expansion(r.expansion, nodes.append)
                        reads.pairs(nodes, op[2])
        except J.GrammarError:
            pass
        except J.JSGFImportError:
            pass
        return
    with lines:
        read(h, op, J)


def run(scn, rec):
    import jsgf as J
    if not scn["spec"]["rules"]:
        return
    if scn["lib"]:
        files(scn["files"], J)

    def fresh():
        return H.History(M.build_grammar(scn["spec"], J), scn["spec"], J)

    live, twin = fresh(), fresh()
    here = scn["files"] or not scn["lib"]
    dirty, cuts, cold = set(), 0, True

    def check_all(i, what):
        got, want = live.all(), twin.all()
        for a, b in zip(got, want):
            if isinstance(a, list) and len(a) > 5 and \
                    reads.reach(live.spec, a[0]) & dirty:
                a[5] = b[5] = None
        if got != want:
            raise Violation("trace-left", "operation %d, %s: %s" % (i, what, "; ".join(
                "%r instead of %r" % p for p in zip(got, want) if p[0] != p[1])[:900]))

    for i, op in enumerate(scn["ops"]):
        rec.step()
        if op[0] == "files":
            files(op[1], J)
            here = op[1]
            continue
        if op[0] != "cut":
            after = H.try_spec(live.spec, op[1]) if op[0] == "e" else None
            if op[0] == "e" and after is None:
                continue
            if op[0] == "e" and op[1][0] == "rename" and op[1][1] in dirty:
                # Undefined records keep their rules, and what leads to them.
                dirty |= {r["n"] for r in live.spec["rules"]
                          if op[1][1] in reads.reach(live.spec, r["n"])} | {op[1][2]}
            if op[0] == "e" and op[1][0] == "graft" and op[1][1] in dirty:
                dirty.add(op[1][4])
            want = twin.do(op) if op[1][0] != "ri" else read(twin, op[1], J)
            got = live.do(op) if op[1][0] != "ri" else read(live, op[1], J)
            rec.log(i, op, got)
            if cuts:
                rec.nontrivial = True
                rec.probe("edited-after", op[0] == "e")
            if got != want:
                raise Violation("differs-%s" % op[1][0], "operation %d %r gives %r; "
                                "without the interrupted operations it gives %r" %
                                (i, op, got, want))
            if op[0] == "r" and (op[1][0] == "m" and got[0][0] == "ok" or
                                 op[1][0] == "f" and got[0] == "ok"):
                clean(dirty, live, op[1])
                cold = False
            check_all(i, op)
            continue
        _, rd, at, how, times = op
        if at < 1:
            scout = sim.Lines()
            cut_read(fresh_like(live, J), rd, scout, J)
            at = int(at * scout.n)
        for n in range(times):
            lines = sim.Lines(at, sim.SimInterrupt if how == "int" else sim.SimNoMemory)
            try:
                cut_read(live, rd, lines, J)
            except (sim.SimInterrupt, sim.SimNoMemory):
                rec.fault("interrupt" if how == "int" else "no-memory")
                rec.probe("cut-cold" if cold else "cut-warm")
                cuts += 1
                if scn["lib"]:
                    rec.probe("import")
                if n:
                    rec.probe("cut-again")
                if rd[0] in ("jm", "jq"):
                    rec.probe("in-joint")
            else:
                rec.probe("swallowed" if lines.fired else "not-reached")
                break
        rec.log(i, op[1], at, lines.fired)
        dirty |= reads.touched(live.spec, rd) if rd[0] != "ri" else set()
        check_all(i, "%r cut short in %s" % (rd, lines.fired))
        if i + 1 < len(scn["ops"]) and scn["ops"][i + 1] == ["r", rd]:
            rec.probe("retried")


def fresh_like(h, J):
    return H.History(M.build_grammar(h.spec, J), h.spec, J)


def clean(dirty, h, rd):
    """A completed match of an enabled rule replaces the records of all rules it runs
    through."""
    names = [rd[1]] if rd[0] == "m" else [r.name for r in h.g.match_rules]
    for n in names:
        r = reads.find(h.g, n)
        if r is not None and r.active and r.visible | (rd[0] == "m"):
            dirty -= reads.reach(h.spec, n)


def simplify(scn):
    import json
    for key in ("tag", "w", "o", "cs", "off"):
        c = json.loads(json.dumps(scn))
        hit = False
        for r in c["spec"]["rules"]:
            hit = r.pop(key, None) is not None or hit
            for x in M.walk(r["e"]):
                hit = x.pop(key, None) is not None or hit
        if hit:
            yield c
