"""C12: one grammar, many readers.  Threads that only read a shared grammar (export it,
look rules up, compare, copy, ask for relations, generate), next to at most one thread
that matches, all get what they would get alone, and leave the grammar as it was,
whatever the interleaving and whichever thread dies half way."""
import copy

from .. import history as H, model as M, reads, sim
from ..core import Violation
from .c11 import generated

ID = "C12"
RUNS = {"quick": 2000, "thorough": 40000}
SHRINK = ("switches", "readers.*.ops", "spec")
RULE = ("a case is one grammar of 1-4 rules, some edited first, with 2-4 threads of 2-7 "
        "reads each, preempted at chosen lines of library code, some killed; non-trivial "
        "when at least 5 preemptions took effect")
REAL = ["jsgf.expansions", "jsgf.rules", "jsgf.grammars", "pyparsing", "threads"]
STUB = ["random module (SimRandom)", "thread scheduling (one thread runs at a time; "
        "preemption at chosen lines)", "threading locks"]
PROBES = ["file-export", "hot-function", "matcher", "killed", "cold", "root-export", "imports", "root-and-plain-export"]
ASSUMPTIONS = ["preemption happens between lines of library code, not inside pyparsing",
               "JointTreeContext (which changes the trees) is not among the reads; at "
               "most one thread matches; imports are resolved before"]

READS = ["c", "c", "c", "cf", "cf", "rc", "rc", "xc", "T", "ht", "q", "q", "s", "d", "lv", "nm",
         "eq", "cp", "g", "xg"]


def gen(rng, cfg):
    spec, ed = H.gen_spec(rng, 4)
    lib = rng.random() < 0.2
    if lib:
        r = rng.choice(spec["rules"])
        r["e"] = {"k": "seq", "c": [r["e"], {"k": "ref", "n": "part"}]}
        spec["imports"] = [rng.choice(["lib.*", "lib.part"])]
        H.simple_edits(ed, ["text", "tag", "vis", "active"])
        ed.spec = copy.deepcopy(spec)
    start = copy.deepcopy(ed.spec)
    pre = []
    for _ in range(rng.choice([0, 0, 1, 3, 6])):
        pre += H.gen_ops(rng, ed, 1, 0.5)
    n = rng.choice([2, 2, 3, 4])
    focus = rng.random() < 0.4      # exports only
    readers = []
    for k in range(n):
        if not ed.spec["rules"]:
            break
        kinds = ["c", "cf", "rc"] if focus else READS
        matcher = k == 0 and rng.random() < 0.5
        if matcher:
            kinds = ["m", "m", "f", "p", "t", "c"]
        ops = []
        for _ in range(rng.randint(2, 7)):
            x = rng.choice(kinds)
            ops.append(["r", ["cf", rng.random() < 0.4] if x == "cf" else
                        reads.gen_read(rng, ed.spec, [x])])
        readers.append({"ops": ops, "m": matcher})
    k = rng.choice([6, 20, 60, 200])
    if rng.random() < 0.3:
        a = rng.random()
        at = sorted(round(min(1, a + rng.random() * 0.03), 6) for _ in range(k))
    else:
        at = sorted(round(rng.random(), 6) for _ in range(k))
    kills = []
    if rng.random() < 0.25 and readers and not readers[0]["m"]:
        kills = [[rng.randrange(n), round(rng.random(), 4)]]
    return {"spec": start, "pre": pre, "readers": readers, "lib": lib, "kills": kills,
            "first": rng.randrange(n), "cold": rng.random() < 0.5,
            "hot": [round(rng.random(), 6), rng.choice([1, 1, 2, 3, 7])]
            if rng.random() < 0.5 else None,
            "switches": [[f, rng.randrange(n)] for f in at]}


class Reader(object):
    def __init__(self, h, ops, J, k):
        self.h, self.ops, self.J, self.out = h, ops, J, []
        self.path = "reader%d.jsgf" % k

    def to_file(self, root):
        with open(self.path, "w"):
            pass
        def write():
            self.h.g.compile_to_file(self.path, root)
            with open(self.path, encoding="utf-8") as f:
                return f.read()
        return reads.attempt(write)

    def __call__(self):
        for op in self.ops:
            if op[1][0] == "cf":
                self.out.append(self.to_file(op[1][1]))
            elif op[1][0] in ("g", "xg"):
                self.out.append(generated(self.h, op[1], self.J))
            elif op[1][0] in ("m", "f"):      # another reader may not look at a match
                self.out.append(match(self.h, op[1]))
            else:
                self.out.append(self.h.do(op))


def match(h, op):
    if op[0] == "f":
        return reads.do_read(h.g, h.spec, op, h.J)
    r = reads.find(h.g, op[1])
    return None if r is None else [reads.attempt(lambda: bool(r.matches(op[2]))),
                                   reads.view(r, h.J) if r.active else None]


def start(scn, J):
    g = M.build_grammar(scn["spec"], J)
    if scn["lib"]:
        g.resolve_imports()
    h = H.History(g, scn["spec"], J)
    for op in scn["pre"]:
        h.do(op)
    return h


def run(scn, rec):
    import jsgf as J
    readers = scn["readers"]
    if len(readers) < 2 or not scn["spec"]["rules"]:
        return
    if scn["lib"]:
        with open("lib.jsgf", "w") as f:
            f.write("#JSGF V1.0;\ngrammar lib;\npublic <part> = library | imported "
                    "words;\npublic <other> = unrelated;\n")
        rec.probe("imports")
    # Alone: each reader on a grammar of its own.
    want, counts, ends, names = [], [], [], set()
    for k, r in enumerate(readers):
        sim.RANDOM.program(1)
        h = start(scn, J)
        if not h.spec["rules"]:
            return
        x = Reader(h, r["ops"], J, k)
        with sim.Lines() as lines:
            x()
        want.append(x.out)
        counts.append(lines.n)
        names |= lines.names
        if r["m"] or not ends:
            ends = [h.all()]
    for r in readers:      # a plain reader changes nothing, so the matcher's end is all
        if r["m"]:
            rec.probe("matcher")
    total = sum(counts)
    h = start(scn, J)
    if not scn["cold"]:
        h.do(["r", ["c", False]])
        h.all()
    else:
        rec.probe("cold")
    kinds = {(op[1][0], op[1][-1]) for r in readers for op in r["ops"]}
    rec.probe("file-export", ("cf", True) in kinds or ("cf", False) in kinds)
    rec.probe("root-export", ("c", True) in kinds)
    rec.probe("root-and-plain-export", ("c", True) in kinds and ("c", False) in kinds)
    kills = {k: max(1, int(f * counts[k])) for k, f in scn["kills"] if k < len(readers)
             and not readers[k]["m"]}
    live = [Reader(h, r["ops"], J, k) for k, r in enumerate(readers)]
    sim.RANDOM.program(2)
    ts = sim.ThreadSim(live, [[int(f * total), t % len(readers)]
                              for f, t in scn["switches"]],
                       scn["first"] % len(readers), kills,
                       sim.hot_function(scn.get("hot"), names))
    res = ts.run()
    rec.step(ts.lines)
    rec.fault("preemption", ts.taken)
    rec.probe("hot-function", ts.hot is not None)
    rec.nontrivial = ts.taken >= 5
    rec.log(ts.order[:50], ts.lines, [x.out for x in live])
    for k, (x, (how, e)) in enumerate(zip(live, res)):
        done = want[k]
        if how == "raise":
            if isinstance(e, sim.SimInterrupt) and k in kills:
                rec.fault("killed-reader")
                rec.probe("killed")
                done = done[:len(x.out)]
            elif isinstance(e, Exception) and not isinstance(e, sim.Deadlock):
                raise Violation("race-error", "reader %d raised %s: %s; alone it does "
                                "not" % (k, type(e).__name__, e)) from e
            else:
                raise e
        if x.out != done:
            i = [a == b for a, b in zip(x.out, done)].index(False)
            raise Violation("race", "reader %d, read %r: %r instead of %r" % (
                k, readers[k]["ops"][i], x.out[i], done[i]))
    got = h.all()
    if got != ends[0]:
        i = [a == b for a, b in zip(got, ends[0])].index(False)
        raise Violation("race-trace", "the grammar was changed: %r instead of %r" % (
            got[i], ends[0][i]))


def simplify(scn):
    if scn.get("hot"):
        yield dict(scn, hot=None)
