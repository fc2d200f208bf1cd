"""C03: an export that returns has put exactly the compiled text in the file, whatever
the disk did; one that cannot compile has not touched the file."""
import copy
import os

from .. import edits, files, model as M, sim
from ..core import Violation

ID = "C03"
RUNS = {"quick": 3500, "thorough": 60000}
SHRINK = ("ops",)
RULE = ("a case is one history of exports of 1-2 grammars to 1-2 files with disk faults, "
        "interleaved with edits that can make a grammar impossible to compile; "
        "non-trivial when a fault fired or an export failed")
REAL = ["jsgf.grammars", "jsgf.rules", "jsgf.expansions", "io text and buffer layers"]
STUB = ["raw file and file system calls (SimDisk over a scratch directory)"]
PROBES = ["exported", "failed-by-fault", "failed-to-compile", "failed-to-encode",
          "overwrote-longer", "root-export", "soft-fault-absorbed", "retry"]
ASSUMPTIONS = ["the file system honours truncation at open; one exporting process"]
HARD = ("eio", "enospc", "eacces", "emfile")


def gen(rng, cfg):
    specs = [files.disk_spec(rng, name="g%d" % i, ascii_only=rng.random() < 0.6)
             for i in range(rng.randint(1, 2))]
    for s in specs:
        if rng.random() < 0.3:
            files.odd_tags(rng, s, ("t",))
    state = copy.deepcopy(specs)
    ops = []
    for _ in range(rng.randint(2, 8)):
        gi = rng.randrange(len(specs))
        r = rng.random()
        if r < 0.25:
            k = rng.random()
            rule = rng.choice(state[gi]["rules"])
            if k < 0.4:
                lits = [p for p, x in edits.nodes(rule["e"]) if x["k"] == "lit"]
                if not lits:
                    continue
                p = rng.choice(lits)
                t = "" if rng.random() < 0.6 else " ".join(
                    rng.sample(M.WORDS, rng.choice([1, 2, 30])))
                op = ["text", rule["n"], p, t]
            elif k < 0.6:
                op = ["vis", rule["n"], rng.random() < 0.5]
            elif k < 0.8:
                op = ["active", rule["n"], rng.random() < 0.5, 0]
            else:
                op = ["rmrule", rule["n"], True]
                if len(state[gi]["rules"]) < 2:
                    continue
            after = copy.deepcopy(state[gi])
            if edits.apply_spec(after, op) and edits.env_ok(after):
                state[gi] = after
                ops.append(["e", gi, op])
            continue
        geo = files.geometry(rng)
        if rng.random() < 0.75:
            geo["enc"] = "utf-8"
        faults = []
        if rng.random() < 0.6:
            for _ in range(rng.randint(1, 3)):
                op = rng.choice(["open", "write", "write", "write", "close"])
                kind = {"open": ["eacces", "emfile", "eio", "enospc"],
                        "write": ["short", "eintr", "eio", "enospc"],
                        "close": ["eio"]}[op]
                faults.append({"op": op, "at": rng.choice([0, 0, 1, 2, 5, 20])
                               if op == "write" else 0, "kind": rng.choice(kind),
                               "n": rng.choice([0, 1, 5, 40, 200])})
        ops.append(["x", gi, rng.choice(["f1.jsgf", "f1.jsgf", "d/f2.jsgf", "no/f3"]),
                    rng.choice([None, True, False]), dict(geo, faults=faults)])
    return {"specs": specs, "ops": ops}


def errs(J):
    from jsgf.errors import CompilationError
    return (J.GrammarError, CompilationError)


def fresh_text(spec, root, J):
    if root is None:
        root = bool(spec.get("root"))
    filled = copy.deepcopy(spec)        # alternatives without text cannot be weighed
    for r in filled["rules"]:
        for x in M.walk(r["e"]):
            if x["k"] == "lit" and not x["t"].strip():
                x["t"] = "filler"
    g = M.build_grammar(filled, J)
    for r, rule in zip(spec["rules"], g.rules):
        for x, e in zip(M.walk(r["e"]), M.nodes_of(rule.expansion)):
            if x["k"] == "lit" and not x["t"].strip():
                e.text = x["t"]
    try:
        return g.compile_as_root_grammar() if root else g.compile()
    except errs(J) as e:
        return e


def view(g):
    def safe(f):
        try:
            return f()
        except Exception as e:    # noqa
            return type(e).__name__
    return [g.name, [[r.name, r.visible, r.active] for r in g.rules],
            safe(g.compile), safe(g.compile_as_root_grammar), list(g.import_names)]


def run(scn, rec):
    import jsgf as J
    os.mkdir("d")
    specs = copy.deepcopy(scn["specs"])
    gs = [M.build_grammar(s, J) for s in specs]
    for i, op in enumerate(scn["ops"]):
        rec.step()
        if op[0] == "e":
            before = copy.deepcopy(specs[op[1]])
            if not edits.apply_spec(specs[op[1]], op[2]):
                specs[op[1]] = before
                continue
            edits.apply_live(gs[op[1]], before, op[2], J)
            continue
        for attempt in (0, 1):
            failed = export(i, op, specs, gs, J, rec, clean=bool(attempt))
            if not failed:
                break
            rec.probe("retry")


def export(i, op, specs, gs, J, rec, clean):
    _, gi, path, root, cfg = op
    if clean:
        cfg = dict(cfg, faults=[])
    g, spec = gs[gi], specs[gi]
    want = fresh_text(spec, root, J)
    before, seen = files.snap(), view(g)
    disk = sim.SimDisk(cfg, rec)
    err = None
    with disk:
        try:
            if root is None:
                g.compile_to_file(path)
            else:
                g.compile_to_file(path, root)
        except errs(J) + (OSError, UnicodeError) as e:
            err = e
    after = files.snap()
    rec.log(i, path, type(err).__name__, len(disk.opened),
            sorted((k, len(v)) for k, v in after.items()))
    name = os.path.normpath(path)
    hard = [f for f in disk.fired if f["kind"] in HARD]
    if disk.fired or err:
        rec.nontrivial = True
    if view(g) != seen:
        raise Violation("grammar-changed", "exporting changed the grammar: %r -> %r" %
                        (seen, view(g)))
    others = {k: v for k, v in after.items() if k != name and k in before}
    if others != {k: v for k, v in before.items() if k != name}:
        raise Violation("other-file-changed", "exporting %s" % path)
    if isinstance(want, Exception):
        if err is None:
            raise Violation("bad-grammar-exported", "a grammar that does not compile "
                            "(%s) was exported" % want)
        if not isinstance(err, errs(J)):
            if not hard:
                raise Violation("wrong-error", repr(err))
        if after != before:
            raise Violation("failed-compile-touched-file", "%s: %r -> %r" % (
                path, before.get(name), after.get(name)))
        rec.probe("failed-to-compile")
        return False
    if err is None:
        if set(after) - set(before) - {name}:
            raise Violation("stray-files", str(sorted(set(after) - set(before))))
        try:
            got = files.decode(after.get(name, b"?missing"), disk.enc, disk.nl)
        except UnicodeError as e:
            got = e
        if got != want:
            raise Violation("export-not-exact", "export to %s returned, but the file "
                            "holds %r instead of %r" % (path, after.get(name), want))
        rec.probe("exported")
        if root or (root is None and spec.get("root")):
            rec.probe("root-export")
        if len(before.get(name, b"")) > len(after[name]):
            rec.probe("overwrote-longer")
        if disk.fired:
            rec.probe("soft-fault-absorbed")
        return False
    if isinstance(err, UnicodeError):
        if files.encodable(want, disk.enc):
            raise Violation("spurious-error", repr(err))
        rec.probe("failed-to-encode")
        return False
    if isinstance(err, OSError) and path.startswith("no/"):
        return False
    if not hard:
        raise Violation("spurious-error", "no fault was injected, yet %r" % err)
    rec.probe("failed-by-fault")
    return True
