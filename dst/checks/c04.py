"""C04: after a crash in the middle of an export, whatever bytes reached the disk, a
restarted process either refuses the file or loads only whole, unaltered rules."""
import os

from .. import files, model as M, sim
from ..core import Violation

ID = "C04"
RUNS = {"quick": 1800, "thorough": 60000}
SHRINK = ("ops",)
RULE = ("a case is a history of exports of 2 versions of a grammar to one file, each cut "
        "by a crash at a chosen disk operation and byte, with a restart, a load, an "
        "import of one rule and a re-export after each; non-trivial when a crash tore "
        "the file at a byte that is neither its start nor its end")
REAL = ["jsgf.grammars", "jsgf.rules", "jsgf.expansions", "jsgf.parser", "pyparsing",
        "io text and buffer layers"]
STUB = ["raw file and file system calls (SimDisk over a scratch directory); the crash "
        "drops all memory and every byte not yet written"]
PROBES = ["refused", "prefix", "complete", "old-file", "torn", "torn-in-character",
          "import-refused", "import-exact", "recovered", "root"]
ASSUMPTIONS = ["a block lost in a crash reads as zeros (blocks of an even number of "
               "bytes); the restarted process uses the same locale"]


def gen(rng, cfg):
    ascii_only = rng.random() < 0.4
    specs = [files.disk_spec(rng, name="lib", ascii_only=ascii_only, imports=True)
             for _ in range(2)]
    ops = []
    for _ in range(rng.randint(1, 5)):
        geo = files.geometry(rng)
        if rng.random() < 0.6:
            geo["buf"], geo["chunk"] = rng.choice([(8192, 8192), (1, 1), (16, 64)])
        geo["enc"] = "utf-8" if rng.random() < 0.8 else "utf-16"
        fault = None
        if rng.random() < 0.9:
            op = rng.choice(["write"] * 8 + ["open", "close"])
            fault = {"op": op, "kind": "crash", "frac": rng.random(),
                     "n": rng.choice([0, 1, 2, 3, 7])}
            if rng.random() < 0.3:
                fault["lost"] = [rng.choice([2, 8, 16, 64, 512]), rng.random(),
                                 rng.choice([1, 1, 2, 5])]
        ops.append([rng.randrange(2), rng.choice([None, True, False]), geo, fault,
                    rng.randrange(100)])
    return {"specs": specs, "ops": ops}


def run(scn, rec):
    import jsgf as J
    from pyparsing import ParseException
    from jsgf.errors import JSGFImportError
    refusals = (ParseException, J.GrammarError, OSError, UnicodeError, JSGFImportError)
    specs = scn["specs"]
    path = "lib.jsgf"
    for i, (k, root, geo, fault, pick) in enumerate(scn["ops"]):
        rec.step()
        spec = specs[k]
        as_root = bool(spec.get("root") or root)
        rows = files.expected_rules(spec, as_root)
        g = M.build_grammar(spec, J)
        text = g.compile_as_root_grammar() if as_root else g.compile()
        before = files.snap()
        cfg = dict(geo, faults=[])
        if fault:
            cfg["faults"] = [place(fault, g, root, geo, rec, text)]
        disk = sim.SimDisk(cfg, rec)
        crashed = False
        with disk:
            try:
                g.compile_to_file(path) if root is None else \
                    g.compile_to_file(path, root)
            except sim.SimCrash:
                crashed = True
            # The process is gone: nothing it still holds may reach the disk.
            disk.dead = True
        del g
        if crashed and fault and fault.get("lost"):
            lose(path, fault["lost"], rec)
        data = files.snap().get(path)
        full = text.replace("\n", geo["nl"]).encode(geo["enc"])
        rec.log(i, k, root, crashed, None if data is None else len(data), len(full))
        if as_root:
            rec.probe("root")
        if not crashed and data != full:
            raise Violation("export-not-exact", "%r instead of %r" % (data, full))
        if crashed and data and len(data) < len(full) and full.startswith(data):
            rec.nontrivial = True
            rec.probe("torn")
            try:
                data.decode(geo["enc"])
            except UnicodeError:
                rec.probe("torn-in-character")

        # Restart: a fresh disk without faults, the same locale.
        calm = {"enc": geo["enc"], "nl": geo["nl"]}
        with sim.SimDisk(calm, rec):
            try:
                h = J.parse_grammar_file(path)
            except refusals as e:
                h = e
        if isinstance(h, Exception):
            rec.probe("refused")
            if data == full:
                raise Violation("complete-file-refused", "%r: %r" % (h, data))
            rec.log(i, "refused", type(h).__name__)
        else:
            files.set_case(h.rules, spec, J)
            got = files.loaded_rules(h, J)
            rec.log(i, "loaded", len(got))
            old = before.get(path)
            if data is not None and data == old and data != full:
                rec.probe("old-file")        # nothing of the new export got there
            else:
                if files.header(h) != files.spec_header(spec):
                    raise Violation("altered-header", "torn file %r loads with header "
                                    "%r, exported %r" % (data, files.header(h),
                                                         files.spec_header(spec)))
                if got != rows[:len(got)]:
                    raise Violation("altered-rules", "torn file %r loads as %r, which "
                                    "is not a prefix of %r" % (data, got, rows))
                if data == full and len(got) != len(rows):
                    raise Violation("rules-lost", "%r loads as %r" % (data, got))
                rec.probe("complete" if len(got) == len(rows) else "prefix")

        # A grammar that imports one of the rules, in the restarted process.
        vis = [r for r in rows if r[1]]
        if vis and not (data == before.get(path) and data != full):
            want = vis[pick % len(vis)]
            with sim.SimDisk(calm, rec):
                m = J.Grammar("user")
                m.add_import(J.Import("lib.%s" % want[0]))
                try:
                    r = m.get_rule(want[0])
                except refusals as e:
                    r = e
            if isinstance(r, Exception):
                rec.probe("import-refused")
                if data == full:
                    raise Violation("complete-file-refused", "import: %r" % r)
            else:
                rec.probe("import-exact")
                files.set_case([r], spec, J)
                if M.canon_obj(r.expansion, J) != want[2] or r.name != want[0]:
                    raise Violation("altered-import", "%r imports as %s" % (want, r))

        # The restarted process exports again, without a crash.
        if pick % 3:
            with sim.SimDisk(calm, rec):
                g2 = M.build_grammar(spec, J)
                g2.compile_to_file(path, as_root)
                h = J.parse_grammar_file(path)
            files.set_case(h.rules, spec, J)
            if files.loaded_rules(h, J) != rows:
                raise Violation("not-recovered", "%r after re-export" %
                                files.loaded_rules(h, J))
            rec.probe("recovered")


def lose(path, how, rec):
    """Blocks written before the crash that never reached the medium read as zeros."""
    block, frac, n = how
    try:
        with open(path, "rb") as f:
            data = bytearray(f.read())
    except OSError:
        return
    blocks = (len(data) + block - 1) // block
    if not blocks:
        return
    first = int(frac * blocks)
    for b in range(first, min(blocks, first + n)):
        lo, hi = b * block, min(len(data), (b + 1) * block)
        data[lo:hi] = bytes(hi - lo)
    with open(path, "wb") as f:
        f.write(bytes(data))
    rec.fault("lost-blocks")


def place(fault, g, root, geo, rec, text):
    """Turn a crash position given as a fraction of the export into an operation number
    and byte count (by a dry run on the same geometry)."""
    f = dict(fault)
    frac = f.pop("frac")
    f.pop("lost", None)
    f["at"] = 0
    if f["op"] == "write":
        import jsgf  # noqa
        from ..core import Rec
        dry = sim.SimDisk(dict(geo, faults=[]), Rec())
        sizes = []
        real = sim.SimRaw.write

        def counting(self, b):
            sizes.append(len(bytes(b)))
            return real(self, b)
        sim.SimRaw.write = counting
        try:
            with dry:
                g.compile_to_file("dry.tmp") if root is None else \
                    g.compile_to_file("dry.tmp", root)
        finally:
            sim.SimRaw.write = real
            for n in os.listdir("."):
                if n == "dry.tmp":
                    os.remove(n)
        total, want = sum(sizes), 0
        want = int(frac * (total + 1))
        for at, s in enumerate(sizes):
            if want <= s:
                break
            want -= s
        f["at"], f["n"] = at if sizes else 0, want
    return f
