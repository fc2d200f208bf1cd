"""C05: what was exported is what is loaded, through any disk: loading returns the whole
grammar as exported, or raises; it never returns part of it or something else."""
import copy

from .. import files, model as M, sim
from ..core import Violation

ID = "C05"
RUNS = {"quick": 1700, "thorough": 50000}
SHRINK = ("ops",)
RULE = ("a case is a chain of exports and loads of one grammar (each generation is the "
        "loaded result of the one before) with read and open faults; non-trivial when a "
        "read fault fired or the disk delivers less than the file per read")
REAL = ["jsgf.grammars", "jsgf.rules", "jsgf.expansions", "jsgf.parser", "pyparsing",
        "io text and buffer layers"]
STUB = ["raw file and file system calls (SimDisk over a scratch directory)"]
PROBES = ["loaded", "load-failed-by-fault", "soft-fault-absorbed", "generation-2",
          "root", "behaviour-compared", "weights", "imports", "crlf"]
ASSUMPTIONS = ["grammars of the sub-language on which compiling and parsing are exact "
               "inverses (DESIGN.md); the same locale when exporting and loading"]
HARD = ("eio", "eacces", "emfile", "enospc")


def gen(rng, cfg):
    spec = files.disk_spec(rng)
    if rng.random() < 0.3:
        files.odd_tags(rng, spec)
    ops = []
    enc = rng.choice(["utf-8", "utf-8", "utf-16", "latin-1", "iso8859-5", "cp1252",
                      "ascii"])
    for _ in range(rng.randint(1, 4)):
        geo = files.geometry(rng)
        geo["enc"] = enc
        faults = []
        if rng.random() < 0.7:
            for _ in range(rng.randint(1, 4)):
                op = rng.choice(["read"] * 6 + ["open"])
                kind = rng.choice(["short", "short", "eintr", "eio"]) \
                    if op == "read" else rng.choice(["eacces", "emfile", "eio"])
                faults.append({"op": op, "at": rng.choice([0, 0, 1, 2, 3, 8])
                               if op == "read" else 0, "kind": kind,
                               "n": rng.choice([1, 2, 5, 40])})
        utts = [M.utterance(rng, spec["rules"]) for _ in range(3)]
        ops.append([rng.choice([None, False, True]), dict(geo, faults=faults), utts])
    return {"spec": spec, "ops": ops}


def run(scn, rec):
    import jsgf as J
    from pyparsing import ParseException
    spec = scn["spec"]
    g, rows = M.build_grammar(spec, J), None
    head = files.spec_header(spec)
    root_cls = bool(spec.get("root"))
    base = [[r["n"], bool(r["v"]), M.canon(r["e"])] for r in spec["rules"]]
    for i, (root, cfg, utts) in enumerate(scn["ops"]):
        rec.step()
        as_root = bool(root_cls or root)
        if as_root and any(r[0] == "root" for r in base):
            as_root = root = False       # a grammar loaded from a root export
            if root_cls:
                break
        rows = to_root(base) if as_root else base
        text = g.compile_as_root_grammar() if as_root else g.compile()
        cfg = dict(cfg)
        files.unicode_enc(cfg, text)
        calm = {"enc": cfg["enc"], "nl": cfg["nl"]}
        path = "g%d.jsgf" % i
        with sim.SimDisk(calm, rec):
            if root is None:
                g.compile_to_file(path)
            else:
                g.compile_to_file(path, root)
        before = files.snap()
        if as_root:
            rec.probe("root")
        h = None
        for attempt in (0, 1):
            disk = sim.SimDisk(cfg if not attempt else calm, rec)
            with disk:
                try:
                    h = J.parse_grammar_file(path)
                except (OSError, UnicodeError, ParseException, J.GrammarError) as e:
                    h = e
            hard = [f for f in disk.fired if f["kind"] in HARD]
            if disk.fired or cfg["chunk"] < 64 or cfg["buf"] < 64:
                rec.nontrivial = True
            rec.log(i, attempt, type(h).__name__, dict(disk.count))
            if files.snap() != before:
                raise Violation("loading-changed-files", path)
            if isinstance(h, Exception):
                if not hard:
                    raise Violation("spurious-error", "loading %r raised %r without an "
                                    "injected failure" % (before[path], h))
                rec.probe("load-failed-by-fault")
                continue
            break
        if disk.fired:
            rec.probe("soft-fault-absorbed")
        rec.probe("loaded")
        if i:
            rec.probe("generation-2")
        if spec.get("imports"):
            rec.probe("imports")
        if "/" in text:
            rec.probe("weights")
        if cfg["nl"] != "\n":
            rec.probe("crlf")
        if files.header(h) != head:
            raise Violation("header-differs", "%r loads as %r" % (head, files.header(h)))
        files.set_case(h.rules, spec, J)
        got = files.loaded_rules(h, J)
        if got != rows:
            raise Violation("rules-differ", "exported %r, loaded %r from %r" % (
                rows, got, before[path]))
        again = h.compile()
        if bare(again) != bare(text) or i and again != text:
            raise Violation("text-differs", "generation %d was exported as %r and loads "
                            "as a grammar that compiles to %r" % (i, text, again))
        behave(h, spec, rows, utts, J, rec, i)
        base, g, root_cls = rows, h, False
        if any(r[0] == "root" for r in base) and i + 1 < len(scn["ops"]):
            pass


def bare(text):
    """The first generation may lose redundant parentheses."""
    return "".join(text.replace("(", "").replace(")", "").split())


def to_root(rows):
    vis = [r for r in rows if r[1]]
    refs = [("R", r[0]) for r in vis]
    e = refs[0] if len(refs) == 1 else ("A", tuple((None, x) for x in refs))
    return [["root", True, e]] + [[n, False, c] for n, _, c in rows]


def behave(h, spec, rows, utts, J, rec, i):
    """The loaded grammar recognises what the definition says."""
    env = M.env_of(spec["rules"])
    for u in utts:
        for r in spec["rules"]:
            if M.nullable(r["e"], env) or not M.ll1(r["e"], env):
                continue
            rule = [x for x in h.rules if x.name == r["n"]][0]
            m = M.in_language(r["e"], u, env)
            if bool(rule.matches(u)) != m:
                raise Violation("behaviour-differs", "loaded rule %s matches %r: %s, "
                                "the definition says %s" % (r["n"], u, not m, m))
            rec.probe("behaviour-compared")
            rec.log(i, r["n"], u, m)
