"""C06: resolving imports while the grammar files change.  Resolution binds every import
to public rules of one version of the named grammar that was there while it ran, or it
raises and changes nothing; what is bound stays bound; once the files are right,
resolution succeeds."""
import copy
import os

from .. import files, model as M, sim
from ..core import Violation

ID = "C06"
RUNS = {"quick": 8000, "thorough": 60000}
SHRINK = ("ops",)
RULE = ("a case is a history of resolutions, lookups and matches by 1-3 importing "
        "grammars while grammar files appear, change, break, move and vanish between "
        "and during the library's own file system calls; non-trivial when a file "
        "changed during a call, a fault fired or a resolution failed and was retried")
REAL = ["jsgf.grammars", "jsgf.parser", "jsgf.rules", "jsgf.expansions", "pyparsing"]
STUB = ["file system calls (SimDisk over a scratch directory; other processes' changes "
        "happen at chosen calls)"]
PROBES = ["resolved", "failed", "changed-during-call", "retry-ok", "sticky",
          "matched", "chain", "wildcard", "auto-import", "ext-order", "fault-error",
          "import-resolve", "memo-own", "memo-shared"]
ASSUMPTIONS = ["each file holds one whole version at any moment; rule names are unique "
               "across libraries; files carry the name of their grammar"]

LIBS = ["lib", "com.acme.extra", "a.b.c-d", "gr\u00e4m.m"]
EXTS = [".jsgf", ".jgram"]


def paths(name, ext):
    return [name + ext, os.path.join(*name.split(".")) + ext]


def gen(rng, cfg):
    libs = rng.sample(LIBS, rng.randint(1, 3))
    versions = {}
    chains = rng.random() < 0.6     # otherwise the caller's own memo may be used
    for li, name in enumerate(libs):
        vs = []
        base = ["q%d%s" % (li, x) for x in "abcd"][:rng.randint(1, 4)]
        for v in range(rng.randint(1, 3)):
            if v and rng.random() < 0.3:
                vs.append(same_size(rng, vs[-1]))
                continue
            g = M.DiskGen(rng, max_depth=rng.choice([0, 1]), tags=0.2)
            rules = g.rules(len(base), safe=True)
            ren = {r["n"]: base[i] for i, r in enumerate(rules)}
            for r in rules:
                r["n"] = ren[r["n"]]
                for x in M.walk(r["e"]):
                    if x["k"] == "ref":
                        x["n"] = ren[x["n"]]
            spec = {"name": name, "rules": rules, "imports": []}
            for r in rules:
                r["v"] = rng.random() < 0.8
            if not any(r["v"] for r in rules):
                rules[-1]["v"] = True
            if v and rng.random() < 0.3 and len(rules) > 1:
                gone = rules[-1]["n"]
                rules.pop()
                if not any(r["v"] for r in rules):
                    rules[-1]["v"] = True
            # A library may itself import from an earlier library.
            if li and chains and rng.random() < 0.5:
                to = libs[rng.randrange(li)]
                t = rng.choice(versions[to])
                pub = [r["n"] for r in t["rules"] if r["v"]]
                n = rng.choice(pub)
                spec["imports"] = ["%s.%s" % (to, rng.choice([n, "*"]))]
                rules[-1]["e"] = {"k": "seq", "c": [
                    {"k": "lit", "t": "over"},
                    {"k": "ref", "n": rng.choice([n, qualified(to, n),
                                                  "%s.%s" % (to, n)])}]}
            vs.append(spec)
        versions[name] = vs
    mains = []
    for m in range(rng.randint(1, 3)):
        imports, rules = [], []
        for name in rng.sample(libs, rng.randint(1, len(libs))):
            t = rng.choice(versions[name])
            pub = [r["n"] for r in t["rules"] if r["v"]]
            n = rng.choice(pub)
            imp = "%s.%s" % (name, "*" if rng.random() < 0.4 else n)
            auto = rng.random() < (0.15 if chains else 0.35)
            if not auto:
                imports.append(imp)
                if rng.random() < 0.2:      # the same rules once more
                    imports.append("%s.%s" % (name, rng.choice(["*"] + pub)))
                    if imports[-1] == imp:
                        imports.pop()
            ref = "%s.%s" % (name, n) if auto else rng.choice(
                [n, qualified(name, n), "%s.%s" % (name, n)])
            rules.append({"n": "m%d" % len(rules), "v": True, "e": {
                "k": "seq", "c": [{"k": "lit", "t": rng.choice(["go", "call"])},
                                  {"k": "ref", "n": ref}]}})
        rules.append({"n": "local", "v": True, "e": {"k": "lit", "t": "here"}})
        mains.append({"name": "main%d" % m, "rules": rules, "imports": imports})

    def fsop():
        name = rng.choice(libs)
        p = rng.choice(paths(name, rng.choice(EXTS)))
        if linked:
            p = paths(name, ".jsgf")[0]
        r = rng.random()
        if r < 0.6:
            return ["put", p, name, rng.randrange(len(versions[name]))]
        if r < 0.75:
            return ["del", p]
        if r < 0.88:
            return ["junk", p, rng.randrange(4)]
        if r < 0.94:
            return ["dir", p]
        return ["mv", p, rng.choice(paths(name, rng.choice(EXTS)))]

    ops = []
    if rng.random() < 0.8:
        for name in libs:
            if rng.random() < 0.8:
                ops.append(["fs", ["put", rng.choice(paths(name, rng.choice(EXTS))),
                                   name, rng.randrange(len(versions[name]))]])
    linked = not chains and len(mains) > 1 and rng.random() < 0.5
    if linked:      # everyone resolves with one memo first
        for name in libs:
            ops.append(["fs", ["put", paths(name, ".jsgf")[0], name, 0]])
        for mi in range(len(mains)):
            ops.append(["do", ["resolve", mi, "shared", None], [], []])
    for _ in range(rng.randint(3, 9)):
        if rng.random() < 0.35:
            ops.append(["fs", fsop()])
            continue
        if rng.random() < 0.15:
            mi = rng.randrange(len(mains))
            if rng.random() < 0.5 and mains[mi]["imports"]:
                imp = rng.choice(mains[mi]["imports"])
            else:
                name = rng.choice(libs)
                pub = [r["n"] for r in rng.choice(versions[name])["rules"] if r["v"]]
                imp = "%s.%s" % (name, rng.choice(pub + ["*"]))
            ops.append([rng.choice(["add", "rm", "rm"]), mi, imp])
            if rng.random() < 0.5:
                ops.append(["add", mi, imp])
            continue
        mid, faults = [], []
        r = rng.random()
        if r < 0.4:
            for _ in range(rng.randint(1, 3)):
                mid.append([rng.randrange(10), fsop()])
        elif r < 0.6:
            faults.append(rng.choice([
                {"op": "open", "at": rng.randrange(2), "kind": "emfile"},
                {"op": "open", "at": rng.randrange(2), "kind": "eacces"},
                {"op": "read", "at": rng.randrange(3), "kind": "eio"},
                {"op": "read", "at": rng.randrange(3), "kind": "short", "n": 3},
                {"op": "read", "at": rng.randrange(3), "kind": "eintr"}]))
        mi = rng.randrange(len(mains))
        m = mains[mi]
        r = rng.random()
        if r < 0.35:
            what = ["resolve", mi, None if chains else rng.choice(
                [None, "own", "shared", "shared"]), rng.choice(
                    [None, None, None, [".jsgf"], ["jgram", ".jsgf"], [".jgram"]])]
        elif r < 0.55 and rng.random() < (0.8 if linked else 0.2):
            name = rng.choice(libs)
            t = rng.choice(versions[name])
            what = ["get", mi, "%s.%s" % (name, rng.choice(t["rules"])["n"])]
        elif r < 0.55:
            e = rng.choice(m["rules"])["e"]
            what = ["get", mi, e["c"][1]["n"] if e["k"] == "seq" else
                    rng.choice(["nosuch", "local"])]
        elif r < 0.85:
            rule = rng.choice(m["rules"])
            what = ["match", mi, rule["n"], utter(rng, rule, versions, libs)]
        else:
            name = rng.choice(libs)
            t = rng.choice(versions[name])
            n = rng.choice([x["n"] for x in t["rules"]] + ["*"])
            what = ["import", "%s.%s" % (name, n),
                    rng.choice([None, [".jsgf"], ["jgram", ".jsgf"], [".jgram"]])]
        ops.append(["do", what, mid, faults])
    return {"versions": versions, "mains": mains, "ops": ops,
            "tick": rng.choice([0, 0.4, 1])}


def same_size(rng, spec):
    """Another version whose file is exactly as long as that of spec."""
    spec = copy.deepcopy(spec)
    words = sorted({w for w in M.WORDS if w.isascii() and w.isalpha() and w != "over"})
    swap = {}
    for n in sorted({len(w) for w in words}):
        same = [w for w in words if len(w) == n]
        swap.update(zip(same, rng.sample(same, len(same))))
    for r in spec["rules"]:
        for x in M.walk(r["e"]):
            if x["k"] == "lit":
                x["t"] = swap.get(x["t"], x["t"])
    return spec


def qualified(lib, rule):
    return "%s.%s" % (lib.split(".")[-1], rule)


def utter(rng, rule, versions, libs):
    lead = rule["e"]["c"][0]["t"] if rule["e"]["k"] == "seq" else rule["e"]["t"]
    if rule["e"]["k"] != "seq":
        return lead
    want = rule["e"]["c"][1]["n"].split(".")[-1]
    for name in libs:
        for v in rng.sample(versions[name], len(versions[name])):
            for r in v["rules"]:
                if r["n"] == want:
                    return "%s %s" % (lead, say(rng, r["e"], v, versions, 0))
    return lead


def say(rng, e, v, versions, depth):
    env = M.env_of(v["rules"])
    for im in v["imports"]:
        name = im.rsplit(".", 1)[0]
        w = rng.choice(versions[name])
        for r in w["rules"]:
            for form in (r["n"], qualified(name, r["n"]), "%s.%s" % (name, r["n"])):
                if not any(x["k"] == "ref" for x in M.walk(r["e"])):
                    env.setdefault(form, r["e"])
    try:
        return " ".join(M.sample(e, rng, env) or ["here"])
    except KeyError:
        return "over"


# ------------------------------------------------------------------ file system
JUNK = [b"", b"#JSGF V1.0;\ngrammar lib;\npublic <a> = (((;\n", b"\xff\xfe\x00broken",
        b"#JSGF V1.0;\ngrammar lib;\n"]


class Files(object):
    """The directory as other processes change it, and every content each path had."""

    def __init__(self, versions, texts, tick=1):
        self.versions, self.texts = versions, texts
        self.clock, self.tick = 1000000000.0, tick
        self.now = {}              # path -> [lib, version] | "junk" | "dir"
        self.seen = None           # set of (path, content) while a call runs

    def note(self):
        if self.seen is not None:
            for p, c in self.now.items():
                self.seen.add((p, tuple(c) if isinstance(c, list) else c))

    def wipe(self, p):
        if self.now.get(p) == "dir":
            os.rmdir(p)
        elif p in self.now:
            sim._real["remove"](p)
        self.now.pop(p, None)

    def apply(self, op):
        k, p = op[0], op[1]
        d = os.path.dirname(p)
        if d and not os.path.isdir(d):
            os.makedirs(d)
        if k == "put":
            self.wipe(p)
            self.write(p, self.texts[op[2]][op[3]].encode("utf-8"))
            self.now[p] = [op[2], op[3]]
        elif k == "junk":
            self.wipe(p)
            self.write(p, JUNK[op[2]])
            self.now[p] = "junk"
        elif k == "dir":
            self.wipe(p)
            os.mkdir(p)
            self.now[p] = "dir"
        elif k == "del":
            self.wipe(p)
        elif k == "mv":
            c = self.now.get(p)
            if c is not None and c != "dir" and p != op[2]:
                q = op[2]
                d = os.path.dirname(q)
                if d and not os.path.isdir(d):
                    os.makedirs(d)
                self.wipe(q)
                sim._real["rename"](p, q)
                del self.now[p]
                self.now[q] = c
        self.note()

    def write(self, p, data):
        # The clock of the file system: coarse, and possibly not moving at all between
        # two changes.
        self.clock += self.tick
        # Another process replaces the file: readers keep the version they opened.
        with sim._real_open(p + "~", "wb") as f:
            f.write(data)
        os.utime(p + "~", (int(self.clock), int(self.clock)))
        sim._real["rename"](p + "~", p)

    def locate(self, name, exts):
        for e in exts:
            e = e if e.startswith(".") else "." + e
            for p in paths(name, e):
                c = self.now.get(p)
                if c is not None and c != "dir":
                    return c
        return None

    def candidates(self, name):
        """Versions of a library that some path it may be read from has held."""
        ok = {p for e in EXTS for p in paths(name, e)}
        return {c[1] for p, c in self.seen or ()
                if p in ok and isinstance(c, tuple) and c[0] == name}


def usable(memo, g, spec, versions):
    """Whether resolving g with the caller's memo replaces no binding of anyone."""
    libs = {im.rsplit(".", 1)[0] for im in spec["imports"]}
    for v in list(memo.values()) + [g]:
        if type(v).__name__ == "Grammar" and v.name not in versions:
            env = v.import_environment
            for lib in libs | {k for k in memo if k in versions}:
                if env.get(lib) is not memo.get(lib) and lib in env:
                    return False
            if any(k in env and env[k] is not x and env[k] != x
                   for k, x in memo.items()):
                return False
    return True


class NotNow(Exception):
    """The model says that the call has to raise."""


class Model(object):
    """What a call has to do when the files stand still while it runs."""

    def __init__(self, fs, versions, bound, exts=EXTS):
        self.fs, self.versions, self.exts = fs, versions, exts
        self.bound = dict(bound)       # library -> version

    def load(self, name):
        if name not in self.bound:
            c = self.fs.locate(name, self.exts)
            if c is None or c == "junk" or c[0] != name:
                raise NotNow(name)
            self.bound[name] = c[1]
        return self.versions[name][self.bound[name]]

    def imported(self, imp):
        name, rule = imp.rsplit(".", 1)
        v = self.load(name)
        out = [(name, r) for r in v["rules"] if r["v"] and rule in ("*", r["n"])]
        if rule != "*" and not out:
            raise NotNow(imp)
        return out

    def lookup(self, spec, name):
        for r in spec["rules"]:
            if r["n"] == name:
                return spec, r
        got = []
        for imp in spec["imports"]:
            got += self.imported(imp)
        q = ".".join(name.split(".")[-2:])
        for lib, r in got:
            if name == r["n"] or q == qualified(lib, r["n"]):
                return self.versions[lib][self.bound[lib]], r
        if "." in name:
            (lib, r), = self.imported(name)
            return self.versions[lib][self.bound[lib]], r
        raise NotNow(name)

    def env(self, spec, node, depth=0):
        """name -> expansion for everything reachable from node, names made unique by
        inlining."""
        if depth > 6:
            raise NotNow("recursion")
        if node["k"] == "ref":
            s, r = self.lookup(spec, node["n"])
            return self.env(s, r["e"], depth + 1)
        out = dict(node)
        if "c" in node:
            out["c"] = [self.env(spec, c, depth) for c in node["c"]]
        return out


def bindings(g, mains=()):
    """library -> loaded grammar object, over everything reachable from g other than
    through the importing grammars."""
    out, todo, seen = {}, [g], set()
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        for k, v in x.import_environment.items():
            if type(v).__name__ == "Grammar" and k == v.name and \
                    v is not g and not any(v is m for m in mains):
                out.setdefault(k, v)
                todo.append(v)
    return out


def snapshot(g, mains=()):
    out = {}
    for name, x in [("", g)] + sorted(bindings(g, mains).items()):
        out[name] = {k: ([id(r) for r in v] if isinstance(v, list) else id(v))
                     for k, v in x.import_environment.items()}
    return out


def run(scn, rec):
    import jsgf as J
    from pyparsing import ParseException
    from jsgf.errors import JSGFImportError
    refusals = (ParseException, J.GrammarError, OSError, UnicodeError, JSGFImportError)
    versions = scn["versions"]
    specs = copy.deepcopy(scn["mains"])
    shared, memo_bound = {}, {}
    texts = {n: [M.build_grammar(v, J).compile() for v in vs]
             for n, vs in versions.items()}
    rows = {n: [files.expected_rules(v, False) for v in vs]
            for n, vs in versions.items()}
    fs = Files(versions, texts, scn.get("tick", 1))
    mains = [M.build_grammar(m, J) for m in scn["mains"]]
    bound = [{} for _ in mains]
    keep = [[] for _ in mains]
    failed = [False for _ in mains]

    def version_of(name, g):
        got = files.loaded_rules(g, J)
        return [i for i, r in enumerate(rows[name]) if r == got]

    for i, op in enumerate(scn["ops"]):
        rec.step()
        if op[0] == "fs":
            fs.apply(op[1])
            rec.log(i, op)
            rec.fault("file-" + op[1][0])
            continue
        if op[0] in ("add", "rm"):
            edit_imports(mains[op[1]], specs[op[1]], op, rec, J)
            continue
        _, what, mid, faults = op
        disk = sim.SimDisk({"faults": faults, "enc": "utf-8"}, rec)
        fs.seen = set()
        fs.note()
        start = dict(fs.now)
        hits = []

        def touch(k, kind, path):
            for at, f in mid:
                if at == k:
                    fs.apply(f)
                    hits.append(f)
                    rec.fault("during-" + f[0])
        disk.on_touch = touch
        mi = what[1] if what[0] != "import" else None
        g = mains[mi] if mi is not None else None
        memo, exts = None, EXTS
        if what[0] == "resolve":
            exts = what[3] or EXTS
            if what[2]:
                memo = shared if what[2] == "shared" else {}
                if not usable(memo, g, specs[mi], versions):
                    memo = None
                else:
                    rec.probe("memo-" + what[2])
        everyone = [snapshot(x, mains) for x in mains]
        before = everyone[mi] if g is not None else None
        err = res = None
        with disk:
            try:
                if what[0] == "resolve":
                    res = g.resolve_imports(memo, what[3])
                elif what[0] == "get":
                    res = g.get_rule(what[2])
                elif what[0] == "match":
                    r = [r for r in g.rules if r.name == what[2]][0]
                    res = bool(r.matches(what[3]))
                else:
                    res = J.Import(what[1]).resolve(file_exts=what[2])
            except refusals as e:
                err = e
        disk.on_touch = None
        calm = not hits and not disk.fired
        if not calm:
            rec.nontrivial = True
        if hits:
            rec.probe("changed-during-call")
        rec.log(i, what, type(err).__name__, len(hits), disk.count)
        if what[0] == "import":
            judge_import(what, res, err, calm, fs, versions, rows, start, rec, J,
                         disk)
            fs.seen = None
            continue
        spec = specs[mi]

        # The model's answer, if the files stood still.
        start_b = dict(bound[mi])
        if memo is shared:
            start_b.update(memo_bound)
        model = Model(fs, versions, start_b, exts)
        if memo is shared:          # whatever happened, it now holds what was read
            for name, x in memo.items():
                if name in versions and name not in memo_bound and \
                        type(x).__name__ == "Grammar":
                    vs = [v for v in version_of(name, x) if v in fs.candidates(name)]
                    if not vs:
                        raise Violation("impossible-version", "memo has %s as %r; files "
                                        "held %s" % (name, files.loaded_rules(x, J),
                                                     sorted(fs.candidates(name))))
                    memo_bound[name] = vs[0]
        want = None
        try:
            if what[0] == "resolve":
                for imp in spec["imports"]:
                    model.imported(imp)
            elif what[0] == "get":
                want = model.lookup(spec, what[2])
            else:
                r = [x for x in spec["rules"] if x["n"] == what[2]][0]
                node = model.env(spec, r["e"])
                want = M.in_language(node, what[3], {})
        except NotNow as e:
            model = None
        after_b = bindings(g, mains)
        if err is not None:
            rec.probe("failed")
            if not calm:
                rec.probe("fault-error")
            failed[mi] = True
            rec.nontrivial = True
            after = snapshot(g, mains)
            whole = what[0] != "resolve" and complete(g, spec, J)
            if after[""] != before[""] and not whole:
                raise Violation("failed-but-changed", "%r raised %r; import "
                                "environment before %s, after %s" % (
                                    what, err, sorted(before[""]), sorted(after[""])))
            if calm and model is not None:
                raise Violation("spurious-failure", "%r raised %r with files %r" % (
                    what, err, fs.now))
        else:
            if calm and model is None:
                raise Violation("spurious-success", "%r gave %r with files %r" % (
                    what, res, fs.now))
            if failed[mi]:
                rec.probe("retry-ok")
            if what[0] == "match":
                rec.probe("matched")
                if model is not None and calm and res != want:
                    raise Violation("wrong-match", "%r gave %r, the files say %r" % (
                        what, res, want))
            elif what[0] == "get" and calm and model is not None:
                s, r = want
                if res.name != r["n"] or M.canon_obj(res.expansion, J) != \
                        M.canon(r["e"]):
                    raise Violation("wrong-rule", "%r gave %s" % (what, res))
                if s["name"] != spec["name"] and not [
                        1 for im in spec["imports"] if im.rsplit(".", 1)[0] ==
                        s["name"]]:
                    rec.probe("auto-import")
            elif what[0] == "resolve":
                rec.probe("resolved")
                environment(g, spec, J)
                if any(im.endswith("*") for im in spec["imports"]):
                    rec.probe("wildcard")
        # What is bound stays bound, wholly, and to a version that was there.
        for name, x in after_b.items():
            if name not in versions:
                continue
            vs = version_of(name, x)
            if not vs:
                raise Violation("not-a-version", "%s bound to %r, versions %r" % (
                    name, files.loaded_rules(x, J), rows[name]))
            if name in bound[mi]:
                if bound[mi][name] not in vs:
                    raise Violation("binding-changed", "%s was version %d, now %s" % (
                        name, bound[mi][name], vs))
                rec.probe("sticky")
            else:
                cand = fs.candidates(name)
                if memo is shared and name in memo_bound:
                    cand = {memo_bound[name]}
                elif calm and model is not None and name in model.bound:
                    c = {model.bound[name]}
                    if cand - c:
                        rec.probe("ext-order")
                    cand = c
                ok = [v for v in vs if v in cand]
                if not ok:
                    raise Violation("impossible-version", "%s bound to version %s; "
                                    "files held %s" % (name, vs, sorted(cand)))
                bound[mi][name] = ok[0]
                keep[mi].append(x)
        if len(after_b) > 1:
            rec.probe("chain")
        for k, x in enumerate(mains):
            new = snapshot(x, mains)[""]
            for key, v in everyone[k][""].items():
                if new.get(key) != v:
                    raise Violation("binding-replaced", "import environment entry %r "
                                    "was replaced" % key)
            if k == mi:
                continue
            # Grammars that were resolved with one memo know each other, and what one
            # binds the others may have too.
            ours = dict(g.import_environment)
            ours.update(memo or {})
            for key, v in x.import_environment.items():
                if key not in everyone[k][""] and ours.get(key) is not v:
                    raise Violation("others-changed", "%r gave %s an import %r that is "
                                    "not its own" % (what, x.name, key))
            for name, lib in bindings(x, mains).items():
                if name in versions and name not in bound[k]:
                    vs = [v for v in version_of(name, lib) if v in (
                        bound[mi].get(name), memo_bound.get(name))]
                    if not vs:
                        raise Violation("others-changed", "%r bound %s in %s" % (
                            what, name, x.name))
                    bound[k][name] = vs[0]
                    keep[k].append(lib)
        fs.seen = None

    # Faults stop: every file is put right, every grammar resolves and matches.
    for name in versions:
        for e in EXTS:
            for p in paths(name, e):
                fs.wipe(p)
    best = {n: 0 for n in versions}
    for n, v in best.items():
        fs.apply(["put", paths(n, ".jsgf")[0], n, v])
    for mi, g in enumerate(mains):
        model = Model(fs, versions, bound[mi])
        spec = specs[mi]
        try:
            for imp in spec["imports"]:
                model.imported(imp)
            good = True
        except NotNow:
            good = False
        try:
            g.resolve_imports()
            done = True
            environment(g, spec, J)
        except refusals as e:
            done = False
        for k in sorted(range(len(mains)), key=lambda k: k != mi):
            x = mains[k]            # what it shares with linked grammars
            for name, lib in bindings(x, mains).items():
                if name in versions and name not in bound[k]:
                    vs = version_of(name, lib)
                    v = bound[mi].get(name, 0 if k == mi else None)
                    if v not in vs:
                        raise Violation("impossible-version", "%s bound to %s in %s" % (
                            name, vs, x.name))
                    bound[k][name] = v
        rec.log("end", mi, good, done)
        if good != done:
            raise Violation("no-recovery", "resolution of %r %s although the files "
                            "are %s" % (spec["imports"], "works" if done else "fails",
                                        "right" if good else "wrong"))


def edit_imports(g, spec, op, rec, J):
    """Add or remove an import statement; what is bound is not affected."""
    before = snapshot(g)[""]
    rec.fault("import-" + op[0])
    there = op[2] in spec["imports"]
    if op[0] == "add":
        if there:
            return
        g.add_import(J.Import(op[2]))
        spec["imports"].append(op[2])
    else:
        if not there:
            return
        g.remove_import(J.Import(op[2]))
        spec["imports"].remove(op[2])
    if [x.name for x in g.imports] != spec["imports"]:
        raise Violation("wrong-imports", "%r instead of %r" % (
            [x.name for x in g.imports], spec["imports"]))
    if snapshot(g)[""] != before:
        raise Violation("binding-replaced", "%r changed the bindings" % op)


def environment(g, spec, J):
    """After a successful resolution every import statement is bound to the right
    public rules of one grammar object."""
    env = g.import_environment
    for imp in spec["imports"]:
        lib, rule = imp.rsplit(".", 1)
        if imp not in env or lib not in env:
            raise Violation("import-not-bound", imp)
        pub = [r for r in env[lib].rules if r.visible]
        if rule == "*":
            ok = isinstance(env[imp], list) and \
                [id(r) for r in env[imp]] == [id(r) for r in pub]
        else:
            ok = any(env[imp] is r and r.name == rule for r in pub)
        if not ok:
            raise Violation("wrong-binding", "%s bound to %r, public rules of the "
                            "grammar: %r" % (imp, env[imp], pub))


def complete(g, spec, J):
    """A lookup can fail after its imports were resolved, which is then complete."""
    try:
        environment(g, spec, J)
        return True
    except Violation:
        return False


def judge_import(what, res, err, calm, fs, versions, rows, start, rec, J, disk):
    rec.probe("import-resolve")
    lib, rule = what[1].rsplit(".", 1)
    model = Model(fs, versions, {}, what[2] or EXTS)
    try:
        want = model.imported(what[1])
    except NotNow:
        want = None
    if err is not None:
        if calm and want is not None:
            raise Violation("spurious-failure", "%r raised %r with files %r" % (
                what, err, fs.now))
        return
    if calm and want is None:
        raise Violation("spurious-success", "%r gave %r with files %r" % (
            what, res, fs.now))
    got = res if isinstance(res, list) else [res]
    if isinstance(res, list) != (rule == "*"):
        raise Violation("wrong-result-type", "%r gave %r" % (what, res))
    view = [[r.name, bool(r.visible), M.canon_obj(r.expansion, J)] for r in got]
    cand = [model.bound[lib]] if calm else sorted(fs.candidates(lib))
    for v in cand:
        if [r for r in rows[lib][v] if r[1] and rule in ("*", r[0])] == view:
            return
    raise Violation("impossible-version", "%r gave %r; files held versions %s" % (
        what, view, cand))
