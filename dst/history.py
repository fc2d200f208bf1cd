"""Histories of edits and reads over one live grammar, and running a part of one in
another process."""
import base64
import copy
import json
import os
import pickle
import subprocess
import sys

from . import edits, model as M, reads
from .core import LIB, MISFITS, Violation


def pickled(obj, proto):
    try:
        return pickle.dumps(obj, proto)
    except Exception as e:      # noqa
        raise Violation("no-checkpoint", "%s: %s" % (type(e).__name__, e))


def unpickled(data):
    try:
        return pickle.loads(data)
    except Exception as e:      # noqa
        raise Violation("not-restored", "%s: %s" % (type(e).__name__, e))


def try_spec(spec, op):
    """The spec after an edit, or None if the edit does not apply to it."""
    after = copy.deepcopy(spec)
    if not edits.apply_spec(after, op) or not edits.env_ok(after):
        return None
    return after


class History(object):
    def __init__(self, g, spec, J):
        self.g, self.spec, self.J = g, copy.deepcopy(spec), J

    def do(self, op):
        """Perform ["e", edit] or ["r", read]; a JSON-able result."""
        if op[0] == "e":
            after = try_spec(self.spec, op[1])
            if after is None:
                return ["skip"]
            edits.apply_live(self.g, self.spec, op[1], self.J)
            self.spec = after
            for r in self.g.rules:      # as documented for edits of the tree
                for x in M.nodes_of(r.expansion):
                    x.invalidate_calculations()
            return ["done"]
        if not self.spec["rules"]:
            return ["skip"]
        if op[0] == "d":        # what a dictation part takes next time
            parts = [x for r in self.g.rules for x in M.nodes_of(r.expansion)
                     if isinstance(x, self.J.ext.Dictation)]
            if not parts:
                return ["skip"]
            x = parts[op[1] % len(parts)]
            if op[2] is not None:
                x.current_match = op[2]
            x.use_current_match = op[3]
            return [x.current_match, x.use_current_match]
        return reads.do_read(self.g, self.spec, op[1], self.J)

    def all(self):
        """Everything observable right now, without matching anything."""
        J, g = self.J, self.g
        names = [r["n"] for r in self.spec["rules"]]
        out = [g.name, g.rule_names, g.jsgf_header, g.import_names,
               bool(g.case_sensitive)]
        for n in names:
            r = reads.find(g, n)
            out.append([n, bool(r.visible), bool(r.active), bool(r.case_sensitive),
                        r.grammar is g, reads.attempt(lambda: M.match_view(r, J)), str(r),
                        [e.tag for e in M.nodes_of(r.expansion)],
                        [e.case_sensitive for e in M.nodes_of(r.expansion)
                         if isinstance(e, J.Literal)],
                        reads.attempt(lambda: r.compile())])
        out.append(reads.attempt(g.compile))
        return out


def gen_ops(rng, ed, n, p_edit, kinds=None):
    """A list of ["e", edit] / ["r", read] operations."""
    out, hot = [], None
    while len(out) < n:
        if rng.random() < p_edit:
            ed.focus = hot if rng.random() < 0.5 else None
            op = ed.op()
            if op:
                out.append(["e", op])
                if op[0] == "rename" and hot == op[1]:
                    hot = op[2]
                continue
        if not ed.spec["rules"]:
            break
        if hot is None or rng.random() < 0.3:
            hot = rng.choice(ed.spec["rules"])["n"]
        out.append(["r", reads.gen_read(rng, ed.spec, kinds, hot)])
    return out


def gen_spec(rng, max_rules=4, dictation=0.15, nest=True, words=None):
    """A starting grammar and the Editor that generates edits for it."""
    names = list(M.RULE_NAMES)
    rng.shuffle(names)
    names = names[:rng.randint(3, 7)]
    g = M.Gen(rng, reuse=rng.choice([0.0, 0.1, 0.5]), tags=rng.choice([0.1, 0.4]),
              weights=rng.choice([0.1, 0.6]), max_depth=rng.randint(1, 3),
              caps=rng.choice([0, 0.3]))
    if words:
        g.pool, g.reuse, g.caps, g.tags = g.pool[:words], 0, 0, 0.4
        g.max_depth += 1
    rules = g.rules(rng.randint(1, min(max_rules, len(names))), safe=rng.random() < 0.6)
    order = sorted(rng.sample(names, len(rules)), key=names.index)
    ren = {r["n"]: order[i] for i, r in enumerate(rules)}
    for r in rules:
        r["n"] = ren[r["n"]]
        for x in M.walk(r["e"]):
            if x["k"] == "ref":
                x["n"] = ren[x["n"]]
                if rng.random() < 0.3:
                    x["o"] = 1
    if rng.random() < dictation:
        e = rules[-1]["e"]
        tail = {"k": "dict"}
        if rng.random() < 0.4:
            tail = {"k": rng.choice(["opt", "rep"]),
                    "c": [{"k": "seq", "c": [g.lit(), tail]}]}
        rules[-1]["e"] = {"k": "seq", "c": [e, tail]}
    spec = {"name": rng.choice(["g", "com.acme.main"]), "rules": rules}
    if rng.random() < 0.2:
        spec["cs"] = True
        for r in rules:
            M.set_cs(r["e"], True)
    if rng.random() < 0.15:
        spec["root"] = True
    kinds = [k for k in edits.Editor.KINDS if rng.random() < 0.6] or ["text"]
    if any(x["k"] == "dict" for r in spec["rules"] for x in M.walk(r["e"])):
        # Matchers of Dictation have to be invalidated by hand after other edits.
        kinds = ["tag", "vis", "active"]
    ed = edits.Editor(rng, g, spec, names, kinds)
    ed.dict = kinds == ["tag", "vis", "active"]
    return spec, ed


PYC = ["/nonexistent/pycache"]


def warm(base):
    """Compile once for all the processes of this invocation."""
    PYC[0] = os.path.join(base, "pycache")
    other_process({"play": [], "pad": 0}, 0, ["-W", "ignore"])


def simple_edits(ed, kinds):
    """Restrict the editor, keeping what it may do to a grammar with Dictation."""
    ed.kinds = [k for k in kinds if k in ed.kinds or not ed.dict] or ["tag"]


def other_process(job, hash_seed, flags=("-B", "-W", "ignore")):
    """Run a job in a fresh interpreter with another string hash seed."""
    env = {"PATH": os.environ.get("PATH", ""), "PYTHONHASHSEED": str(hash_seed),
           "LC_ALL": "C.UTF-8", "DST_PYC": PYC[0], "PYTHONPYCACHEPREFIX": PYC[0],
           "DST_REPO": os.environ.get("DST_REPO", "/repo")}
    main = os.path.join(os.path.dirname(os.path.abspath(__file__)), "procmain.py")
    p = subprocess.run([sys.executable] + list(flags) + [main],
                       input=json.dumps(job).encode(), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        text = p.stderr.decode("utf-8", "replace")
        last = text.strip().rpartition("\n")[2].partition(":")[0].rpartition(".")[2]
        if LIB in text or last in [x.__name__ for x in MISFITS]:
            raise Violation("other-process-failed", text[-1200:])
        raise RuntimeError("the other process failed: %s" %
                           p.stderr.decode("utf-8", "replace")[-1500:])
    return json.loads(p.stdout.decode())


def b64(data):
    return base64.b64encode(data).decode()


def unb64(text):
    return base64.b64decode(text)
