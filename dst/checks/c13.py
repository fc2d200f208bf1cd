"""C13: speaking rules with dictation step by step.  A session over a DictationGrammar
follows a small automaton per spoken form of each rule, whatever utterances are lost,
repeated, delayed or misheard, with timeouts (resets) and restarts from a checkpoint at
arbitrary points; and a recogniser that loads the compiled text hears exactly the next
steps that are due."""
import itertools
import json

from .. import history as H, reads
from ..core import Violation

ID = "C13"
RUNS = {"quick": 2500, "thorough": 60000}
SHRINK = ("ops", "rules", "ops", "rules.*.parts")
RULE = ("a case is a grammar of 1-4 rules (literal groups, alternatives, optionals, "
        "dictation) and 3-25 events: utterances of a simulated speaker that get lost, "
        "doubled, delayed or misheard, timeouts, manual advances, checkpoints with "
        "restarts, added and removed rules; non-trivial when a sequence was completed "
        "or a step was refused after a misrecognition")
REAL = ["jsgf.ext.grammars", "jsgf.ext.rules", "jsgf.ext.expansions", "jsgf.grammars",
        "jsgf.expansions", "pyparsing", "pickle"]
STUB = ["the recogniser (a reader of the compiled text)", "the speaker and the channel"]
PROBES = ["completed", "refused", "advanced", "manual-advance", "reset", "restored",
          "expanded-rule", "dictation-first", "plain-rule", "empty-export", "root-export",
          "rule-added", "rule-removed", "hidden", "second-session", "reference",
          "skipped-step", "removal-refused", "clash-refused", "case-changed",
          "header-changed", "disabled", "enabled", "edited", "refused-edits"]
ASSUMPTIONS = ["steps are not ambiguous (documented as unsupported)"]

WORDS = "alpha bravo cargo delta ember fjord gamma hotel Ivory Jasper".split()
NAMES = "a b open_it Zed b_1".split()
SPOKEN = "anything you like or a delta or Bravo it's x_1 42 caf\xe9".split()


# --------------------------------------------------------------- workload
def phrase(rng, first=None):
    return " ".join([first or rng.choice(WORDS)] +
                    [rng.choice(WORDS) for _ in range(rng.choice([0, 0, 0, 1, 2]))])


def part(rng, dict_p, opt, shared=None):
    x = rng.random()
    if shared and rng.random() < 0.25:
        return {"k": "r", "c": shared}
    if x < dict_p:
        return {"k": "d"}
    if x < dict_p + 0.2:
        return {"k": "a", "c": choice(rng)}
    if opt and x < dict_p + 0.35:
        return {"k": "o", "w": phrase(rng)}
    return {"k": "w", "w": phrase(rng)}


def choice(rng):
    return [phrase(rng, w) for w in rng.sample(WORDS, rng.randint(2, 3))]


def parts(rng, opt, dict_p, shared):
    return [part(rng, dict_p, opt, shared) for _ in range(rng.randint(1, 4))]


def gen_rule(rng, name, shared=None):
    r = {"n": name, "vis": rng.random() < 0.9, "cs": False}
    x = rng.random()
    if x < 0.2:      # no dictation at all
        r["parts"] = parts(rng, False, 0, shared)
    elif x < 0.75:
        r["parts"] = parts(rng, rng.random() < 0.3, 0.5, shared)
    else:            # alternatives, some with dictation
        r["alts"] = [parts(rng, False, 0.4, shared) for _ in range(rng.randint(2, 3))]
    if "parts" in r and rng.random() < 0.15:
        r["rep"] = has_dict(r["parts"]) and all(p["k"] != "o" for p in r["parts"])
    if rng.random() < 0.2:
        r["direct"] = 1      # the client makes the SequenceRule itself
    return r


def gen(rng, cfg):
    names = rng.sample(NAMES, len(NAMES))
    n = rng.choice([1, 1, 2, 2, 3, 4])
    shared = choice(rng) if rng.random() < 0.3 else None
    rules = [gen_rule(rng, names.pop(), shared) for _ in range(n)]
    if shared:           # a rule that others refer to
        rules.insert(0, {"n": "sh", "vis": rng.random() < 0.5, "cs": False,
                         "parts": [{"k": "a", "c": shared}]})
    extra = [gen_rule(rng, names.pop(), shared)] if names and rng.random() < 0.4 else []
    odd = [k for k in ("case", "header", "off", "on", "edit", "refused")
           if rng.random() < 0.4]
    ops = []
    for _ in range(rng.randint(3, 25)):
        x = rng.random()
        if odd and rng.random() < 0.12:
            ops.append([rng.choice(odd), rng.randrange(100), rng.randrange(10 ** 6),
                        choice(rng)])
        elif x < 0.62:
            # The speaker says the next step of a form of a rule; the channel acts.
            what = rng.choice(["ok"] * 8 + ["lost", "dup", "late", "misheard", "loud"])
            ops.append(["say", rng.randrange(100), rng.randrange(10 ** 6), what,
                        rng.random() < 0.85])
        elif x < 0.72:
            ops.append(["reset"])
        elif x < 0.8:
            ops.append(["next", rng.randrange(100), rng.random() < 0.4])
        elif x < 0.88:
            ops.append(["restart", rng.randint(0, 5)])
        elif x < 0.92:
            ops.append(["remove", rng.randrange(100)])
        elif x < 0.96 and extra:
            ops.append(["add", rng.randrange(2)])
        else:
            ops.append(["rule-again", rng.randrange(100)])
    return {"rules": rules, "extra": extra, "ops": ops, "twin": rng.random() < 0.25,
            "name": rng.choice(["default", "com.acme.voice"]),
            "cs": rng.random() < 0.25}


# -------------------------------------------------------------- reference
def has_dict(ps):
    return any(p["k"] == "d" for p in ps)


def texts(ps):
    """All word sequences of a dictation-free group."""
    sets = [p["c"] if "c" in p else [p["w"], ""] if p["k"] == "o" else [p["w"]]
            for p in ps]
    return {" ".join(" ".join(c).split()) for c in itertools.product(*sets)}


def clear(ps):
    """No optional words are followed by the same word (ambiguous rules are documented
    as unsupported)."""
    for i, p in enumerate(ps):
        if p["k"] == "o" and any(t.split()[0] == p["w"].split()[0] for q in ps[i + 1:]
                                 for t in q.get("c", [q.get("w")])):
            return False
    return True


def branches(r):
    """The spoken forms of a rule: lists of steps; a step is None (dictation) or the set
    of texts it accepts."""
    if "alts" in r:
        plain = [a for a in r["alts"] if not has_dict(a)]
        forms = [[set().union(*[texts(a) for a in plain])]] if plain else []
        return forms + [split(a) for i, a in enumerate(r["alts"])
                        if has_dict(a) and a not in r["alts"][:i]]
    ps = r["parts"]
    if not has_dict(ps):
        t = texts(ps)
        return [[t]] if "" not in t and clear(ps) else []
    out = []
    for keep in itertools.product(*[[1, 0] if p["k"] == "o" else [1] for p in ps]):
        f = [dict(p, k="w") if p["k"] == "o" else p for p, k in zip(ps, keep) if k]
        if f and f not in out:
            out.append(f)
    return [split(f) for f in out]


def split(ps):
    out, group = [], []
    for p in ps:
        if p["k"] == "d":
            if group:
                out.append(texts(group))
            out.append(None)
            group = []
        else:
            group.append(p)
    if group:
        out.append(texts(group))
    return out


class Form(object):
    """One spoken form: the reference automaton."""

    def __init__(self, rule, steps, opts):
        self.rule, self.steps, self.opts = rule, steps, opts
        self.seq = None in steps       # otherwise an ordinary rule
        self.reset()

    def heard(self, u):
        """What the current step makes of an utterance."""
        s = self.steps[self.idx]
        if s is None:
            return u if u.split() else None
        for t in s:
            if t == u if self.opts["cs"] else t.lower() == u.lower():
                return t
        return None

    def hear(self, u, advance):
        if self.rule.get("off"):
            return False
        if not self.seq:
            return self.heard(u) is not None
        if self.refused:
            return False
        self.said[self.idx] = self.heard(u)
        ok = self.said[self.idx] is not None
        self.refused = True
        if ok and advance:
            self.next()
        return ok

    def next(self):
        if self.idx + 1 < len(self.steps):
            self.idx += 1
            self.refused = False

    def reset(self):
        self.idx, self.refused, self.said = 0, False, [None] * len(self.steps)
        self.mixed = False      # steps were said that the definition has no more

    def due(self):
        """The texts the recogniser should hear for this form now, or None."""
        if self.rule.get("off") or self.seq and self.refused or \
                self.steps[self.idx] is None:
            return None
        return {t if self.opts["cs"] else t.lower() for t in self.steps[self.idx]}

    def whole(self):
        return " ".join(self.said) if self.seq and None not in self.said else None


# ------------------------------------------------------------- recogniser
def read_rules(text):
    """{name: (public, right-hand side)} of a compiled grammar."""
    out = {}
    for line in text.splitlines():
        pub = line.startswith("public ")
        body = line[7:] if pub else line
        if not body.startswith("<"):
            continue
        name, _, rhs = body.partition("> = ")
        if not rhs.endswith(";") or name[1:] in out:
            raise Violation("export-malformed", repr(text))
        out[name[1:]] = (pub, rhs[:-1])
    return out


def language(rhs, rules=None):
    """The set of texts of a right-hand side made of words, (), [], | and references."""
    toks = rhs
    for c in "()[]|":
        toks = toks.replace(c, " %s " % c)
    toks = toks.split()
    pos = [0]

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else None

    def alts():
        out = seq()
        while peek() == "|":
            pos[0] += 1
            out = out | seq()
        return out

    def seq():
        out, n = {""}, 0
        while peek() not in (None, ")", "]", "|"):
            t = peek()
            pos[0] += 1
            if t in "([":
                inner = alts()
                if peek() != ")]"["([".index(t)]:
                    raise Violation("export-malformed", rhs)
                pos[0] += 1
                if t == "[":
                    inner = inner | {""}
            elif t.startswith("<"):
                if rules is None or t[1:-1] not in rules:
                    raise Violation("export-dangling", "%s in %s" % (t, rhs))
                inner = language(rules[t[1:-1]][1], rules)
            else:
                inner = {t.rstrip("+")}
            out = {(a + " " + b).strip() for a in out for b in inner}
            n += 1
        if not n:
            raise Violation("export-malformed", rhs)
        return out

    out = alts()
    if pos[0] != len(toks):
        raise Violation("export-malformed", rhs)
    return out


# ------------------------------------------------------------ the session
def make(r, J, X, shared=None):
    def one(ps):
        out = []
        for p in ps:
            if p["k"] == "d":
                out.append(X.Dictation())
            elif p["k"] == "a":
                out.append(J.AlternativeSet(*p["c"]))
            elif p["k"] == "r":
                out.append(J.RuleRef(shared))
            elif p["k"] == "o":
                out.append(J.OptionalGrouping(p["w"]))
            else:
                out.append(J.Literal(p["w"]))
        return J.Sequence(*out)
    e = J.AlternativeSet(*[one(a) for a in r["alts"]]) if "alts" in r else \
        one(r["parts"])
    if r.get("rep"):
        e = J.Repeat(e)
    cls = X.SequenceRule if direct(r) else J.Rule
    return cls(r["n"], r["vis"], e)


def direct(r):
    return bool(r.get("direct") and "parts" in r and has_dict(r["parts"]) and
                all(p["k"] != "o" for p in r["parts"]))


def refers(r):
    return any(p["k"] == "r" for ps in r.get("alts", [r.get("parts", ())]) for p in ps)


def clash(r, names):
    """The rules made for the forms of r have names that are in use."""
    n = len(branches(r))
    return r["n"] in names or n > 1 and any("%s_%d" % (r["n"], i) in names
                                            for i in range(n))


class Session(object):
    def __init__(self, scn, J, X, rec):
        self.J, self.X, self.rec = J, X, rec
        scn = json.loads(json.dumps(scn))
        self.pool = scn["rules"] + scn["extra"]
        self.opts = {"cs": scn["cs"], "name": scn["name"], "charset": "", "lang": "",
                     "imports": []}
        self.specs, self.rules, self.forms = [], {}, {}
        self.late = []
        for r in scn["rules"]:
            names = {n for q in self.specs for n in self.names(q)}
            if branches(r) and not clash(r, names) and (
                    not refers(r) or "sh" in self.rules):
                self.prepare(r)
        self.g = X.DictationGrammar([self.rules[r["n"]] for r in self.specs],
                                    name=scn["name"], case_sensitive=scn["cs"])
        for n, fs in self.forms.items():
            rec.probe("expanded-rule", len(fs) > 1)
            rec.probe("dictation-first", any(f.steps[0] is None for f in fs))
            rec.probe("plain-rule", not any(f.seq for f in fs))
            rec.probe("reference", refers(fs[0].rule))

    def prepare(self, r):
        self.specs.append(r)
        self.rules[r["n"]] = make(r, self.J, self.X, self.rules.get("sh"))
        self.forms[r["n"]] = [Form(r, f, self.opts) for f in branches(r)]

    @staticmethod
    def names(r):
        n = len(branches(r))
        return {r["n"]} | {"%s_%d" % (r["n"], i) for i in range(n if n > 1 else 0)}

    def listening(self):
        return [f for r in self.specs if r["vis"] for f in self.forms[r["n"]]]

    def header(self):
        o = self.opts
        return "#JSGF V1.0%s%s;\ngrammar %s;\n%s" % (
            " " + o["charset"] if o["charset"] else "",
            " " + o["lang"] if o["lang"] else "", o["name"],
            "".join("import <%s>;\n" % i for i in o["imports"]))

    # -- what must hold between any two events
    def check(self, where):
        J, g = self.J, self.g
        for root in (False, True):
            how, text = reads.attempt(g.compile_as_root_grammar if root else g.compile)
            want = [f for f in self.listening() if f.due() is not None]
            hidden = [f for r in self.specs if not r["vis"]
                      for f in self.forms[r["n"]] if f.due() is not None]
            if how == "GrammarError":
                # Nothing at all can be exported.
                if root and not want:
                    self.rec.probe("root-export-refused")
                    continue
                raise Violation("export-error", where)
            if not want and not hidden:
                self.rec.probe("empty-export")
                if text != "":
                    raise Violation("export-not-empty", "%s: %r" % (where, text))
                continue
            if not text and root and not want:
                continue
            if not text.startswith(self.header()):
                raise Violation("export-header", "%s: %r instead of %r" % (
                    where, text, self.header()))
            rules = read_rules(text)
            if root:
                self.rec.probe("root-export")
                if not want:
                    continue
                pub = [n for n, (p, _) in rules.items() if p]
                if pub != ["root"]:
                    raise Violation("export-root", "%s: %r" % (where, text))
                got = language(rules["root"][1], rules)
                exp = set().union(*[f.due() for f in want])
                if got != exp:
                    raise Violation("export-root", "%s: the recogniser hears %r instead "
                                    "of %r" % (where, sorted(got), sorted(exp)))
            got = {}
            for n in self.forms:
                got[n] = []
            back = {x.name: n for n, o in self.rules.items() if n in self.forms
                    for x in g.get_generated_rules(o)}
            for n, (p, rhs) in rules.items():
                if root and n == "root":
                    continue
                if n not in back:
                    raise Violation("export-unknown-rule", "%s: %r" % (where, text))
                got[back[n]].append((p, sorted(language(rhs, rules))))
            for r in self.specs:
                exp = sorted((r["vis"] and not root, sorted(f.due()))
                             for f in self.forms[r["n"]] if f.due() is not None)
                if sorted(got[r["n"]]) != exp:
                    raise Violation("export-step", "%s: for rule %s the recogniser hears "
                                    "%r instead of %r" % (where, r["n"], got[r["n"]], exp))

    def hear(self, u, advance, where):
        rec = self.rec
        want = []
        for r in self.specs:
            if not r["vis"]:
                continue
            for f in self.forms[r["n"]]:
                was = f.refused
                if f.hear(u, advance):
                    want.append((r["n"], f.whole(), f.seq))
                    rec.probe("advanced", f.seq)
                elif f.seq and not was:
                    rec.probe("refused")
                    rec.nontrivial = True
        res = self.g.find_matching_rules(u, advance)
        got = []
        for x in res:
            o = self.g.get_original_rule(x)
            seq = isinstance(x, self.X.SequenceRule)
            got.append((o.name, x.entire_match if seq else None, seq))
            if o is not self.rules.get(o.name):
                raise Violation("foreign-original", "%s: %s" % (where, o))
        key = lambda t: (t[0], str(t[1]), t[2])    # noqa
        if sorted(got, key=key) != sorted(want, key=key):
            raise Violation("recognition", "%s %r: %r instead of %r" % (
                where, u, sorted(got, key=key), sorted(want, key=key)))
        for n, whole, seq in want:
            if whole is not None:
                rec.probe("completed")
                rec.nontrivial = True
            if n == "sh" and any(refers(self.forms[m][0].rule) for m, _, _ in want):
                continue        # the rules that refer to it match it again
            self.originals(n, where, whole if seq else self.forms[n][0].heard(u), seq)

    def originals(self, n, where, whole, seq):
        """After a completed rule, its original holds the whole match, and each
        dictation its own words."""
        o, fs = self.rules[n], self.forms[n]
        if whole is None or len(fs) > 1 or "alts" in fs[0].rule or seq and fs[0].mixed:
            return
        e = o.original_expansion if isinstance(o, self.X.SequenceRule) else o.expansion
        if e.current_match != whole:
            raise Violation("original-match", "%s: rule %s holds %r instead of %r" % (
                where, n, e.current_match, whole))
        if not seq:
            return
        f = fs[0]
        got = [x.current_match for x in self.J.filter_expansion(
            e, lambda x: isinstance(x, self.X.Dictation))]
        want = [x for x, t in zip(f.said, f.steps) if t is None]
        if got != want:
            raise Violation("original-dictation", "%s: the dictation of rule %s is %r "
                            "instead of %r" % (where, n, got, want))

    def utterance(self, k, pick):
        fs = self.listening()
        if not fs:
            return phrase_from(pick)
        f = fs[k % len(fs)]
        step = f.steps[(f.idx + (pick % 5 == 0)) % len(f.steps)]
        if step is None:
            return phrase_from(pick)
        return sorted(step)[pick % len(step)]

    def reset(self):
        self.g.reset_sequence_rules()
        for fs in self.forms.values():
            for f in fs:
                if f.seq:
                    f.reset()

    def do(self, op, where):
        rec, g, k = self.rec, self.g, op[0]
        if k == "say":
            u, what = self.utterance(op[1], op[2]), op[3]
            adv = op[4]
            if what == "lost":
                rec.fault("utterance-lost")
                return
            if what == "late":
                rec.fault("utterance-delayed")
                self.late.append((u, adv))
                return
            if what == "misheard":
                rec.fault("utterance-misheard")
                ws = u.split()
                ws[op[2] % len(ws)] = "zebra"
                u = " ".join(ws)
            if what == "loud":
                rec.fault("utterance-in-capitals")
                u = u.upper()
            self.hear(u, adv, where)
            if what == "dup":
                rec.fault("utterance-doubled")
                self.hear(u, adv, where + "'")
            while self.late and op[2] % 3 == 0:
                self.hear(*self.late.pop(0), where=where + " late")
        elif k == "reset":
            rec.fault("timeout")
            rec.probe("reset")
            self.reset()
        elif k == "next":
            # The client advances one of the rules the last utterance left behind, or
            # skips a step.
            names = [r for r in self.specs if len(self.forms[r["n"]]) == 1
                     and self.forms[r["n"]][0].seq]
            if not names:
                return
            r = names[op[1] % len(names)]
            f = self.forms[r["n"]][0]
            if f.said[f.idx] is None and not op[2]:
                return
            for x in g.get_generated_rules(self.rules[r["n"]]):
                x.set_next()
            rec.probe("skipped-step", f.said[f.idx] is None)
            f.next()
            rec.probe("manual-advance")
        elif k == "restart":
            rec.fault("crash-restart")
            rec.probe("restored")
            self.g, self.rules = H.unpickled(
                H.pickled((g, self.rules), op[1]))
        elif k == "remove":
            if len(self.specs) < 2:
                return
            r = self.specs[op[1] % len(self.specs)]
            it = self.rules[r["n"]] if op[1] % 2 else r["n"]
            if r["n"] == "sh" and any(refers(q) for q in self.specs):
                if reads.attempt(lambda: g.remove_rule(it))[0] != "GrammarError":
                    raise Violation("removed-in-use", where)
                rec.probe("removal-refused")
            else:
                g.remove_rule(it)
                self.specs.remove(r)
                del self.forms[r["n"]], self.rules[r["n"]]
                rec.probe("rule-removed")
        elif k == "add":
            free = [r for r in self.pool if r["n"] not in self.forms and branches(r)]
            if not free:
                return
            r = free[0]
            if refers(r) and not any(q["n"] == "sh" and not q.get("off")
                                     for q in self.specs):
                return
            r.pop("off", None)
            if clash(r, g.rule_names):
                x = make(r, self.J, self.X, self.rules.get("sh"))
                x.case_sensitive = self.opts["cs"]
                if any(x == y for y in g.rules):
                    return      # an equal rule may be added again, to no effect
                if reads.attempt(lambda: g.add_rule(x))[0] != "GrammarError":
                    raise Violation("duplicate-name", where)
                rec.probe("clash-refused")
                return
            self.prepare(r)
            if op[1]:
                r["off"] = 1
                self.rules[r["n"]].disable()
            g.add_rule(self.rules[r["n"]])
            rec.probe("rule-added")
        elif k == "case":
            self.opts["cs"] = not self.opts["cs"]
            g.case_sensitive = self.opts["cs"]
            rec.probe("case-changed")
        elif k == "header":
            o = self.opts
            if op[1] % 4 == 0:
                o["name"] = g.name = "other.name%d" % (op[2] % 9)
            elif op[1] % 4 == 1:
                o["charset"] = g.charset_name = ["", "UTF-8", "ISO8859-5"][op[2] % 3]
            elif op[1] % 4 == 2:
                o["lang"] = g.language_name = ["en", "de"][op[2] % 2]
                o["charset"] = g.charset_name = "UTF-8"
            elif o["imports"] and op[2] % 2:
                g.remove_import(self.J.Import(o["imports"].pop(op[2] % len(
                    o["imports"]))))
            else:
                i = "lib%d.*" % (op[2] % 9)
                g.add_import(self.J.Import(i))
                if i not in o["imports"]:
                    o["imports"].append(i)
            rec.probe("header-changed")
        elif k in ("off", "on"):
            able = [r for r in self.specs if bool(r.get("off")) == (k == "on") and (
                r["n"] != "sh" or not any(refers(q) for q in self.specs))]
            if not able:
                return
            r = able[op[1] % len(able)]
            it = self.rules[r["n"]] if op[2] % 2 else r["n"]
            if k == "off":
                g.disable_rule(it)
                r["off"] = 1
                rec.probe("disabled")
            else:
                g.enable_rule(it)
                del r["off"]
                self.reset()
                rec.probe("enabled")
        elif k == "edit":
            # A rule without dictation gets another definition while it is in use.
            plain = [r for r in self.specs if not any(f.seq for f in self.forms[r["n"]])]
            if not plain:
                return
            r = plain[op[1] % len(plain)]
            if r["n"] == "sh" and any(p["k"] == "o" for q in self.specs if refers(q)
                                      for p in q.get("parts", ())):
                return      # it might make them ambiguous
            r.pop("alts", None)
            r["parts"] = [{"k": "a", "c": op[3]}]
            self.rules[r["n"]].expansion = self.J.AlternativeSet(*op[3])
            self.rules[r["n"]].case_sensitive = self.opts["cs"]
            if r["n"] == "sh":
                for q in self.pool:
                    for ps in q.get("alts", [q.get("parts", ())]):
                        for p in ps:
                            if p["k"] == "r":
                                p["c"] = op[3]
            for q in self.specs:
                steps = branches(q)
                if len(steps) != len(self.forms[q["n"]]):
                    raise Violation("harness-forms", where)
                for f, st in zip(self.forms[q["n"]], steps):
                    f.mixed = f.mixed or f.steps != st
                    f.steps = st
            rec.probe("edited")
        elif k == "refused":
            for fn in (lambda: g.remove_rule("absent"),
                       lambda: g.remove_rule(self.J.PublicRule("absent", "words")),
                       lambda: g.disable_rule("absent"),
                       lambda: g.enable_rule("absent"),
                       lambda: g.remove_import(self.J.Import("absent.*"))):
                if reads.attempt(fn)[0] != "GrammarError":
                    raise Violation("not-refused", where)
            rec.probe("refused-edits")
        elif k == "rule-again":
            # Adding a rule under a name in use is refused and changes nothing.
            if not self.specs:
                return
            r = self.specs[op[1] % len(self.specs)]
            if reads.attempt(lambda: g.add_rule(self.J.PublicRule(
                    r["n"], "quite different")))[0] != "GrammarError":
                raise Violation("duplicate-name", where)
        names = {o.name for o in g.rules} | {r.name for r in self.rules.values()}
        if self.rules.keys() - set(g.rule_names):
            raise Violation("rule-lost", "%s: %r" % (where, sorted(names)))
        orig = sorted({g.get_original_rule(x).name for x in g.match_rules})
        if orig != sorted(r["n"] for r in self.specs if r["vis"]):
            raise Violation("rules-listening", "%s: %r" % (where, orig))


def phrase_from(pick):
    n = 1 + pick % 3
    return " ".join(SPOKEN[(pick // 7 + k * 5) % len(SPOKEN)] for k in range(n))


def run(scn, rec):
    import jsgf as J
    import jsgf.ext as X
    if '"c": []' in json.dumps(scn) or any(len(o) == 4 and not o[3] for o in scn["ops"]):
        return      # shortened too far
    s = Session(scn, J, X, rec)
    if not s.specs:
        return
    all_ = [s]
    if scn["twin"]:
        all_.append(Session(scn, J, X, rec))
        rec.probe("second-session")
    rec.probe("hidden", any(not r["vis"] for r in s.specs))
    for i, op in enumerate([None] + scn["ops"]):
        rec.step()
        for k, x in enumerate(all_):
            where = "event %d %r" % (i, op)
            if k and i % 3 == 0:
                op = None        # the second session falls behind
            if op is not None:
                x.do(op, where)
            x.check(where)
            rec.log(i, op, [[f.idx, f.refused, f.said] for f in x.listening()])
