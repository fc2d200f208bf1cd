"""Helpers shared by the checks that put grammars on the simulated disk."""
import os

from . import model as M

CHARSETS = ["", "", "UTF-8", "ISO8859-5", "latin1", "ASCII", "macroman", "koi8_r", "Big5",
            "u8x", "l-1"]
LANGS = ["", "", "en", "en-AU", "de", "x-klingon", "fil", "zh_TW"]
IMPORTS = ["com.example.lib.part", "lib.*", "a.b.c_d", "x-y.z1", "other.gr\u00e4m.r"]
VERSIONS = ["1.0", "1.0", "1.0", "2.1", "2.10", "10.0", "1.", ".5", "01.00", "1.0000001"]
# Weights are written with four decimals.
ODD_WEIGHTS = [0.0001, 5.0001, 1234.5678, 123456.5, 99999.9999, 1e9, 2 ** 53, 1e16, 1e22,
               0.3, 1.1, 7]


def disk_spec(rng, name=None, n=None, root=None, ascii_only=None, imports=True):
    """A grammar of the sub-language that compiling and parsing map onto itself."""
    if ascii_only is None:
        ascii_only = rng.random() < 0.4
    g = (M.Gen if rng.random() < 0.6 else M.DiskGen)(
                  rng, reuse=rng.choice([0, 0.2]), tags=rng.choice([0.1, 0.4]),
                  weights=0.4, max_depth=rng.randint(1, 3), ascii_only=ascii_only,
                  caps=rng.choice([0, 0.3]))
    rules = g.rules(n or rng.randint(1, 5), safe=rng.random() < 0.7)
    if ascii_only:
        fix_names(rules)
    spec = {"name": name or rng.choice(["g", "com.acme.main", "gr-1", "a.b"]),
            "rules": rules, "charset": rng.choice(CHARSETS), "lang": rng.choice(LANGS),
            "version": rng.choice(VERSIONS)}
    if spec["lang"] and not spec["charset"] and len(spec["lang"]) != 2:
        spec["charset"] = "UTF-8"    # a lone long word in the header is a charset
    if imports:
        spec["imports"] = rng.sample(IMPORTS[:4] if ascii_only else IMPORTS,
                                     rng.choice([0, 0, 1, 2]))
    if rng.random() < 0.25:
        spec["cs"] = True
        for r in rules:
            M.set_cs(r["e"], True)
    if rng.random() < 0.3:
        for r in rules:
            for x in M.walk(r["e"]):
                if x["k"] == "alt" and x.get("w"):
                    x["w"] = [rng.choice(ODD_WEIGHTS) if w else w for w in x["w"]]
    if root if root is not None else rng.random() < 0.25:
        spec["root"] = True
    if ascii_only:
        for r in rules:
            for x in M.walk(r["e"]):
                if x.get("tag") and any(ord(c) > 127 for c in x["tag"]):
                    x["tag"] = "ascii"
    return spec


ODD = ["\u2028", "\u2029", "\x85", "\x0b", "\x0c", "\x1c", "  ", "\t", "\n", " \n ", "\u3000",
       "\xa0"]


def odd_tags(rng, spec, also=(), seps=ODD):
    """Put white space and line separators other than single blanks inside tags (and
    whatever else `also` names): they are part of the text like any other character."""
    for r in spec["rules"]:
        for x in M.walk(r["e"]):
            for key in ("tag",) + tuple(also):
                if x.get(key) and rng.random() < 0.5:
                    x[key] = odd(rng, x[key], seps)


def odd(rng, text, seps=ODD):
    words = text.split(" ")
    if len(words) < 2 or not all(words):
        return "one%stwo" % rng.choice(seps)
    return "".join(w + (rng.choice(seps) if rng.random() < 0.7 else " ")
                   for w in words[:-1]) + words[-1]


def fix_names(rules):
    ren = {"\u00e9i": "ei"}
    for r in rules:
        r["n"] = ren.get(r["n"], r["n"])
        for x in M.walk(r["e"]):
            if x["k"] == "ref":
                x["n"] = ren.get(x["n"], x["n"])


def expected_rules(spec, as_root):
    """What a file exported from spec has to contain: [name, visible, canonical]."""
    rows = [[r["n"], bool(r["v"]), M.canon(r["e"])] for r in spec["rules"]
            if not r.get("off")]
    if as_root:
        vis = [r for r in rows if r[1]]
        refs = [("R", r[0]) for r in vis]
        e = refs[0] if len(refs) == 1 else ("A", tuple((None, x) for x in refs))
        rows = [["root", True, e]] + [[n, False, c] for n, _, c in rows]
    return rows


def loaded_rules(g, J):
    return [[r.name, bool(r.visible), M.canon_obj(r.expansion, J)] for r in g.rules]


def set_case(rules, spec, J):
    """The text does not record case sensitivity; make it visible to comparisons."""
    for r in rules:
        for e in M.nodes_of(r.expansion):
            if isinstance(e, J.Literal):
                e.case_sensitive = bool(spec.get("cs"))


def header(g):
    return [g.name, g.jsgf_version, g.charset_name or "", g.language_name or "",
            list(g.import_names)]


def spec_header(spec):
    cs, lang = spec.get("charset") or "", spec.get("lang") or ""
    return [spec["name"], spec.get("version") or "1.0", cs, lang,
            list(spec.get("imports", []))]


def snap(root="."):
    """All files below root: relative path -> bytes."""
    out = {}
    for d, _, names in os.walk(root):
        for n in names:
            p = os.path.join(d, n)
            with open(p, "rb") as f:
                out[os.path.relpath(p, root)] = f.read()
    return out


def decode(data, enc, nl):
    text = data.decode(enc)
    return text.replace(nl, "\n") if nl != "\n" else text


def geometry(rng):
    """Disk geometry: buffer and chunk sizes down to one byte, locale, separator."""
    return {"buf": rng.choice([1, 2, 7, 16, 64, 512, 8192]),
            "chunk": rng.choice([1, 3, 16, 128, 8192]),
            "enc": rng.choice(["utf-8", "utf-8", "utf-8", "latin-1", "utf-16",
                               "cp1252", "ascii", "iso8859-5"]),
            "nl": rng.choice(["\n", "\n", "\r\n"])}


def encodable(text, enc):
    try:
        text.encode(enc)
        return True
    except UnicodeError:
        return False


def unicode_enc(geo, text):
    """Make the locale able to express the text."""
    if not encodable(text, geo["enc"]):
        geo["enc"] = "utf-8"
    return geo
