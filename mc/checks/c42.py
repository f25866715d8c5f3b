"""
C42: what a format can't represent is refused.

All messages of up to two parts out of text, literals, variables, functions with options and markup, with and without a source, and with declarations; all select messages with one or two selectors of each
function and small sets of keys; and properties, metadata, comments and identifiers of entries, sections and resources, are written in each format.  Each must be refused with a ValueError, or give a text that
is read, and in which all the words of what was given are found.  All of these words are different.
Assumed: where a part has a source attribute, it stands for all of it; attributes other than the source are notes, and may be left out; Android strings give the name or text of a placeholder without a
source in its place, but not its options; and the names of the variable and of the default of plurals isn't given in Android or gettext files.
"""

from __future__ import annotations

import itertools
from copy import deepcopy
import logging
import re

from core import Bad, Ctx, T, need, words
from moz.l10n.message import serialize_message
from util import *

logging.disable(logging.CRITICAL)

FORMATS = ["android", "dtd", "fluent", "gettext", "inc", "ini", "plain_json", "properties", "webext", "xliff"]


class Made:
    """A message part by part, with the words that have to be found"""

    def __init__(self, options: bool = True) -> None:
        self.options = options  # of functions are needed
        self.n = 0
        self.open: list[str] = []
        self.words: list[str] = []
        self.either: list[tuple[str, list[str]]] = []  # a source, or other words
        self.declared: tuple[str, list[str]] = ("", [])

    def word(self, needed: bool = True) -> str:
        self.n += 1
        w = f"w{self.n}q"
        if needed:
            self.words.append(w)
        return w

    def lost(self, text: str) -> list:
        """Words that aren't in this text"""
        return [w for w in self.words if w not in text] + [e for e in self.either if e[0] not in text and not all(w in text for w in e[1])]

    def part(self, code: str):
        src = code.endswith("s")
        attr: dict = {"source": self.word(False)} if src else {}
        if code.endswith("T"):
            attr["translate"] = "no"
        own: list[str] = []
        if src:
            self.either.append((attr["source"], own))

        def w() -> str:
            own.append(self.word(not src))
            return own[-1]

        def o() -> str:
            return w() if self.options else self.word(False)

        k = code[0]
        if k == "d":
            self.words += self.declared[1]
            return Ex(V(self.declared[0] or w()), attributes=attr)
        if k == "t":
            return self.word()
        if k == "l":
            return Ex(w(), attributes=attr)
        if k == "v":
            return Ex(V(w()), attributes=attr)
        if k == "f":
            return Ex(V(w()), FN[code[1]], attributes=attr)
        if k == "o":
            return Ex(V(w()), FN[code[1]], {"o": o()}, attr)
        if k == "q":
            return Ex(w(), FN[code[1]], {"o": o()}, attr)
        if k == "p":
            return Ex(w(), FN[code[1]], {"o": V(o())}, attr)
        if k == "n":
            return Ex(None, FN[code[1]], {"o": o()}, attr)
        kind = {"<": "open", ">": "close", "/": "standalone"}[k]
        # These are all an xliff:g, in Android
        name = self.open.pop() if k == ">" and self.open else "xliff:g" if code.endswith("T") else w()
        if k == "<":
            self.open.append(name)
        return M(kind, name, {"o": w()} if code[1:2] == "o" else {}, attr)


FN = {"n": "number", "s": "string", "f": "func", "m": "message", "e": "entity", "h": "html", "d": "datetime", "i": "integer", "x": "x", "g": "xliff:g", "p": "placeholder"}
PARTS = ["t", "d", *(a + s for a in ("l", "v", "<", ">", "/", "<o", ">o", "/o") for s in ("", "s"))] + [k + f + s for k in "fopqn" for f in FN for s in ("", "s") if not f == "s" == s]
PARTS += ["lT", "vT", "fgT", "ogT", "pgT", "ngT", "feT", "oeT", "<T", ">T", "/T", "<oT", ">oT", "/oT"]
DECLS = ["", "u", "l", "f", "g"]


def pattern(made: Made, codes) -> list:
    return [made.part(c) for c in codes]


def declarations(made: Made, code: str) -> dict:
    if not code:
        return {}
    name = made.word(False)
    used = []

    def w() -> str:
        used.append(made.word(False))
        return used[-1]

    made.declared = name, used
    return {name: {"u": lambda: Ex(V(w())), "l": lambda: Ex(w()), "f": lambda: Ex(V(w()), "number", {"o": w()}), "g": lambda: Ex(w(), "number", {"o": w()})}[code]()}


def select(made: Made, fns, keys, parts=("t",), option: str = "") -> SM:
    names = [made.word(f != "L") for f in fns]
    decl = {n: Ex(V(n) if f != "L" else made.word(), {"-": None, "L": "string", **FN}[f], {made.word(): made.word()} if option == "o" and f != "-" else {}) for n, f in zip(names, fns)}
    if option == "d":
        decl[made.word(False)] = Ex(V(made.word(False)), "number")
    if option == "s":
        decl[names[0]].attributes["source"] = made.word(False)
    variants = {}
    for row in keys:
        ks = tuple(CK() if k == "*" else CK(made.word()) if k == "*w" else made.word() if k == "w" else k for k in row)
        for k in ks:
            if isinstance(k, str) and k not in ("one", "other", "0", "1") and k not in made.words:
                made.words.append(k)
        variants[ks] = pattern(made, parts)
    return SM(decl, tuple(V(n) for n in names), variants)


def attempt(f: str, res, made: Made, **opts) -> str:
    fmt = Format[f]
    T.trace(1)
    before = dump(res)
    try:
        out = "".join(serialize_resource(res, fmt, xliff_source_entries=True, **opts))
    except ValueError:
        out = None
    except Exception as e:
        raise Bad("failed with", repr(e))
    need(dump(res) == before, "resource was changed", res)
    if out is None:
        return "refused"
    try:
        got = parse_resource(fmt, out, xliff_source_entries=True)
    except Exception as e:
        if not (fmt == Format.android and re.search(r"Entity '\w+' not defined", str(e))):
            raise Bad("wrote", repr(out), "which can't be read:", repr(e))
        # It may be defined elsewhere
        got = parse_resource(fmt, re.sub(r"&(w\w+);", r"\1", out))
    lost = made.lost(str(dump(got)))
    need(not lost, "lost", lost, "of", before, "in", repr(out))
    return "written"


def resource(f: str, entries, **kw):
    return Resource(Format[f], [S(("f",) if f in ("xliff", "ini") else (), entries, **kw)])


def judge_pattern(c) -> str:
    f, decl, codes = c
    made = Made(f != "android")
    decls = declarations(made, decl)
    msg = PM(pattern(made, codes), decls)
    status = attempt(f, resource(f, [E(("a",), msg)]), made)
    if not decl:
        try:
            out = serialize_message(Format[f], msg)
        except ValueError:
            return status
        except Exception as e:
            raise Bad("serialize_message failed with", repr(e))
        lost = made.lost(out)
        if f == "webext":
            # Its placeholders are discarded
            lost = [w for w in lost if w in msg.pattern]
        need(not lost, "lost", lost, "of", dump(msg), "in message", repr(out))
    return status


def judge_select(c) -> str:
    f, fns, keys, where, *parts = c
    made = Made(f != "android")
    msg = select(made, fns, keys, *parts)
    e = E(("a",), msg) if where != "property" else E(("a",), PM([made.word()]), {made.word(): msg})
    if f in ("android", "gettext") and where == "value":
        # The variable isn't given in these files
        made.words = [w for w in made.words if w not in msg.declarations]
    file = {"stringsdict": "w.stringsdict", "xcstrings": "w.xcstrings"}.get(where)
    if where == "xcstrings":
        # Nor in these, if not in the variants
        made.words = [w for w in made.words if w not in msg.declarations]
    if f == "android" and where == "value":
        # The default is always the same
        made.words = [w for w in made.words if not any(isinstance(k, CK) and k.value == w for ks in msg.variants for k in ks)]
    return attempt(f, Resource(Format[f], [S((file,), [e])]) if file else resource(f, [e]), made)


def judge_field(c) -> str:
    f, fields, trim = c
    made = Made()
    kw: dict = {}
    w = made.word
    at = "@" if f == "xliff" else ""
    comment = lambda: w(not trim)  # noqa: E731
    e = E(("a",), PM([w()]))
    s = S(("f",) if f in ("xliff", "ini") else (), [e])
    r = Resource(Format[f], [s])
    for x in fields:
        if x == "property":
            e.properties[w()] = PM([w()])
        elif x == "string property":
            e.properties[w()] = w()
        elif x == "entry meta":
            e.meta.append(Md(at + w(not trim), w(not trim)))
        elif x == "section meta":
            s.meta.append(Md(at + w(not trim), w(not trim)))
        elif x == "resource meta":
            r.meta.append(Md(at + w(not trim), w(not trim)))
        elif x.startswith("repeated"):
            meta = {"entry": e, "section": s, "resource": r}[x.split()[1]].meta
            meta.append(Md(meta[-1].key if meta else at + w(not trim), w(not trim)))
            meta.append(Md(meta[-1].key, w(not trim)))
        elif x == "entry comment":
            e.comment = comment()
        elif x == "section comment":
            s.comment = comment()
        elif x == "resource comment":
            r.comment = comment()
        elif x == "comment":
            s.entries.append(C(comment()))
        elif x == "section id":
            s.id = (*s.id, w())
        elif x == "entry id":
            e.id = (*e.id, w())
        elif x == "section":
            r.sections.append(S((w(),), [E((w(),), PM([w()]))]))
        elif x == "string":
            s.entries.append(E((w(),), w()))
    return attempt(f, r, made, trim_comments=trim)


def judge_entries(c) -> str:
    f, entries = c
    made = Made()
    at = "@" if f == "xliff" else ""
    es: list = []
    last: list = []
    for kind, meta, comment in entries:
        if kind == "c":
            es.append(C(made.word()))
            continue
        id = (made.word(),) if kind == "s" else ("ap",) if kind == "p" else ("ad",) if kind == "d" else ("ar", kind)
        if meta == "=":
            md = deepcopy(last)
        else:
            md = [Md(at + made.word(), made.word())] if meta else []
            if meta == "2":
                md.append(Md(md[0].key, made.word()))
        last = md
        value = PM([made.word()]) if kind != "p" else SM({"q": Ex(V("q"), "number")}, (V("q"),), {("one",): [made.word()], (CK(),): [made.word()]})
        es.append(E(id, value, comment=made.word() if comment else "", meta=md))
    return attempt(f, resource(f, es), made)


KINDS = ["s", "d", "p", "c", "0", "1", "2"]
FIELDS = ["property", "string property", "entry meta", "section meta", "resource meta", "entry comment", "section comment", "resource comment", "comment", "section id", "entry id", "section", "string", "repeated entry meta", "repeated section meta", "repeated resource meta"]
KEYS = ["one", "other", "w", "*", "*w", "0", "1"]


def run(ctx: Ctx) -> None:
    q = ctx.pick
    for f in FORMATS:
        ctx.space(f"{f}-patterns", lambda f=f: ([f, d, w] for n in range(q(4, 5)) for w in itertools.product(PARTS if n < 3 else PARTS[:18] if n < 4 else PARTS[:10], repeat=n) for d in (DECLS if n < (3 if f in ("fluent", "webext") else 2) else DECLS[:1])), judge_pattern, note="messages of all parts")

        def selects(f=f):
            for where in ("value", "property") if f != "xliff" else ("value", "stringsdict", "xcstrings"):
                for fn in ("-", "L", *FN):
                    for n in range(1, 4):
                        for keys in itertools.permutations(KEYS, n):
                            if "*" in keys and "*w" in keys:
                                continue  # Equal
                            yield [f, [fn], [[k] for k in keys], where]
                for fns in itertools.product("-Lns", repeat=2):
                    for n in range(1, q(3, 4)):
                        for keys in itertools.permutations(list(itertools.product(["one", "w", "*"], repeat=2)), n):
                            yield [f, fns, keys, where]

            for where in ("value", "property") if f != "xliff" else ("value", "stringsdict", "xcstrings"):
                for fn in "-Lns":
                    for keys in (["one", "*"], ["w", "*w"], ["other", "*"], ["one", "other"]):
                        for n in range(q(2, 3)):
                            for parts in itertools.product(PARTS if n < 3 else PARTS[:10], repeat=n):
                                for option in ("", "o", "d", "s") if n < 2 else ("",):
                                    if "d" not in parts:
                                        yield [f, [fn], [[k] for k in keys], where, parts, option]

        ctx.space(f"{f}-selects", selects, judge_select, note="select messages of all forms")
    ctx.space("fields", lambda: ([f, x, trim] for f in FORMATS for n in range(q(4, 5)) for x in itertools.combinations(FIELDS, n) for trim in (False, True)), judge_field, note="all combinations of other fields")
    ctx.space("entries", lambda: ([f, list(w)] for f in FORMATS for n in range(1, 4) for w in itertools.product([[k, m, c] for k in KINDS for m in ("", "x", "=", "2") for c in ("", "c") if k != "c" or m + c == ""] if n < 3 or f == "android" or not ctx.quick else [[k, m, ""] for k in "sd01" for m in ("", "x")], repeat=n)), judge_entries, note="sequences of entries, with metadata and comments")
