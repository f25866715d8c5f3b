"""
C36: conversion between string formats keeps ids and values.

Small resources of all shapes (ids of one and more parts, sections, comments, special characters at every place of a value) are made in each format, read from its text, and serialized as every other
format, and those as a third.  Each conversion must be refused with a ValueError, or be read back with the same ids, values, and comments.
Assumed: ids are the same if their parts are, joined by dots, as in formats with flat ids; text of placeholders without source is not compared; formats that have no comments may drop those of entries.
"""

from __future__ import annotations

import itertools
import logging
import re
from collections import Counter

from core import Ctx, T, need, same, texts, words
from util import *

logging.disable(logging.CRITICAL)

FMTS = [f for f in Format if f != Format.mf2]
NO_COMMENTS = (Format.plain_json,)


def value(msg) -> str | None:
    """The text of a message without placeholders that have no source"""
    if isinstance(msg, str):
        return msg
    if not isinstance(msg, PM):
        return None
    out = ""
    for p in msg.pattern:
        if isinstance(p, str):
            out += p
        elif isinstance(p, Ex) and isinstance(p.arg, str) and p.function in (None, "html"):
            out += p.arg
        elif isinstance(p, Ex) and isinstance(p.attributes.get("source"), str) and p.attributes["source"].startswith("%"):
            out += p.attributes["source"]
        else:
            return None
    return out


def flat(res) -> list:
    return [(".".join((*s.id, *e.id)), value(e.value), " ".join(e.comment.split())) for s in res.sections for e in s.entries if isinstance(e, E)]


def rest(res) -> str:
    """Other comments"""
    return " ".join(" ".join([res.comment, *(t for s in res.sections for t in (s.comment, *(e.comment for e in s.entries if isinstance(e, C))))]).split())


def order(res, skip: str) -> list:
    """Entries, and words of comments that aren't theirs"""
    out: list = [*res.comment.split()]
    for s in res.sections:
        out += s.comment.split()
        for e in s.entries:
            out += e.comment.split() if isinstance(e, C) else [[".".join((*s.id, *e.id))]]
    return [x for x in (re.sub(skip, "", x) if isinstance(x, str) else x for x in out) if x]


def entities_first(items: list, fmt: Format) -> list:
    """They are in the DTD that starts an Android file"""
    return sorted(items, key=lambda x: isinstance(x, str) or not x[0].startswith("!ENTITY.")) if fmt == Format.android else items


def convert(res, fmt: Format):
    """The text and resource in another format, or None"""
    before = dump(res)
    try:
        out = "".join(serialize_resource(res, fmt, xliff_source_entries=True))
    except ValueError:
        return None, None
    finally:
        same("resource after serializing", dump(res), before)
    T.trace(1)
    if fmt == Format.gettext and len(out.splitlines()) != out.count("\n"):
        # polib takes other characters for ends of lines
        return out, None
    return out, parse_resource(fmt, out, xliff_source_entries=True)


def compare(res, got, fmt: Format, out: str) -> str:
    a, b = flat(res), flat(got)
    if fmt == Format.inc:
        # Line breaks are written as spaces there
        a = [(k, v and v.replace("\n", " "), c) for k, v, c in a]
    if fmt == Format.ini:
        # The lines of values have no outer whitespace there
        a, b = ([(k, v and "\n".join(x.strip() for x in v.split("\n")).strip(), c) for k, v, c in x] for x in (a, b))
    if fmt == Format.dtd:
        # Values with both kinds of quotes have one as &quot;
        a, b = ([(k, v and v.replace("&quot;", '"'), c) for k, v, c in x] for x in (a, b))
    unclear = {k for k, v, _ in a if v is None}
    ca, cb = (Counter((k, None if k in unclear else v) for k, v, _ in x) for x in (a, b))
    need(ca == cb, "entries", dict(cb - ca), "expected", dict(ca - cb), f"as {fmt.name}", repr(out))
    if fmt not in NO_COMMENTS:
        # XML has no -- in comments, and comment lines in .inc may start with more than one #
        skip = r"[-\u200b]" if fmt in (Format.android, Format.dtd) else r"# ?" if fmt == Format.inc else "$^"
        # and entities in the DTD of an Android file have no comments
        ca, cb = (Counter((k, re.sub(skip, "", c)) for k, _, c in x if fmt != Format.android or not k.startswith("!ENTITY.")) for x in (a, b))
        need(ca == cb, "comments", dict(cb - ca), "expected", dict(ca - cb), f"as {fmt.name}", repr(out))
        a, b = (re.sub(skip, "", rest(x)).split() for x in (res, got))
        same(f"order of entries and comments as {fmt.name} in {out!r}", order(got, skip), entities_first(order(res, skip), fmt))
        need(a == b, "other comments", b, "expected", a, f"as {fmt.name}", repr(out))
    return "same"


def make(fmt: Format, secs: list, plain: bool = False):
    """With a section id of null for the resource comment, and entry ids of null for comments"""
    sections = [
        S(tuple(sid), [C(c) if id is None else E(tuple(id), v if plain else PM([v] if v else []), comment=c) for id, v, c in entries], comment=sc)
        for sid, entries, sc in secs
        if sid is not None
    ]
    return Resource(fmt, sections, comment="".join(sc for sid, _, sc in secs if sid is None))


def judge_convert(c) -> str:
    f, secs, targets, *plain = c
    F = Format[f]
    made = make(F, secs, bool(plain))
    ids = [".".join((*s.id, *e.id)) for s in made.sections for e in s.entries if isinstance(e, E)]
    if len(set(ids)) < len(ids):
        return "ids are the same"
    text, res = convert(made, F)
    if res is None:
        T.trace(1)
        return "not in this format"
    n = 0
    for g in targets:
        G = Format[g]
        for what in (made, res):
            out, got = convert(what, G)
            if got is not None:
                n += 1
                compare(what, got, G, out)
                same("format", got.format, G)
                again = convert(got, G)
                same("again", convert(again[1], G)[0], again[0])
                # and back
                out2, back = convert(got, F)
                if back is not None:
                    compare(got, back, F, out2)
    return "converted" if n else "refused"


VALS = ["A", " ", "\n", "{", "}", "%s", "$1", "$a$", "<b>", "&amp;", '"', "'", "\\", "\\n", "é", "@", "#", "\u2028", "\t", "=", "]]>", "%"]
IDS = [["a"], ["a.b"], ["a", "b"], ["a", "0"], ["a b"], ["é"], ["A"], ["-t"], ["a=b"], ["#a"], ["a:b"], ["a", "b", "c"], ["a/b"], ["[a]"], ["1"], ['"a'], ["<a>"], ["a_b"], [".a"], ["a."], ["a\nb"], [""], ["a", ""], ["a\\b"], ["a", "1"], ["a", "00"], ["a", "-0"]]
SECS = [[], ["s"], ["s", "t"], ["s.t"], ["S s"], ["!ENTITY"], ["é"], [".s"], ["[s]"], ["s", "t", "u"], ["s", "u"]]
COMS = ["", "c", "c d\ne", " # c", "-->", "c\n\nd", "é", "/* c"]


def run(ctx: Ctx) -> None:
    q = ctx.pick
    names = [f.name for f in FMTS]
    ctx.space("values", lambda: ([f, [[[], [[["a"], v, ""], [["b"], "B", ""]], ""]], names] for f in names for v in texts(VALS, q(2, 3))), judge_convert, note="values of all special characters, in all pairs of formats")
    ctx.space("sectioned", lambda: ([f, [[["s"], [[["a"], v, ""]], ""]], names] for f in ("ini", "xliff", "properties") for v in texts(VALS, q(1, 2))), judge_convert, note="values in sections")

    def plain():
        for f in names:
            for sid in [], ["s"]:
                for u, v in itertools.product(["", "A", "A B", "é"], repeat=2):
                    for c in "", "c":
                        for a, b in (["a"], ["b"]), (["a", "b"], ["c"]), (["a", "0"], ["a", "1"]):
                            yield [f, [[sid, [[a, u, c], [b, v, ""]], ""]], names, True]

    ctx.space("plain", plain, judge_convert, note="values given as strings, empty ones included")

    def shapes():
        for f in names:
            for s in SECS:
                for a in IDS:
                    for c in ("", "c"):
                        yield [f, [[s, [[a, "A", c]], ""]], names]
            for s, t in itertools.product(SECS, repeat=2):
                if s != t:
                    for a, b in itertools.product(IDS[:4], repeat=2):
                        yield [f, [[s, [[a, "A", ""]], ""], [t, [[b, "B", ""]], ""]], names]
            for s in SECS[:3]:
                for a, b in itertools.permutations(IDS, 2):
                    yield [f, [[s, [[a, "A", ""], [b, "B", ""]], ""]], names]

    ctx.space("ids", shapes, judge_convert, note="ids and sections of all forms, in all pairs of formats")
    def around():
        for f in names:
            for r, s, c, d, e in itertools.product(COMS[: q(3, 5)], COMS[: q(2, 3)], COMS[:2], COMS[: q(3, 5)], COMS[:2]):
                for sid in SECS[:2]:
                    for kind in range(3):
                        one, note, two = [["a"], "A", c], [None, "", d], [["b"], "B", e]
                        if d or not kind:
                            yield [f, [[None, [], r], [sid, [[one, two], [one, note, two], [note, one, two, note]][kind], s]], names]

    ctx.space("around", around, judge_convert, note="comments of the resource and section, and ones that stand alone")
    ctx.space("comments", lambda: ([f, [[s, [[["a"], "A", c], [["b"], "B", d]], e]], names] for f in names for s in SECS[:2] for c, d in itertools.product(COMS, repeat=2) for e in COMS[: q(3, 8)]), judge_convert, note="comments of entries and sections")
