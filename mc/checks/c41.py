"""
C41: every way to read and write a text gives the same result.

All texts of up to a number of tokens, and documents with a change, are read from a string, bytes, a path, a path and its contents, and with the functions for the format and for its syntax tree or single
entries, with each set of options for this format, and with those of all other formats as well; they must all give an equal resource or all refuse.  Each such resource, and each made of its parts, is
written in each way: whole, by format, as a syntax tree, by entries and by messages; again all must be the same.  Custom parsers and serializers must get all values, and their results must be used.
Assumed: bytes are UTF-8; texts of XML with an XML declaration aren't used.
"""

from __future__ import annotations

import io
import itertools
import logging
import os
import re

from fluent.syntax import FluentParser, FluentSerializer
from fluent.syntax import ast as ftl

from checks import c37
from core import Ctx, T, need, same, words
from moz.l10n.formats import android, detect_format, dtd, fluent, gettext, inc, ini, plain_json, properties, webext, xliff
from moz.l10n.message import serialize_message
from util import *

logging.disable(logging.CRITICAL)

SCRATCH = ""
PARSE = {"android": android.android_parse, "dtd": dtd.dtd_parse, "fluent": fluent.fluent_parse, "gettext": gettext.gettext_parse, "inc": inc.inc_parse, "ini": ini.ini_parse, "plain_json": plain_json.plain_json_parse,
         "properties": properties.properties_parse, "webext": webext.webext_parse, "xliff": xliff.xliff_parse}
WRITE = {"android": android.android_serialize, "dtd": dtd.dtd_serialize, "fluent": fluent.fluent_serialize, "gettext": gettext.gettext_serialize, "inc": inc.inc_serialize, "ini": ini.ini_serialize,
         "plain_json": plain_json.plain_json_serialize, "properties": properties.properties_serialize, "webext": webext.webext_serialize, "xliff": xliff.xliff_serialize}
EXT = {"android": "xml", "dtd": "dtd", "fluent": "ftl", "gettext": "po", "inc": "inc", "ini": "ini", "plain_json": "json", "properties": "properties", "webext": "json", "xliff": "xliff"}
# Options of parse_resource, and serialize_resource, with their names in the functions for a format
OPTS = {
    "android": [{"android_ascii_spaces": a, "android_literal_quotes": b} for a in (False, True) for b in (False, True)],
    "gettext": [{"gettext_plurals": p, "gettext_skip_obsolete": b} for p in (None, ["one", "other"]) for b in (False, True)],
    "properties": [{"properties_printf_placeholders": b} for b in (False, True)],
    "xliff": [{"xliff_source_entries": b} for b in (False, True)],
}
ALL = {"android_ascii_spaces": True, "android_literal_quotes": True, "gettext_plurals": ["one", "few", "other"], "gettext_skip_obsolete": True, "properties_printf_placeholders": True, "xliff_source_entries": True}
W_OPTS = {"gettext": [{"gettext_plurals": None}, {"gettext_plurals": ["one", "other"]}], "xliff": [{"xliff_source_entries": b} for b in (False, True)], "fluent": [{"fluent_escape_syntax": b} for b in (True, False)]}
W_ALL = {"gettext_plurals": ["one", "few", "other"], "xliff_source_entries": True, "fluent_escape_syntax": False}


def result(fn, *args, **kw):
    """A comparable result"""
    try:
        res = fn(*args, **kw)
        return dump(res)
    except c37.ERRORS:
        return "refused"


def own(f: str, opts: dict) -> dict:
    return {k[len(f) + 1 :]: v for k, v in opts.items()}


def others(f: str, opts: dict, every: dict) -> dict:
    """With the options for other formats"""
    return {**{k: v for k, v in every.items() if not k.startswith(f)}, **opts}


def judge_read(c) -> str:
    f, tokens, opts = c
    fmt = Format[f]
    src, _ = c37.text(tokens)
    data = src.encode()
    exp = result(parse_resource, fmt, src, **opts)
    ways = {
        "bytes": result(parse_resource, fmt, data, **opts),
        "options of other formats": result(parse_resource, fmt, src, **others(f, opts, ALL)),
        f"{f}_parse": result(PARSE[f], src, **own(f, opts)),
        f"{f}_parse of bytes": result(PARSE[f], data, **own(f, opts)),
    }
    path = f"{SCRATCH}/{os.getpid()}.{EXT[f]}"
    if detect_format(path, data) == fmt:
        with open(path, "wb") as file:
            file.write(data)
        try:
            ways["path"] = result(parse_resource, path, **opts)
            ways["path and bytes"] = result(parse_resource, path, data, **opts)
            ways["path and text"] = result(parse_resource, path, src, **opts)
        finally:
            os.remove(path)
    if fmt == Format.ini:
        ways["file object"] = result(ini.ini_parse, io.StringIO(src))
    if fmt == Format.fluent:
        tree = FluentParser().parse(src)
        before = tree.to_json()
        ways["tree"] = result(fluent.fluent_parse, tree)
        ways["without positions"] = result(fluent.fluent_parse, src, with_linepos=False)
        if exp != "refused":
            res = parse_resource(fmt, src)
            es = [e for s in res.sections for e in s.entries if isinstance(e, E)]
            parts = [x for x in tree.body if isinstance(x, (ftl.Message, ftl.Term))]
            same("entries of the tree", [dump(fluent.fluent_parse_entry(x)) for x in parts], [dump(e) for e in es])
            # Comments before it are not part of an entry's text
            for x, e in zip(parts, es):
                got = fluent.fluent_parse_entry(src[x.span.start : x.span.end])
                same("entry", (got.id, dump(got.value), dump(list(got.properties.values()))), (e.id, dump(e.value), dump(list(e.properties.values()))))
        same("tree after reading", tree.to_json(), before)
    for k, got in ways.items():
        same(f"{k} of {src!r}", got, exp)
    T.trace(len(ways) + 1)
    return "refused" if exp == "refused" else "read"


def text_of_parts(fn, *args, **kw):
    try:
        out = fn(*args, **kw)
        return out if isinstance(out, str) else "".join(out)
    except ValueError:
        return "refused"


def judge_write(c) -> str:
    f, tokens, opts, trim = c
    fmt = Format[f]
    src, _ = c37.text(tokens)
    try:
        res = parse_resource(fmt, src, **{k: v for k, v in opts.items() if not k.startswith("fluent")})
    except c37.ERRORS:
        return "refused"
    return write_ways(f, res, opts, trim)


def write_ways(f: str, res, opts: dict, trim: bool) -> str:
    fmt = Format[f]
    exp = text_of_parts(serialize_resource, res, None, trim, **opts)
    ways = {
        "by name": text_of_parts(serialize_resource, resource=res, format=fmt, trim_comments=trim, **opts),
        "options of other formats": text_of_parts(serialize_resource, res, fmt, trim, **others(f, opts, W_ALL)),
        f"{f}_serialize": text_of_parts(WRITE[f], res, trim_comments=trim, **own(f, opts)),
        "again": text_of_parts(serialize_resource, res, fmt, trim, **opts),
    }
    for other in (Format.ini, None):
        # The format given is the one used
        was, res.format = res.format, other
        ways[f"resource of {other}"] = text_of_parts(serialize_resource, res, fmt, trim, **opts)
        res.format = was
    if fmt == Format.fluent:
        esc = opts.get("fluent_escape_syntax", True)

        def meta(m):
            return f"{m.key}: {m.value}"

        ways["tree"] = text_of_parts(lambda: FluentSerializer().serialize(fluent.fluent_astify(res, escape_syntax=esc, trim_comments=trim)))
        out = exp
        if exp != "refused":
            for s in res.sections:
                for e in s.entries:
                    if isinstance(e, E):
                        one = fluent.fluent_serialize_entry(e, escape_syntax=esc, comment_str=(lambda e: "") if trim else None)
                        need(one in out, "entry", repr(one), "is not in", repr(out))
                        out = out[out.index(one) + len(one) :]
                        same("tree of entry", FluentSerializer().serialize_entry(fluent.fluent_astify_entry(e, escape_syntax=esc, comment_str=(lambda e: "") if trim else None)), one)
                        for v in (e.value, *e.properties.values()):
                            for empty in (False, True):
                                a = fluent.fluent_serialize_message(v, escape_syntax=esc, escape_empty=empty)
                                same("message tree", fluent.fluent_serialize_message(fluent.fluent_astify_message(v, escape_syntax=esc, escape_empty=empty)), a)
                                same("serialize_message", serialize_message(fmt, v, fluent_escape_syntax=esc, fluent_escape_empty=empty), a)
                                if isinstance(v, PM) and not v.declarations:
                                    same("serialize_message of pattern", serialize_message(fmt, v.pattern, fluent_escape_syntax=esc, fluent_escape_empty=empty), a)
                                    text = "".join(x for x in v.pattern if isinstance(x, str))
                                    # As tested, outer whitespace of strings isn't escaped, nor are other special characters without the syntax
                                    if all(isinstance(x, str) for x in v.pattern) and text == text.strip() and (esc or text.isprintable()):
                                        same("serialize_message of string", fluent.fluent_serialize_message(text, escape_syntax=esc, escape_empty=empty), a)
                                squeezed = re.sub(r"\s", "", a)
                                need(empty or not a.strip() or squeezed in re.sub(r"\s", "", one), "message", repr(a), "is not in", repr(one))
    for k, got in ways.items():
        same(f"{k} with {opts}, trimmed {trim}", got, exp)
    T.trace(len(ways) + 1)
    return "not written" if exp == "refused" else "written"


def judge_plain(c) -> str:
    """Values given as strings are as those of patterns with a string"""
    f, sid, id, v, com, trim = c
    if f == "properties" and ("\\" in v or not v.isprintable()) or f == "webext" and "$" in v:
        # Strings are taken to be escaped already
        return "escaped"
    if f == "fluent" and v != v.strip():
        # As tested, outer whitespace of strings is not escaped
        return "outer whitespace"
    T.trace(2)

    def made(as_str):
        x = v if as_str else PM([v] if v or f == "xliff" else [])
        ids = tuple(id), tuple(sid)
        return Resource(Format[f], [S(ids[1], [E(ids[0], x, comment=com, properties={"p": x} if f == "fluent" else {})])])

    a, b = made(True), made(False)
    out = text_of_parts(serialize_resource, a, None, trim)
    same("as string", out, text_of_parts(serialize_resource, b, None, trim))
    return "refused" if out == "refused" else "written"


def judge_callback(c) -> str:
    """Custom functions get all values, and what they give is used"""
    kind, tokens = c
    src, _ = c37.text(tokens)
    f = "fluent" if kind in ("meta", "comment") else "properties"
    try:
        res = parse_resource(Format[f], src)
    except c37.ERRORS:
        return "refused"
    T.trace(1)
    es = [e for s in res.sections for e in s.entries if isinstance(e, E)]
    if f == "properties":
        if kind == "parse":
            seen = []

            def parse(v):
                seen.append(v)
                return PM([f"<{v}>"])

            got = properties.properties_parse(src, parse_message=parse)
            # Empty values need no parsing
            es = [e for e in es if e.value.pattern]
            same("parsed values", seen, ["".join(e.value.pattern) for e in es])
            for e in es:
                e.value = PM([f"<{''.join(e.value.pattern)}>"])
            same("parsed by function", dump(got), dump(res))
        else:
            gave = []

            def write(m):
                gave.append(m)
                return "<" + "".join(m.pattern) + ">"

            got = "".join(properties.properties_serialize(res, serialize_message=write))
            need(len(gave) == len(es) and all(a is e.value for a, e in zip(gave, es)), "serialized values", gave)
            again = parse_resource(Format.properties, got)
            raw = [e for s in again.sections for e in s.entries if isinstance(e, E)]
            same("ids", [e.id for e in raw], [e.id for e in es])
            for e in raw:
                need(e.value.pattern and e.value.pattern[0].startswith("<") and e.value.pattern[-1].endswith(">"), "written by function", e.value)
        return f"{len(es)} values"
    # Each comment and metadata field is written, where it belongs
    res.sections[0].meta = [Md("s", "1")]
    res.meta += [Md("r", "1"), Md("q", "2")]
    for i, e in enumerate(es):
        e.meta = [Md("e", str(i)), Md("skip", "1"), Md("nl", "\n  x\n")]
    seen = []

    def meta(m):
        seen.append(m)
        return None if m.key == "skip" else m.value if m.key == "nl" else f"{m.key}={m.value}"

    if kind == "comment":
        es_seen = []

        def comment_str(e):
            es_seen.append(e)
            return f"C{e.meta[0].value}"

        for e in es:
            e2 = fluent.fluent_parse("##\n\n" + fluent.fluent_serialize_entry(e, comment_str=comment_str)).sections[0].entries[-1]
            same("comment", e2.comment, f"C{e.meta[0].value}")
            same("entry with comment", *((x.id, dump(merged(x.value)), dump([merged(p) for p in x.properties.values()])) for x in (e2, e)))
            need(es_seen[-1] is e, "comment_str was given", es_seen)
        return f"{len(es)} comments"
    try:
        "".join(fluent.fluent_serialize(res))
        need(False, "metadata was left out silently")
    except ValueError:
        pass
    info = res.meta[0] if res.meta[0].key == "info" else None
    out = "".join(fluent.fluent_serialize(res, serialize_metadata=meta))
    want = [m for m in res.meta if m is not info] + res.sections[0].meta + [m for e in es for m in e.meta]
    need(len(seen) == len(want) and all(a is b for a, b in zip(seen, want)), "metadata", seen, "expected", want)
    got = fluent.fluent_parse(out)
    same("resource comment", got.comment, "\n".join([*([res.comment.rstrip()] if res.comment.rstrip() else []), "r=1", "q=2"]))
    same("section comment", got.sections[0].comment, "\n".join([*([res.sections[0].comment.rstrip()] if res.sections[0].comment.rstrip() else []), "s=1"]))
    same("comments", [e.comment for s in got.sections for e in s.entries if isinstance(e, E)], ["\n".join([*([e.comment.rstrip()] if e.comment.rstrip() else []), f"e={i}", "  x"]) for i, e in enumerate(es)])
    same("trimmed", "".join(fluent.fluent_serialize(res, serialize_metadata=meta, trim_comments=True)), "".join(fluent.fluent_serialize(strip(res), trim_comments=True)))
    return f"{len(es)} comments"


def strip(res):
    res.meta, res.comment = [], ""
    for s in res.sections:
        s.meta, s.comment = [], ""
        for e in s.entries:
            e.comment = ""
            if isinstance(e, E):
                e.meta = []
    return res


def sources(f: str, n: int, deep: bool):
    end = c37.PO[:2] if f == "gettext" else []
    for w in words(c37.TOKENS[f], n):
        yield [*w, *end]
    for r in RARE:
        for w in words(c37.TOKENS[f], 2):
            yield [r, *w, *end]
        for doc in c37.DOCS[f]:
            for i in range(len(doc) + 1):
                yield [*doc[:i], r, *doc[i:]]
    for doc in c37.DOCS[f]:
        yield doc
        for e in c37.edits(doc, c37.TOKENS[f]):
            yield e + end
            if deep and len(doc) < 9:
                for e2 in c37.edits(e, c37.TOKENS[f]):
                    yield e2 + end


RARE = ["\ufeff", "\u2028", "\x0b", "\x0c", "\x85", "\xa0", "\r", "\r\n", "\x00", "\x1a", "\U0001f600"]
VALS = ["a", " ", "\n", "{", "}", "$", "$1", "%s", "%", "<", "&", '"', "'", "\\", "é", "@", "#", "\u2028", "\t", "=", "\x0b", "\x85", "[", "*", ".", "\r", ""]


def run(ctx: Ctx) -> None:
    global SCRATCH
    SCRATCH = ctx.scratch()
    q = ctx.pick
    for f in c37.TOKENS:
        many = len(c37.TOKENS[f]) > 20
        srcs = lambda f=f, many=many: sources(f, q(2, 3) if many else q(2, 4), not ctx.quick)
        ctx.space(f"read-{f}", lambda f=f, srcs=srcs: ([f, t, o] for t in srcs() for o in OPTS.get(f, [{}])), judge_read, note="all texts and options, in all ways to read them")
        ctx.space(f"write-{f}", lambda f=f, srcs=srcs: ([f, t, o, trim] for t in srcs() for o in W_OPTS.get(f, [{}]) for trim in (False, True)), judge_write, note="all texts and options, in all ways to write them")
    ctx.space("plain", lambda: ([f, sid, id, "".join(v), com, trim] for f in c37.TOKENS for sid in ([], ["s"]) for id in (["a"], ["a", "b"]) for v in words(VALS, q(2, 3)) for com in ("", "c") for trim in (False, True)), judge_plain, note="values as strings and patterns")
    for kind in ("parse", "write", "meta", "comment"):
        ctx.space(f"callback-{kind}", lambda kind=kind: ([kind, t] for t in sources("fluent" if kind in ("meta", "comment") else "properties", q(2, 3), not ctx.quick)), judge_callback, note="custom functions")
