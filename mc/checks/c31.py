"""
C31: detected formats agree with file names, contents and parsers.

Names of all forms are combined with contents of all forms; JSON documents are enumerated by structure, with line comments at every token; XML documents by
prolog, root, namespace and encoding.  The oracle reads names, JSON with comments, and roots on its own.  What is detected must be parsed as that format with the
entries that the document was made with, and each text must give the same resource as str, as bytes, and from a file, with or without an explicit format.
Assumed: text is in UTF-8, except for XML that declares another encoding; gettext files have no separators that polib takes for ends of lines.
"""

from __future__ import annotations

import itertools
import json
import logging
import os
import re
import shutil

from checks.c29 import RAW
from core import Ctx, T, need, same, texts
from files import BROKEN, KINDS, make
from moz.l10n.model import Entry, PatternMessage
from moz.l10n.formats import UnsupportedFormat, detect_format
from util import *

SCRATCH = ""
logging.getLogger("moz.l10n.formats.android.parse").setLevel(logging.CRITICAL)
EXTS = {".dtd": "dtd", ".ftl": "fluent", ".po": "gettext", ".pot": "gettext", ".inc": "inc", ".ini": "ini", ".properties": "properties", ".xlf": "xliff", ".xliff": "xliff"}


def by_name(name: str | None) -> str | None:
    """The extension of a file, if its name has more before it than dots"""
    base = (name or "").rsplit("/", 1)[-1].lstrip(".")
    return "." + base.rsplit(".", 1)[1] if "." in base else ""


def webext_message(x) -> bool:
    if not isinstance(x, dict) or not {"message"} <= set(x) <= {"message", "description", "placeholders"}:
        return False
    if not isinstance(x["message"], str) or not isinstance(x.get("description", ""), str):
        return False
    phs = x.get("placeholders", {})
    return isinstance(phs, dict) and all(isinstance(ph, dict) and all(isinstance(v, str) for v in ph.values()) for ph in phs.values())


def leaves(doc, key=()) -> list:
    if isinstance(doc, str):
        return [(key, doc)]
    need(isinstance(doc, dict))
    return [x for k, v in doc.items() for x in leaves(v, (*key, k))]


def strings_only(doc) -> bool:
    return isinstance(doc, str) or isinstance(doc, dict) and all(strings_only(v) for v in doc.values())


def by_json(doc, commented: bool) -> str | None:
    if not isinstance(doc, dict) or not strings_only(doc):
        return None
    if all(webext_message(v) for v in doc.values()):
        return "webext"
    return None if commented else "plain_json"


def undefined(msg) -> bool:
    """Whether some placeholder of a message has no content"""
    have = {k.lower(): v for k, v in msg.get("placeholders", {}).items()}
    return any("content" not in have.get(x.lower(), {}) for x in re.findall(r"\$([A-Za-z0-9_@]+)\$", msg["message"].replace("$$", "")))


def entries(res) -> list:
    return [(s.id, e.id, dump(merged(e.value))) for s in res.sections for e in s.entries if isinstance(e, Entry)]


def attempt(*a, **kw):
    try:
        return dump(parse_resource(*a, **kw))
    except UnsupportedFormat:
        return "unsupported"
    except (RecursionError, MemoryError):
        raise
    except Exception:
        return "error"


def ways(name: str | None, src: str, data: bytes | None = None):
    """What parsing some text gives, by all of the ways it can be given"""
    if data is None:
        data = src.encode("utf-8", "surrogatepass")
    got = attempt(name, src)
    same("from bytes", attempt(name, data), got)
    fmts = {detect_format(name, src), detect_format(name, data)}
    need(len(fmts) == 1, "detected", fmts)
    (fmt,) = fmts
    need((fmt is None) == (got == "unsupported"), "detected", fmt, "but parsing gives", got)
    if fmt is not None:
        same("by format", attempt(fmt, src), got)
        same("by format from bytes", attempt(fmt, data), got)
    if name:
        path = f"{SCRATCH}/{os.getpid()}/{name}"
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "wb") as f:
            f.write(data)
        try:
            same("from a file", attempt(path), got)
            with open(path, "rb") as f:
                same("file", f.read(), data)
        finally:
            shutil.rmtree(f"{SCRATCH}/{os.getpid()}")
    T.trace(5)
    return got, fmt


def kind(got, fmt) -> str:
    return got if isinstance(got, str) else fmt.name


# --- names

CONTENTS = {
    "": None, "text": None, '{"a": "A"}': "plain_json", '{"a": {"message": "A"}}': "webext", "{}": "webext", "<resources/>": "android", '{"a": 1}': None, "[]": None, "null": None, '"s"': None,
    '<xliff xmlns="urn:oasis:names:tc:xliff:document:1.2" version="1.2"/>': "xliff", "<html/>": None, "# c\na = A\n": None, "<": None, '{"a"': None, "\0": None, "1" * 5000: None, "[" * 100000: None,
}
NONTEXT = {b"\xff": None, b"\xff\xfe": None, b'{"a": "\xff"}': None, b"<?xml version='1.0' encoding='iso-8859-1'?><resources><string name='a'>\xe9</string></resources>": "android"}
NAMES = [d + s + e for e in (*EXTS, ".json", ".xml", ".txt", "", ".", ".FTL", ".ftl~", ".ftl.bak", ".js", ".x.ftl", ".xml.ini", ".json.po", " .ftl", ".poT", ".props") for s in ("a", "", ".", "..", "a.ftl", ".a", "é b") for d in ("", "d/", "d.ftl/", "./", "../d.po/", "/d/")] + [None]


def judge_name(c) -> str:
    name, content = c
    ext = by_name(name)
    fmt = EXTS.get(ext)
    nontext = isinstance(content, int)
    src = list(NONTEXT)[content] if nontext else content
    want = fmt or {**CONTENTS, **NONTEXT}[src]
    if ext == ".xml" and not fmt and want not in ("android", "xliff"):
        want = None
    got = detect_format(name, src)
    same("format", got and got.name, want)
    if not nontext:
        got = detect_format(name, src.encode())
        same("format by bytes", got and got.name, want)
    got = detect_format(name)
    same("format by name", got and got.name, fmt)
    T.trace(3)
    return str(want)


# --- JSON

def judge_json(c) -> str:
    name, doc, where = c
    src = json.dumps(doc, indent=1, ensure_ascii=False)
    commented = where is not None
    if where == "start":
        src = "// {\n" + src
    elif where == "end":
        src += '//"'
    elif where == "bom":
        src, commented = "\ufeff" + src, False
    elif where:
        src = src.replace("{", '{ // "c\n', 1).replace(",", ",//}", 1)
        commented = "//" in src
    want = by_json(doc, commented)
    got, fmt = ways(name, src)
    same("format", fmt and fmt.name, want)
    if fmt is None:
        same("resource", got, "unsupported")
    elif want == "webext" and any(undefined(v) for v in doc.values()):
        same("resource", got, "error")
    else:
        res = parse_resource(name, src)
        if want == "webext":
            ids = [((), (k,)) for k in doc]
            same("ids", [e[:2] for e in entries(res)], ids)
            same("comments", [e.comment for e in res.sections[0].entries], [v.get("description", "") for v in doc.values()])
        else:
            same("entries", [(s + i, json.dumps(v, ensure_ascii=False)) for s, i, v in entries(res)], [(k, json.dumps(dump(merged(PatternMessage([v] if v else []))), ensure_ascii=False)) for k, v in leaves(doc)])
        same("format of resource", res.format.name, want)
    return kind(got, fmt)


BASE = ["{", '"a"', ":", "{", '"message"', ":", '"x//y"', ",", '"description"', ":", r'"\"//\\"', "}", ",", '"//"', ":", "{", '"message"', ":", '"\\\\"', "}", "}"]
GAPS = ["\n", "//c\n", '//"q\n', "// {\\\n", " // //,\r\n", "/", "/**/", "//"]


def judge_gaps(c) -> str:
    out, ok, commented, lost = "", True, False, False
    for i, tok in enumerate([*BASE, ""]):
        gap = GAPS[g] if (g := dict(c).get(i)) is not None else ""
        if lost:
            pass
        elif gap == "//":
            commented = True
            lost = "\n" not in "".join(GAPS[g] for j, g in c if j > i)
        elif gap:
            commented |= "//" in gap
            ok &= gap not in ("/", "/**/")
        out += gap + tok
    # An own reading: comments run from // outside of strings to the end of the line
    clean = "".join(m[1] or ("\n" if m[2] else m[3]) for m in re.finditer(r'("(?:[^"\\\n]|\\.)*")|(//[^\n]*\n?)|([\s\S])', out))
    try:
        doc = json.loads(clean)
    except ValueError:
        doc = None
    try:
        json.loads(out)
        commented = False
    except ValueError:
        commented = True
    want = by_json(doc, commented)
    got, fmt = ways("a.json", out)
    same("format", fmt and fmt.name, want)
    if want:
        same("entries", entries(parse_resource(None, out)), [((), (k,), dump(PatternMessage([v["message"]]))) for k, v in doc.items()])
    return kind(got, fmt)


def judge_tokens(src: str) -> str:
    got, fmt = ways(None, src)
    try:
        doc, ok, commented = json.loads(src), True, False
    except ValueError:
        clean = "".join(m[1] or ("\n" if m[2] else m[3]) for m in re.finditer(r'("(?:[^"\\\n]|\\.)*")|(//[^\n]*\n?)|([\s\S])', src))
        try:
            doc, ok, commented = json.loads(clean), True, True
        except ValueError:
            doc, ok, commented = None, False, False
    if ok:
        same("format", fmt and fmt.name, by_json(doc, commented))
    else:
        m = re.match(r"\s*<(/?\w+)", src)
        same("format", fmt and fmt.name, "android" if m and m[1] == "resources" else None)
    return kind(got, fmt)


# --- XML

X = "urn:oasis:names:tc:xliff:document:1."
PROLOGS = {"": 1, "\n ": 1, "\ufeff": 1, "<?xml version='1.0'?>": 1, '<?xml version="1.0" encoding="utf-8" standalone="yes"?>\n': 1, '<?xml version="1.0" encoding="iso-8859-1"?>': 1, "<!-- {} -->": 1, "<?pi x?>\n": 1,
           '<!DOCTYPE resources [<!ENTITY e "E">]>': 1, "\n<?xml version='1.0'?>": 0, "x": 0, "<!-- ": 0, '{"a": "A"}': 0, "//c\n": 0, '<?xml version="1.0" encoding="utf-16"?>': None}
ROOTS = {
    "resources": "android", "resources xmlns:x='y'": "android", "resources a='b'": "android", f"resources xmlns:xliff='{X}2'": "android", "resources xmlns='x'": None, "Resources": None, "x": None, "x:resources xmlns:x='y'": None, "my-resources": None, "resources-2": None, "string": None,
    f"xliff version='1.0' xmlns='{X}0'": "xliff", f"xliff version='1.1' xmlns='{X}1'": "xliff", f"xliff version='1.2' xmlns='{X}2'": "xliff", "xliff version='2.0' xmlns='urn:oasis:names:tc:xliff:document:2.0'": None, "xliff version='1.2'": None,
    f"xliff xmlns:x='{X}2'": None, "html xmlns='http://www.w3.org/1999/xhtml'": None, "resources xmlns=''": "android",
}
BODIES = {"": 1, "\n": 1, "é": "android", "<string name='a'>é</string>": "android", "<file original='f' source-language='en' datatype='x'><body><trans-unit id='a'><source>é</source></trans-unit></body></file>": "xliff", "<": 0, "</": 0, "<x>": 0, "<!-- é -->": 1, "]]>": 0}


def judge_xml(c) -> str:
    ext, prolog, root, body = c
    src = f"{prolog}<{root}>{body}</{root.split()[0]}>"
    name = "a" + ext if ext else None
    data = src.encode("iso-8859-1") if "iso-" in prolog else src.encode("utf-16") if "utf-16" in prolog else None
    got, fmt = ways(name, src, data)
    known = EXTS.get(ext)
    want = known or (ROOTS[root] if PROLOGS[prolog] != 0 else None)
    same("format", fmt and fmt.name, want)
    if want:
        good = PROLOGS[prolog] != 0 and BODIES[body] in (1, ROOTS[root]) and ROOTS[root] == want
        if want == "xliff" and root == "xliff version='1.2'":
            good = PROLOGS[prolog] != 0 and BODIES[body] in (1, "xliff")
        if good:
            need(not isinstance(got, str), "parsing gives", got)
            res = parse_resource(name, src)
            same("format of resource", res.format.name, want)
            if "ENTITY" in prolog and want == "android":
                same("entity", entries(res)[0], (("!ENTITY",), ("e",), dump(PatternMessage(["E"]))))
                del res.sections[0]
            text = {"": [], "\n": [], "<!-- é -->": [], "é": []}.get(body)
            if text is None:
                need(len(entries(res)) == 1 and "é" in repr(dump(res)) and "Ã" not in repr(dump(res)), "entries", dump(res))
            else:
                same("entries", entries(res), [])
        else:
            same("resource", got, "error")
    return kind(got, fmt)


def judge_raw(c) -> str:
    name, src = c
    got, fmt = ways(name, src)
    return kind(got, fmt)


OPTIONS = [{}, {"android_ascii_spaces": True}, {"android_literal_quotes": True}, {"gettext_plurals": ["one", "other"]}, {"gettext_plurals": ("one", "few", "other")}, {"gettext_skip_obsolete": True}, {"properties_printf_placeholders": True}, {"xliff_source_entries": True}]
OPTION_SRC = {
    "a.xml": """<resources><string name="a">"x"  'y'\u2003 z</string></resources>""",
    "a.po": 'msgid ""\nmsgstr ""\n\nmsgid "a"\nmsgid_plural "b"\nmsgstr[0] "A"\nmsgstr[1] "B"\n\n#~ msgid "o"\n#~ msgstr "O"\n',
    "a.properties": "a = %s %1$d {0}\n",
    "a.xliff": RAW["a.xliff"][0] + RAW["a.xliff"][1][0] + RAW["a.xliff"][1][1] + RAW["a.xliff"][2],
    "a.ftl": "a = A %s\n", "a.ini": "[S]\na=%s\n", "a.inc": "#define a %s\n", "a.dtd": '<!ENTITY a "%s">', "a.json": '{"a": "%s"}', "w.json": '{"a": {"message": "%s"}}',
}


def judge_options(c) -> str:
    """Options affect their own format only, and are passed on however the file is given"""
    name, i, j = c
    opts = {**OPTIONS[i], **OPTIONS[j]}
    src = OPTION_SRC[name]
    fmt = detect_format(name, src)
    own = {k: v for k, v in opts.items() if k.split("_")[0] == fmt.name}
    path = f"{SCRATCH}/{os.getpid()}-{name}"
    want = attempt(fmt, src, **own)
    need(not isinstance(want, str), want)
    with open(path, "w") as f:
        f.write(src)
    for what in ((name, src), (name, src.encode()), (fmt, src), (fmt, src.encode()), (path,), *([(None, src)] if "json" in name or "xml" in name or "xlf" in name else [])):
        same(f"from {what}", attempt(*what, **opts), want)
    os.remove(path)
    import importlib

    parser = getattr(importlib.import_module(f"moz.l10n.formats.{fmt.name}.parse"), f"{fmt.name}_parse")
    same("by its parser", dump(parser(src, **{k.split("_", 1)[1]: v for k, v in own.items()})), want)
    plain_ = attempt(fmt, src)
    if own and not ("gettext_plurals" in own and fmt != Format.gettext):
        need(want != plain_, "option", own, "has no effect")
    T.trace(7)
    return f"{fmt.name} {sorted(own)}"


def run(ctx: Ctx) -> None:
    global SCRATCH
    SCRATCH = ctx.scratch()
    ctx.space("names", lambda: ([n, x] for n in NAMES for x in [*CONTENTS, *range(len(NONTEXT))]), judge_name, note="names of every form with contents of every form")

    msgs = [None, "m", "", "$X$", "$$X$ $1", 1, {}, {"message": "m"}, ["m"], {"content": "c"}, None]
    descs = [0, "d", "", 1, {}, {"a": "b"}, None]
    phs = [0, {}, "s", [], {"X": "s"}, {"X": {}}, {"X": {"content": "$1"}}, {"x": {"content": "c", "example": "e"}}, {"X": {"content": 1}}, {"x": {"content": {}}}, {"y": {"content": "$2"}}, {"x": {"content": "c", "z": "s"}}, {"X": {"content": "c"}, "y": None}, None]
    extra: list = [{}, {"o": "s"}, {"o": {}}, {"Message": "m"}]

    def message(m, d, p, x) -> dict:
        return {**({} if m is None else {"message": m}), **({} if d == 0 and d is not False else {"description": d}), **({} if p == 0 else {"placeholders": p}), **x}

    def docs():
        one = [message(*x) for x in itertools.product(msgs[:-1], descs, phs, extra)]
        small = [message(*x) for x in itertools.product([None, "m", "$X$", {}], [0, "d", {}], [0, {"x": {"content": "c"}}, {"x": "s"}], extra[:2])]
        for where in (None, "start", "end", "within", "bom"):
            for x in one:
                if not where or ctx.pick(0, 1) or len(str(x)) % 3 == 0:
                    yield {"a": x}, where
            for x in ["s", {}, [], 1, None, True, "", {"a": {}}, {"a": {"b": {"c": "d"}}}, {"a": {"b": {"c": 1}}}, {"": ""}, {"": {"": "e"}}]:
                yield x, where
                yield {"a": x}, where
                for y in small:
                    yield {"a": x, "b": y}, where
                    yield {"b": y, "a": x}, where
            for x, y in itertools.product(small, repeat=2) if not where or not ctx.quick else ():
                yield {"x.y": x, "z": y}, where
                yield {"n": {"x": x, "z": y}}, where

    ctx.space("json", lambda: ([n, d, w] for d, w in docs() for n in (("a.json", None) if not w else ("a",))), judge_json, note="JSON documents by structure, with and without comments")
    n = len(BASE) + 1

    def gaps():
        yield []
        for k in range(1, ctx.pick(3, 4)):
            for at in itertools.combinations(range(n), k):
                for g in itertools.product(range(len(GAPS)), repeat=k):
                    if k < 2 or k == 2 and (not ctx.quick or (sum(at) + sum(g)) % 2) or k == 3 and (sum(at) + sum(g)) % 3 == 0:
                        yield list(zip(at, g))

    ctx.space("comments", gaps, judge_gaps, note="comments and the like between the tokens of a document")
    toks = ["{", "}", '"a"', ":", ",", '"b//"', "//c\n", "[", "1", "null", "<resources>", "</resources>", " ", '"']
    ctx.space("tokens", lambda: texts(toks, ctx.pick(4, 5)), judge_tokens, note="every sequence of JSON and XML tokens")
    ctx.space("xml", lambda: itertools.product(("", ".xml", ".json", ".txt", ".xliff", ".xlf"), PROLOGS, ROOTS, BODIES), judge_xml, note="prologs, roots and contents of XML documents")

    def raw():
        for name, (head, toks, tail) in RAW.items():
            toks = [*toks, "\ufeff", "\0"]
            for src in texts(toks, ctx.pick(3, 4)):
                if ctx.quick and len(src) % 3 == 0 and src not in toks:
                    continue
                yield [name, head + src + tail]
            if head:
                for src in texts(toks, 2):
                    yield [name, src]
        for name in KINDS:
            for v in BROKEN.get(name, []):
                if isinstance(v, str):
                    yield [name, v]
            yield [name, make(name, [("a", "A"), ("b", "é\U0001f600")])]

    ctx.space("given", raw, judge_raw, note="every sequence of fragments of each format, as str, bytes and files")
    ctx.space("options", lambda: itertools.product(OPTION_SRC, range(len(OPTIONS)), range(len(OPTIONS))), judge_options, note="parser options for every format")
