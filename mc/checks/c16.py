"""
C16: serializing with comments trimmed leaves out every comment, and nothing else.

Sources: for every format, every sequence of snippets up to a depth, among them comments in each position and syntax that the format
has, each comment holding a marker word.  The trimmed text must not hold the marker, and must be read back as the same
sections, entries and values in the same order, without comments.  Resources: every combination of comment texts, some of them made
to break out of a comment, on the resource, sections and entries and between them.
What is written in comment syntax counts as a comment: gettext references, flags and obsolete entries, webext examples,
XLIFF notes.  What a format keeps as metadata does not: XML comments within an XLIFF unit or header.  Directives of .inc files (#filter) are not comments.
"""

from __future__ import annotations

import itertools
import json
import logging

from core import Bad, Ctx, T, need, same, texts, words
from util import *

logging.getLogger("moz.l10n").setLevel(logging.CRITICAL)
W = "ZQX"  # the marker
AX = 'xmlns:xliff="urn:oasis:names:tc:xliff:document:1.2" xmlns:tools="http://schemas.android.com/tools"'
XX = 'xmlns="urn:oasis:names:tc:xliff:document:1.2"'


def plain(msg):
    """A message without examples."""
    if isinstance(msg, str):
        msg = PM([msg])
    d = dump(msg)
    if isinstance(msg, PM):
        return (*d[:1], tuple((k, (*e[:4], tuple(a for a in e[4] if a[0] != "example"))) for k, e in d[1]), d[2])
    return d


def metas(f: Format, meta) -> list:
    if f in (Format.gettext, Format.fluent):
        meta = [m for m in meta if m.key == "plural"]
    if f == Format.xliff:
        meta = [m for m in meta if not {k.split("[")[0] for k in m.key.split("/")} & {"note"}]
    return dump(meta)


def contents(res: Resource) -> list:
    f = res.format
    out: list = []
    if f == Format.gettext:
        out.append(("meta", dump(res.meta)))
    for s in res.sections:
        entries = [e for e in s.entries if isinstance(e, E) and not (f == Format.gettext and e.get_meta("obsolete") == "true")]
        if s.id and f != Format.xliff or s.id and entries:
            out.append(("section", tuple(s.id), metas(f, s.meta)))
        for e in entries:
            out.append(("entry", tuple(e.id), plain(e.value), tuple((k, plain(v)) for k, v in e.properties.items()), metas(f, e.meta)))
    return out


def comments(res: Resource) -> list:
    out = [res.comment]
    for s in res.sections:
        out.append(s.comment)
        out += [e.comment for e in s.entries]
    return [c for c in out if c.strip()]


def check(res: Resource, exp: list | None = None) -> str:
    f = res.format
    before = dump(res)
    exp = contents(res)
    src = "".join(serialize_resource(res, trim_comments=True))
    same("resource after serializing", dump(res), before)
    need(W not in src, "a comment is left in", src)
    got = parse_resource(f, src) if src.strip() or f not in (Format.android, Format.xliff, Format.webext, Format.plain_json) else Resource(f, [])
    T.trace(2)
    left = comments(got)
    if f == Format.inc:
        left = [c for c in left if not all(line.startswith("#") for line in c.split("\n") if line)]
    same("comments left", left, [])
    same("contents", contents(got), exp, "from", src)
    if f != Format.inc:  # where empty lines are left
        same("trimmed again", "".join(serialize_resource(got, trim_comments=True)), src)
    return f"{len(exp)} left"


def judge_source(c) -> str:
    name, tokens = c
    f, pre, snippets, post = SOURCES[name]
    src = pre + "".join(snippets[t].replace("%", str(i)) for i, t in enumerate(tokens)) + post
    try:
        res = parse_resource(f, src)
    except Exception as err:
        if T is None or not isinstance(err, Exception):
            raise
        return "rejected"
    # only what can be serialized with its comments
    try:
        "".join(serialize_resource(res))
    except ValueError:
        return "not supported"
    return check(res)


def unit(id: str, src: str, body: str = "") -> str:
    return f'<trans-unit id="{id}"><source>{src}</source>{body}</trans-unit>\n'


SOURCES = {
    "properties": (Format.properties, "", {"c": "# ZQX %\n", "C": "! ZQX\n#\n#ZQX\n", "e": "k% = v\n", "m": "m%:a\\\n  b\n", "n": "\n"}, ""),
    "dtd": (Format.dtd, "", {"c": "<!-- ZQX % -->\n", "C": "<!--ZQX\n\n ZQX-->", "e": '<!ENTITY k% "v">\n', "E": "<!ENTITY m% 'v'>", "n": "\n"}, ""),
    "ini": (Format.ini, "[S]\n", {"c": "# ZQX %\n", "C": "; ZQX\n#\n", "e": "k% = v\n", "m": "m%=a\n  b\n", "s": "[T%]\n", "n": "\n"}, ""),
    "inc": (Format.inc, "", {"c": "# ZQX %\n", "C": "# ZQX\n#\n", "e": "#define k% v\n", "m": "#define m%\n", "d": "#filter x\n", "n": "\n"}, ""),
    "fluent": (Format.fluent, "", {"c": "# ZQX %\n", "g": "## ZQX %\n", "r": "### ZQX\n", "e": "k% = v\n    .a = b\n", "t": "-t% =\n    a\n    b\n", "n": "\n", "0": "##\n"}, ""),
    "gettext": (Format.gettext, 'msgid ""\nmsgstr ""\n"Plural-Forms: nplurals=2; plural=0;\\n"\n\n',
                {"c": "#. ZQX %\n", "t": "# ZQX\n", "r": "#: ZQX:1\n", "f": "#, ZQX\n", "e": 'msgid "k%"\nmsgstr "v"\n\n',
                 "p": 'msgctxt "c"\nmsgid "k%"\nmsgid_plural "ks"\nmsgstr[0] "v"\nmsgstr[1] "w"\n\n', "o": '#~ msgid "ZQX%"\n#~ msgstr "v"\n\n'}, ""),
    "gettext head": (Format.gettext, "", {"c": "# ZQX %\n", "h": 'msgid ""\nmsgstr ""\n"A: b\\n"\n\n', "e": 'msgid "k%"\nmsgstr "v"\n\n', "f": "#, fuzzy\n"}, ""),
    "android": (Format.android, f"<resources {AX}>",
                {"c": "<!-- ZQX % -->\n", "e": '<string name="k%" translatable="false">v<b>x</b></string>\n', "n": "\n\n",
                 "p": '<plurals name="p%"><!-- ZQX --><item quantity="one">a</item><!-- ZQX -->\n<item quantity="other">b</item></plurals>',
                 "a": '<string-array name="a%"><item>a</item><!--ZQX--><item>b</item><!-- ZQX --></string-array>'}, "</resources>"),
    "android head": (Format.android, "", {"c": "<!-- ZQX % -->\n", "d": '<!DOCTYPE resources [<!-- ZQX --><!ENTITY foo "Foo"><!-- ZQX -->]>\n',
                                          "r": '<resources><!-- ZQX -->\n\n<!-- ZQX -->\n<string name="k">v</string><!--ZQX--></resources>\n', "n": "\n"}, ""),
    "xliff": (Format.xliff, f'<xliff version="1.2" {XX}><file original="f" source-language="en" datatype="x"><body>',
              {"c": "<!-- ZQX % -->\n", "e": unit("k%", "v"), "u": unit("u%", "v", "<target>w</target><note>ZQX</note>"),
              "T": unit("t%", "v", "<!-- in --><target>w</target>"),
              "U": unit("u%", "v", '<note from="a">ZQX</note><note>ZQX</note><!-- in -->'), "g": '<group id="g%"><note>ZQX</note><!-- ZQX -->', "G": "</group>"},
              "</body></file></xliff>"),
    "xliff head": (Format.xliff, f'<xliff version="1.2" {XX}>', {
        "c": "<!-- ZQX % -->\n", "f": '<file original="f%" source-language="en" datatype="x"><header><!-- in --><note>ZQX</note>ab<!-- in --><tool tool-id="t"><!-- in --></tool></header><body>' + unit("k", "v") + "</body></file>",
        "F": '<file original="f%" source-language="en" datatype="x"><!-- ZQX --><body><!-- ZQX -->' + unit("k", "v", "<note>ZQX</note>") + "</body><!-- ZQX --></file>"}, "</xliff>"),
    "xcode": (Format.xliff, f'<xliff version="1.2" {XX}><file original="f.xcstrings" source-language="en" datatype="plaintext"><header/><body>',
              {"e": unit("k%", "v", "<note>ZQX</note>"), "p": unit("p%|==|plural.one", "a", "<target>b</target><note>ZQX</note>") + unit("p%|==|plural.other", "%d", "<note>ZQX</note>"),
               "d": unit("d%|==|device.mac", "a", "<note/>") + unit("d%|==|device.other", "b", "<note>ZQX</note>")}, "</body></file></xliff>"),
    "stringsdict": (Format.xliff, f'<xliff version="1.2" {XX}><file original="f.stringsdict" source-language="en" datatype="plaintext"><body>',
                    {"p": unit("/m%:dict/NSStringLocalizedFormatKey:dict/:string", "%#@v@", "<note>ZQX</note>") + unit("/m%:dict/v:dict/one:dict/:string", "a", "<note>ZQX</note>")
                     + unit("/m%:dict/v:dict/other:dict/:string", "b", "<note>ZQX</note>"),
                     "q": unit("/n%:dict/NSStringLocalizedFormatKey:dict/:string", "%#@v@") + unit("/n%:dict/v:dict/other:dict/:string", "%d b", "<note>ZQX</note>")},
                    "</body></file></xliff>"),
}


def judge_webext(c) -> str:
    doc = {}
    for i, (desc, kind) in enumerate(c):
        msg = {"message": "v"}
        if desc:
            msg["description"] = desc
        if kind:
            msg["message"] = "a $x$ $1 $y$"
            msg["placeholders"] = {"x": {"content": "$1"}, "y": {"content": "c", "example": W}}
            if kind == 2:
                msg["placeholders"]["x"]["example"] = W
        doc[f"k{i}"] = msg
    return check(parse_resource(Format.webext, json.dumps(doc)))


TEXTS = [W, f"{W} a\n{W}", f"{W}\n\n b {W}", f"[{W}]", f"k = {W}", f"--> {W} <!--", f"\\ {W}", f'"{W}', f"\n{W}\n", f"{W}\r\n{W}", f"; {W}", f"-- {W} -", f"{W}: {{", " "]


def entry(f: Format, kind: int, n: int):
    v = PM(["v"])
    if kind == 3:
        return E((f"k{n}",), "v")
    if f == Format.fluent and kind:
        return E((f"-t{n}",), PM(["v"]), properties={"a": PM(["b"])})
    if f == Format.android and kind:
        return E((f"p{n}",), SM({"quantity": Ex(V("quantity"), "number")}, (V("quantity"),), {("one",): ["a"], (CK("other"),): ["b"]})) if kind == 1 else E((f"a{n}", "0"), v)
    if f == Format.gettext and kind:
        return E((f"k{n}", "ctx"), v, meta=[Md("translator-comments", W), Md("reference", W)])
    if f in (Format.plain_json,) and kind:
        return E(("a", f"k{n}"), v)
    return E((f"k{n}",), PM(["v"]) if not kind else PM(["v\nw"]) if f in (Format.properties, Format.dtd, Format.ini) else v)


FORMATS = {f.name: f for f in (Format.properties, Format.dtd, Format.ini, Format.inc, Format.fluent, Format.gettext, Format.android, Format.xliff, Format.plain_json, Format.webext)}


def judge_resource(c) -> str:
    """Comments of every text at every place of a resource."""
    name, rc, sc, items = c
    f = FORMATS[name]
    entries: list = []
    for i, (kind, com) in enumerate(items):
        if kind is None:
            entries.append(C(com))
        else:
            e = entry(f, kind, i)
            e.comment = com
            entries.append(e)
    sid = ("S",) if f in (Format.ini,) else ("f",) if f == Format.xliff else ()
    res = Resource(f, [S(sid, entries, comment=sc)], comment=rc)
    if f == Format.xliff:
        for e in entries:
            if isinstance(e, C):
                continue
            e.meta = [Md("source", "v")]
        res.meta = [Md("@version", "1.2")]
    if f == Format.fluent or f == Format.ini:
        res.sections.append(S(("T",) if sid else (), [entry(f, 0, 99)], comment=sc))
    return check(res)


def resources(ctx: Ctx, name: str):
    f = FORMATS[name]
    alone = f not in (Format.gettext,)
    kinds = (0, 1, 2, 3) if f == Format.android else (0, 1) if f == Format.xliff else (0, 1, 3)
    slots = [(k, c) for k in kinds for c in ("", *TEXTS)] + ([(None, c) for c in TEXTS] if alone else [])
    if f == Format.inc:
        slots = [(k, c) for k, c in slots if not any(line.startswith("#") for line in c.split("\n"))]
    for a in slots:
        yield [name, "", "", [a, (0, "")]]
        yield [name, W, "" if f == Format.gettext else W, [(0, W), a]]
        for b in slots if not ctx.quick else slots[::1]:
            yield [name, "", "", [a, b]]
    for rc, sc in itertools.product(["", *TEXTS], repeat=2):
        if sc and f == Format.gettext:  # not supported
            continue
        for items in ([], [(0, "")], [(0, W)], [(None, W)] if alone else [(1, W)]):
            yield [name, rc, sc, items]


def run(ctx: Ctx) -> None:
    for name, (_, _, snippets, _) in SOURCES.items():
        depth = ctx.pick(4, 5) + (len(snippets) < 5)
        ctx.space(name, lambda: ([name, "".join(w)] for w in words(snippets, depth)), judge_source, note=f"sequences of up to {depth} of {len(snippets)} snippets")
    ctx.space("webext", lambda: ([list(x) for x in w] for w in words([(d, k) for d in ("", W, f"{W}\n{W}") for k in (0, 1, 2)], ctx.pick(3, 4))), judge_webext)
    for name in FORMATS:
        ctx.space(f"{name} resources", lambda: resources(ctx, name), judge_resource, note="comment texts in each place, singly and in pairs")
    ctx.assume("PO references, flags and obsolete entries, webext examples and XLIFF notes are comments; directives in .inc files and XML comments within XLIFF units and headers (kept as metadata, as test_trim_comments asserts) are not")
