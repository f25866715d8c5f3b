"""A reading of Android string resources, which is independent of moz.l10n but for its documented whitespace rules."""

from __future__ import annotations

import re

from lxml import etree

from core import need
from util import *

XLIFF_G = "{urn:oasis:names:tc:xliff:document:1.2}g"
BLOCK = re.compile(r" (?=<(?:div|h[123456r]|p|d[dt]|li|/?[dou]l)\b[^%>]*>)")
BREAK = re.compile(r"(<[bh]r/?>) ")


def unescape(raw: str, quoted: list | None, ascii_spaces=False, literal_quotes=False) -> str:
    """
    Quotes, whitespace and escapes of one run of text.
    quoted[0] is the state of the quotes, or it is None where whitespace and quotes are kept.
    """

    def is_space(c: str) -> bool:
        return c in " \t\n\r\x0b\x0c" if ascii_spaces else c.isspace()

    out = []
    i = 0
    collapsed = False
    html = re.search("<.+>", raw) is not None
    while i < len(raw):
        c = raw[i]
        i += 1
        if is_space(c) and quoted is not None and not quoted[0]:
            if not collapsed:
                out.append(" ")
            collapsed = True
            continue
        collapsed = False
        if c == '"' and quoted is not None and not literal_quotes and not html:
            quoted[0] = not quoted[0]
        elif c == "\\" and i < len(raw):
            n = raw[i]
            if n == "u" and re.match("[0-9a-fA-F]{4}", raw[i + 1 : i + 5]):
                out.append(chr(int(raw[i + 1 : i + 5], 16)))
                i += 5
            elif is_space(n) and quoted is not None and not quoted[0]:
                out.append(" ")
                i += 1
                while i < len(raw) and is_space(raw[i]):
                    i += 1
            elif n == "\n":
                out.append("\\")
            else:
                out.append({"n": "\n", "t": "\t"}.get(n, n))
                i += 1
        else:
            out.append(c)
    return "".join(out)


def pieces(el) -> list:
    """Raw text, entities, and starts and ends of elements."""
    out: list = []

    def text(s):
        if s:
            if out and isinstance(out[-1], str):
                out[-1] += s
            else:
                out.append(s)

    text(el.text)
    for child in el:
        if isinstance(child, etree._Entity):
            out.append(("entity", child.name))
        elif isinstance(child, (etree._Comment, etree._ProcessingInstruction)):
            pass
        else:
            name = "xliff:g" if child.tag == XLIFF_G else str(child.tag)
            out.append(("open", name, tuple(child.attrib.items())))
            out.extend(pieces(child))
            out.append(("close", name))
        text(child.tail)
    return out


def merge(xs: list) -> list:
    """Joined text; each part of a protected span has its own xliff:g; whitespace around HTML as for parsing."""
    res: list = []
    for x in xs:
        if isinstance(x, str):
            if not x:
                continue
            if res and isinstance(res[-1], str):
                res[-1] += x
                continue
        elif x[0] == "open" and x[1] == "xliff:g" and len(res) and res[-1] == ("close", "xliff:g") and x == last_open(res):
            res.pop()
            continue
        res.append(x)
    res2: list = []
    for x in res:
        if isinstance(x, str) and res2 and isinstance(res2[-1], str):
            res2[-1] += x
        else:
            res2.append(x)
    return [BREAK.sub("\\1\n", BLOCK.sub("\n", x)) if isinstance(x, str) else x for x in res2]


def last_open(res: list):
    depth = 0
    for x in reversed(res):
        if not isinstance(x, str):
            if x[0] == "close":
                depth += 1
            elif x[0] == "open":
                depth -= 1
                if depth == 0:
                    return x
    return None


REF = re.compile(r"@(?:\w+:)?\w+/\w+|\?(?:\w+:)?(\w+/)?\w+")


def read(el, **kw) -> list:
    ps = pieces(el)
    if len(el) == 0 and el.text and REF.fullmatch(el.text):
        return [("reference", el.text)]
    if ps and isinstance(ps[0], str):
        ps[0] = ps[0].lstrip()
    if ps and isinstance(ps[-1], str):
        ps[-1] = ps[-1].rstrip()
    quoted = [False]
    out: list = []
    for p in ps:
        if isinstance(p, str):
            out.append(unescape(p, quoted, **kw))
        else:
            if p[0] != "entity":
                quoted[0] = False
            out.append(p)
    return merge(out)


FORMAT = re.compile(r"%(?:([1-9])\$|(<))?([-#+ 0,(]?[0-9.]*([tT]?[^\\\s]))")


def relative(xs: list) -> list:
    """Relative argument indices made explicit."""
    prev = None

    def index(m):
        nonlocal prev
        if m[2]:
            need(prev is not None, "relative index", xs)
            return f"%{prev}{m[3]}"
        if m[4] not in ("%", "n"):
            prev = f"{m[1]}$" if m[1] else ""
        return m[0]

    return [FORMAT.sub(index, x) if isinstance(x, str) else x for x in xs]


def canon(msg, **kw) -> list:
    """The same, for a message."""
    out: list = []
    pattern = [msg] if isinstance(msg, str) else msg.pattern if isinstance(msg, PM) else msg
    if len(pattern) == 1 and isinstance(pattern[0], Ex) and pattern[0].function == "reference":
        return [("reference", pattern[0].arg)]
    for p in pattern:
        if isinstance(p, str):
            out.append(p)
        elif isinstance(p, M):
            opts = tuple(p.options.items())
            if p.kind in ("open", "standalone"):
                out.append(("open", p.name, opts))
            if p.kind in ("close", "standalone"):
                out.append(("close", p.name))
        else:
            g = p.attributes.get("translate") == "no"
            if g:
                out.append(("open", "xliff:g", tuple(p.options.items())))
            if p.function == "entity":
                out.append(("entity", p.arg.name))
            elif "source" in p.attributes:
                out.append(unescape(p.attributes["source"], [False] if g else None, **kw))
            else:
                out.append(p.arg.name if isinstance(p.arg, V) else p.arg)
            if g:
                out.append(("close", "xliff:g"))
    return merge(out)
