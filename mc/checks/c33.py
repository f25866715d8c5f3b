"""
C33: source line positions point at the entries they belong to.

Files are built of all sequences of blocks (entries of one and more lines, with and without values and attributes, comments of every level, blank lines), with every
kind of line ending, with and without one at the end.  An oracle that reads lines on its own gives where each entry, comment and section starts, has its key and
value, and ends; positions of all formats are compared, as parsed from str and bytes, and for single entries.
Assumed: comments without text need not be a part of what they precede; a value that starts with an escaped newline may be said to start before or after it.
"""

from __future__ import annotations

import itertools
import logging
import re

from checks.c29 import RAW
from core import Ctx, T, need, same, texts, words
from moz.l10n.formats.fluent import fluent_parse, fluent_parse_entry
from moz.l10n.formats.properties import properties_parse
from util import *

logging.getLogger("moz.l10n.formats.android.parse").setLevel(logging.CRITICAL)


def positions(res) -> list:
    """The name and position of everything in order"""
    out = []
    for s in res.sections:
        if s.linepos:
            out.append(("##", s.comment, pos(s)))
        for e in s.entries:
            out.append(("#", e.comment, pos(e)) if not hasattr(e, "id") else (".".join(e.id), e.comment, pos(e)))
    return out


def pos(x):
    p = x.linepos
    return p and (p.start, p.key, p.value, p.end)


def fluent_lines(src: str) -> list:
    """Entries, comments and sections with (start, key, value, end)"""
    lines = re.split(r"\r?\n", src)
    if not lines[-1]:
        lines.pop()
    out: list = []
    com: list | None = None  # level, text, start
    first = True

    def flush(n: int) -> None:
        nonlocal com, first
        if com:
            level, text, start = com
            text = text if text.strip() else ""  # as left out
            if level == 1 and not first and text:
                out.append(("#", text, (start, start, start, n)))
            elif level == 2:
                out.append(("##", text, (start, start, start, n)))
            if level == 1 and first and not text:
                out.append(("?", text, start))
            first = False
            com = None

    i = 0
    while i < len(lines):
        n = i + 1
        line = lines[i]
        m = re.match(r"(#{1,3})(?: (.*))?$", line)
        if m:
            if com and com[0] == len(m[1]):
                com[1] += "\n" + (m[2] or "")
            else:
                flush(n)
                com = [len(m[1]), m[2] or "", n]
            i += 1
        elif m := re.match(r"(-?[a-z]\w*) *= *(.*)$", line):
            start, text = n, ""
            if com and com[0] == 1:
                start, text = com[2], com[1]
                if not text.strip():
                    start, text = (n, start), ""
                com = None
            flush(n)
            value = n if m[2] else None
            end, attr = n, False
            i += 1
            while i < len(lines) and (lines[i][:1] in (" ", "}") or not lines[i]):
                if lines[i].strip(" "):
                    attr = attr or lines[i].lstrip(" ")[0] == "."
                    if value is None and not attr:
                        value = i + 1
                    end = i + 1
                i += 1
            out.append((m[1], text, (start, n, value or n, end + 1)))
            first = False
            # Blank lines may precede a comment
            i = end
        else:
            flush(n)
            i += 1
    flush(len(lines) + 1)
    return out


def matches(got: list, want: list, src: str) -> None:
    same("names", [g[:2] for g in got], [w[:2] for w in want], "in", src)
    for g, w in zip(got, want):
        for name, a, b in zip(("start", "key", "value", "end"), g[2] or (None,) * 4, w[2]):
            need(a == b or isinstance(b, tuple) and a in b, f"{name} of {g[0]} is", a, "expected", b, "in", src)


def judge_fluent(c) -> str:
    blocks, eol, end = c
    src = "".join(blocks)
    if not end:
        src = src.rstrip("\n")
    if re.search(r"^#+(\n?\Z|$)" if eol != "\n" else r"^#+\Z", src, re.M):
        # Accepted only in some positions by the parser of fluent.syntax
        return "skipped"
    src = src.replace("\n", eol)
    want = [w for w in fluent_lines(src) if w[0] != "?"]
    # The first section is there without a comment
    res = fluent_parse(src)
    got = positions(res)
    # Sections without text that start a file, or follow another such, are not told apart
    want = merge_sections(want)
    matches(got, want, src)
    if c[2]:
        same("from bytes", positions(fluent_parse(src.encode())), got)
    same("without positions", [x[2] for x in positions(fluent_parse(src, with_linepos=False))], [None] * len([x for x in got if x[0] != "##"]))
    T.trace(3)
    return f"{len(got)} positions"


def merge_sections(want: list) -> list:
    out: list = []
    empty = True  # whether the current section is without comment and entries
    for w in want:
        if w[0] == "##":
            if empty and out and out[-1][0] == "##":
                out.pop()
            empty = not w[1]
        else:
            empty = False
        out.append(w)
    return out


def judge_entry(c) -> str:
    src, before, end = c
    src = before + (src if end else src.rstrip("\n"))
    name, _, want = fluent_lines(src)[-1]
    # Preceding comments are ignored
    text, want = "", (want[1], *want[1:])
    e = fluent_parse_entry(src)
    T.trace(1)
    matches([(e.id[0], e.comment, pos(e))], [(name, text, want)], src)
    same("without positions", fluent_parse_entry(src, with_linepos=False).linepos, None)
    return "ok"


def properties_lines(src: str) -> list:
    lines = re.split("\r\n|\n|\r", src)
    if not lines[-1]:
        lines.pop()
    out: list = []
    com: list = []  # (line, text)
    seen = False  # whether the resource comment would be taken

    def text() -> str:
        s = ""
        for _, t in com:
            s = s + "\n" + t if s else t
        return s

    def start(n):
        if not text():
            return (n, *(k for k, _ in com))
        return tuple(k for i, (k, _) in enumerate(com) if not any(t for _, t in com[:i]))

    def flush(n: int) -> None:
        nonlocal seen
        if text():
            if seen:
                out.append(("#", text(), (start(n),) * 3 + (n,)))
            seen = True
        com.clear()

    i = 0
    while i < len(lines):
        n = i + 1
        line = lines[i].lstrip(" \t\f")
        i += 1
        if not line:
            flush(n)
        elif line[0] in "#!":
            s = line[1:]
            com.append((n, s.removeprefix(" ").rstrip()))
        else:
            while re.search(r"(?<!\\)(\\\\)*\\$", line) and i < len(lines):
                line = line[:-1] + "\n" + lines[i].lstrip(" \t\f")
                i += 1
            m = re.match(r"((?:\\.|[^\\ \t\f=:\n]|\n)*)[ \t\f]*[=:]?[ \t\f]*(\n*)", line, re.S)
            key = m[1].replace("\n", "")
            vline = n + m[1].count("\n")
            out.append((key, text(), (start(n), n, tuple(range(vline - m[1].count("\n"), vline + len(m[2]) + 1)), i + 1)))
            com.clear()
            seen = True
    flush(len(lines) + 1)
    return out


def judge_properties(c) -> str:
    blocks, eol, end = c
    src = "".join(blocks)
    if not end:
        src = src[:-1] if src.endswith("\n") else src
    if re.search(r"(?<!\\)(\\\\)*\\$", src):
        return "continued"
    src = src.replace("\n", eol)
    want = properties_lines(src)
    res = properties_parse(src)
    got = positions(res)
    matches(got, want, src)
    same("from bytes", positions(properties_parse(src.encode())), got)
    same("with placeholders", positions(properties_parse(src, printf_placeholders=True)), got)
    T.trace(3)
    return f"{len(got)} positions"


def judge_bounds(c) -> str:
    """In whatever format, positions follow one another and are within the file"""
    name, src = c
    try:
        res = parse_resource(name, src)
    except Exception:
        T.trace(1)
        return "rejected"
    lines = src.count("\n") + 2 if name != "a.properties" else len(re.split("\r\n|\n|\r", src)) + 1
    prev = 1
    n = 0
    for what, _, p in positions(res):
        if p is None:
            need(name not in ("a.ftl", "a.properties"), "no position of", what)
            continue
        n += 1
        start, key, value, end = p
        need(prev <= start <= key <= value < end <= lines, what, p, "after", prev, "in", src)
        prev = end
    T.trace(1)
    return f"{name} {n}"


FTL = [
    "a = A\n", "b =\n    B\n", "c = C\n    D\n\n    E\n", "d = { $n ->\n   *[o] x\n }\n", "e =\n    .x = X\n", "f = F\n    .x =\n        X\n    .y = Y\n      Z\n", "-t =\n\n    T\n", "g = {\n $x\n}\n",
    "# c\n", "## g\n", "### r\n", "#\n", "##\n", "\n", "  \n", "# \n",
]
PROPS = ["a=A\n", "b : B\\\n   C\n", "c\n", "d =\n", "e=\\\n\n", "f=\\\n  F\\\n\n", "g\\\n  h=H\n", "# c\n", "! d\n", "#\n", "\n", " \t\n", "  i = I\\\\\n", "j\\\n\\\n k=\n", "# c \\\n", "\x0c\n", "l = \\\n# L\n"]
ENTRY = [x for x in FTL if "=" in x]


def run(ctx: Ctx) -> None:
    q = ctx.pick

    def files(blocks, eols, deep):
        for n in range(deep + 1):
            for w in itertools.product(blocks, repeat=n):
                for eol in eols:
                    for end in (True, False):
                        if n < deep or not ctx.quick or eol == "\n" and (end or len("".join(w)) % 2):
                            yield [list(w), eol, end]

    ctx.space("fluent", lambda: files(FTL, ["\n", "\r\n"], q(4, 5)), judge_fluent, note="all sequences of Fluent blocks, with every line ending")
    ctx.space("properties", lambda: files(PROPS, ["\n", "\r\n", "\r"], q(4, 5)), judge_properties, note="all sequences of properties blocks, with every line ending")
    ctx.space("entries", lambda: ([e, "".join(b), end] for e in ENTRY for b in words(["# c\n", "#\n", "\n"], 3) for end in (True, False) if not "".join(b).endswith("\n\n") or "#" not in "".join(b)), judge_entry, note="single Fluent entries")
    ctx.space("bounds", lambda: ([name, head + s + tail] for name, (head, toks, tail) in RAW.items() for s in texts(toks, q(3, 4))), judge_bounds, note="every sequence of fragments of each format")
