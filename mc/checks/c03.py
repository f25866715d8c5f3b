"""C03: Mozilla .inc round trips, against an independent reader.

All values, names and comments up to the depth, all structures of definitions, comments and directives, and all source texts of tokens up to the depth.
"""

from __future__ import annotations

import re

from core import Bad, Ctx, T, need, same, texts, words
from util import *

F = Format.inc


def icomment(c: str) -> str:
    return "\n".join(line.strip() for line in c.split("\n")).strip("\n")


def iflow(res: Resource) -> list:
    out = []
    for item in flow(res, text_of):
        if item[0] == "comment":
            item = ("comment", icomment(item[1]))
        elif item[0] == "entry":
            item = (*item[:4], icomment(item[4]), item[5])
        if item != ("comment", ""):
            out.append(item)
    return out


def reference(src: str) -> list | None:
    out: list = []
    pending: list[str] = []

    def flush() -> str:
        c = icomment("\n".join(pending))
        pending.clear()
        return c

    def push() -> None:
        if c := flush():
            out.append(("comment", c))

    for line in re.split("\r\n|\r|\n", src):
        if not line.strip():
            push()
        elif m := re.fullmatch(r"#define[ \t]+(\w+)([ \t].*)?", line, re.DOTALL):
            out.append(("entry", (m[1],), (m[2] or " ")[1:], (), flush(), ()))
        elif line.startswith("# ") or line == "#":
            body = line[2:].strip()
            pending.append(line if body.startswith("#") else body)
        elif line.startswith("#"):
            push()
            out.append(("comment", line.strip()))
        else:
            return None
    push()
    return out


def check(res: Resource) -> str:
    before = dump(res)
    exp = iflow(res)
    src = ser(res)
    same("resource after serializing", dump(res), before)
    got = parse(F, src)
    T.trace(2)
    same("parsed back", iflow(got), exp, "from", src)
    same("read by reference", reference(src), exp, "from", src)
    same("serialized again", ser(got), src)
    return f"{len(exp)} items"


def resource(items: list, comment: str = "") -> Resource:
    return Resource(F, [S((), items)], comment=comment)


def judge_value(v: str) -> str:
    return check(resource([E(("k",), PM([v] if v else [])), E(("z",), PM(["end"]))]))


def judge_name(name: str) -> str:
    res = resource([E(("y",), PM(["x"])), E((name,), PM(["v"])), E(("z",), PM(["end"]))])
    if re.fullmatch(r"\w+", name):
        return check(res)
    try:
        src = ser(res)
    except ValueError:
        return "rejected"
    raise Bad(f"invalid name {name!r} serialized as {src!r}")


def judge_comment(case: list) -> str:
    where, c = case
    e = E(("k",), PM(["v"]))
    if where == "entry":
        e.comment = c
        return check(resource([E(("a",), PM(["x"])), e]))
    if where == "res":
        return check(resource([e], c))
    return check(resource([E(("a",), PM([])), C(c), e]))


def judge_source(src: str) -> str:
    ref = reference(src)
    try:
        got = parse(F, src)
    except ValueError:
        need(ref is None, "valid source is rejected:", src)
        return "rejected"
    T.trace()
    need(ref is not None, "invalid source is accepted:", src, "as", dump(got))
    same("parsed", iflow(got), ref, "from", src)
    out = ser(got)
    again = parse(F, out)
    T.trace()
    same("content after serializing", iflow(again), ref, "from", out)
    same("serialized again", ser(again), out)
    same("bytes", dump(parse(F, src.encode())), dump(got))
    return f"{len(ref)} items"


ITEMS = {
    "e": lambda n: E((f"k{n}",), PM([f"v{n}"])),
    "c": lambda n: E((f"k{n}",), PM([f"v {n}"]), comment=f"about {n}"),
    "m": lambda n: E((f"k{n}",), PM([]), comment=f"two\n\nlines {n}"),
    "s": lambda n: C(f"standalone {n}"),
    "t": lambda n: C(f"standalone\n\n{n}"),
    "f": lambda n: C("#filter emptyLines"),
    "g": lambda n: C("#unfilter emptyLines"),
    "o": lambda n: C(f"was\n# #define old{n} value"),
}


def judge_structure(case: list) -> str:
    comment, word = case
    return check(resource([ITEMS[w](n) for n, w in enumerate(word)], comment))


VALUE = ["a", " ", "#", '"', "\t", "<", "#define", "é", "\\", "\u2028", "\x0b", "😀", "\x85", "\x1c", "\u00a0", "="]
NAMES = ["a", "é", "_", "0", "-", ".", " ", "#", "\t", ""]
COMMENT = ["a", " ", "\n", "!", "a#", "é", "\u2028", "define", "\t"]
SOURCE = ["#define k", " ", "v", "\n", "# c", "#", "#f x", "\t", "\r\n", "\u2028", "#define k2 w", "\r", "-"]


def run(ctx: Ctx) -> None:
    d = ctx.pick(4, 5)
    ctx.space("values", lambda: texts(VALUE, d), judge_value, note=f"values of up to {d} of {len(VALUE)} tokens")
    ctx.space("names", lambda: texts(NAMES, ctx.pick(4, 5), 1), judge_name)
    ctx.space("comments", lambda: ((w, c) for c in texts(COMMENT, ctx.pick(5, 6)) if c == icomment(c) and c
                                   for w in ("entry", "res", "alone")), judge_comment)
    ds = ctx.pick(5, 6)
    ctx.space("sources", lambda: texts(SOURCE, ds), judge_source, note=f"texts of up to {ds} of {len(SOURCE)} tokens")
    ctx.space("structures", lambda: ((c, w) for w in words(ITEMS, ctx.pick(5, 6)) for c in ("", "top", "two\n\nparts")),
              judge_structure)
    ctx.assume("Values with line breaks, and comments with other lines that start with #, are not representable in this format.")
