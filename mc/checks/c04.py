"""C04: INI round trips, against an independent reader.

All representable values, all names and comments of tokens up to the depth, all structures of sections, entries and comments, and all source texts of tokens up to the depth.
"""

from __future__ import annotations

import configparser
import re

from core import Bad, Ctx, T, need, same, texts, words
from util import *

F = Format.ini


def nflow(res: Resource) -> list:
    """Resource comments that are set apart by empty lines are joined."""
    out = []
    for item in flow(res, text_of):
        if item[0] == "comment" and out and out[-1][0] == "comment" and all(i[0] == "comment" for i in out):
            out[-1] = ("comment", out[-1][1] + "\n\n" + item[1])
        else:
            out.append(item)
    return out


class Invalid(Exception):
    pass


def reference(src: str) -> list | None:
    """Line by line, as Python's configparser reads INI files, plus comments."""
    out: list = []
    pending: list[str] = []
    value: list[str] | None = None  # lines of the current value
    entry = None
    section = False

    def flush() -> str:
        c = ncomment("\n".join(pending))
        pending.clear()
        return c if c.strip() else ""

    def close() -> None:
        nonlocal value
        if value is not None:
            out[entry] = (*out[entry][:2], "\n".join(value).rstrip("\n"), *out[entry][3:])
            value = None

    def push() -> None:
        c = flush()
        if c:
            if not section and out:
                out[-1] = ("comment", out[-1][1] + "\n\n" + c)
            else:
                out.append(("comment", c))

    def comment(c: str) -> None:
        c = c[1:] if c.startswith(" ") else c
        if pending or c:
            pending.append(c)

    for line in src.split("\n"):
        line = line.rstrip()
        if not line:
            if value is not None:
                value.append("")
            push()
        elif line[0] in ";#" or re.match(r"(?i)rem(\s|$)", line):
            close()
            comment(line[1:] if line[0] in ";#" else line[3:])
        elif m := re.fullmatch(r"\[([^]]+)\]\s*([;#].*)?", line, re.DOTALL):
            close()
            if m[2]:
                comment(m[2][1:])
            out.append(("section", (m[1],), flush(), ()))
            section = True
        elif m := re.fullmatch(r"([^:=\s[][^:=]*)[:=](.*)", line, re.DOTALL):
            close()
            if not section:
                return None
            v = m[2].lstrip()
            i = v.find(";")
            if i > 0 and v[i - 1].isspace():
                comment(v[i + 1:])
                v = v[:i].rstrip()
            entry = len(out)
            out.append(("entry", (m[1].rstrip(),), "", (), flush(), ()))
            value = [v]
        elif line[0].isspace() and value is not None:
            value.append(line.strip())
        else:
            return None
    close()
    push()
    return out


def check(res: Resource) -> str:
    before = dump(res)
    exp = nflow(res)
    src = ser(res)
    same("resource after serializing", dump(res), before)
    got = parse(F, src)
    T.trace(2)
    same("parsed back", nflow(got), exp, "from", src)
    same("read by reference", reference(src), exp, "from", src)
    same("serialized again", ser(got), src)
    return f"{len(exp)} items"


def resource(items: list, comment: str = "") -> Resource:
    return Resource(F, [S(("A",), items), S(("Z",), [E(("end",), PM(["end"]))])], comment=comment)


def representable(v: str) -> bool:
    lines = v.split("\n")
    i = lines[0].find(";")
    return (all(line == line.strip() for line in lines) and (len(lines) == 1 or lines[-1] != "")
            and not (i > 0 and lines[0][i - 1].isspace()))


def judge_value(v: str) -> str:
    check(resource([E(("k",), PM([v])), E(("z",), PM(["end"]), comment="with")]))
    return check(resource([E(("y",), PM(["x\ny"])), E(("k",), PM([v])), C("alone")]))


def judge_name(name: str) -> str:
    def rejected(res: Resource) -> bool:
        try:
            src = ser(res)
        except ValueError:
            return True
        got = parse(F, src)
        same("parsed back", nflow(got), nflow(res), "from", src)
        same("reference", reference(src), nflow(res), "from", src)
        return False

    r = [rejected(resource([E(("y",), PM(["x"])), E((name,), PM(["v"])), E(("z",), PM(["end"]))])),
         rejected(Resource(F, [S((name,), [E(("z",), PM(["end"]))]), S(("B",), [])]))]
    T.trace(2)
    if re.fullmatch(r"[a-zé](\s*[a-zé0-9])*", name, re.I) and not re.match(r"rem\s|rem$", name, re.I):
        need(not any(r), "plain name is rejected:", name, r)
    return str(r)


def judge_comment(case: list) -> str:
    where, c = case
    e = E(("k",), PM(["v"]))
    if where == "entry":
        e.comment = c
        return check(resource([E(("a",), PM(["x"])), e]))
    if where == "res":
        return check(resource([e], c))
    if where == "section":
        r = resource([e])
        r.sections[1].comment = c
        return check(r)
    if where == "last":
        r = resource([e])
        r.sections[1].entries.append(C(c))
        return check(r)
    return check(resource([E(("a",), PM([])), C(c), e]))


def judge_source(src: str) -> str:
    ref = reference(src)
    try:
        got = parse(F, src)
    except Exception:
        need(ref is None, "valid source is rejected:", src)
        return "rejected"
    T.trace()
    need(ref is not None, "invalid source is accepted:", src, "as", dump(got))
    same("parsed", nflow(got), ref, "from", src)
    out = ser(got)
    again = parse(F, out)
    T.trace()
    same("content after serializing", nflow(again), ref, "from", out)
    same("serialized again", ser(again), out)
    same("bytes", dump(parse(F, src.encode())), dump(got))
    return f"{len(ref)} items"


ITEMS = {
    "e": lambda n: E((f"k{n}",), PM([f"v{n}"])),
    "c": lambda n: E((f"k{n}",), PM([f"v {n}\n\nand\nmore"]), comment=f"about {n}"),
    "m": lambda n: E((f"k{n}",), PM([]), comment=f"two\n\n#lines {n}"),
    "s": lambda n: C(f"standalone {n}"),
    "d": lambda n: E(("a", f"b{n}"), PM([f"v=[{n}]"])),
}


def judge_structure(case: list) -> str:
    comment, word = case
    sections: list = []
    for n, w in enumerate(word):
        if w == "[":
            sections.append(S((f"S{n}",), []))
        elif w == "{":
            sections.append(S(("S", f"t{n}"), [], comment=f"section\n\n{n}"))
        elif not sections:
            return "no section"
        else:
            sections[-1].entries.append(ITEMS[w](n))
    res = Resource(F, sections, comment=comment)
    src = ser(res)
    got = parse(F, src)
    T.trace()
    for s in res.sections:
        s.id = (".".join(s.id),)
        for e in s.entries:
            if isinstance(e, E):
                e.id = (".".join(e.id),)
    exp = nflow(res)
    same("parsed back", nflow(got), exp, "from", src)
    same("reference", reference(src), exp, "from", src)
    same("serialized again", ser(got), src)
    return "ok"


VALUE = ["a", " ", "\n", ";", "=", "#", "[x]", ":", "\\", "é", "\u2028", "\x85", "\r", "\x0b", "%", '"', "😀", "rem "]
NAMES = ["a", " ", "rem", "#", ";", "[", "=", "é", ".", "0", "ove", "\t", "\\", "REM"]
COMMENT = ["a", "#", " ", "\n", ";", "=", "[s]", "é", "\u2028"]
SOURCE = ["[s]", "k=", "\n", " ", "v", "; c", "#", "=", "remove", "\n  ", ":w", "\r\n", "rem x", "]", "\u2028", "\t"]


def run(ctx: Ctx) -> None:
    d = ctx.pick(4, 5)
    ctx.space("values", lambda: filter(representable, texts(VALUE, d)), judge_value,
              note=f"representable values of up to {d} of {len(VALUE)} tokens")
    ctx.space("values-deep", lambda: filter(representable, texts(VALUE[:8], ctx.pick(5, 7), d + 1)), judge_value)
    ctx.space("names", lambda: texts(NAMES, ctx.pick(4, 5), 1), judge_name)
    ctx.space("comments", lambda: ((w, c) for c in texts(COMMENT, ctx.pick(4, 5)) if c == ncomment(c) and c.strip()
                                   for w in ("entry", "res", "alone", "section", "last")), judge_comment)
    ds = ctx.pick(4, 5)
    ctx.space("sources", lambda: texts(SOURCE, ds), judge_source, note=f"texts of up to {ds} of {len(SOURCE)} tokens")
    ctx.space("sources-deep", lambda: ("[s]\nk=" + t for t in texts(SOURCE[:11], ctx.pick(5, 6))), judge_source)
    ctx.space("structures", lambda: ((c, ("[", *w)) for w in words(["[", "{", *ITEMS], ctx.pick(4, 5)) for c in ("", "top", "two\n\nparts")),
              judge_structure)
    ctx.assume("Leading and trailing whitespace of a value's lines, and a space and semicolon in its first line, are not representable.")
