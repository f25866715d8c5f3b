"""
C07: WebExtension messages.json round trips, against an independent scanner of message text.

All message texts over the significant tokens, all patterns of message parts, all sets of
placeholders, and all placements of line comments up to the depth.
"""

from __future__ import annotations

import itertools
import json

from core import Bad, Ctx, T, need, same, subsets, texts, words
from util import *

from moz.l10n.formats.webext import webext_parse, webext_parse_message, webext_serialize, webext_serialize_message

F = Format.webext
NAME = set("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_@")


def scan(src: str, phs: dict) -> list | None:
    """The segments that a message consists of; None if a placeholder is not defined."""
    low = {k.lower(): v for k, v in phs.items()}
    out: list = []

    def text(s: str) -> None:
        if out and isinstance(out[-1], str):
            out[-1] += s
        elif s:
            out.append(s)

    i = 0
    while i < len(src):
        if src[i] != "$":
            text(src[i])
            i += 1
            continue
        j = i + 1
        while j < len(src) and src[j] in NAME:
            j += 1
        if j > i + 1 and j < len(src) and src[j] == "$":
            ph = low.get(src[i + 1:j].lower())
            if ph is None:
                return None
            out.append(("ph", ph["content"], ph.get("example")))
            i = j + 1
        elif i + 1 < len(src) and src[i + 1] in "123456789":
            out.append(("arg", src[i + 1]))
            i += 2
        else:
            j = i + 1
            while j < len(src) and src[j] == "$":
                j += 1
            text("$" * (j - i - 1) or "$")
            i = j
    return out


def segments(msg: PM) -> list:
    """The segments that a parsed message consists of."""
    out: list = []
    for p in msg.pattern:
        if isinstance(p, str):
            need(p, "empty text", msg)
            need(not (out and isinstance(out[-1], str)), "adjacent text", msg)
            out.append(p)
            continue
        need(isinstance(p, Ex) and isinstance(p.arg, V) and not p.function and not p.options, "part", p)
        name = p.arg.name
        need(name and not name[0].isdigit() and "@" not in name, "variable name", p)
        d = msg.declarations.get(name)
        if d is None:
            need(name[:3] == "arg" and name[3:] in set("123456789"), "undeclared variable", p)
            out.append(("arg", name[3:]))
        elif isinstance(d.arg, V):
            need(d.arg.name[:3] == "arg", "placeholder content", d)
            out.append(("ph", "$" + d.arg.name[3:], d.attributes.get("example")))
        else:
            out.append(("ph", d.arg, d.attributes.get("example")))
    return out


PHS = {
    "a": {"content": "X"}, "A_B": {"content": "$2", "example": "ex"}, "1": {"content": "one $1 $$"},
    "a@b": {"content": "at"}, "_1": {"content": "", "example": ""}, "arg1": {"content": "named"}, "arg2": {"content": "$1"}, "b": {"content": "$1"},
}


def judge_text(src: str) -> str:
    before = json.dumps(PHS)
    exp = scan(src, PHS)
    try:
        got = webext_parse_message(src, PHS)
    except ValueError:
        same("placeholders", json.dumps(PHS), before)
        need(exp is None, "rejected", src)
        return "undefined placeholder"
    T.trace()
    same("placeholders", json.dumps(PHS), before)
    need(exp is not None, "accepted an undefined placeholder", src)
    same("segments", segments(got), exp)
    same("parsed again", dump(webext_parse_message(src, PHS)), dump(got))
    d = dump(got)
    out, phs = webext_serialize_message(got)
    same("message after serializing", dump(got), d)
    same("serialized", scan(out, phs), exp, out, phs)
    again = webext_parse_message(out, phs)
    T.trace()
    same("parsed back", segments(again), exp)
    same("serialized again", webext_serialize_message(again), (out, phs))
    return f"{sum(not isinstance(x, str) for x in exp)} placeholders"


PARTS = {
    "a": "a", "$": "$", "1": "1", "n": "$a$", "p": "$1", "_": " ", "f": "f$",
    "A": Ex(V("arg1"), attributes={"source": "$1"}), "B": Ex(V("arg2")), "0": Ex(V("arg0")), "U": Ex(V("foo")),
    "S": Ex(V("foo"), attributes={"source": "$foo$"}),
    "D": Ex(V("dec"), attributes={"source": "$Dec$"}), "E": Ex(V("dec")), "G": Ex(V("other"), attributes={"source": "$dec$"}),
    "H": Ex(V("low"), attributes={"source": "$DEC$"}),
    "V": Ex(V("var")), "F": Ex(V("fn")), "N": Ex(V("arg1"), "number"), "L": Ex("lit"), "M": M("open", "b"), "X": Ex(V("é")),
    "R": Ex(V("arg1"), attributes={"source": "a$1"}),
}
DECL = {"dec": Ex("D!", attributes={"example": "e"}), "other": Ex("O!"), "low": Ex("d!"), "var": Ex(V("arg3")), "fn": Ex(V("arg1"), "number"), "é": Ex("É")}


def judge_parts(w: list) -> str:
    parts = [PARTS[k] for k in w]
    msg = PM(parts, DECL)
    # What the message means, and its only possible text
    exp: list = []
    src = ""
    text = ""
    phs: dict = {}
    ok = True

    def flush() -> str:
        nonlocal text
        out = "".join("$" + "".join(g) if k else "".join(g) for k, g in itertools.groupby(text, lambda c: c == "$"))
        text = ""
        return out

    for k, p in zip(w, parts):
        if isinstance(p, str):
            text += p
            if exp and isinstance(exp[-1], str):
                exp[-1] += p
            else:
                exp.append(p)
            continue
        src += flush()
        if k in "AB":
            exp.append(("arg", p.arg.name[3:]))
            src += "$" + p.arg.name[3:]
        elif k in "DEGHV":
            key = {"D": "Dec", "E": "dec", "G": "dec", "H": "DEC", "V": "var"}[k]
            c = {"D": "D!", "E": "D!", "G": "O!", "H": "d!", "V": "$3"}[k]
            exp.append(("ph", c, "e" if c == "D!" else None))
            ok &= phs.setdefault(key.lower(), c) == c
            src += f"${key}$"
        else:
            ok = False
    src += flush()
    ok = ok and scan(src, {k: {"content": v, **({"example": "e"} if v == "D!" else {})} for k, v in phs.items()}) == exp
    d = dump(msg)
    try:
        out, got = webext_serialize_message(msg)
    except ValueError:
        need(not ok, "refused", msg, "which is", src)
        return "refused"
    same("message after serializing", dump(msg), d)
    need(ok, "written as", out, got)
    same("text", out, src)
    back = webext_parse_message(out, got)
    T.trace(2)
    same("parsed back", segments(back), exp, "from", out)
    return "written"


def reject_dups(pairs):
    need(len({k for k, _ in pairs}) == len(pairs), "duplicate keys", pairs)
    return dict(pairs)


def judge_resource(case: list) -> str:
    items = []
    exp = []
    for n, (key, msg, desc) in enumerate(case):
        src, phs = MSGS[msg]
        key = key.replace("#", str(n))
        items.append(E((key,), webext_parse_message(src, phs), comment=desc))
        exp.append([key, scan(src, phs), desc])
    res = Resource(F, [S((), items)])
    before = dump(res)
    out = "".join(webext_serialize(res))
    same("resource after serializing", dump(res), before)
    tree = json.loads(out, object_pairs_hook=reject_dups)
    same("written", [[k, scan(v["message"], v.get("placeholders", {})), v.get("description", "")] for k, v in tree.items()], exp)
    got = webext_parse(out)
    T.trace(2)
    same("parsed back", [[*e.id, segments(e.value), e.comment] for e in got.sections[0].entries], exp, "from", out)
    same("serialized again", "".join(webext_serialize(got)), out)
    same("bytes", dump(webext_parse(out.encode())), dump(got))
    for sep in ("\n", "// \"c\\\n"):
        same("with comments", dump(webext_parse(out.replace("\n", " " + sep))), dump(got))
    return "ok"


def strip(src: str) -> str:
    out, i, instr = "", 0, False
    while i < len(src):
        c = src[i]
        if instr:
            out += src[i:i + 2] if c == "\\" else c
            i += 2 if c == "\\" else 1
            instr = c != '"'
        elif src.startswith("//", i):
            while i < len(src) and src[i] != "\n":
                i += 1
        else:
            out += c
            instr = c == '"'
            i += 1
    return out


TOKENS = ["{", '"k"', ":", "{", '"message"', ":", None, "}", "}"]
VALUES = ['"x"', '"a//b"', '"a\\"//b"', '"\\\\"', '"//"', '"\\\\\\"// \\"" ', '"a / / b"']
GAPS = [" ", "\n", "// c\n", '//"\n', '// a " b // \\\n', "///\n", "//", "/", "/ /", "\r\n// c\r\n", "# c\n"]


def judge_comments(case: list) -> str:
    v, gaps = case
    src = "".join(({a: b for a, b in gaps}.get(i, "")) + (VALUES[v] if t is None else t) for i, t in enumerate([*TOKENS, ""]))
    try:
        tree = json.loads(strip(src))
        if "message" not in tree.get("k", {}):
            return "other"
        exp = tree["k"]["message"]
    except ValueError:
        exp = None
    try:
        got = webext_parse(src)
    except ValueError:
        need(exp is None, "rejected", src)
        return "rejected"
    same("parsed", text_of(got.sections[0].entries[0].value), exp, "from", src)
    same("bytes", dump(webext_parse(src.encode())), dump(got))
    return "parsed"


MSGS = {
    "t": ("text", {}), "e": ("", {}), "d": ("$$5 & $1", {}), "q": ('"\\\n\u2028é😀//', {}),
    "p": ("$a$ and $B@$ $A$", {"A": {"content": "$1", "example": "ex"}, "b@": {"content": "\"c\" // $$"}}),
    "c": ("$x@y$$x_y$", {"x@y": {"content": "1"}, "X_Y": {"content": "2"}}),
    "n": ("$1x$ $_1x$ $arg1$ $1", {"1x": {"content": "1"}, "_1x": {"content": "2"}, "arg1": {"content": "3"}}),
}
SRC = ["$", "a", "1", "$a$", "$1", " ", "@b", "_b", "$A$", "$a_B$", "$arg1$", "$arg2$", "$2", "0", "é", "-", "9", "$$"]


def run(ctx: Ctx) -> None:
    d = ctx.pick(4, 5)
    ctx.space("texts", lambda: texts(SRC, d), judge_text, note=f"messages of up to {d} of {len(SRC)} tokens")
    ctx.space("texts-deep", lambda: texts("$a1 _", ctx.pick(8, 9), d + 1), judge_text)
    ctx.space("parts", lambda: words(PARTS, ctx.pick(4, 5)), judge_parts, note=f"patterns of {len(PARTS)} kinds of parts")
    ctx.space("parts-deep", lambda: words("a$1fADEB", ctx.pick(6, 7), 5), judge_parts)
    one = [(k, m, c) for k in ("k#", "#", "a b#", "_name#", "é//\"#") for m in MSGS for c in ("", "about", "two\n// \"lines\"", " a \n")]
    ctx.space("resources", lambda: ([x, y] if y else [x] for x in one for y in (None, *one)), judge_resource)
    pos = range(len(TOKENS) + 1)
    ctx.space("comments", lambda: ([v, [[i, a], [j, b]]] for v in range(len(VALUES)) for i in pos for j in pos if i <= j
                                   for a in GAPS for b in GAPS), judge_comments)
    ctx.assume("Placeholder definitions which a message does not use, and unknown keys, are not part of its content.",
               "Text follows the rules of Chrome: $1 to $9 are single digits.")
