"""
C13: MessageFormat 2 parsing accepts exactly the language, and gives each text its meaning.

The oracle is mf2.py: the ABNF of LDML 46 transcribed as regular expressions, and the data model rules.
Every sequence of syntax tokens up to a depth is read in each of the grammar's contexts (top level, in a placeholder, in a
markup placeholder, among declarations, after .match, in names and literals), as str and as bytes; every code point is tried
as the first and as a later character of a name.  Duplicate attributes, several marks next to a name, and an isolate before a
leading full stop are left open by the specification: there, acceptance is not judged, only the meaning.
"""

from __future__ import annotations

import mf2
from core import Bad, Ctx, T, need, same, texts, words
from moz.l10n.formats.mf2.message_parser import MF2ParseError, mf2_parse_message
from moz.l10n.formats.mf2.validate import mf2_validate_message
from moz.l10n.message import parse_message
from util import *

LRM, FSI = "\u200e", "\u2068"


def judge_text(src: str) -> str:
    ok, exp = mf2.read(src)
    try:
        got = mf2_parse_message(src)
    except MF2ParseError as err:
        T.trace()
        need(not ok, f"valid text {src!r} rejected:", str(err).split("\n")[0])
        need(0 <= err.pos <= len(src), f"error position {err.pos} outside {src!r}")
        return "rejected"
    T.trace()
    need(ok is not False, f"invalid text {src!r} accepted as", got)
    if exp is not None:
        same("message", dump(got), dump(exp), "from", src)
    mf2_validate_message(got)  # everything accepted is valid
    return type(got).__name__


def judge_both(src: str) -> str:
    """Also as bytes, and by the general parser."""
    res = judge_text(src)
    if res != "rejected":
        exp = dump(mf2_parse_message(src))
        same("message from bytes", dump(mf2_parse_message(src.encode())), exp)
        same("message from parse_message", dump(parse_message(Format.mf2, src)), exp)
    return res


def judge_cps(start: int) -> str:
    """Each code point of a block, alone in a name's positions."""
    n = 0
    for cp in range(start, start + 256):
        ch = chr(cp)
        for src, ok, name in [
            (f"{{${ch}}}", mf2.is_start(cp), ch),
            (f"{{$a{ch}b}}", mf2.is_char(cp), f"a{ch}b"),
            (f"{{:{ch}:{ch}}}", mf2.is_start(cp), f"{ch}:{ch}"),
        ]:
            if ch in mf2_skipped:
                ok, name = judge_skip(src), None
            try:
                got = mf2_parse_message(src)
            except MF2ParseError:
                need(not ok, f"valid name U+{cp:04X} rejected in {src!r}")
                continue
            need(ok, f"invalid name character U+{cp:04X} accepted in {src!r}")
            if name is not None:
                part = got.pattern[0]
                same("name", part.arg.name if part.arg else part.function, name, f"in {src!r}")
            n += 1
        if not 0xD800 <= cp < 0xE000:
            # As text, anything but NUL and the three special characters stands for itself.
            try:
                got = mf2_parse_message("x" + ch)
                same("text", dump(got), dump(PM(["x" + ch])))
                need(ch not in "\\{}\0", f"U+{cp:04X} accepted as text")
            except MF2ParseError:
                need(ch in "\\{}\0", f"U+{cp:04X} rejected as text")
            try:
                got = mf2_parse_message(f"{{|{ch}|}}")
                same("literal", dump(got), dump(PM([Ex(ch)])))
                need(ch not in "\\|\0", f"U+{cp:04X} accepted in a quoted literal")
            except MF2ParseError:
                need(ch in "\\|\0", f"U+{cp:04X} rejected in a quoted literal")
    T.trace(256 * 5)
    return "names" if n else "no names"


mf2_skipped = set(map(chr, [*range(0x2066, 0x206A), 0x61C, 0x200E, 0x200F, 0x20, 9, 10, 13, 0x3000, *b"|:@#/=}-."]))


def judge_skip(src: str) -> bool | None:
    return mf2.read(src)[0]


CHARS = [" ", "a", "{", "}", ".", "\\", "|", "$", ":", "1", "@", "#", "/", "=", "*", "-", "\n", "\u3000", LRM, "\0", "\u00e9"]
INNER = ["a", "|b|", "1", "$x", ":f", "b=1", "c=$y", "@d", "@e=2", " ", LRM, "/", "#m", "=", ":", "|", "-"]
DECLS = [".input", ".local", ".match", "{$x :f}", "{$y}", "{1}", " ", "$x", "$y", "=", "{{a}}", "*", LRM]
WHOLE = [".input {$x :f}", ".input {$x}", ".input {$y :f a=$x}", ".input {$z :f a=$z}", ".local $w = {1 :f b=$w}", ".local $x = {1 :f}", ".local $y = {$x}",
         ".local $z = {$y :f b=$x}", ".local $x = {$z}", ".match $x", ".match $y $x", " ", "1 {{a}}", "* * {{b}}", "* {{c}}", "{{d}}"]
VARS = ["*", "1", "a", "|1|", "|", " ", "\n", LRM, "{{x}}", "{{", "}}", "{$x}", "\\}"]
NUM = ["0", "1", "9", "-", "+", ".", "e", "E", "x", "\u0663"]
ESC = ["\\", "{", "}", "|", "a", " "]
SPACED = ["{", "}", "$x", ":f", "a", "=", "@", "#", "/", " ", LRM, "\t"]


def join(pre: str, post: str, tokens: list, depth: int):
    return (pre + "".join(w) + post for w in words(tokens, depth))


def run(ctx: Ctx) -> None:
    d = ctx.pick
    ctx.space("characters", lambda: texts(CHARS, d(4, 5)), judge_both, note="every string over the syntax's characters")
    ctx.space("placeholder", lambda: join("{", "}", INNER, d(5, 6)), judge_text,
              note="every sequence of tokens within a placeholder")
    ctx.space("option", lambda: (p + "".join(w) + "}" for p in ("{:f b", "{#m b") for w in words(INNER + ["\t"], d(4, 5))), judge_text)
    ctx.space("attribute", lambda: (p + "".join(w) + "}" for p in ("{a @d", "{/m @d") for w in words(INNER + ["\t"], d(4, 5))), judge_text)
    ctx.space("spaced", lambda: ("x{" + " ".join(w) + "}" for w in words(INNER, d(4, 5))), judge_text,
              note="as above, with spaces between")
    ctx.space("declarations", lambda: join("", "", DECLS, d(5, 6)), judge_text,
              note="every sequence of declaration and matcher tokens")
    ctx.space("declared", lambda: join("", "{{q}}", DECLS, d(4, 5)), judge_text, note="the same before a pattern")
    ctx.space("statements", lambda: ("\n".join(w) for w in words(WHOLE, d(4, 5))), judge_text,
              note="every sequence of whole statements: declaration order, annotations, fallbacks")
    ctx.space("variants", lambda: join(".input{$x :f}.match $x ", "", VARS, d(5, 6)), judge_text)
    ctx.space("variants2", lambda: join(".input{$x :f}.local $y={$x}.match $x $y ", "*\u3000* {{y}}", VARS, d(4, 5)), judge_text,
              note="two selectors, before a fallback variant")
    ctx.space("numbers", lambda: (p + n + q for n in texts(NUM, d(5, 6), 1) for p, q in [("{", "}")]), judge_text)
    ctx.space("number keys", lambda: (f".input{{$x :f}}.match $x {n}{{{{a}}}}*{{{{b}}}}" for n in texts(NUM + [" "], d(3, 5), 1)),
              judge_text)
    ctx.space("escapes", lambda: (p + n + q for n in texts(ESC, d(5, 6)) for p, q in [("", ""), ("{|", "|}"), ("{{", "}}"), ("{a @b=|", "|}")]),
              judge_text)
    ctx.space("spaces", lambda: ("".join(w) for w in words(SPACED, d(5, 6))), judge_text)
    ctx.space("code points", lambda: range(0, d(0x30000, 0x110000), 256), judge_cps,
              note="every code point as a name's start, a name's later character, text and quoted text")
    if ctx.quick:
        ctx.space("code points, rest", lambda: [0xE0000, 0xEFF00, 0xF0000, 0xFFF00, 0x10FF00], judge_cps)
    ctx.assume("Names are compared as written: Unicode normalization of names is not implemented and not judged")
    ctx.assume("The grammar is that of LDML 46, the version named by the syntax tests: unquoted literals are names or numbers")
