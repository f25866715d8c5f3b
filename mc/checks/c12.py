"""
C12: MessageFormat 2 messages survive serialize and parse unchanged.

Messages are built from every combination, up to a depth, of literals (every text over an alphabet of special characters, in each
position a literal may take), expressions, markup, text parts, declarations in every order, selectors, keys and variants.
A message the validator accepts must be read back equal, with its pieces in order (text pieces joined, empty ones dropped,
names of fallback keys aside), by the implementation's parser and by the independent reader of mf2.py.
In the other direction, every text of C13's spaces which the parser accepts must serialize to text with the same meaning.
"""

from __future__ import annotations

import itertools

import mf2
from checks import c13
from core import Bad, Ctx, T, need, same, texts, words
from moz.l10n.formats.mf2.message_parser import MF2ParseError, mf2_parse_message
from moz.l10n.formats.mf2.serialize import mf2_serialize_message, mf2_serialize_pattern
from moz.l10n.formats.mf2.validate import MF2ValidationError, mf2_validate_message
from moz.l10n.message import serialize_message
from util import *


def npat(pattern: list) -> list:
    out: list = []
    for p in pattern:
        if isinstance(p, str):
            if not p:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += p
                continue
        out.append(p)
    return out


def norm(m):
    if isinstance(m, PM):
        return PM(npat(m.pattern), m.declarations)
    return SM(m.declarations, m.selectors, {k: npat(v) for k, v in m.variants.items()})


def check(msg, invalid_ok: bool = False) -> str:
    try:
        mf2_validate_message(msg)
    except MF2ValidationError:
        need(invalid_ok, "validator rejects", msg)
        return "invalid"
    before = dump(msg)
    exp = dump(norm(msg), False)
    src = mf2_serialize_message(msg)
    same("message after serializing", dump(msg), before)
    same("serialize_message", serialize_message(Format.mf2, msg), src)
    T.trace(2)
    try:
        got = mf2_parse_message(src)
    except MF2ParseError as err:
        raise Bad(f"serialized as {src!r}, which does not parse: {err}".split("\n")[0])
    same("parsed back", dump(got, False), exp, "from", src)
    same("serialized again", mf2_serialize_message(got), src)
    ok, ref = mf2.read(src)
    need(ok is not False, "serialized as invalid", src)
    if ref is not None:
        same("read by reference", dump(ref, False), exp, "from", src)
    if isinstance(msg, PM):
        same("pattern alone", dump(PM(mf2_parse_message("{{" + "".join(mf2_serialize_pattern(msg.pattern)) + "}}").pattern)),
             dump(PM(norm(msg).pattern)))
    return type(msg).__name__


def judge_literal(v: str) -> str:
    """One text in every position a literal or text can take."""
    f = {"x": Ex(V("x"), "f")}
    check(PM([v]))
    check(PM(["a", v, "b"]))
    check(PM([Ex("e"), v]))
    check(PM([v, M("open", "e")]))
    check(PM([Ex(v)]))
    check(PM([Ex(v, "f")]))
    check(PM([Ex(v, "f", {"o": v}, {"p": v})]))
    check(PM([M("standalone", "m", {"o": v, "q": V("x")}, {"p": v, "r": True})]))
    check(PM([M("close", "m", {}, {"p": v})]))
    check(PM([v], {"y": Ex(v), "z": Ex(V("z"), "f", {"o": v}, {"p": v})}))
    check(SM(dict(f), (V("x"),), {(v,): [v], ("k" + v,): [], (CK(),): [v, Ex(v)]}))
    return check(SM({**f, "y": Ex(V("x"), None, {}, {"p": v})}, (V("x"), V("y")), {(v, v): [], (v, CK(v)): ["a"], (CK("a"), v): [v], (CK(), CK()): []}))


ARGS = [None, "", "a", "1", "|", ("x",)]
FUNCS = [None, "f", "n:f"]
OPTS = [(), (("o", "1"),), (("o", ("x",)),), (("n:o", ""), ("b", "}"))]
ATTRS = [(), (("t", True),), (("n:t", ""),), (("b", "/"), ("t", True))]


def val(x):
    return V(x[0]) if isinstance(x, tuple) else x


def part(c):
    c = unlist(c)
    if isinstance(c, str):
        return c
    kind, a, f, o, t = c
    o = {k: val(v) for k, v in o}
    return Ex(val(a), f, o, dict(t)) if kind == "expr" else M(kind, f, o, dict(t))


def all_parts():
    for a, f, o, t in itertools.product(ARGS, FUNCS, OPTS, ATTRS):
        yield ("expr", a, f, o, t)
    for k, f, o, t in itertools.product(("open", "standalone", "close"), FUNCS[1:], OPTS, ATTRS):
        yield (k, None, f, o, t)


FEW = ["", " ", ".", "{", "a", "\u200e", "}}", ("expr", "", None, (), ()), ("expr", ("x",), "f", (("o", "/"),), (("t", True),)),
       ("open", None, "m", (), ()), ("standalone", None, "m", (("o", ("x",)),), (("t", True),)), ("close", None, "m", (), ())]
DECLS = [("x", ("x",), "f", ()), ("x", ("y",), None, ()), ("x", "1", "f", ()), ("x", ("x",), "f", (("o", ("y",)),)), ("x", ("w",), "f", (("o", ("z",)),)),
         ("y", ("y",), "g", ()), ("y", ("z",), None, ()), ("y", ("x",), None, ()), ("y", "", None, ()),
         ("z", ("z",), "f", (("p", ("y",)),)), ("z", ("x",), "f", (("p", "1"),)), ("z", None, "f", (("a", ("x",)), ("b", ("y",)))),
         ("w", ("w",), "f", ()), ("w", ("z",), None, ()), ("a", ("w",), None, (),)]


def decls(names) -> dict:
    return {n: Ex(val(a), f, {k: val(v) for k, v in o}) for n, a, f, o in unlist(names)}


def judge_pattern(c) -> str:
    parts = [part(p) for p in c]
    check(PM(parts, {"x": Ex(V("x"), "f")}), True)
    check(SM({"x": Ex(V("x"), "f")}, (V("x"),), {("1",): parts[::-1], (CK(),): parts}), True)
    return check(PM(parts), True)


def judge_decls(c) -> str:
    d = decls(c)
    res = check(PM(["a"], dict(d)), True)
    for n in ("x", "y", "z"):
        check(SM(dict(d), (V(n),), {(CK(),): []}), True)
    return res


KEYS = ["", "1", "one", "*", "|", None]


def judge_select(c) -> str:
    n, keysets = c
    d = {"x": Ex(V("x"), "f"), "y": Ex(V("x")), "z": Ex("1", "f")}
    variants = {}
    for i, ks in enumerate(keysets):
        variants[tuple(CK("o" if i % 2 else None) if k is None else k for k in ks)] = [str(i)] if i else []
    return check(SM(d, tuple(map(V, "xyz"[:n])), variants), True)


def judge_source(src: str) -> str:
    try:
        msg = mf2_parse_message(src)
    except MF2ParseError:
        return "rejected"
    exp = dump(msg)
    out = mf2_serialize_message(msg)
    T.trace(2)
    try:
        got = mf2_parse_message(out)
    except MF2ParseError as err:
        raise Bad(f"{src!r} serialized as {out!r}, which does not parse: {err}".split("\n")[0])
    same("parsed back", dump(got), exp, "from", out)
    same("serialized again", mf2_serialize_message(got), out)
    return type(msg).__name__


LIT = list("a.19-eE+|\\{}@*$:#/= \n\u3000\u200e\u2068\u00e9\u0300\u0663\x0b\u2028\x01") + ["\U0001f600", "|}"]


def run(ctx: Ctx) -> None:
    d = ctx.pick
    j = c13.join
    ctx.space("literals", lambda: texts(LIT, d(2, 3)), judge_literal, note="each text in every position a literal or text may take")
    ctx.space("numbers", lambda: texts(list("019-+.eEx\u0663"), d(4, 6), 1), judge_literal)
    ctx.space("one part", lambda: ([p] for p in all_parts()), judge_pattern, note="every expression and markup")
    ctx.space("two parts", lambda: ([p, q] for p in all_parts() for q in (FEW if ctx.quick else all_parts())), judge_pattern)
    ctx.space("patterns", lambda: (list(w) for w in words(FEW, d(4, 5))), judge_pattern)
    ctx.space("declarations", lambda: (list(w) for n in range(d(5, 6)) for w in itertools.permutations(DECLS, n) if len({x[0] for x in w}) == n),
              judge_decls, note="every set of declarations in every order; their dependencies decide the order written")
    ctx.space("variants", lambda: ([1, [list(k) for k in w]] for n in range(1, d(5, 7)) for w in itertools.permutations([(k,) for k in KEYS], n)),
              judge_select)
    ctx.space("two selectors", lambda: ([2, [list(k) for k in w] + [[None, None]]] for n in range(d(3, 4))
                                        for w in itertools.permutations(list(itertools.product(KEYS, repeat=2)), n)), judge_select)
    ctx.space("three selectors", lambda: ([3, [list(k)] + [[None] * 3]] for k in itertools.product(KEYS, repeat=3)), judge_select)
    for name, gen in (
        ("src characters", lambda: texts(c13.CHARS, d(3, 4))),
        ("src placeholder", lambda: j("{", "}", c13.INNER, d(4, 5))),
        ("src spaced", lambda: ("x{" + " ".join(w) + "}" for w in words(c13.INNER, d(4, 5)))),
        ("src statements", lambda: ("\n".join(w) for w in words(c13.WHOLE, d(4, 5)))),
        ("src variants", lambda: j(".input{$x :f}.match $x ", " * {{y}}", c13.VARS, d(4, 5))),
        ("src spaces", lambda: ("".join(w) for w in words(c13.SPACED, d(4, 5)))),
        ("src escapes", lambda: (p + n + q for n in texts(c13.ESC, d(5, 6)) for p, q in [("", ""), ("{|", "|}"), ("{{", "}}")])),
    ):
        ctx.space(name, gen, judge_source, note="texts of C13, read, written and read again")
    ctx.assume("Texts hold no NUL character, which MessageFormat 2 cannot represent")
