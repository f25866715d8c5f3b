"""Readings of Fluent source, by way of the fluent.syntax parser, which are independent of moz.l10n."""

from __future__ import annotations

import re

from fluent.syntax import FluentParser, ast

from util import *

ESC = re.compile(r"\\(?:(\\|\")|u([0-9a-fA-F]{4})|U([0-9a-fA-F]{6}))")


def unescape(raw: str) -> str:
    def sub(m):
        if m[1]:
            return m[1]
        n = int(m[2] or m[3], 16)
        return "\ufffd" if 0xD800 <= n <= 0xDFFF or n > 0x10FFFF else chr(n)

    return ESC.sub(sub, raw)


def literal(x) -> str:
    return x.value if isinstance(x, ast.NumberLiteral) else unescape(x.value)


def options(args) -> tuple:
    return tuple(sorted((a.name.name, literal(a.value)) for a in args.named)) if args else ()


def inline(x):
    """A placeable other than a select expression, as text or a tuple."""
    while isinstance(x, ast.Placeable):
        x = x.expression
    if isinstance(x, ast.StringLiteral):
        return unescape(x.value)
    if isinstance(x, ast.NumberLiteral):
        return ("number", x.value)
    if isinstance(x, ast.VariableReference):
        return ("var", x.id.name)
    if isinstance(x, ast.MessageReference):
        return ("message", x.id.name, x.attribute and x.attribute.name, ())
    if isinstance(x, ast.TermReference):
        return ("message", "-" + x.id.name, x.attribute and x.attribute.name, options(x.arguments))
    if isinstance(x, ast.FunctionReference):
        args = tuple(inline(a) for a in x.arguments.positional)
        # "5" and 5 are not told apart as arguments
        args = tuple(a[1] if isinstance(a, tuple) and a[0] == "number" else a for a in args)
        return ("fn", x.id.name, args, options(x.arguments))
    raise TypeError(x)


def push(out: list, seg) -> None:
    if isinstance(seg, str):
        if not seg:
            return
        if out and isinstance(out[-1], str):
            out[-1] += seg
            return
    out.append(seg)


def has_select(pattern) -> bool:
    return any(isinstance(unplace(e), ast.SelectExpression) for e in pattern.elements) if pattern else False


def unplace(e):
    while isinstance(e, ast.Placeable):
        e = e.expression
    return e


def segs(pattern, choose=None) -> list:
    """The segments of a pattern; choose(select expression) returns the variant to take."""
    out: list = []
    for e in pattern.elements if pattern else ():
        if isinstance(e, ast.TextElement):
            push(out, e.value)
            continue
        e = unplace(e)
        if isinstance(e, ast.SelectExpression):
            for s in segs(choose(e).value, choose):
                push(out, s)
        else:
            push(out, inline(e))
    return out


def parse_ast(src: str):
    return FluentParser(with_spans=False).parse(src)


def junk(tree) -> bool:
    return any(isinstance(e, ast.Junk) for e in tree.body)


# ------------------------------------------------ the same forms for messages


def expr(p, decl) -> object:
    if isinstance(p, str):
        return p
    assert isinstance(p, Ex), p
    if p.function is None:
        return ("var", p.arg.name) if isinstance(p.arg, V) else p.arg
    if p.function == "string" and isinstance(p.arg, str):
        return p.arg
    opts = tuple(sorted((k, v) for k, v in p.options.items()))
    fn = p.attributes.get("fluent-fn")
    if p.function == "message":
        id, _, attr = p.arg.partition(".")
        return ("message", id, attr or None, opts)
    if p.function == "number" and fn is None and isinstance(p.arg, str) and not opts:
        return ("number", p.arg)
    if fn is None:
        if p.function == "number" and not opts:
            return ("var", p.arg.name)
        fn = {"number": "NUMBER", "datetime": "DATETIME"}[p.function]
    return ("fn", fn, () if p.arg is None else (("var", p.arg.name) if isinstance(p.arg, V) else p.arg,), opts)


def msg_segs(pattern, decl=None) -> list:
    out: list = []
    for p in pattern:
        push(out, expr(p, decl))
    return out
