"""Canonical forms and small constructors shared by the checks."""

from __future__ import annotations

from copy import deepcopy
from typing import Any

from moz.l10n.formats import Format
from moz.l10n.model import (
    CatchallKey,
    Comment,
    Entry,
    Expression,
    Markup,
    Metadata,
    PatternMessage,
    Resource,
    Section,
    SelectMessage,
    VariableRef,
)
from moz.l10n.resource import parse_resource, serialize_resource

CK, E, Ex, M, Md, PM, S, SM, V = (
    CatchallKey, Entry, Expression, Markup, Metadata, PatternMessage, Section, SelectMessage, VariableRef)
C = Comment

__all__ = ["Comment", "CK", "E", "Ex", "M", "Md", "PM", "S", "SM", "V", "C", "Format", "Resource", "dump", "dump_msg",
           "ser", "parse", "ncomment", "flow", "text_of", "parse_resource", "serialize_resource", "unlist", "merged"]


def dump(x: Any, name: bool = True) -> Any:
    """
    A hashable, fully explicit form of any part of a resource, without line positions.
    Unlike ==, it tells "x" from ["x"], keeps dict order, and includes the names of catch-all keys.
    """
    d = dump
    if x is None or isinstance(x, (str, bool, int)):
        return x
    if isinstance(x, V):
        return ("var", x.name)
    if isinstance(x, Ex):
        return ("expr", d(x.arg), x.function, tuple((k, d(v)) for k, v in x.options.items()),
                tuple(x.attributes.items()))
    if isinstance(x, M):
        return ("markup", x.kind, x.name, tuple((k, d(v)) for k, v in x.options.items()), tuple(x.attributes.items()))
    if isinstance(x, CK):
        return ("*", x.value if name else None)
    if isinstance(x, PM):
        return ("msg", tuple((k, d(v)) for k, v in x.declarations.items()), tuple(d(p) for p in x.pattern))
    if isinstance(x, SM):
        return ("select", tuple((k, d(v)) for k, v in x.declarations.items()), tuple(d(s) for s in x.selectors),
                tuple((tuple(d(k, name) for k in keys), tuple(d(p) for p in pat)) for keys, pat in x.variants.items()))
    if isinstance(x, Md):
        return (x.key, x.value)
    if isinstance(x, C):
        return ("comment", x.comment)
    if isinstance(x, E):
        return ("entry", tuple(x.id), d(x.value), tuple((k, d(v)) for k, v in x.properties.items()), x.comment,
                tuple(d(m) for m in x.meta))
    if isinstance(x, S):
        return ("section", tuple(x.id), x.comment, tuple(d(m) for m in x.meta), tuple(d(e) for e in x.entries))
    if isinstance(x, Resource):
        return ("resource", x.format.name if x.format else None, x.comment, tuple(d(m) for m in x.meta),
                tuple(d(s) for s in x.sections))
    if isinstance(x, (list, tuple)):
        return tuple(d(y) for y in x)
    if isinstance(x, dict):
        return tuple((d(k), d(v)) for k, v in x.items())
    return ("?", type(x).__name__, repr(x))


dump_msg = dump


def ser(res: Resource, **kw: Any) -> str:
    return "".join(serialize_resource(res, **kw))


def parse(format: Format, src: str | bytes, **kw: Any) -> Resource:
    return parse_resource(format, src, **kw)


def ncomment(c: str) -> str:
    """A comment without trailing whitespace on lines, and without outer empty lines."""
    return "\n".join(line.rstrip() for line in c.split("\n")).strip("\n")


def text_of(msg: Any) -> str:
    """The value of a message that consists of text only."""
    if isinstance(msg, str):
        return msg
    assert isinstance(msg, PM), msg
    assert all(isinstance(p, str) for p in msg.pattern), msg
    return "".join(msg.pattern)


def flow(res: Resource, value=dump) -> list:
    """
    The contents of a resource in reading order: comments, section heads and entries.
    It does not tell a resource comment from a standalone one.
    """
    out: list = []

    def com(c: str) -> None:
        c = ncomment(c)
        if c.strip():
            out.append(("comment", c))

    com(res.comment)
    if res.meta:
        out.append(("meta", dump(res.meta)))
    for s in res.sections:
        if s.id or s.meta:
            out.append(("section", tuple(s.id), ncomment(s.comment), dump(s.meta)))
        else:
            com(s.comment)
        for e in s.entries:
            if isinstance(e, Comment):
                com(e.comment)
            else:
                out.append(("entry", tuple(e.id), value(e.value), tuple((k, value(v)) for k, v in e.properties.items()),
                            ncomment(e.comment) if e.comment.strip() else "", dump(e.meta)))
    return out


def unlist(x: Any) -> Any:
    """Lists as tuples, all the way down: undoes the JSON form of a case."""
    if isinstance(x, (list, tuple)):
        return tuple(unlist(y) for y in x)
    return x


def merged(msg):
    """A message with its texts joined, including quoted ones."""
    if isinstance(msg, str):
        return PM([msg] if msg else [])
    msg = deepcopy(msg)
    for pat in [msg.pattern] if isinstance(msg, PM) else msg.variants.values():
        for i in range(len(pat) - 1, -1, -1):
            if isinstance(pat[i], Ex) and isinstance(pat[i].arg, str) and pat[i].function is None:
                pat[i] = pat[i].arg  # quoted text
            if pat[i] in ("", Ex("")):
                del pat[i]
            elif i + 1 < len(pat) and isinstance(pat[i], str) and isinstance(pat[i + 1], str):
                pat[i : i + 2] = [pat[i] + pat[i + 1]]
    return msg
