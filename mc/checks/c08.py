"""
C08: Fluent round trips, against readings of the text by the fluent.syntax parser.

All texts up to the depth in every position of a pattern, all sequences of expressions and text,
all option and literal values, all structures of entries, terms, attributes and comments, and all
source texts of lines and of inline tokens up to the depth.
"""

from __future__ import annotations

import itertools

from core import Bad, Ctx, T, need, same, texts, words
from util import *
import ftl
from ftl import ast

from moz.l10n.formats.fluent import (
    fluent_parse,
    fluent_parse_entry,
    fluent_parse_message,
    fluent_serialize,
    fluent_serialize_entry,
    fluent_serialize_message,
)

F = Format.fluent


def one(msg) -> object:
    """Text and placeholders of a message, with text literals as text."""
    if isinstance(msg, str):
        return msg_norm([msg])
    if isinstance(msg, PM):
        return msg_norm(msg.pattern)
    return ("select", tuple((k, dump(v)) for k, v in msg.declarations.items()), dump(msg.selectors),
            tuple((dump(k), msg_norm(p)) for k, p in msg.variants.items()))


def msg_norm(pattern) -> tuple:
    return tuple(ftl.msg_segs(pattern))


def com(c: str) -> str:
    return c.rstrip()


def canon(xs: list) -> list:
    """Without the empty group comments that separate nothing."""
    out: list = []
    for i, x in enumerate(xs):
        if x == ("##", ""):
            if all(y[0] in ("info", "###") for y in out) or i + 1 == len(xs) or xs[i + 1][0] == "##":
                continue
        # A comment that comes first is read as the `info` of the resource
        out.append(("info", x[1]) if x[0] == "#" and not out else x)
    return out


def items(res: Resource) -> list:
    """What the resource holds, in order; attributes as a sorted list."""
    out: list = []
    for m in res.meta:
        need(m.key == "info", "metadata", m)
        if com(m.value):
            out.append(("info", com(m.value)))
    if com(res.comment):
        out.append(("###", com(res.comment)))
    for i, s in enumerate(res.sections):
        need(not s.id and not s.meta, "section", s)
        if com(s.comment) or i:
            out.append(("##", com(s.comment)))
        for e in s.entries:
            if isinstance(e, Comment):
                if com(e.comment):
                    out.append(("#", com(e.comment)))
            else:
                need(not e.meta and len(e.id) == 1, "entry", e)
                out.append(("entry", e.id[0], com(e.comment), one(e.value),
                            tuple(sorted((k, one(v)) for k, v in e.properties.items()))))
    return canon(out)


def tree_items(src: str) -> list | None:
    """The same, read by fluent.syntax; no selects."""
    tree = ftl.parse_ast(src)
    if ftl.junk(tree):
        return None
    out: list = []
    for e in tree.body:
        if isinstance(e, (ast.Message, ast.Term)):
            id = e.id.name if isinstance(e, ast.Message) else "-" + e.id.name
            attrs: dict = {}
            for a in e.attributes:
                attrs[a.id.name] = tuple(ftl.segs(a.value))
            out.append(("entry", id, com(e.comment.content or "") if e.comment else "", tuple(ftl.segs(e.value)),
                        tuple(sorted(attrs.items()))))
        else:
            prefix = {ast.Comment: "#", ast.GroupComment: "##", ast.ResourceComment: "###"}[type(e)]
            if com(e.content or "") or prefix == "##":
                out.append((prefix, com(e.content or "")))
    return canon(out)


def check(res: Resource, selects: bool = False) -> str:
    before = dump(res)
    exp = items(res)
    src = "".join(fluent_serialize(res))
    same("resource after serializing", dump(res), before)
    tree = ftl.parse_ast(src)
    need(not ftl.junk(tree), "syntax error in", src)
    if not selects:
        same("read by fluent.syntax", tree_items(src), exp, "from", src)
    got = fluent_parse(src)
    T.trace(2)
    same("parsed back", items(got), exp, "from", src)
    again = "".join(fluent_serialize(got))
    if len(got.sections) == len(res.sections):
        same("serialized again", again, src)
    else:
        same("serialized again", "".join(fluent_serialize(fluent_parse(again))), again)
    return "ok"


def sel(*variants) -> SM:
    return SM({"x": Ex(V("x"), "string")}, (V("x"),), {(CK("other") if k == "*" else k,): p for k, p in variants})


POSITIONS = {
    "value": lambda p: E(("m",), PM(p)),
    "attr": lambda p: E(("m",), PM(["v"]), properties={"a": PM(p)}),
    "only-attr": lambda p: E(("m",), PM([]), properties={"a": PM(p), "b": PM(p)}),
    "value-attr": lambda p: E(("m",), PM(p), properties={"a": PM(["x"])}),
    "term": lambda p: E(("-m",), PM(p), properties={"a": PM(p)}),
    "str": lambda p: E(("m",), "".join(p)),
    "variant": lambda p: E(("m",), sel(("a", p), ("b", ["b"]), ("*", p))),
    "attr-variant": lambda p: E(("m",), PM([]), properties={"a": sel(("a", p), ("*", ["z"]))}),
}
X = Ex(V("x"))
AROUND = {
    "": lambda s: [s] if s else [], "x|": lambda s: [X, s], "|x": lambda s: [s, X], "x|x": lambda s: [X, s, X],
    "n|": lambda s: ["a\n", s], "||": lambda s: ["", s, ""], "|n": lambda s: [s, "\nb"], "s|s": lambda s: [" ", s, " "],
}


def judge_text(case: list) -> str:
    pos, around, s = case
    p = AROUND[around](s)
    if pos == "str":
        if s != s.strip():
            return "trimmed"
    e = POSITIONS[pos](p)
    r = check(Resource(F, [S((), [E(("l",), PM(["before"])), e, E(("z",), PM(["after"]))])]), "variant" in pos)
    if pos == "value":
        d = dump(e.value)
        src = fluent_serialize_entry(e)
        same("entry parsed back", dump(fluent_parse_entry(src).value), dump(fluent_parse(src).sections[0].entries[0].value))
        same("entry value", one(fluent_parse_entry(src).value), one(e.value))
        src = fluent_serialize_message(e.value)
        same("message after serializing", dump(e.value), d)
        T.trace(2)
        if all(isinstance(x, str) for x in p) and not s.strip():
            return r
        same("message parsed back", one(fluent_parse_message(src)), one(e.value), "from", src)
    return r


LITERALS = ["5", "-5", "5.0", "-0.50", "", " ", "a", "nan", "inf", "-inf", "1e5", "1_0", "+1", " 1", "1 ", ".5", "5.", "٣", "0x1",
            '"', "\\", "\n", "{", "}", "\x00", "\x7f", "\x85", "é", "😀", "\u2028", "\\u0041", "--1", "-", "Infinity", "00", "1\n"]


def judge_literal(case: list) -> str:
    where, lit = case
    numeric = __import__("re").fullmatch(r"-?[0-9]+(\.[0-9]+)?", lit) is not None
    if where == "plain":
        e = Ex(lit)
    elif where == "number":
        e = Ex(lit, "number")
    elif where == "option":
        e = Ex(V("x"), "number", {"opt": lit, "b": "c"})
    elif where == "fn":
        e = Ex(lit, "foo", {"b": "1"}, {"fluent-fn": "FOO"})
    elif where == "term":
        e = Ex("-t", "message", {"opt": lit})
    elif where == "datetime":
        e = Ex(lit, "datetime")
    elif where == "selector":
        msg = SM({"s": Ex(lit, "string")}, (V("s"),), {("a",): ["A"], (CK("b"),): ["B"]})
        src = fluent_serialize_message(msg)
        got = fluent_parse_message(src)
        T.trace()
        same("selector", [dump(x) for x in got.selector_expressions()], [dump(Ex(lit, "string"))], "from", src)
        return "ok"
    elif where == "key":
        msg = SM({"x": Ex(V("x"), "string")}, (V("x"),), {(lit,): ["A"], (CK("zz"),): ["B"]})
        try:
            src = fluent_serialize_message(msg)
        except ValueError:
            need(not numeric and not __import__("re").fullmatch("[a-zA-Z][a-zA-Z0-9_-]*", lit), "refused", lit)
            return "refused"
        got = fluent_parse_message(src)
        T.trace()
        same("variants", [(dump(k), p) for k, p in got.variants.items()], [(dump(k), p) for k, p in msg.variants.items()], "from", src)
        return "ok"
    if where == "number" and not numeric:
        # Not a Fluent number
        try:
            src = fluent_serialize_message(PM([e]))
        except ValueError:
            return "refused"
        got = fluent_parse_message(src)
        T.trace()
        same("text", one(got), (lit,) if lit else (), "from", src)
        return "as text"
    return check(Resource(F, [S((), [E(("m",), PM(["a ", e, " b"])), E(("z",), PM([e]))])]))


EXPRS = {
    "t": "a", "s": " ", "n": "\n", "v": Ex(V("x")), "l": Ex("lit"), "e": Ex(""), "w": Ex(" "), "N": Ex(V("x"), "number", {"a": "1", "b": "c"}),
    "5": Ex("5", "number"), "m": Ex("msg", "message"), "M": Ex("msg.attr", "message"), "T": Ex("-term", "message", {"b": "x", "a": "2"}),
    "D": Ex(V("d"), "datetime", {}, {"fluent-fn": "DATETIME"}), "F": Ex(None, "fn", {}, {"fluent-fn": "FN"}),
    "G": Ex("x", "f_n-1", {"o": "\"\\"}, {"fluent-fn": "F_N-1"}), "[": "[x]", ".": ".y", "*": "*[z]", "{": "{", "}": "}", "#": "#",
}


def judge_parts(case: list) -> str:
    pos, w = case
    return check(Resource(F, [S((), [POSITIONS[pos]([EXPRS[k] for k in w])])]), "variant" in pos)


def thing(k: str, n: int):
    return {
        "m": lambda: E((f"m{n}",), PM([f"v{n}"])),
        "c": lambda: E((f"m{n}",), PM([f"v{n}"]), comment=f"about {n}\n\n  more"),
        "a": lambda: E((f"m{n}",), PM([]), properties={"b": PM(["B"]), "aria": PM([f"A {n}\nx"])}),
        "A": lambda: E((f"m{n}",), PM(["v"]), properties={"accesskey": PM(["k"]), "label": PM([" "]), "value": PM(["v"])}, comment="c"),
        "t": lambda: E((f"-t{n}",), PM([f"v{n}"]), properties={"x": PM([])}),
        "#": lambda: C(f"standalone {n}\n# two"),
        "e": lambda: E((f"e{n}",), PM([])),
    }[k]()


def judge_structure(case: list) -> str:
    comment, info, secs = case
    n = 0
    sections = []
    for scomment, word in secs:
        entries = []
        for k in word:
            n += 1
            entries.append(thing(k, n))
        sections.append(S((), entries, comment=scomment))
    res = Resource(F, sections, comment=comment, meta=[Md("info", info)] if info else [])
    return check(res)


def judge_comment(case: list) -> str:
    where, c = case
    e = E(("m",), PM(["v"]))
    res = Resource(F, [S((), [E(("a",), PM(["a"])), e, E(("z",), PM(["z"]))])])
    if where == "resource":
        res.comment = c
    elif where == "section":
        res.sections.append(S((), [E(("y",), PM(["y"]))], comment=c))
    elif where == "first":
        res.sections[0].comment = c
    elif where == "entry":
        e.comment = c
    elif where == "term":
        e.id = ("-m",)
        e.comment = c
    elif where == "standalone":
        res.sections[0].entries.insert(1, C(c))
    else:
        res.meta = [Md("info", c)]
    return check(res)


LINES = ["a = x", "-b = y", "c =", "    .d = z", "    more", "      in", "", "# c", "#", "## g", "### r", "e = { $v } t", "  {\"\"}", "junk",
         "    { $w }", "d = { FOO($x, y: 1) }", "   ", "    [z"]
INLINE = ["a", " ", "{ $x }", "{ \"q\" }", "\n ", "{", "}", "{ 5 }", "{ { -t } }", "[", ".", "{ \"\\u00e9\\\\\" }", "\n", "{ m.a }", "\"", "{ N($x) }", "{ \"5\" }",
          "{ -t(a: 1) }", "{ -t.a }", "\\", "#", "\r\n", "{ F(1, 2) }"]


def judge_source(src: str) -> str:
    exp = tree_items(src)
    try:
        got = fluent_parse(src)
    except ValueError:
        if exp is not None:
            # Functions with several arguments are refused
            need("1, 2" in src, "rejected", src)
        return "rejected"
    T.trace()
    need(exp is not None, "accepted junk", src)
    gi = items(got)
    order = [x for x in exp if x[0] != "###"]
    same("parsed", canon([x for x in gi if x[0] != "###"]), canon(order), "from", src)
    same("resource comment", [x for line in got.comment.split("\n\n") for x in [line] if x.strip()],
         [y for x in exp if x[0] == "###" for y in x[1].split("\n\n") if y.strip()], "from", src)
    same("bytes", dump(fluent_parse(src.encode())), dump(got))
    same("without positions", dump(fluent_parse(src, with_linepos=False)), dump(got))
    out = "".join(fluent_serialize(got))
    again = fluent_parse(out)
    T.trace()
    same("content after serializing", items(again), gi, "from", out)
    same("serialized again", "".join(fluent_serialize(again)), out)
    return f"{len(got.sections[0].entries)} entries"


def sel_on(e: Ex, **kw) -> SM:
    return SM({"s": e}, (V("s"),), {("a",): ["A"], (CK("b"),): ["B"]})


# What each value matches, best first: as numbers, before categories, before the default
MATCHES = {"1": ("1", "one", "*"), "21": ("one", "*"), "2": ("2", "few", "*"), "22": ("few", "*"), "0.5": ("*",)}


def judge_selection(case: list) -> str:
    fn, rows = case
    keys = [tuple(CK("other" if fn == "number" else "zz") if k == "*" else k for k in row) for row in rows]
    names = ["x", "y"][: len(rows[0])]
    msg = SM({n: Ex(V(n), fn) for n in names}, tuple(V(n) for n in names), {k: ["|".join(row)] for k, row in zip(keys, rows)})
    res = Resource(Format.fluent, [S((), [E(("m",), msg)])])
    try:
        src = ser(res)
    except ValueError as e:
        T.trace()
        need("default" in str(e).lower() or "variant" in str(e), e)
        return "refused"
    for tree in (ftl.parse_ast(src), ftl.parse_ast(ser(fluent_parse(src)))):
        T.trace()
        pat = tree.body[0].value
        for vals in itertools.product(MATCHES, repeat=len(names)):
            given = dict(zip(names, vals))

            def choose(sel):
                e = sel.selector
                var = e.id.name if isinstance(e, ast.VariableReference) else e.arguments.positional[0].id.name
                m = MATCHES[given[var]]
                for v in sel.variants:
                    num = isinstance(v.key, ast.NumberLiteral)
                    if v.key.value in m if num else v.key.name in m:
                        return v
                return next(v for v in sel.variants if v.default)

            # The best match for the first selector, then the second
            best = [r for r in rows if all(k in MATCHES[given[n]] for n, k in zip(names, r))]
            best.sort(key=lambda r: [MATCHES[given[n]].index(k) for n, k in zip(names, r)])
            T.step()
            same("selected", ftl.segs(pat, choose), ["|".join(best[0])], "for", given, "from", src)
    return "ok"


def row_sets(ctx):
    for n in range(1, 5):
        for rows in itertools.permutations([("1",), ("one",), ("2",), ("few",), ("*",)], n):
            if ("*",) in rows:
                yield [list(r) for r in rows]
    two = list(itertools.product(("1", "one", "*"), repeat=2))
    for n in range(1, ctx.pick(4, 5) + 1):
        for rows in itertools.permutations(two, n):
            if ("*", "*") in rows:
                yield [list(r) for r in rows]


FN = {"fluent-fn": "FN"}
BAD_NAMES = ["", " ", "a b", "é", "aé", "1a", "-", "--a", "a.b", "a\n", "a=", "_a", "$a", "[a]", "#a", "a ", " a", "-a", "٣", "a٣", "ª"]
INVALID = {
    "id": lambda n: E((n,), PM(["v"])),
    "term-id": lambda n: E(("-" + n,), PM(["v"])),
    "attribute": lambda n: E(("m",), PM(["v"]), properties={n: PM(["x"])}),
    "variable": lambda n: E(("m",), PM([Ex(V(n))])),
    "selector": lambda n: E(("m",), sel_on(Ex(V(n), "string"))),
    "message": lambda n: E(("m",), PM([Ex(n, "message")])),
    "message-attribute": lambda n: E(("m",), PM([Ex("a." + n, "message")])),
    "option": lambda n: E(("m",), PM([Ex(V("x"), "number", {n: "1"})])),
    "function": lambda n: E(("m",), PM([Ex(V("x"), "fn", {}, {"fluent-fn": n})])),
    "key": lambda n: E(("m",), SM({"x": Ex(V("x"), "string")}, (V("x"),), {(n,): ["A"], (CK("b"),): ["B"]})),
    "default": lambda n: E(("m",), SM({"x": Ex(V("x"), "string")}, (V("x"),), {("c",): ["A"], (CK(n),): ["B"]})),
    "select-on": lambda n: E(("m",), sel_on({
        "": Ex("msg", "message"), " ": Ex("-term", "message"), "a b": Ex("msg.attr", "message"), "é": Ex(V("x"), "fn"),
    }.get(n, Ex("m", "message")))),
    "place": lambda n: E(("m",), PM([{
        "": Ex("-t.a", "message"), " ": Ex("m", "message", {"a": "1"}), "a b": Ex(V("x"), "fn"), "é": M("open", "b"),
        "aé": Ex(None, "number"), "1a": Ex(V("x"), "number", {"a": V("y")}), "-": Ex("-t.a", "message", {"b": "1"}),
    }.get(n, Ex(V("m"), "message"))])),
    "variants": lambda n: E(("m",), SM({"x": Ex(V("x"), "string"), "y": Ex(V("y"), "string")}, (V("x"), V("y")), {
        "": {("a", "b"): ["A"], (CK(), CK()): ["B"]}, " ": {("a", CK()): ["A"]}, "a b": {(CK(),): ["A"]},
        "é": {("a", CK(), CK()): ["A"], (CK(), CK(), CK()): ["A"]}, "aé": {("a", CK()): ["A"], (CK(), "b"): ["A"]},
    }.get(n, {}))),
    "many": lambda n: E(("m", n), PM(["v"])),
}


def judge_invalid(case: list) -> str:
    """What Fluent cannot express is refused, never written with other contents."""
    kind, n = case
    if n == "-a" and kind in ("id", "message") or n == "" and kind == "default" or n == "a.b" and kind == "message":
        return "valid"
    e = INVALID[kind](n)
    try:
        out = "".join(fluent_serialize(Resource(F, [S((), [e, E(("z",), PM(["z"]))])])))
    except ValueError:
        T.trace()
        return "refused"
    raise Bad(f"written as {out!r}")


TEXT = ["a", " ", "\n", "{", "}", "[", ".", "*", "\"", "\\", "#", "=", "-", "\t", "\r", "\u00a0", "\u2028", "é", "$x"]


def ok_comment(c: str) -> bool:
    return c == c.rstrip() and bool(c.strip())


def run(ctx: Ctx) -> None:
    d = ctx.pick(3, 4)
    ctx.space("texts", lambda: (["value", a, s] for s in texts(TEXT, d) for a in AROUND), judge_text,
              note=f"texts of up to {d} of {len(TEXT)} tokens")
    ctx.space("positions", lambda: ([p, a, s] for s in texts(TEXT, d - 1) for p in POSITIONS for a in AROUND
                                    if p != "value" and (p != "str" or a == "")), judge_text,
              note=f"texts of up to {d - 1} of {len(TEXT)} tokens, in {len(POSITIONS)} positions")
    ctx.space("invalid", lambda: ([k, n] for k in INVALID for n in BAD_NAMES), judge_invalid)
    ctx.space("selection", lambda: ([fn, rows] for rows in row_sets(ctx) for fn in ("number", "string")), judge_selection,
              note="messages with one and two selectors and their variants in each order, compared for each value")
    ctx.space("texts-deep", lambda: (["value", "", s] for s in texts("a \n{[", ctx.pick(6, 8), d + 1)), judge_text)
    ctx.space("literals", lambda: ([w, a + b] for w in ("plain", "number", "option", "fn", "term", "datetime", "selector", "key")
                                   for a in LITERALS for b in ["", *LITERALS]), judge_literal)
    ctx.space("parts", lambda: ([p, w] for w in words(EXPRS, ctx.pick(3, 4)) for p in ("value", "term", "variant")), judge_parts,
              note=f"patterns of {len(EXPRS)} kinds of parts")
    word = list(words("mcaAt#e", ctx.pick(2, 3)))
    ctx.space("structures", lambda: ([c, i, s] for c in ("", "res\n\ntwo") for i in ("", "info\n# x")
                                     for s in ([[g, w]] for g in ("", "g") for w in words("mcaAt#e", ctx.pick(4, 5)))), judge_structure)
    ctx.space("sections", lambda: (["", "", [[g, v], [h, w]]] for g in ("", "g") for h in ("", "h\n h") for v in word for w in word), judge_structure)
    ctx.space("three-sections", lambda: (["", "i", [[g, u], [h, v], [k, w]]] for g in ("", "g") for h in ("", "h") for k in ("", "k")
                                         for u in ("", "m", "#") for v in ("", "m", "#", "c") for w in ("", "m", "#", "tc")), judge_structure)
    ctx.space("comments", lambda: ([w, c] for w in ("resource", "section", "first", "entry", "term", "standalone", "info")
                                   for c in texts(["a", " ", "\n", "#", "é", "=", "\u2028"], ctx.pick(4, 6), 1) if ok_comment(c)), judge_comment)
    ctx.space("lines", lambda: ("\n".join(w) + e for w in words(LINES, ctx.pick(4, 5)) for e in ("", "\n")), judge_source,
              note=f"texts of up to {ctx.pick(4, 5)} of {len(LINES)} kinds of lines")
    ctx.space("inline", lambda: ("a = " + s for s in texts(INLINE, ctx.pick(4, 5))), judge_source)
    ctx.assume("Text and literals such as { \"a\" } are the same; attributes are written sorted; positional arguments of terms have no meaning.",
               "Resource comments come first; trailing whitespace of comments, and empty comments, are not kept.",
               "The first standalone comment of a file is its `info` metadata.")
