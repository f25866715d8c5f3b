"""
C44: the JavaScript package writes and reads messages as the Python library does.

MessageFormat 2: the messages of C12 (every text in each position, every expression and markup, declarations, variants), written in
JavaScript and read in Python.  Properties, webext and plain: every text up to a depth, read and written by both.
Fluent: every text in each position, every expression with every set of declarations, every ordered set of variants for up to three
selectors, and every value with every set of properties, written by both and read in Python; what one refuses, the other must refuse.
"""

from __future__ import annotations

import itertools
import re
from copy import deepcopy

import js
from checks import c12, c13
from core import REPO, Bad, Ctx, T, need, same, texts, words
from moz.l10n.formats.mf2.message_parser import MF2ParseError, mf2_parse_message
from moz.l10n.formats.mf2.serialize import mf2_serialize_message
from moz.l10n.formats.mf2.validate import MF2ValidationError, mf2_validate_message
from moz.l10n.message import entry_to_json, message_from_json, message_to_json, parse_message, serialize_message
from util import *


def check_mf2(msg, invalid_ok: bool = False) -> str:
    try:
        mf2_validate_message(msg)
    except MF2ValidationError:
        return "invalid"
    T.trace()
    exp = dump(c12.norm(msg), False)
    json = message_to_json(msg)
    try:
        src = js.call("mf2", json)
    except js.JSError as err:
        raise Bad(f"{err} for {json}")
    T.trace()
    try:
        got = mf2_parse_message(src)
    except MF2ParseError as err:
        raise Bad(f"{json} serialized as {src!r}, which does not parse: {err}".split("\n")[0])
    same("parsed", dump(got, False), exp, "from", src)
    return type(msg).__name__


def with_check(judge):
    def run(case):
        c12.check, py = check_mf2, c12.check
        try:
            return judge(case)
        finally:
            c12.check = py
    return run


def pattern_json(msg) -> list:
    json = message_to_json(msg)
    return json if isinstance(json, list) else json["msg"]


def untrue(json):
    """Joins texts, and leaves out empty attributes."""
    out: list = []
    for p in json:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != "":
            out.append(p)
    return out


def judge_properties(src: str) -> str:
    T.trace(3)
    if src == src.lstrip(" \t\f") and not re.search(r"[\n\r]|(?<!\\)(\\\\)*\\$", src):
        # One line as a value: neither indented nor continued on the next
        same("parsed", js.call("parse", "properties", src), pattern_json(parse_message(Format.properties, src)))
    # The same text as a message to write
    out = js.call("ser", "properties", [src])
    got = parse(Format.properties, f"k = {out}\nl = x\n")
    same("written as value", [(e.id, dump(e.value)) for e in got.all_entries()],
         [(("k",), dump(PM([src] if src else []))), (("l",), dump(PM(["x"])))], "from", out)
    same("read again", js.call("parse", "properties", out), [src] if src else [])
    same("spaces escaped at its ends", re.search(r"^[ \t\f]|(?<!\\) $", out), None, "in", out)
    same("split", js.call("ser", "properties", [src[:1], src[1:]]), out)
    same("source", js.call("ser", "properties", ["a", {"$": "v", "attr": {"source": src}}, "b"]), js.call("ser", "properties", ["a", src, "b"]))
    return "equal"


PH = {"a": {"content": "$1"}, "b_1": {"content": "x", "example": "y"}, "1c": {"content": "$9"}, "0c": {"content": "z"}, "d@": {"content": ""}}


def judge_webext(src: str) -> str:
    same("text written", parse_message(Format.webext, js.call("ser", "webext", [src]), webext_placeholders={}), PM([src] if src else []))
    T.trace(2)
    try:
        msg = parse_message(Format.webext, src, webext_placeholders=PH)
    except ValueError:
        for base in ([], {"decl": {}, "msg": []}):
            try:
                got = js.call("parse", "webext", src, {"webextBaseMsg": base})
            except js.JSError as err:
                same("error", err.name, "ParseError")
            else:
                raise Bad(f"accepted with {base}: {got}")
        return "error"
    base = message_to_json(msg)
    got = js.call("parse", "webext", src, {"webextBaseMsg": base})
    same("parsed", got, pattern_json(msg))
    out = js.call("ser", "webext", got)
    same("written", out, serialize_message(Format.webext, msg))
    same("written again", js.call("parse", "webext", out, {"webextBaseMsg": base}), got)
    return type(base).__name__


def judge_plain(parts) -> str:
    T.trace(2)
    src = "".join(p for p in parts if isinstance(p, str))
    same("parsed", js.call("parse", "plain", src), message_to_json(parse_message(Format.plain_json, src)))
    texts_only = all(isinstance(p, str) for p in parts)
    for f in ("plain", "properties", "nope"):
        try:
            got = js.call("ser", f, parts)
        except js.JSError as err:
            same("error", err.name, "SerializeError")
            need(f == "nope" or not texts_only, "refused by", f)
        else:
            need(f != "nope" and texts_only, "accepted by", f, got)
            if f == "plain":
                same("written", got, src)
    return "text" if texts_only else "other"


def fluent_entry(entry, strict: bool = True) -> tuple:
    T.trace(2)
    try:
        res = parse_resource(Format.fluent, "".join(serialize_resource(Resource(Format.fluent, [S((), [entry])]))))
    except ValueError:
        py = None
    else:
        py = [(e.id, dump(merged(e.value)), [(k, dump(merged(v))) for k, v in e.properties.items()]) for e in res.all_entries()]
    json = entry_to_json(entry)[1]
    try:
        src = js.call("fluentEntry", entry.id[0], json)
    except js.JSError as err:
        same("error", err.name, "SerializeError", "for", json)
        need(not strict or py is None, "refused in JS:", str(err), json)
        return "refused"
    need(py is not None, "refused in Python but not in JS:", json, src)
    try:
        got = parse_resource(Format.fluent, src)
    except ValueError as err:
        raise Bad(f"{json} written as {src!r}, which does not parse: {err}".replace("\n", " "))
    same("written", [(e.id, dump(merged(e.value)), [(k, dump(merged(v))) for k, v in e.properties.items()]) for e in got.all_entries()], py, "as", src)
    return "equal"


def judge_fluent_text(v: str) -> str:
    if v != v.strip():
        return 'skip'
    x = {"x": Ex(V("x"), "number")}
    fluent_entry(E(("k",), PM([v])))
    fluent_entry(E(("k",), PM([v, Ex(V("x"))])))
    fluent_entry(E(("k",), PM([Ex(V("x")), v])))
    fluent_entry(E(("k",), PM(["a", v, "b"])))
    fluent_entry(E(("k",), PM([Ex(v)])))
    fluent_entry(E(("k",), PM([Ex(v, "f", {"o": v}, {"fluent-fn": "F"})])))
    fluent_entry(E(("k",), PM(["z"]), properties={"p": PM([v])}))
    return fluent_entry(E(("k",), SM(x, (V("x"),), {("one",): [v], (CK("other"),): ["a", v]})))


F_ARGS = [None, "", "a", "1", "-t", "a.b", "-t.b", "t u", V("x"), V("1x"), V("constructor")]
F_FUNCS = [None, "string", "number", "datetime", "message", "f"]
F_OPTS: list = [{}, {"o": "1"}, {"b": "x", "a": "-1.5"}, {"o": V("x")}]
F_ATTRS: list = [{}, {"fluent-fn": "FN"}, {"fluent-fn": True}, {"t": "u"}]
F_DECLS: list = [{}, {"x": Ex(V("x"), "number")}, {"x": Ex(V("x"), "datetime", {"o": "1"})}, {"x": Ex(V("y"), "string")},
                 {"x": Ex("-t.b", "message")}, {"x": Ex("1", "number")}, {"x": Ex(V("y")), "y": Ex(V("y"), "number", {"b": "2"})},
                 {"x": Ex(V("x"), "f", {}, {"fluent-fn": "FN"})}]


def judge_fluent_expr(c) -> str:
    a, f, o, t, d = c
    if F_ARGS[a] is None and F_FUNCS[f] is None or o and F_FUNCS[f] is None:
        return "invalid"
    if d and F_FUNCS[f] is not None:
        return "invalid"  # A function of a placeholder and of its declaration are combined differently
    e = Ex(F_ARGS[a], F_FUNCS[f], dict(F_OPTS[o]), dict(F_ATTRS[t]))
    decl = dict(F_DECLS[d])
    res = fluent_entry(E(("k",), PM([e], decl)))
    fluent_entry(E(("k",), PM(["a ", e, " b", M("open", "m") if o == 1 and not t else e], decl)))
    if d == 0:
        fluent_entry(E(("k",), SM({"s": e}, (V("s"),), {("a",): ["x"], (CK(),): ["y", Ex("z")]})))
    return res


F_KEYS = ["a", "1", "other", "-1.5", "b-_2", None, ["c"], ["other1"]]
F_SELS = {"x": Ex(V("x"), "number"), "y": Ex(V("y"), "string"), "z": Ex("-t.b", "message"), "u": Ex(V("x"), "number", {"o": "1"}), "v": Ex(V("v"), "f", {}, {"fluent-fn": "FN"})}


def judge_fluent_select(c) -> str:
    sels, keysets = c
    variants = {tuple(CK(k[0]) if isinstance(k, list) else CK() if k is None else k for k in ks): ([str(i)], [], ["a\nb", Ex(V("x"))], [Ex(V(sels[0]))])[i % 4] for i, ks in enumerate(keysets)}
    return fluent_entry(E(("k",), SM({s: F_SELS[s] for s in sels}, tuple(map(V, sels)), variants)))


F_VALUES = [PM([]), PM(["a"]), PM(["a\nb"]), PM([Ex(V("x"))]), PM([""]), SM({"x": Ex(V("x"), "number")}, (V("x"),), {("a",): [], (CK(),): ["b"]})]


def judge_fluent_entry(c) -> str:
    id, value, props = c
    return fluent_entry(E((id,), deepcopy(F_VALUES[value]), properties={k: deepcopy(F_VALUES[v]) for k, v in props}))


def keysets(n: int, m: int, ids=None):
    """Variants which are ordered by their keys, ending with the default."""
    # The default keys of one selector have the same name
    rows = list(itertools.product(ids or range(len(F_KEYS) if n == 1 else 6), repeat=n))
    for k in range(m):
        for w in itertools.combinations(rows, k):
            yield [[F_KEYS[i] for i in row] for row in w] + ([[None] * n] if tuple([5] * n) not in w else [])


def run(ctx: Ctx) -> None:
    ctx.assume("The packages and browser classes that aren't installed here are not used by the functions checked")
    js.build(ctx.scratch(), REPO)
    d = ctx.pick
    ctx.space("mf2-literals", lambda: texts(c12.LIT, d(2, 3)), with_check(c12.judge_literal), note="each text in every position a literal or text may take")
    ctx.space("mf2-numbers", lambda: texts(list("019-+.eEx\u0663"), d(4, 6), 1), with_check(c12.judge_literal))
    ctx.space("mf2-parts", lambda: ([p] for p in c12.all_parts()), with_check(c12.judge_pattern), note="every expression and markup")
    ctx.space("mf2-patterns", lambda: (list(w) for w in words(c12.FEW, d(3, 4))), with_check(c12.judge_pattern))
    ctx.space("mf2-declarations", lambda: (list(w) for n in range(d(4, 5)) for w in itertools.permutations(c12.DECLS, n) if len({x[0] for x in w}) == n), with_check(c12.judge_decls))
    ctx.space("mf2-variants", lambda: ([1, [list(k) for k in w]] for n in range(1, d(5, 6)) for w in itertools.permutations([(k,) for k in c12.KEYS], n)), with_check(c12.judge_select))
    ctx.space("mf2-selectors", lambda: ([2, [list(k) for k in w] + [[None, None]]] for n in range(d(3, 4)) for w in itertools.permutations(list(itertools.product(c12.KEYS, repeat=2)), n)), with_check(c12.judge_select))
    ctx.space("properties", lambda: texts(list("anrtfu0aF\\ \n\t\r\f#=:!é€%{") + ["\\u", "\\n", "\x00", "\x1a", "\x1f", "\x7f", "\x85", "\xa0", "\u2028", "\ufeff", "\U0001f600", "0041"], d(3, 4)), judge_properties, note="every text")
    ctx.space("webext", lambda: texts(["$", "a", "A", "b_1", "B_1", "1c", "0c", "d@", "D_", "1", "9", "0", " ", "$a$", "$1", "\n", "é", "x"], d(4, 5)), judge_webext, note="every text")
    ctx.space("plain", lambda: (list(w) for w in words(["", "a", "\n", "é", {"$": "a"}, {"_": "b"}, {"fn": "c"}, {"open": "d"}], d(4, 5))), judge_plain, note="every text")
    ctx.space("fluent-text", lambda: texts(["a", " ", "\n", "{", "}", "[", "*", ".", "\\", '"', "é", "#", "=", "\t", "\x85", "\u2028", "1", "-"], d(3, 4)), judge_fluent_text, note="every text")
    ctx.space("fluent-expressions", lambda: map(list, itertools.product(range(len(F_ARGS)), range(len(F_FUNCS)), range(len(F_OPTS)), range(len(F_ATTRS)), range(len(F_DECLS)))), judge_fluent_expr, note="every expression with every set of declarations")
    ctx.space("fluent-selectors", lambda: ([list(sels), ks] for sels, m in [*((s, d(4, 6)) for s in F_SELS), *((s, d(3, 4)) for s in itertools.permutations("xyz", 2))] for ks in keysets(len(sels), m)), judge_fluent_select, note="every ordered set of variants")
    ctx.space("fluent-nested", lambda: ([list(sels), ks] for n, m, ids in ((2, d(5, 9), (0, 4, 5)), (3, 9, (0, 5))) for sels in itertools.permutations("xyzuv", n) for ks in keysets(n, m, ids)), judge_fluent_select, note="every ordered set of variants with several selectors")
    ctx.space("fluent-entries", lambda: ([id, v, [list(p) for p in zip(names, ps)]] for id in ("k", "-k", "k-1_B", "1", "-", "a.b", "") for v in range(len(F_VALUES)) for n in range(d(3, 4)) for names in itertools.permutations(["p", "accesskey", "xAccesskey", "B", "a-1", "é"], n) for ps in itertools.product(range(len(F_VALUES)), repeat=n)), judge_fluent_entry, note="every value and set of properties")
