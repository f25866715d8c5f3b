"""
C15: message validation accepts exactly the valid messages.

The oracle is a predicate written from the data model's definition.  Messages are built from slots (the name, operand, function,
options and attributes of a declaration, of an expression and of markup; the selectors, keys, patterns and their containers), each
with valid values and values of every wrong shape; every combination of up to three slots' values is tried, the others being valid.
Declarations: every set, in every order, of declarations that use each other, with every selector.
Validation may only reorder declarations, and must leave each after those it uses.
"""

from __future__ import annotations

import itertools
import re
from collections import OrderedDict

import mf2
from checks import c12, c13
from core import Bad, Ctx, T, need, same, texts, words
from moz.l10n.formats.mf2.message_parser import MF2ParseError, mf2_parse_message
from moz.l10n.formats.mf2.validate import MF2ValidationError, mf2_validate_message
from util import *

NAME = re.compile(mf2.CORE)
IDENT = re.compile(f"{mf2.CORE}(?::{mf2.CORE})?")


def is_name(x) -> bool:
    return isinstance(x, str) and bool(NAME.fullmatch(x))


def is_ident(x) -> bool:
    return isinstance(x, str) and bool(IDENT.fullmatch(x))


def is_value(x) -> bool:
    return isinstance(x, str) or (isinstance(x, V) and is_name(x.name))


def is_options(x) -> bool:
    return isinstance(x, dict) and all(is_ident(k) and is_value(v) for k, v in x.items())


def is_attributes(x) -> bool:
    return isinstance(x, dict) and all(is_ident(k) and (v is True or isinstance(v, str)) for k, v in x.items())


def is_expr(x) -> bool:
    if not isinstance(x, Ex) or not (x.arg is None or is_value(x.arg)) or not is_attributes(x.attributes):
        return False
    if x.function is None:
        return x.arg is not None and isinstance(x.options, dict) and not x.options
    return is_ident(x.function) and is_options(x.options)


def is_markup(x) -> bool:
    return (isinstance(x, M) and x.kind in ("open", "close", "standalone") and is_ident(x.name)
            and is_options(x.options) and is_attributes(x.attributes))


def is_pattern(x) -> bool:
    return isinstance(x, (list, tuple)) and all(isinstance(p, str) or is_expr(p) or is_markup(p) for p in x)


def uses(name: str, e: Ex) -> set:
    used = {v.name for v in e.options.values() if isinstance(v, V)}
    if isinstance(e.arg, V) and e.arg.name != name:
        used.add(e.arg.name)
    return used


def is_declarations(x) -> bool:
    if not isinstance(x, dict) or not all(is_name(k) and is_expr(v) for k, v in x.items()):
        return False
    left = dict(x)  # take away what uses nothing that is left, until nothing more can be taken
    while left:
        free = [k for k, v in left.items() if not uses(k, v) & left.keys()]
        if not free:
            return False
        for k in free:
            del left[k]
    return True


def is_message(m) -> bool:
    if isinstance(m, PM):
        return is_declarations(m.declarations) and is_pattern(m.pattern)
    if not isinstance(m, SM) or not is_declarations(m.declarations):
        return False
    if not isinstance(m.selectors, tuple) or not m.selectors:
        return False
    for s in m.selectors:
        if not isinstance(s, V) or not is_name(s.name):
            return False
        name = s.name
        while True:
            e = m.declarations.get(name)
            if e is None:
                return False
            if e.function is not None:
                break
            if not isinstance(e.arg, V) or e.arg.name == name:
                return False
            name = e.arg.name
    n = len(m.selectors)
    if not isinstance(m.variants, dict):
        return False
    for keys, pat in m.variants.items():
        if not isinstance(keys, tuple) or len(keys) != n or not all(isinstance(k, (str, CK)) for k in keys) or not is_pattern(pat):
            return False
    return (CK(),) * n in m.variants


def check(m) -> str:
    ok = is_message(m)
    shape = None
    if ok:
        shape = dump(m)
    T.trace()
    try:
        mf2_validate_message(m)
    except MF2ValidationError:
        need(not ok, "valid message rejected:", m)
        return "invalid"
    need(ok, "invalid message accepted:", m)
    if m.declarations:
        seen: set = set()
        for k, e in m.declarations.items():
            need(not uses(k, e) & (m.declarations.keys() - seen), f"declarations out of order: ${k} in", m)
            seen.add(k)
        after = dump(m)
        same("declarations", sorted(after[1], key=repr), sorted(shape[1], key=repr))
        same("contents", after[2:], shape[2:])
    else:
        same("message", dump(m), shape)
    return "valid"


NAMES = ["x", "\u00e9.-1", "", "1x", "a b", "n:x", "x\n", None, 5, ("x",), True]
IDENTS = ["f", "n:f", "\u00e9.-1:a1", "", "n:", ":f", "a:b:c", "1f", "n:1", "n :f", "f\n", 5, True, ("f",), "\u06d0", "a\u0300", "\u0300"]
ARG = [None, "", "a\0", V("y"), V("x"), V(""), V("1"), V("a:b"), V(None), 5, True, ["a"], Ex("a"), M("open", "a"), CK(), b"a"]
OPTIONS = [{}, {"o": "v"}, {"o": V("y")}, {"n:o": ""}, {"o": V("")}, {"o": True}, {"o": None}, {"o": 5}, {"o": Ex("a")}, {"": "v"}, {"1": "v"},
           {5: "v"}, {"a:b:c": "v"}, {"o": "v", "p": 1}, None, [], "", [("o", "v")], OrderedDict(o="v"), {"o": V("n:y")}, {"o": V("y\n")}, {"o\n": "v"}]
ATTRIBUTES = [{}, {"t": True}, {"t": ""}, {"n:t": "v"}, {"t": False}, {"t": None}, {"t": 1}, {"t": 0}, {"t": V("x")}, {"": True}, {"1": True}, {5: True},
              {"a": True, "b": 5}, None, [], "", ["t"], OrderedDict(t=True), {"a:b:c": True}, {"t\n": "v"}]
KINDS = ["open", "standalone", "close", "", "Open", None, 5]
EXTRA = [None, "", "a", 5, None, [], ["a"], b"a", V("x"), True, CK(), {}, Ex(None), Ex("a", None, {"o": "v"}), Ex(None, "f"), Ex("", "")]
PATTERNS = [[], [""], ["a", "b"], (), ("a",), "", "a", None, 5, ["a", None], [["a"]], True]
SELECTORS = [(V("x"),), (V("x"), V("x")), (V("x"), V("y")), (V("y"),), (), [V("x")], (V(""),), ("x",), (V("z"),), None, "x", V("x"), (V("x"), "x"),
             (V("w"),), (V(5),), {"x": 1}, (None,), (V("v"),)]
KEYSETS = [None, [("a",)], [("*",)], [(5,)], [(None,)], [(V("x"),)], [()], ["a"], [5], [None], [("a", "b")], [(CK(), CK())], [("a", CK()), (CK(), "a")], ["x"], [CK()], [(True,)], [(b"a",)]]
FALLBACK = [None, (CK(),), (CK("other"),), (CK(), CK()), (CK("a"), CK("b")), (CK(), "*"), ("*",), CK()]

SLOTS = {
    "name": NAMES, "darg": ARG, "dfunc": IDENTS + [None], "dopts": OPTIONS, "dattrs": ATTRIBUTES,
    "arg": ARG, "func": IDENTS + [None], "opts": OPTIONS, "attrs": ATTRIBUTES,
    "kind": KINDS, "elem": IDENTS + [None], "mopts": OPTIONS, "mattrs": ATTRIBUTES,
    "extra": EXTRA, "pattern": PATTERNS, "decls": [None, 0, 1, 2], "selectors": SELECTORS, "keys": KEYSETS, "fallback": FALLBACK, "variants": [None, 0, 1, 2],
}
BASE = {"name": "d", "darg": "1", "dfunc": "f", "dopts": {}, "dattrs": {}, "arg": "a", "func": "f", "opts": {}, "attrs": {}, "kind": "open", "elem": "b",
        "mopts": {}, "mattrs": {}, "extra": None, "pattern": ["p"], "decls": None, "selectors": (V("x"),), "keys": None, "fallback": (CK(),), "variants": None}


def judge_slots(c) -> str:
    v = dict(BASE)
    for slot, i in c:
        v[slot] = SLOTS[slot][i]

    def build(select: bool):
        decls = {"x": Ex(V("x"), "f"), "y": Ex(V("x")), "w": Ex("1"), "v": Ex(V("u"))}
        try:
            decls[v["name"]] = Ex(v["darg"], v["dfunc"], v["dopts"], v["dattrs"])
        except TypeError:
            return None
        if v["decls"] is not None:
            decls = [None, list(decls.items()), {"x": "f", **decls, "q": "a"}][v["decls"]]
        pattern = v["pattern"]
        if pattern == ["p"]:
            pattern = ["p", Ex(v["arg"], v["func"], v["opts"], v["attrs"]), M(v["kind"], v["elem"], v["mopts"], v["mattrs"])]
            if v["extra"] is not None:
                pattern.append(v["extra"])
        if not select:
            return PM(pattern, decls)
        variants = {}
        for k in v["keys"] or []:
            try:
                variants[k] = ["k"]
            except TypeError:
                return None
        if v["fallback"] is not None:
            variants[v["fallback"]] = pattern
        if v["variants"] is not None:
            variants = [None, list(variants.items()), {**variants, ("zz",): None}][v["variants"]]
        return SM(decls, v["selectors"], variants)

    res = []
    for select in (False, True):
        m = build(select)
        if m is not None:
            res.append(check(m))
    return "/".join(res)


def judge_decls(c) -> str:
    res = check(PM(["a"], c12.decls(c)))
    for n in range(1, 3):
        for sel in itertools.product("xyzwa", repeat=n):
            check(SM(c12.decls(c), tuple(map(V, sel)), {(CK(),) * n: []}))
    return res


def judge_cps(start: int) -> str:
    n = 0
    for cp in range(start, start + 64):
        ch = chr(cp)
        for m in (PM([Ex(V(ch))]), PM([Ex(V("a" + ch))]), PM([Ex(None, "n:" + ch)]), PM([M("open", ch)]), PM([Ex("a", "f", {"a" + ch: "b"})])):
            n += check(m) == "valid"
    return "names" if n else "none"


def judge_parsed(src: str) -> str:
    try:
        m = mf2_parse_message(src)
    except MF2ParseError:
        return "rejected"
    need(check(m) == "valid", "parsed message is not valid:", src)
    return "valid"


def judge_other(i: int) -> str:
    others = [None, "", "a", [], ["a"], {}, 5, Ex("a"), M("open", "a"), V("x"), CK(), E(("a",), PM(["a"])), PM, SM]
    return check(others[i])


def slots(ctx: Ctx):
    yield []
    for s, vals in SLOTS.items():
        for i in range(len(vals)):
            yield [[s, i]]
    for a, b in itertools.combinations(SLOTS, 2):
        for i in range(len(SLOTS[a])):
            for j in range(len(SLOTS[b])):
                yield [[a, i], [b, j]]
    trios = [("name", "darg", "dopts"), ("darg", "dfunc", "dopts"), ("arg", "func", "opts"), ("kind", "elem", "mopts"), ("selectors", "keys", "fallback"),
             ("name", "darg", "selectors"), ("darg", "dfunc", "selectors"), ("pattern", "fallback", "selectors")]
    if not ctx.quick:
        trios = list(itertools.combinations(SLOTS, 3))
    for a, b, d in trios:
        for i in range(len(SLOTS[a])):
            for j in range(len(SLOTS[b])):
                for k in range(len(SLOTS[d])):
                    yield [[a, i], [b, j], [d, k]]


def run(ctx: Ctx) -> None:
    d = ctx.pick
    ctx.space("slots", lambda: slots(ctx), judge_slots, note="every one, two and (related, or in thorough all) three deviations from a valid message")
    ctx.space("declarations", lambda: (list(w) for n in range(d(5, 6)) for w in itertools.permutations(c12.DECLS, n) if len({x[0] for x in w}) == n),
              judge_decls, note="every set of declarations in every order, with every one or two selectors")
    ctx.space("characters", lambda: range(0, d(0x3100, 0x110000), 64), judge_cps, note="every code point in names")
    ctx.space("names", lambda: texts(["a", ":", "-", ".", "0", "\u0300", " ", "\u200e"], d(4, 5)), lambda s: check(PM([Ex(V(s), s), M("open", s, {s: ""}, {s: True})])) + check(PM([Ex(None, s)])) + check(PM([Ex(V(s))])))
    ctx.space("parsed", lambda: ("\n".join(w) for w in words(c13.WHOLE, d(3, 4))), judge_parsed, note="what the parser accepts is valid")
    ctx.space("other values", lambda: range(14), judge_other)
