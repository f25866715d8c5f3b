"""
C43: the message utilities of the JavaScript package.

Every pair of messages, out of all messages of a few parts, is compared by messagesEqual and by a canonical form computed here.
Every message of a few parts and declarations which refer to each other is normalized, and compared with the definition:
texts joined, empty texts dropped, and exactly the declarations dropped which are not reached from the pattern or selectors.
Arguments must remain as they were, and results must not share objects with them.
"""

from __future__ import annotations

import itertools
from typing import Any

import js
from core import REPO, Ctx, T, same, words

LOADED = False
STAR = ("*",)

ARGS: list = [{"_": "x"}, {"_": "y"}, {"_": ""}, {"$": "x"}, {"$": "y"}, {}]
FUNCS: list = [{}, {"fn": "f"}, {"fn": "x"}]
OPTS: list = [{}, {"opt": {}}, {"opt": {"o": "x"}}, {"opt": {"o": {"$": "x"}}}, {"opt": {"o": "x", "p": "x"}}, {"opt": {"p": "x", "o": "x"}},
              {"opt": {"o": ""}}, {"opt": {"o": {"$": "y"}}}, {"opt": {"constructor": "x"}}]
ATTRS: list = [{}, {"attr": {}}, {"attr": {"a": True}}, {"attr": {"a": "true"}}, {"attr": {"a": ""}}, {"attr": {"a": True, "b": "x"}},
               {"attr": {"b": "x", "a": True}}, {"attr": {"constructor": "x"}}]
NAMED: list = [{"open": "x"}, {"close": "x"}, {"elem": "x"}, {"open": "y"}]


def expressions(opts, attrs):
    for a, f, o, t in itertools.product(ARGS, FUNCS, opts, attrs):
        if (a or f) and (f or "opt" not in o):
            yield {**a, **f, **o, **t}


def markup(opts, attrs):
    for n, o, t in itertools.product(NAMED, opts, attrs):
        yield {**n, **o, **t}


SOME: list = ["", "a", "b", "x", {"_": "x"}, {"$": "x"}, {"$": "y"}, {"fn": "x"}, {"$": "x", "fn": "f", "opt": {"o": {"$": "y"}}}, {"open": "x"}, {"elem": "x"}]
KEYS: list = ["", "x", "*", {"*": ""}, {"*": "x"}]


def messages(quick: bool):
    parts = [*expressions(OPTS, ATTRS), *markup(OPTS, ATTRS)]
    few = [*expressions(OPTS[:4], ATTRS[:1]), *expressions(OPTS[:1], ATTRS[:4])]
    for p in parts:
        yield [p]
    for w in words(SOME, 2 if quick else 3):
        yield list(w)
        if len(w) < 3:
            yield {"decl": {}, "msg": list(w)}
    for d in few:
        yield {"decl": {"x": d}, "msg": ["a"]}
    d1, d2, d3 = {"$": "x", "fn": "f"}, {"$": "x"}, {"_": "1", "fn": "g"}
    ds = [{"x": a} for a in (d1, d2, d3)] + [{n: a, m: b} for n, m in (("x", "y"), ("y", "x"), ("x", "constructor"), ("constructor", "toString")) for a in (d1, d2) for b in (d1, d2, d3)]
    for d in ds:
        for w in words(["a", {"$": "x"}], 1):
            yield {"decl": d, "msg": list(w)}
        names = list(d)
        for sel in [[n] for n in names] + ([names, names[::-1]] if len(names) > 1 else []):
            if d is ds[0] or d is ds[3] or d is ds[9]:
                for n in range(1, 3):
                    for ks in itertools.product(itertools.product(KEYS if len(sel) < 2 and n < 2 else KEYS[1:], repeat=len(sel)), repeat=n):
                        if len(sel) * n > (2 if quick else 3):
                            continue
                        for pats in ([[["a"]] * n, [["a"]] * (n - 1) + [[]]]):
                            yield {"decl": d, "sel": sel, "alt": [{"keys": list(k), "pat": p} for k, p in zip(ks, pats)]}
            else:
                for pat in ([], ["a"], [""], [{"$": "x"}]):
                    yield {"decl": d, "sel": sel, "alt": [{"keys": [{"*": ""}] * len(sel), "pat": pat}]}


def c_part(p: Any) -> Any:
    if isinstance(p, str):
        return p
    return (tuple(p.get(k) for k in ("_", "$", "fn", "open", "close", "elem")),
            frozenset((k, v if isinstance(v, str) else ("$", v["$"])) for k, v in p.get("opt", {}).items()),
            frozenset((k, (type(v).__name__, v)) for k, v in p.get("attr", {}).items()))


def canon(m: Any) -> Any:
    if isinstance(m, list):
        return tuple(map(c_part, m))
    decl = frozenset((k, c_part(v)) for k, v in m["decl"].items())
    if "msg" in m:
        return ("msg", decl, canon(m["msg"])) if decl else canon(m["msg"])
    return ("sel", decl, tuple(m["sel"]), tuple((tuple(k if isinstance(k, str) else STAR for k in v["keys"]), canon(v["pat"])) for v in m["alt"]))


ALL: list = []
CLASSES: dict = {}


def judge_equal(i: int) -> str:
    global LOADED
    if not LOADED:
        LOADED = True
        js.call("load", ALL)
    exp = CLASSES[canon(ALL[i])]
    T.trace(len(ALL))
    got = js.call("equalAll", i)
    if got != exp:
        wrong = sorted({*got} ^ {*exp})[0]
        same("messagesEqual", wrong in got, wrong in exp, "for", ALL[i], "and", ALL[wrong])
    return "alone" if len(exp) == 1 else "shared"


def refs(p: Any) -> list:
    if isinstance(p, str):
        return []
    return ([p["$"]] if "$" in p else []) + [v["$"] for v in p.get("opt", {}).values() if not isinstance(v, str)]


def n_pattern(pat: list) -> list:
    out: list = []
    for p in pat:
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        elif p != "":
            out.append(p)
    return out


def normalized(m: Any) -> Any:
    if isinstance(m, list):
        return n_pattern(m)
    pats = [m["msg"]] if "msg" in m else [v["pat"] for v in m["alt"]]
    used = {*m.get("sel", ())} | {r for pat in pats for p in pat for r in refs(p)}
    while True:
        more = {r for n in used if n in m["decl"] for r in refs(m["decl"][n])} - used
        if not more:
            break
        used |= more
    decl = {k: v for k, v in m["decl"].items() if k in used}
    if "msg" in m:
        return {"decl": decl, "msg": n_pattern(m["msg"])} if decl else n_pattern(m["msg"])
    return {"decl": decl, "sel": m["sel"], "alt": [{"keys": v["keys"], "pat": n_pattern(v["pat"])} for v in m["alt"]]}


def judge_utils(m: Any) -> str:
    pats = [m] if isinstance(m, list) else [m["msg"]] if "msg" in m else [v["pat"] for v in m["alt"]]
    empty = [all(p == "" for p in pat) for pat in pats]
    same("messageIsEmpty", js.call("isEmpty", m), all(empty))
    same("messageIsEmpty, any variant", js.call("isEmpty", m, True), any(empty))
    same("isSelectMessage", js.call("isSelect", m), isinstance(m, dict) and "sel" in m)
    got, after, shared = js.call("normalize", m)
    exp = normalized(m)
    same("normalized", got, exp, "from", m)
    if isinstance(got, dict):
        same("order of declarations", list(got["decl"]), list(exp["decl"]))
    same("message after normalizing", after, m)
    same("objects of the message in the result", shared, False)
    same("normalized again", js.call("normalize", got)[0], got)
    T.trace(6)
    for pat in pats:
        for p in pat:
            ex = isinstance(p, dict) and any(k in p for k in ("_", "$", "fn"))
            same("isExpression, isMarkup", js.call("guards", p), [ex, isinstance(p, dict) and not ex], "for", p)
    return "same" if got == m else "changed"


DECLS: list = [{"$": "x", "fn": "f"}, {"_": "1"}, {"fn": "f"}, *[{"$": n} for n in ("x", "y", "z", "constructor", "w")],
               {"_": "1", "fn": "f", "opt": {"o": {"$": "y"}}}, {"$": "z", "fn": "f", "opt": {"o": {"$": "x"}, "p": "y"}}, {"fn": "f", "opt": {"toString": {"$": "toString"}}}]


def decl_messages(n: int):
    """Messages whose declarations refer to each other, in all ways."""
    names = ["x", "y", "z", "constructor", "toString"]
    pats: list = [[], ["a", "", "b"], [{"$": "x"}], ["a", {"_": "1", "fn": "f", "opt": {"o": {"$": "y"}}}, "b"], [{"open": "m", "opt": {"o": {"$": "z"}}}, ""], [{"$": "constructor"}], [{"$": "w"}, {"$": "toString"}]]
    pats.append([{"$": "x", "fn": "f", "opt": {"o": {"$": "y"}, "p": {"$": "constructor"}}}])
    for k in range(n + 1):
        for ns in itertools.permutations(names, k):
            if k > 2 and list(ns) != sorted(ns):
                continue
            for ds in itertools.product(DECLS, repeat=k):
                decl = dict(zip(ns, ds))
                for pat in pats:
                    yield {"decl": decl, "msg": pat}
                for s in ns[:2]:
                    yield {"decl": decl, "sel": [s], "alt": [{"keys": ["1"], "pat": [""]}, {"keys": [{"*": "o"}], "pat": ["a", "b", {"$": "y"}]}]}


def run(ctx: Ctx) -> None:
    js.build(ctx.scratch(), REPO)
    ALL.extend(messages(ctx.quick))
    for i, m in enumerate(ALL):
        CLASSES.setdefault(canon(m), []).append(i)
    ctx.space("equality", lambda: range(len(ALL)), judge_equal, note="every pair of the messages")
    ctx.space("messages", lambda: iter(ALL), judge_utils, note="every message")
    ctx.space("patterns", lambda: (list(w) for w in words(SOME, ctx.pick(3, 4))), judge_utils)
    ctx.space("variants", lambda: ({"decl": {"x": {"$": "x", "fn": "f"}}, "sel": ["x"], "alt": [{"keys": [{"*": ""} if i == n - 1 else str(i)], "pat": p} for i, p in enumerate(pats)]}
                                   for n in range(1, ctx.pick(4, 5)) for pats in itertools.product([[], [""], ["", ""], ["a"], ["", {"$": "x"}]], repeat=n)), judge_utils)
    ctx.space("declarations", lambda: decl_messages(ctx.pick(2, 3)), judge_utils, note="declarations which refer to each other in all ways")
    ctx.assume("The packages and browser classes that aren't installed here are not used by the functions checked")
