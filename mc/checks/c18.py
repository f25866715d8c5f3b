"""
C18: localization equality is an equivalence that sees every content change.

The oracle gives each resource a canonical form, a multiset built from what the documentation says is compared; two resources
are to be equal exactly when their canonical forms are.  As that is the kernel of a function, it decides reflexivity, symmetry and
transitivity for all triples.  Compared are all pairs of the resources given by short sequences of sections (with ids, comments, metadata)
and entries, and every resource of larger families with every variation of each of its fields and each reordering.
"""

from __future__ import annotations

import itertools
from collections import Counter

from core import Bad, Ctx, T, need, same, texts, words
from moz.l10n.resource import l10n_equal
from util import *

HEADS = {"0": ((), "", ()), "1": ((), " \n", ()), "G": ((), "g", ()), "M": ((), "", (("m", "1"),)), "X": (("x",), "", ()), "C": (("x",), "c", ()), "Y": (("x", "y"), "", ())}
ENTRIES = {
    "a": lambda: E(("a",), PM(["v"])), "A": lambda: E(("a",), PM(["w"])), "b": lambda: E(("b",), PM(["v"])), "c": lambda: E(("b",), PM(["v"]), comment=" c\n"),
    "m": lambda: E(("b",), PM(["v"]), meta=[Md("m", "1"), Md("n", "2")]), "p": lambda: E(("b",), PM(["v"]), properties={"p": PM(["q"])}), "#": lambda: C("alone"),
}


def make(code: str) -> Resource:
    secs: list[S] = []
    for ch in code:
        if ch in HEADS:
            id, com, meta = HEADS[ch]
            secs.append(S(id, [], comment=com, meta=[Md(*m) for m in meta]))
        else:
            secs[-1].entries.append(ENTRIES[ch]())
    return Resource(Format.fluent, secs)


def cval(v):
    """A value, with its dicts as sets and its fallback keys unnamed."""
    if isinstance(v, (str, type(None), bool)):
        return v
    if isinstance(v, V):
        return ("$", v.name)
    if isinstance(v, CK):
        return ("*",)
    if isinstance(v, Ex):
        return ("e", cval(v.arg), v.function, frozenset((k, cval(x)) for k, x in v.options.items()), frozenset(v.attributes.items()))
    if isinstance(v, M):
        return ("m", v.kind, v.name, frozenset((k, cval(x)) for k, x in v.options.items()), frozenset(v.attributes.items()))
    decls = frozenset((k, cval(x)) for k, x in v.declarations.items())
    if isinstance(v, PM):
        return ("p", decls, tuple(cval(p) for p in v.pattern))
    return ("s", decls, tuple(cval(x) for x in v.selectors), frozenset((tuple(cval(k) for k in ks), tuple(cval(p) for p in pat)) for ks, pat in v.variants.items()))


def bag(items):
    return frozenset(Counter(items).items())


def cmeta(x):
    return frozenset((m.key, m.value) for m in x.meta)


def canon(res: Resource):
    secs = []
    anon: list = []
    for s in res.sections:
        entries = [(tuple(e.id), e.comment.strip(), cmeta(e), cval(e.value), frozenset((k, cval(v)) for k, v in e.properties.items())) for e in s.entries if isinstance(e, E)]
        if not entries:
            continue
        if not s.id and not s.comment.strip() and not s.meta:
            anon += entries
        else:
            secs.append((tuple(s.id), s.comment.strip(), cmeta(s), bag(entries)))
    return (res.format, res.comment.strip(), cmeta(res), bag(secs), bag(anon))


def compare(a: Resource, b: Resource, what: str = "") -> bool:
    d = dump(a), dump(b)
    exp = canon(a) == canon(b)
    got = l10n_equal(a, b)
    same(f"l10n_equal{what}", got, exp, "for", a, "and", b)
    same(f"l10n_equal{what}, swapped", l10n_equal(b, a), exp, "for", b, "and", a)
    need((dump(a), dump(b)) == d, "comparing changes a resource", a)
    T.trace(2)
    return got


def judge_pair(c) -> str:
    # one resource against all of a family
    code, family = c
    a = make(code)
    n = sum(compare(a, make(x)) for x in FAMILIES[family]())
    return "equal to one" if n == 1 else "equal to several"


FAMILIES = {
    "mixed": lambda: ["", *(h + "".join(w) for h in "0GX" for w in words("0GXab", 3))],
    "entries": lambda: ["0" + "".join(w) for w in words(ENTRIES, 3)],
    "heads": lambda: ["".join(h + e for h, e in zip(hs, es)) for n in (1, 2) for hs in itertools.product(HEADS, repeat=n) for es in itertools.product(["", "a", "#"], repeat=n)],
    "long": lambda: ["".join(h + e for h, e in zip(hs, es)) for hs in itertools.product("0GX", repeat=3) for es in itertools.product(["", "a", "b"], repeat=3)],
}


def base(code: str):
    """A rich resource, with all fields set."""
    sel = SM({"x": Ex(V("x"), "f", {"o": "1", "p": V("y")}, {"t": True})}, (V("x"),), {("1",): ["a"], (CK("o"),): ["b", Ex("c"), M("open", "b", {"k": "v"}, {"t": "u"})]})
    e1 = E(("a", "b"), sel, comment="c", meta=[Md("m", "1"), Md("n", "2"), Md("m", "3")], properties={"p": PM(["q"]), "r": PM(["s"])})
    e2 = E(("b",), PM(["v", Ex(V("x")), "w"], {"y": Ex(V("y"), "g")}), comment="d", meta=[Md("m", "1")])
    e3 = E(("c",), "text", properties={"p": "t"})
    return Resource(Format.ini, [S(("s",), [e1, C("x"), e2], comment="sc", meta=[Md("sm", "1")]), S((), [e3], comment="oc"), S(("t",), [C("y")]), S((), [E(("d",), PM([]))])],
                    comment="rc", meta=[Md("rm", "1"), Md("rn", "2")])


STRS = ["", "z", " ", "A"]


def paths(x, at=()):
    """The places of all strings, lists, dicts and tuples within a resource."""
    if isinstance(x, (str, tuple, list, dict)) or x is None or isinstance(x, Format):
        yield at
    if isinstance(x, (list, tuple)):
        for i, y in enumerate(x):
            yield from paths(y, (*at, i))
    elif isinstance(x, dict):
        for k, y in x.items():
            yield from paths(y, (*at, ("k", k)))
    elif hasattr(x, "__dataclass_fields__"):
        for f in x.__dataclass_fields__:
            if f != "linepos":
                yield from paths(getattr(x, f), (*at, ("f", f)))


def get(x, at):
    for p in at:
        x = x[p] if isinstance(p, int) else getattr(x, p[1]) if p[0] == "f" else x[p[1]]
    return x


def put(x, at, v):
    """Sets a value; tuples are rebuilt."""
    *pre, last = at
    parent = get(x, pre)
    if isinstance(parent, tuple):
        put(x, pre, (*parent[:last], v, *parent[last + 1 :]))
    elif isinstance(last, int):
        parent[last] = v
    elif last[0] == "f":
        setattr(parent, last[1], v)
    else:
        parent[last[1]] = v


ADDED = {"options": {"z": "z"}, "attributes": {"z": "z"}, "declarations": {"z": Ex("z")}, "properties": {"z": PM(["z"])}, "meta": [Md("z", "z")], "pattern": ["z"], "function": "z"}


def changes(v, at):
    if not v and at and not isinstance(at[-1], int) and at[-1][0] == "f" and at[-1][1] in ADDED:
        yield ADDED[at[-1][1]]
        return
    if isinstance(v, str):
        yield from (x for x in ["", v + "z", v + " ", "\n" + v, v.upper(), "z"] if x != v)
    elif isinstance(v, Format):
        yield from (Format.fluent, None)
    elif v is None:
        yield "z"
    elif isinstance(v, dict):
        items = list(v.items())
        yield from (dict(p) for p in itertools.permutations(items) if list(p) != items)
        yield from (dict(items[:i] + items[i + 1 :]) for i in range(len(items)))
        for i, (k, x) in enumerate(items):
            if isinstance(k, str):
                yield dict([*items[:i], (k + "z", x), *items[i + 1 :]])
            elif isinstance(k, tuple):
                yield dict([*items[:i], (tuple(CK("other") if isinstance(y, CK) else y + "z" for y in k), x), *items[i + 1 :]])
    elif isinstance(v, (list, tuple)):
        t = type(v)
        seen = []
        for p in itertools.permutations(v):
            if list(p) != list(v) and p not in seen:
                seen.append(p)
                yield t(p)
        yield from (t([*v[:i], *v[i + 1 :]]) for i in range(len(v)))
        yield from (t([*v[: i + 1], *v[i:]]) for i in range(len(v)))


PATHS = list(paths(base("")))


def judge_change(c) -> str:
    i = c[0]
    a = base("")
    out = Counter()
    for v in changes(get(base(""), PATHS[i]), PATHS[i]):
        b = base("")
        put(b, PATHS[i], v)
        out[compare(a, b, f" with {PATHS[i]} = {v!r}")] += 1
    return "/".join(f"{k}" for k in sorted(out))


def judge_two(c) -> str:
    # two changes, each against the other, and both against the one
    i, j, step = c
    a = base("")
    n = 0
    for v in list(changes(get(a, PATHS[i]), PATHS[i]))[::step]:
        for w in list(changes(get(a, PATHS[j]), PATHS[j]))[::step]:
            b, d = base(""), base("")
            put(b, PATHS[i], v)
            put(d, PATHS[j], w)
            n += compare(b, d, f" with {PATHS[i]} = {v!r}, {PATHS[j]} = {w!r}")
    return "some equal" if n else "none equal"


def run(ctx: Ctx) -> None:
    for f, gen in FAMILIES.items():
        if f == "long" and ctx.quick:
            ctx.space("long", lambda: ([x, "long"] for x in FAMILIES["long"]()[::1]), judge_pair, note="all pairs of three sections")
        else:
            ctx.space(f, lambda: ([x, f] for x in gen()), judge_pair, note="all pairs")
    ctx.space("changes", lambda: ([i, 0] for i in range(len(PATHS))), judge_change, note="every change of every field of a resource that has all of them set")
    step = ctx.pick(2, 1)
    ctx.space("two changes", lambda: ([i, j, step] for i in range(len(PATHS)) for j in range(i)), judge_two, note="the resources of every two changes, compared")
    ctx.assume("Metadata is compared as a set of items; catch-all keys are alike whatever their names, as in the data model")
