"""
C39: lookups find exactly the entries, patterns and variables that match.

All resources of up to three sections and entries, with identifiers of up to two parts that may be divided between section and entry in any way, and comments between, are built.  For every identifier, the
entry found must be the first with it, by identity, or none; what is inserted must be after the last entry with one of the given identifiers, among all choices of these, with everything else in its place;
and iteration must give all entries in order.  For all messages and properties, the pattern found must be that of the variant, else of the fallback, else the default.  For expressions, markup and messages of
all parts: the variables found, emptiness, and the plural messages made must be those of an oracle, and the representations of all objects must evaluate to equal ones.
Assumed: entries are inserted in the most specific sections that may contain them; only in .ini are sections added; function names aren't empty.
"""

from __future__ import annotations

import itertools
from copy import deepcopy

from core import Bad, Ctx, T, need, same, subsets, words
from moz.l10n import model
from moz.l10n.formats import Format
from moz.l10n.migrate.utils import get_entry, get_pattern, insert_entry_after, plural_message
from util import *

IDS = [("a",), ("b",), ("a", "a"), ("a", "b"), ("b", "a"), ("b", "b"), ("a", "a", "a"), ("b", "a", "a")]
SECTIONS = [(), ("a",), ("b",), ("a", "a")]
PATTERNS = {"sentinel": []}


def build(fmt, spec):
    return Resource(Format[fmt] if fmt else None, [S(tuple(sid), [C("c") if e == "#" else E(tuple(e), PM(["v"])) for e in es]) for sid, es in spec])


def full(res):
    return [(s.id + e.id, e) for s in res.sections for e in s.entries if isinstance(e, E)]


def j_find(c) -> str:
    res = build("fluent", c)
    ref = deepcopy(res)
    every = list(res.all_entries())
    need(len(every) == len(full(res)) and all(a is b for a, (_, b) in zip(every, full(res))), "all entries", every)
    n = 0
    for id in IDS + [("c",), ("a", "c"), ()]:
        T.trace(1)
        got = get_entry(res, *id)
        want = next((e for i, e in full(res) if i == id), None)
        need(got is want, "entry for", id, "got", got, "expected", want)
        n += want is not None
        for default in (None, ["d"], []):
            try:
                pat = get_pattern(res, *id, default=default)
                need(pat is (want.value.pattern if want else default), "pattern for", id, "with default", default, "got", pat)
            except StopIteration:
                need(want is None and default is None, "no pattern for", id, "with default", default)
    same("resource after lookups", dump(res), dump(ref))
    return f"{min(n, 2)} found"


def j_insert(c) -> str:
    fmt, spec, id, after = c
    id, after = tuple(id), [x if isinstance(x, str) else tuple(x) for x in after]
    res = build(fmt, spec)
    new = E(id, PM(["new"]))
    before = [(s, s.id, list(s.entries)) for s in res.sections]
    T.trace(1)
    can = [i for i, (_, sid, _) in enumerate(before) if sid == id[: len(sid)] and len(sid) < len(id)]
    try:
        insert_entry_after(res, new, *after)
    except StopIteration:
        need(not can and not (fmt == "ini" and len(id) == 2), "no position for", id, "in", dump(res))
        need(len(res.sections) == len(before) and all(s.entries == es for s, _, es in before), "the resource was changed, but nothing was inserted")
        return "none"
    need(can or fmt == "ini" and len(id) == 2, id, "was inserted in a section with another identifier:", dump(res))
    if not can:
        need(len(res.sections) == len(before) + 1 and res.sections[-1].id == id[:1] and res.sections[-1].entries == [new] and new.id == id[1:], "added section", dump(res))
        need(all(s is t and s.entries == es for s, (t, _, es) in zip(res.sections, before)), "other sections were changed")
        return "section added"
    deepest = max(len(before[i][1]) for i in can)
    can = [i for i in can if len(before[i][1]) == deepest]
    refs = {(x,) if isinstance(x, str) else x for x in after}
    at = [(i, j) for i in can for j, e in enumerate(before[i][2]) if isinstance(e, E) and before[i][1] + e.id in refs]
    i, j = at[-1] if at else (can[-1], len(before[can[-1]][2]) - 1)
    same("identifier in the section", new.id, id[deepest:])
    need(len(res.sections) == len(before), "number of sections")
    for k, (s, sid, es) in enumerate(before):
        want = es[: j + 1] + [new] + es[j + 1 :] if k == i else es
        need(res.sections[k] is s and s.id == sid and len(s.entries) == len(want) and all(a is b for a, b in zip(s.entries, want)), "entries", s.entries, "expected", want)
    return "after" if at else "at end"


def key(k):
    return CK(k[1:] or None) if k.startswith("*") else k


def message(m):
    kind, keys = m
    if kind == "p":
        return PM(list(keys))
    sels = tuple(V(f"s{i}") for i in range(len(keys[0]) if keys else 1))
    return SM({s.name: Ex(s, "number") for s in sels}, sels, {tuple(key(k) for k in ks): [".".join(ks)] for ks in keys})


def j_pattern(c) -> str:
    m, prop, variant, hasdef = c
    msg = message(m)
    entry = E(("k",), msg if prop == 0 else PM(["other value"]), {"p": msg if prop == 1 else PM(["other property"]), "q": PM([])})
    res = Resource(None, [S((), [E(("j",), PM(["j"])), entry])])
    default = ["d"] if hasdef else None
    name = {0: None, 1: "p", 2: "missing"}[prop]
    var = None if variant is None else variant if isinstance(variant, str) else tuple(key(k) for k in variant)
    T.trace(1)
    ref = deepcopy(res)
    try:
        got = get_pattern(res, "k", property=name, variant=var, default=default)
    except StopIteration:
        got = StopIteration
    same("resource after lookup", dump(res), dump(ref))
    # Oracle
    want = StopIteration if default is None else default
    how = "default"
    if prop < 2:
        if isinstance(msg, PM):
            want, how = msg.pattern, "pattern"
        else:
            ks = None if variant is None else [variant] if isinstance(variant, str) else variant
            norm = lambda ks: ["*" if k.startswith("*") else k for k in ks]
            # A bare string never is a catch-all
            exact = [p for k2, p in zip(m[1], msg.variants.values()) if ks is not None and (norm(k2) == norm(ks) if not isinstance(variant, str) else list(k2) == ks and not k2[0].startswith("*"))]
            fall = [p for k2, p in zip(m[1], msg.variants.values()) if all(k.startswith("*") for k in k2)]
            if exact:
                want, how = exact[0], "variant"
            elif fall:
                want, how = fall[0], "fallback"
    need(got is want, "pattern", got, "expected", want)
    return how if want is not StopIteration else "none"


ARGS = [None, "", "x", V("v"), V("w")]
OPTIONS = [{}, {"o": "x"}, {"o": V("v")}, {"o": V("w"), "p": ""}, {"o": V("v"), "p": V("v")}, {"o": "", "p": V("x")}]
ATTRS = [{}, {"a": True}, {"a": "", "b": "q'\"\n\\"}]
NS = {k: getattr(model, k) for k in model.__all__} | {"Format": Format, "LinePos": model.LinePos}


def reads(x):
    y = eval(repr(x), dict(NS))  # noqa: S307
    need(y == x and type(y) is type(x), "representation", repr(x), "evaluates to", y)
    if not isinstance(x, (V, Md, model.LinePos)):
        same("representation of", dump(y) if isinstance(x, Resource) else repr(y), dump(x) if isinstance(x, Resource) else repr(x))


def parts():
    for a, f, o, t in itertools.product(ARGS, [None, "f"], OPTIONS, ATTRS):
        yield "expression", Ex(a, f, o, t)
    for k, n, o, t in itertools.product(["open", "close", "standalone"], ["", "m"], OPTIONS, ATTRS):
        yield "markup", M(k, n, o, t)


PARTS = list(parts())


def j_part(i) -> str:
    kind, x = PARTS[i]
    T.trace(1)
    want = [v for v in [getattr(x, "arg", None), *x.options.values()] if isinstance(v, V)]
    got = list(x.variable_refs())
    need(len(got) == len(want) and all(a is b for a, b in zip(got, want)), "variables", got, "expected", want)
    reads(x)
    return f"{kind} of {len(want)} variables"


ELS = ["", "x", " ", "\n", Ex("", attributes={"source": ""}), Ex(V("v")), M("open", "")]


def j_empty(c) -> str:
    kind, pats = c
    pats = [[ELS[i] for i in p] for p in pats]
    decl = {"v": Ex(V("v"), "number"), "w": Ex("x", "string")}
    msg = PM(pats[0], decl if kind == "decl" else {}) if kind != "select" else SM(decl, (V("v"), V("w"))[: 1 + len(pats) % 2], {((f"k{i}", CK()) if len(pats) % 2 else (f"k{i}",)) if i else ((CK("o"), CK()) if len(pats) % 2 else (CK("o"),)): p for i, p in enumerate(pats)})
    T.trace(1)
    want = all(e == "" for p in pats for e in p)
    same("emptiness", msg.is_empty(), want)
    reads(msg)
    if kind == "select":
        got = msg.selector_expressions()
        need(len(got) == len(msg.selectors) and all(decl[s.name] is e for s, e in zip(msg.selectors, got)), "selector expressions", got)
    return f"empty {kind}" if want else kind


def j_plural(c) -> str:
    name, cats, empty = c
    pats = {k: [] if k in empty else [k] for k in cats}
    T.trace(1)
    got = plural_message(name, **pats, other=["o"])
    order = [k for k in ("zero", "one", "two", "few", "many") if k in cats]
    same("message", dump(got), dump(SM({name: Ex(V(name), "number")}, (V(name),), {**{(k,): pats[k] for k in order}, (CK("other"),): ["o"]})))
    need([k for (k,) in got.variants] == [*order, CK()], "order", list(got.variants))
    return f"{len(cats)} categories"


def j_repr(c) -> str:
    level, cm, md, ids, n = c
    T.trace(1)
    meta = [Md("k", "v"), Md("k", "'")][:md]
    entry = E(tuple(ids), PM(["x"]) if n % 2 else "it's", {"p": PM([Ex(V("v"), "f")])} if n > 1 else {}, cm, list(meta), model.LinePos(1, 2, 3, 4) if n % 2 else None)
    x = entry if level == 0 else S(tuple(ids), [entry, C(cm), C("x", model.LinePos(1, 1, 1, 2))][:n], cm, list(meta)) if level == 1 else Resource([None, Format.ini, Format.plain_json][n % 3], [S((), []), S(tuple(ids), [entry])][:n], cm, list(meta))
    reads(x)
    return ["entry", "section", "resource"][level]


def run(ctx: Ctx) -> None:
    def specs(sections, entries, idlens):
        eids = ["#"] + [i for i in IDS if len(i) <= idlens]
        for sids in words(SECTIONS, sections):
            for es in words(eids, entries):
                # all ways to divide the entries between the sections
                for cuts in itertools.combinations_with_replacement(range(len(es) + 1), max(len(sids) - 1, 0)):
                    cuts = [0, *cuts, len(es)]
                    if sids:
                        yield [[sid, list(es[cuts[i] : cuts[i + 1]])] for i, sid in enumerate(sids)]

    ctx.space("find", lambda: specs(3, ctx.pick(2, 4), 2), j_find, note="all identifiers in each resource")
    ctx.space("find-deep", lambda: specs(2, 2, 3), j_find, note="identifiers of more parts")

    def inserts():
        for spec in specs(ctx.pick(2, 3), 3, 1):
            for fmt in ("fluent", "ini", None):
                for id in [("n",), ("a", "n"), ("a", "a", "n"), ("c", "n")]:
                    for after in [[], ["a"], [("a",)], ["a", "b"], [("a", "a")], [("a", "b"), ("b", "a")], [("a", "a", "a")], ["a", ("a", "a", "b")], [("b",), ("a", "a"), ("c", "c")]]:
                        yield [fmt, spec, id, after]

    ctx.space("insert", inserts, j_insert, note="after every choice of identifiers")

    def patterns():
        ks1 = ["one", "other", "*", "*other"]
        ms = [["p", []], ["p", ["x"]]]
        ms += [["s", [[k] for k in ks]] for n in range(0, 4) for ks in itertools.permutations(ks1, n) if sum(k.startswith("*") for k in ks) < 2]
        ks2 = list(itertools.product(["one", "other", "*other"], repeat=2))
        ms += [["s", ks] for n in range(1, ctx.pick(3, 4)) for ks in itertools.permutations(ks2, n)]
        for m in ms:
            for prop in (0, 1, 2):
                for variant in [None, "one", "other", "", "x", *itertools.product(["one", "other", "*", "*other"], repeat=1), *itertools.product(["one", "other", "*", "x"], repeat=2), []]:
                    for d in (0, 1):
                        yield [m, prop, variant, d]

    ctx.space("pattern", patterns, j_pattern, note="all variants, properties and defaults")
    ctx.space("parts", lambda: range(len(PARTS)), j_part, note="variables and representations of all parts")

    def empties():
        pats = list(words(range(len(ELS)), ctx.pick(2, 3)))
        for p in words(range(len(ELS)), ctx.pick(3, 4)):
            yield ["pattern", [p]]
            yield ["decl", [p]]
        yield ["select", []]
        for p in pats:
            yield ["select", [p]]
            for q in pats:
                yield ["select", [p, q]]
                if len(p) < 2 and len(q) < 2:
                    for r in pats:
                        yield ["select", [p, q, r]]

    ctx.space("messages", empties, j_empty, note="emptiness of messages of all elements")
    ctx.space("plural", lambda: ([n, cats, e] for n in ("n", "quantity") for cats in itertools.chain.from_iterable(itertools.permutations(["zero", "one", "two", "few", "many"], r) for r in range(6)) for e in subsets(cats)), j_plural, note="all categories in all orders")
    ctx.space("objects", lambda: ([lv, cm, md, ids, n] for lv in (0, 1, 2) for cm in ("", "c", "it's\n\\") for md in (0, 1, 2) for ids in ([], ["a"], ["a", "b'"]) for n in range(4)), j_repr, note="representations")
