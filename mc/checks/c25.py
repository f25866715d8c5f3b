"""
C25: migrations add what they produce and leave all else as it was.

A tree of files of a reference and two locales is written, and sequences of migrations (as maps of specified functions) are applied to it, each first dry
and then for real.  An oracle evaluates each map on the parsed files: which entries are added, with which values, comments and properties, after which
entry of which section.  After each step, every file is read back and compared: migrated files hold the entries which they had
with the expected ones between them, other files have the same bytes, no others exist, and the reported changes are those found.  Each real step is
repeated, which must change nothing.
Enumerated: every sequence of entries, groups and comments as contents of the target, with every choice of entries to insert after; every kind of migration
function and option; sections of .ini and XLIFF; every pair of formats; layouts and states of each file; and sequences of migrations.
"""

from __future__ import annotations

import itertools
import logging
import os
import shutil
from copy import deepcopy

from core import Bad, Ctx, T, need, same, subsets, words
from moz.l10n.migrate import Migrate, all_migrations, copy, entry
from moz.l10n.paths import L10nConfigPaths, L10nDiscoverPaths
from util import *

SCRATCH = ""
LOCALES = ["de", "fr"]
CONFIGS = {
    "cfg": '[[paths]]\nreference="en/**"\nl10n="{locale}/**"\n',
    "sub": 'locales=["de","fr"]\n[[paths]]\nreference="en/**"\nl10n="l10n/{locale}/x/**"\n',
    "per": 'locales=["de","fr"]\n[[paths]]\nreference="en/**"\nl10n="{locale}/**"\n[[paths]]\nreference="en/f.ftl"\nl10n="sp/{locale}.ftl"\nlocales=["fr"]\n',
    "two": '[[paths]]\nreference="en/**"\nl10n="a/{locale}/**"\nlocales=["fr"]\n[[paths]]\nreference="en/**"\nl10n="b/{locale}/**"\nlocales=["de"]\n',
    "one": '[[paths]]\nreference="en/**"\nl10n="{locale}/**"\nlocales=["fr"]\n',
    "inc": 'locales=["de","fr"]\n[[includes]]\npath="inc.toml"\n',
}
ANY = [["m", "x"]]


def where(layout: str, locale: str, ref: str):
    """The path of a target, or None"""
    if layout in ("disc", "dref", "cfg", "inc", "one"):
        return None if layout == "one" and locale != "fr" else f"{locale}/{ref}"
    if layout == "sub":
        return f"l10n/{locale}/x/{ref}"
    if layout == "two":
        return f"{'a' if locale == 'fr' else 'b'}/{locale}/{ref}"
    return f"sp/{locale}.ftl" if (locale, ref) == ("fr", "f.ftl") else f"{locale}/{ref}"


def tid(id) -> tuple:
    return (id,) if isinstance(id, str) else tuple(id)


def shape(e):
    if isinstance(e, C):
        return ("comment", ncomment(e.comment))
    return (tuple(e.id), dump(merged(e.value)), tuple((k, dump(merged(v))) for k, v in e.properties.items()), ncomment(e.comment), dump(e.meta))


def content(res):
    return dump(res.meta), ncomment(res.comment), [(tuple(s.id), ncomment(s.comment), dump(s.meta), [shape(e) for e in s.entries]) for s in res.sections]


def find(res, id):
    for s in res.sections:
        for e in s.entries:
            if isinstance(e, E) and tuple(s.id) + tuple(e.id) == id:
                return e
    return None


# --- functions of migrations, and what they are to give


REPLACE = {
    "var": lambda ph: Ex(V("y")) if isinstance(ph, Ex) else None,
    "set": lambda ph: setattr(ph, "arg", V("y")) if isinstance(ph, Ex) else None,
    "up": lambda ph: ph.upper() if isinstance(ph, str) else None,
    "del": lambda ph: "" if isinstance(ph, Ex) else None,
}


def func(spec, pre: str = ""):
    """The function to use in a migration"""
    k = spec[0]
    if k == "s":
        return lambda res, ctx: spec[1]
    if k == "m":
        return lambda res, ctx: PM([spec[1]])
    if k == "e":
        return lambda res, ctx: E(tid(spec[1]), PM([spec[2]]), comment=spec[3])
    if k == "x":
        return lambda res, ctx: E(("x",), PM([spec[1]]), meta=[Md("source", "src")])
    if k == "t":
        f = func(spec[1], pre)
        return lambda res, ctx: (f(res, ctx), {i if isinstance(i, str) else tuple(i) for i in spec[2]})
    if k == "0":
        return lambda res, ctx: None
    if k == "!":

        def stop(res, ctx):
            raise StopIteration

        return stop
    if k == "c":
        opts = dict(spec[3])
        if "replace" in opts:
            opts["replace"] = REPLACE[opts["replace"]]
        return copy(spec[1] and pre + spec[1], spec[2] if isinstance(spec[2], str) else tuple(spec[2]), **opts)
    assert k == "n"
    part = lambda s: s if s is None or isinstance(s, str) else func(s, pre)
    return entry(part(spec[1]), {n: part(s) for n, s in spec[2].items()} or None, **spec[3])


def replaced(msg, how):
    if how:
        for pat in [msg.pattern] if isinstance(msg, PM) else msg.variants.values():
            for i, ph in enumerate(pat):
                if how == "up" and isinstance(ph, str):
                    pat[i] = ph.upper()
                elif how in ("var", "set") and isinstance(ph, Ex):
                    pat[i] = Ex(V("y"))
                elif how == "del" and isinstance(ph, Ex):
                    pat[i] = ""
    return msg


def give(spec, state, res, target):
    """(the Entry or message, identifiers or None), or None"""
    k = spec[0]
    if k in "sm":
        return PM([spec[1]]), None
    if k == "e":
        return E(tid(spec[1]), PM([spec[2]]), comment=spec[3]), None
    if k == "x":
        return E(("x",), PM([spec[1]]), meta=[Md("source", "src")]), None
    if k == "t":
        return give(spec[1], state, res, target)[0], {tid(i) for i in spec[2]}
    if k in "0!":
        return None
    if k == "c":
        opts = spec[3]
        src = res if spec[1] is None else state(spec[1])
        ent = src and find(src, tid(spec[2]))
        if ent is None:
            return None
        ids = {tid(spec[2])}
        ent = deepcopy(ent)
        how = opts.get("replace")
        if "property" not in opts and "variant" not in opts:
            for m in [ent.value, *ent.properties.values()]:
                replaced(m, how)
            return (ent.value if opts.get("value_only") else ent), ids
        msg = ent.value
        if "property" in opts:
            msg = ent.properties.get(opts["property"])
            if msg is None:
                return None
        if "variant" in opts and isinstance(msg, SM):
            want = opts["variant"]
            keys = [k for k in msg.variants if all(not isinstance(x, CK) for x in k) and k == tid(want)]
            keys = keys or [k for k in msg.variants if all(isinstance(x, CK) for x in k)]
            msg = PM(msg.variants[keys[0]])
        return replaced(msg, how), ids
    value, props, opts = spec[1:]
    ids = set()
    comment, meta = opts.get("comment"), []
    partial = opts.get("allow_partial", False)

    def part(s):
        if s is None or isinstance(s, str):
            return s if s is None else PM([s])
        got = give(s, state, res, target)
        if got is None:
            return None
        if got[1]:
            ids.update(got[1])
        return got[0]

    got = part(value)
    if got is None and value is not None and not partial:
        return None
    if isinstance(got, E):
        comment = got.comment if comment is None else comment
        meta, got = got.meta, got.value
    out = {}
    for name, p in props.items():
        p = part(p)
        if p is None:
            if partial:
                continue
            return None
        out[name] = p.value if isinstance(p, E) else p
    if got is None and not out:
        return None
    return E(target, got or PM([]), out, comment or "", meta), ids


def place(res, e, ids) -> bool:
    full = tuple(e.id)
    n = -1
    for s in res.sections:
        if n < len(s.id) < len(full) and full[: len(s.id)] == tuple(s.id):
            n = len(s.id)
    if n < 0:
        if res.format != Format.ini:
            return False
        n = 1
        res.sections.append(S(full[:1], []))
    ok = [s for s in res.sections if tuple(s.id) == full[:n]]
    best = None
    for s in ok:
        for i, x in enumerate(s.entries):
            if isinstance(x, E) and tuple(s.id) + tuple(x.id) in ids:
                best = s, i + 1
    s, at = best or (ok[-1], len(ok[-1].entries))
    e.id = full[n:]
    s.entries.insert(at, e)
    return True


# --- trees


def read(tree: str) -> dict:
    out = {}
    for d, _, fs in os.walk(tree):
        for f in fs:
            p = f"{d}/{f}"
            with open(p, "rb") as file:
                out[os.path.relpath(p, tree)] = file.read()
    return out


def parsed(path: str, data: bytes | None):
    if data is None:
        return None
    try:
        return parse_resource(path, data)
    except Exception:
        return None


def empty(path: str, ref: bytes | None):
    """A new resource for a reference, or None"""
    ext = path.rpartition(".")[2]
    new = {"ftl": Format.fluent, "properties": Format.properties, "po": Format.gettext, "dtd": Format.dtd, "inc": Format.inc}.get(ext)
    if new:
        return Resource(new, [S((), [])])
    res = parsed(path, ref)
    if res is None:
        return None
    if res.format in (Format.ini, Format.xliff):
        for s in res.sections:
            s.entries.clear()
        return res
    return Resource(res.format, [S((), [])])


def expected(layout: str, mig, files: dict) -> tuple[dict, dict]:
    """path -> content, path -> added entries"""
    out, added = {}, {}
    for ref, adds in mig:
        for lc in LOCALES:
            path = where(layout, lc, ref)
            if path is None:
                continue
            cache = {}

            def state(r, lc=lc, cache=cache):
                if r not in cache:
                    p = where(layout, lc, r)
                    cache[r] = out[p] if p in out else parsed(p, files.get(p)) if p else None
                return cache[r]

            res = state(ref)
            if res is None:
                if path in files:
                    continue
                res = empty(f"en/{ref}", files.get(f"en/{ref}"))
                if res is None:
                    continue
                cache[ref] = res
            prev = []
            news = []
            for id, spec in adds:
                id = tid(id)
                if find(res, id) is None:
                    got = give(spec, state, res, id)
                    if got is not None:
                        e, ids = got
                        ids = ids if ids is not None else {tuple(e.id)} if isinstance(e, E) else {id}
                        e = E(id, deepcopy(e)) if not isinstance(e, E) else E(id, deepcopy(e.value), deepcopy(e.properties), e.comment, deepcopy(e.meta))
                        if place(res, e, set(ids) | set(prev)):
                            news.append(e)
                prev.append(id)
            if news:
                out[path] = res
                added.setdefault(path, []).extend(news)
    return out, added


def paths_of(layout: str, tree: str):
    if layout == "disc":
        return tree
    if layout == "dref":
        return L10nDiscoverPaths(tree, ref_root=f"{tree}/en")
    if layout == "inc":
        with open(f"{tree}/inc.toml", "w") as f:
            f.write(CONFIGS["cfg"])
    with open(f"{tree}/l10n.toml", "w") as f:
        f.write(CONFIGS[layout])
    paths = L10nConfigPaths(f"{tree}/l10n.toml")
    if layout == "cfg":
        paths.locales = list(LOCALES)
    return paths


def judge(c) -> str:
    layout, tree_, steps = c
    tree = f"{SCRATCH}/{os.getpid()}/tree"
    try:
        for p, data in tree_.items():
            if not p.startswith("en/"):
                lc, _, ref = p.partition("/")
                p = where(layout, lc, ref)
                if p is None:
                    continue
            os.makedirs(os.path.dirname(f"{tree}/{p}"), exist_ok=True)
            with open(f"{tree}/{p}", "wb") as f:
                f.write(data.encode())
        for d in LOCALES if layout in ("disc", "dref") else ():
            os.makedirs(f"{tree}/{d}", exist_ok=True)
        paths = paths_of(layout, tree)
        total = 0
        for mig in steps:
            total += step(layout, tree, paths, mig)
        return f"{total} entries"
    finally:
        all_migrations.clear()
        shutil.rmtree(f"{SCRATCH}/{os.getpid()}", ignore_errors=True)


def step(layout: str, tree: str, paths, mig) -> int:
    files = read(tree)
    pre = "" if layout[0] == "d" else "en/"
    make = lambda: Migrate({pre + ref: {(i if isinstance(i, str) else tuple(i)): func(s, pre) for i, s in adds} for ref, adds in mig}, paths)
    chained = len(mig) > 1
    want, added = expected(layout, mig, files)
    dry = make().apply(dry_run=True)
    same("files after a dry run", read(tree), files)
    got = make().apply()
    now = read(tree)
    rep = lambda changes: {os.path.relpath(p, tree): [shape(e) for e in es] for p, es in changes.items()}
    exp = {p: [shape(e) for e in es] for p, es in added.items()}
    same("reported changes", rep(got), exp)
    if not chained:
        same("changes reported by a dry run", rep(dry), exp)
    same("files", sorted(now), sorted(set(files) | set(want)))
    for p, data in now.items():
        if p not in want:
            same(f"{p}, which was not to change", data, files[p])
        else:
            same(f"contents of {p}", content(parse_resource(p, data)), content(want[p]))
    again = make().apply()
    same("changes by a second application", again, {})
    same("files after a second application", read(tree), now)
    T.trace(3)
    T.step(1)
    return sum(map(len, added.values()))


FTL = {"a": "a = A\n", "b": "# about b\nb = B { $x }\n    .p = P { $x }\n    .q = { $n ->\n        [one] q1 { $x }\n       *[other] q2\n    }\n", "c": "c = { $n ->\n    [one] One { $x }\n   *[other] Other\n}\n", "#": "\n# note\n\n", "g": "\n## G\n\n", "h": "\n##\n\n", "r": "### R\n\n", "-": "-t = T\n    .k = K\n"}
INI = {"a": "a=A\n", "b": "# about b\nb=B\n", "#": "\n# note\n\n", "S": "\n[S]\n", "Z": "\n# of Z\n[Z]\n"}
PARTS = {
    "f.ftl": lambda es: "".join(f"{k} = {v}\n" for k, v in es),
    "p.properties": lambda es: "".join(f"{k} = {v}\n" for k, v in es),
    "d.dtd": lambda es: "".join(f'<!ENTITY {k} "{v}">\n' for k, v in es),
    "i.inc": lambda es: "".join(f"#define {k} {v}\n" for k, v in es),
    "n.ini": lambda es: "[S]\n" + "".join(f"{k}={v}\n" for k, v in es),
    "o.po": lambda es: 'msgid ""\nmsgstr ""\n"X-A: b\\n"\n\n' + "".join(f'msgid "{k}"\nmsgstr "{v}"\n\n' for k, v in es),
    "x.xml": lambda es: "<resources>" + "".join(f'<string name="{k}">{v}</string>' for k, v in es) + "</resources>",
    "j.json": lambda es: "{" + ",".join(f'"{k}": "{v}"' for k, v in es) + "}",
    "w.json": lambda es: "{" + ",".join(f'"{k}": {{"message": "{v}"}}' for k, v in es) + "}",
    "l.xliff": lambda es: '<xliff version="1.2" xmlns="urn:oasis:names:tc:xliff:document:1.2"><file original="S" source-language="en" datatype="x"><body>' + "".join(f'<trans-unit id="{k}"><source>{v}</source><target>{v}</target></trans-unit>' for k, v in es) + "</body></file></xliff>",
}
SECTIONED = ("n.ini", "l.xliff")


def fid(name: str, id: str):
    return ["S", id] if name in SECTIONED else id


def run(ctx: Ctx) -> None:
    global SCRATCH
    SCRATCH = ctx.scratch()
    logging.disable()

    def ftls(n: int, toks: str = "abc#g"):
        return ("".join(FTL[t] for t in ts) for ts in words(toks, n) if all(ts.count(t) < 2 for t in "abcr-") and "r" not in ts[1:] and "h" not in ts[: 1 + ("r" in ts)])

    def maps(n: int):
        """Maps of up to n entries, each with entries to be placed after"""
        one = [["m", "M"], ["e", "b", "E", "new"], ["t", ["s", "T"], ["a"]], ["t", ["m", "T"], ["b", "zz"]], ["t", ["e", "c", "T", ""], ["c", ["a"]]], ["0"], ["!"], ["t", ["m", "T"], []]]
        for k in range(1, n + 1):
            for ids in itertools.permutations(["n", "m", "a"], k):
                for specs in itertools.product(one, repeat=k):
                    yield [[i, s] for i, s in zip(ids, specs)]

    def positions():
        for src in ftls(ctx.pick(3, 4)):
            for m in maps(1):
                yield ["disc", {"en/f.ftl": "", "fr/f.ftl": src}, [[["f.ftl", m]]]]
        for src in ftls(2) if ctx.quick else ftls(3):
            for m in maps(2):
                if len(m) == 2:
                    yield ["disc", {"en/f.ftl": "", "fr/f.ftl": src}, [[["f.ftl", m]]]]
        for src in ftls(4, "ab#ghr-"):
            for m in maps(1) if ctx.quick else maps(2):
                if len(src) % ctx.pick(7, 1) == 0:
                    yield ["disc", {"en/f.ftl": "", "fr/f.ftl": src}, [[["f.ftl", m]]]]

    ctx.space("positions", positions, judge, note="contents of the file times maps of new entries and what to insert them after")

    def functions():
        opts = [{k: v for k, v in (("property", p), ("variant", v), ("replace", r), ("value_only", o)) if v is not None} for p in (None, "p", "q", "k") for v in (None, "one", "other", ["one"]) for r in (None, "var", "set", "up", "del") for o in (None, True) if not (p and o)]
        for o in opts:
            if isinstance(o.get("variant"), list):
                o["variant"] = tuple(o["variant"])
        full = {"en/f.ftl": "", "en/g.ftl": "", "fr/f.ftl": FTL["a"] + FTL["b"], "fr/g.ftl": "".join(FTL[t] for t in "rabg-c"), "de/f.ftl": FTL["c"], "de/g.ftl": FTL["c"]}
        copies = [["c", ref, id, o] for ref in (None, "g.ftl", "none.ftl", "f.ftl") for id in ("a", "b", "c", "-t", "zz") for o in opts if not (ctx.quick and o.get("variant") == ("one",))]
        for s in copies:
            yield ["disc", full, [[["f.ftl", [["n", s]]]]]]
        vals = [None, "text", "", ["m", "M"], ["s", "S"], ["e", "a", "E", "com"], ["t", ["m", "T"], ["a"]], ["0"], ["c", "g.ftl", "b", {}], ["c", "g.ftl", "zz", {}], ["c", None, "c", {"variant": "one"}]]
        for v in vals:
            for ps in itertools.product(["", *vals[1:]], repeat=2):
                props = {n: p for n, p in zip(("p", "q"), ps) if p != ""}
                for o in ({}, {"allow_partial": True}, {"comment": "note"}, {"comment": "", "allow_partial": True}):
                    yield ["disc", full, [[["f.ftl", [["n", ["n", v, props, o]]]]]]]

    ctx.space("functions", functions, judge, note="every kind of copy and entry, with every option")

    def chains():
        pool = [["c", None, "n1", {}], ["c", "f.ftl", "n1", {"replace": "up"}], ["c", "g.ftl", "b", {}], ["m", "M"], ["t", ["m", "T"], ["n1"]], ["t", ["m", "T"], ["a"]], ["n", ["c", None, "n2", {"value_only": True}], {"p": ["c", "f.ftl", "a", {}]}, {"allow_partial": True}], ["0"]]
        trees = [{"en/f.ftl": "", "fr/g.ftl": FTL["b"]}, {"en/f.ftl": "", "fr/f.ftl": FTL["a"] + FTL["b"] + FTL["g"], "fr/g.ftl": FTL["b"]}, {"en/f.ftl": "", "de/f.ftl": FTL["a"] + FTL["g"] + "n1 = N\n" + FTL["c"]}]
        for tree in trees:
            for specs in itertools.product(pool, repeat=3):
                if any(f"n{j}" in str(s) for i, s in enumerate(specs) for j in range(i + 1, 3) if s[0] != "t"):
                    continue  # refers to what is not there yet, but would be later
                yield ["disc", {"en/g.ftl": "", **tree}, [[["f.ftl", [[f"n{i + 1}", s] for i, s in enumerate(specs)]]]]]

    ctx.space("chains", chains, judge, note="every sequence of three functions, which may refer to the results of those before")

    def ok(*ts):
        """No repeated sections, or entries within one"""
        seen = set()
        for t in ts:
            if t in "ab" and t in seen or t in "SZ" and t in seen:
                return False
            if t in "SZ":
                seen -= {"a", "b"}
            seen.add(t)
        return True

    def sections():
        inis = ["".join(INI[t] for t in (h, *ts)) for h in "SZ" for ts in words("abSZ#", ctx.pick(3, 4)) if ok(h, *ts)]
        for src in ["", *inis]:
            for ids in ([["S", "n"]], [["Z", "n"]], [["S", "n"], ["Z", "a"]], [["Y", "n"], ["Y", "m"]], [["S", "a"], ["S", "n"]]):
                for s in (["m", "M"], ["t", ["m", "T"], [["S", "a"]]], ["t", ["m", "T"], [["Z", "a"], ["Z", "b"]]], ["t", ["e", "q", "T", "c"], [["S", "b"], ["Z", "a"]]], ["c", None, ["S", "a"], {}]):
                    yield ["disc", {"en/n.ini": "[S]\n", "en/f.ftl": "", "fr/n.ini": src}, [[["n.ini", [[i, s] for i in ids]]]]]
        unit = lambda i: f'<trans-unit id="{i}"><source>{i}</source></trans-unit>'
        group = lambda i, x: f'<group id="{i}">{x}</group>'
        file = lambda i, x: f'<file original="{i}" source-language="en" datatype="x"><body>{x}</body></file>'
        bodies = ["", unit("a"), unit("a") + unit("b"), group("g", ""), unit("a") + group("g", unit("a")), group("g", unit("b") + group("h", unit("a"))), group("g", unit("b")) + unit("a") + group("h", unit("c"))]
        for b1 in bodies:
            for b2 in [None, *bodies]:
                src = f'<xliff version="1.2" xmlns="urn:oasis:names:tc:xliff:document:1.2">{file("S", b1)}{"" if b2 is None else file("Z", b2)}</xliff>'
                for id in (["S", "n"], ["Z", "n"], ["S", "g", "n"], ["S", "g", "h", "n"], ["Y", "n"], ["S", "a"]):
                    if (len(id) > 2 and 'id="g"' not in b1) or (len(id) > 3 and 'b"><source>b</source></trans-unit><group id="h"' not in b1):
                        continue  # no such group
                    for s in (["x", "M"], ["t", ["x", "T"], [["S", "a"], ["Z", "a"]]], ["t", ["x", "T"], [["S", "g", "b"], ["S", "g", "h", "a"]]]):
                        yield ["disc", {"en/l.xliff": src, "en/f.ftl": "", "fr/l.xliff": src}, [[["l.xliff", [[id, s]]]]]]
                        if b2 is None:
                            yield ["disc", {"en/l.xliff": src, "en/f.ftl": ""}, [[["l.xliff", [[id, s]]]]]]

    ctx.space("sections", sections, judge, note="entries for every section of .ini and XLIFF files")

    def formats():
        for a, b in itertools.product(PARTS, repeat=2):
            for es in ([["a", "A"]], [["a", "A"], ["b", "Bé"]]):
                for tgt in (None, [], [["b", "old"]], [["a", "x"], ["b", "y"], ["c", "z"]]):
                    # metadata do not pass from one format to the other
                    for s in (["n", ["c", a, fid(a, "a"), {"value_only": True}], {}, {}], ["c", a, fid(a, "b"), {"value_only": True}], ["m", "M"], ["s", "S ü"]):
                        tree = {f"en/{a}": PARTS[a](es), f"en/{b}": PARTS[b](es), f"fr/{a}": PARTS[a](es), "en/z.ftl": ""}
                        if a == b and tgt is not None:
                            continue
                        if b == "l.xliff":  # needs sources
                            s = ["c", a, fid(a, s[2][1]), {}] if a == b and s[0] == "c" else ["x", "M"]
                        if a != b and tgt is not None:
                            tree[f"fr/{b}"] = PARTS[b](tgt)
                        yield ["disc", tree, [[[b, [[fid(b, "n"), s], [fid(b, "b"), s]]]]]]

    ctx.space("formats", formats, judge, note="every pair of formats, from the one to the other")

    def layouts():
        states = {"f.ftl": [None, "", FTL["a"], FTL["b"] + FTL["g"], "a = { \n b = B"], "d/e/n.ini": [None, "", "[S]\na=A\n", "a=A\n"], "j.json": [None, "{}", "", '{"a": "A"}', '{"a": {"b": "c"}}'], "x.xml": [None, "<resources/>", "<resources>", '<resources><string name="a">A</string></resources>']}
        refs = {"f.ftl": "a = A\n", "d/e/n.ini": "[S]\na=A\n", "j.json": '{"a": "A"}', "x.xml": '<resources><string name="a">A</string></resources>'}
        for layout in ("disc", "dref", *CONFIGS):
            for name, ss in states.items():
                for de, fr in itertools.product(ss, repeat=2):
                    for n, s in (("n", ["m", "M"]), ("a", ["m", "M"]), ("n", ["0"])):
                        if n == "a" and ss[-1] in (de, fr) and name == "j.json":
                            continue  # the id would also be a prefix
                        tree = {f"en/{name}": refs[name], "en/z.ftl": ""}
                        if de is not None:
                            tree[f"de/{name}"] = de
                        if fr is not None:
                            tree[f"fr/{name}"] = fr
                        yield [layout, tree, [[[name, [[["S", n] if "ini" in name else n, s]]]]]]

    ctx.space("layouts", layouts, judge, note="every layout, times every state of each locale's file")

    def histories():
        migs = [
            [["f.ftl", [["n", ["m", "M"]]]]],
            [["f.ftl", [["m", ["t", ["m", "T"], ["n"]]], ["a", ["m", "X"]]]]],
            [["g.ftl", [["n", ["c", "f.ftl", "n", {}]]]], ["f.ftl", [["k", ["c", "g.ftl", "n", {}]]]]],
            [["f.ftl", [["k", ["c", "f.ftl", "a", {}]]]], ["n.ini", [[["S", "k"], ["c", "f.ftl", "k", {}]]]]],
            [["n.ini", [[["T", "a"], ["m", "M"]], [["S", "n"], ["c", None, ["T", "a"], {}]]]]],
            [["p.properties", [["n", ["c", "f.ftl", "a", {}]], ["n2", ["c", None, "n", {}]]]]],
        ]
        trees = [{"fr/f.ftl": FTL["a"]}, {"fr/f.ftl": FTL["a"] + FTL["g"] + FTL["c"], "de/f.ftl": "n = N\n", "de/n.ini": "[S]\nn=A\n", "fr/p.properties": "# c\nx = y\n"}]
        for tree in trees:
            for ms in itertools.product(migs, repeat=ctx.pick(3, 4)):
                yield ["cfg" if len(tree) > 1 else "disc", {"en/f.ftl": "", "en/g.ftl": "", "en/n.ini": "[S]\n", "en/p.properties": "", **tree}, list(ms)]

    ctx.space("histories", histories, judge, note="every sequence of migrations")
    ctx.assume("Contents are compared as parsed by the library, as C01–C11 decide what the parsers give", "Files without values that the target's format cannot hold (see C26)", "Where one migration maps several files, each is compared with the files as written before it")
