"""
C27: built files hold the reference entries with available translations.

Pairs of a reference file and a localization (or none) are built, each with an oracle that selects for each entry of the reference its translation, the
reference's value, or nothing.  The built file's bytes must be those of the expected resource without comments, it must be read back with the expected ids, values,
attributes and metadata, the reported counts and missing entries must be right, building again over it must not change it, and the sources must
stay as they were.
Enumerated: for Fluent, every combination of attributes on both sides, in every order with groups and comments; for every format, every sequence of entries,
comments and sections for the reference and the localization; and configurations with several files and locales, run by the command line.
"""

from __future__ import annotations

import itertools
import json
import logging
import os
import shutil
from copy import deepcopy

from core import Bad, Ctx, T, need, same, subsets, words
from files import KINDS, SECTIONED, make
from moz.l10n.bin.build import cli as build_cli
from moz.l10n.bin.build import write_target_file
from moz.l10n.bin.build_file import cli as build_file_cli
from util import *

SCRATCH = ""


def rows(res):
    return [(tuple(s.id) + tuple(e.id), e) for s in res.sections for e in s.entries if isinstance(e, E)]


def read(path: str):
    with open(path, "rb") as f:
        return f.read()


def snapshot(tree: str) -> dict:
    return {os.path.relpath(f"{d}/{f}", tree): read(f"{d}/{f}") for d, _, fs in os.walk(tree) for f in fs}


def expected(path: str, ref: bytes, l10n: bytes | None):
    """resource, count of entries, missing ids"""
    src = parse_resource(path, ref)
    loc = None if l10n is None else parse_resource(path, l10n)
    have = {} if loc is None else dict(rows(loc))
    out = Resource(src.format, [], meta=loc.meta if loc else src.meta)
    heads = {tuple(s.id): s.meta for s in loc.sections if s.id} if loc else {}
    total, missing = 0, []
    for s in src.sections:
        new = []
        for e in s.entries:
            if not isinstance(e, E):
                continue
            total += 1
            id = tuple(s.id) + tuple(e.id)
            got = have.get(id)
            if src.format == Format.fluent and got is not None and not id[0].startswith("-"):
                valued = lambda e: not (isinstance(e.value, PM) and e.value.pattern == [])
                if not set(e.properties) <= set(got.properties) or (valued(e) and not valued(got)):
                    got = None
                else:
                    got = deepcopy(got)
                    got.properties = {k: v for k, v in got.properties.items() if k in e.properties}
            if got is None:
                missing.append(id[0] if len(id) == 1 else list(id))
                if src.format == Format.fluent:
                    continue
                got = e
            new.append(got)
        out.sections.append(S(s.id, new, meta=heads.get(tuple(s.id), s.meta)))
    return out, total, missing


def core_meta(e, format):
    """What is kept without comments"""
    if format == Format.gettext:
        return [m for m in e.meta if m.key == "plural"]
    return [m for m in e.meta if "note" not in m.key]


def check(path: str, data: bytes, want) -> None:
    res, total, missing = want
    same(path, data.decode(), ser(res, trim_comments=True))
    back = parse_resource(path, data) if not path.endswith(".json") or rows(res) else res
    if res.format == Format.webext:  # examples are comments
        for _, e in rows(res):
            for x in e.value.declarations.values():
                x.attributes.pop("example", None)
    show = lambda r: [(id, dump(e.value), tuple(sorted(dump(e.properties))), dump(core_meta(e, r.format))) for id, e in rows(r)]
    order = lambda xs: sorted(xs, key=repr)
    same(f"entries of {path}", order(show(back)), order(show(res)))
    same(f"format of {path}", back.format, res.format)
    if path.endswith(("xliff", "po")):
        same(f"metadata of {path}", dump(back.meta), dump(res.meta))
        same(f"sections of {path}", [(s.id, dump(s.meta)) for s in back.sections if any(isinstance(e, E) for e in s.entries)], [(s.id, dump(s.meta)) for s in res.sections if any(isinstance(e, E) for e in s.entries)])
    for text in ("NOTE", "Group"):
        # XML comments within an XLIFF file are not those of entries
        need(text not in data.decode() or path.endswith("xliff"), "a comment in", path)


def judge(c) -> str:
    name, ref, l10n, prev = c
    d = f"{SCRATCH}/{os.getpid()}"
    os.makedirs(f"{d}/r")
    os.makedirs(f"{d}/l")
    try:
        with open(f"{d}/r/{name}", "w") as f:
            f.write(ref)
        if l10n is not None:
            with open(f"{d}/l/{name}", "w") as f:
                f.write(l10n)
        if prev:
            with open(f"{d}/{name}", "w") as f:
                f.write("zzz" * 200)
        want = expected(name, ref.encode(), None if l10n is None else l10n.encode())
        src = parse_resource(f"{d}/r/{name}")
        before = dump(src)
        for i in range(2):
            got = write_target_file(name, src, f"{d}/l/{name}", f"{d}/{name}")
            check(name, read(f"{d}/{name}"), want)
            n = len(want[2])
            same("result", got, (-n if src.format == Format.fluent else n, want[1], want[2]))
        same("the reference resource", dump(src), before)
        same("reference file", read(f"{d}/r/{name}").decode(), ref)
        if l10n is not None:
            same("localization file", read(f"{d}/l/{name}").decode(), l10n)
        # by itself
        args = ["--source", f"{d}/r/{name}", "--target", f"{d}/out/x/{name}", "--coverage-base", f"{d}/out"]
        if l10n is not None or prev:
            args += ["--l10n", f"{d}/l/{name}"]
        else:
            want = src, want[1], []
        others: dict = {"o.ftl": {"total": 3, "missing": ["a", ["b", "c"]]}, f"x/{name}": {"total": 9, "missing": []}} if want[1] % 2 == 0 else {}
        if others:
            os.makedirs(f"{d}/out")
            with open(f"{d}/out/coverage.json", "w") as f:
                json.dump(others, f)
        build_file_cli.main(args, standalone_mode=False)
        check(name, read(f"{d}/out/x/{name}"), want)
        same("coverage", json.loads(read(f"{d}/out/coverage.json")), {**others, f"x/{name}": {"total": want[1], "missing": want[2]}})
        T.trace(3)
        return f"{len(want[2])} of {want[1]} missing"
    finally:
        shutil.rmtree(d)


CFG = {
    "all": '[[paths]]\nreference="en/**"\nl10n="{locale}/**"\n',
    "some": 'locales=["de"]\n[[paths]]\nreference="en/**"\nl10n="{locale}/x/**"\nlocales=["fr"]\n[[paths]]\nreference="en/*.ftl"\nl10n="{locale}/y/*.ftl"\n',
}


def judge_tree(c) -> str:
    cfg, files, locales, inplace, coverage, prev = c
    d = f"{SCRATCH}/{os.getpid()}"
    os.makedirs(f"{d}/src")
    try:
        with open(f"{d}/src/l10n.toml", "w") as f:
            f.write(CFG[cfg])
        base = f"{d}/base"
        target = base if inplace else f"{d}/out"
        for p, data in files.items():
            full = f"{d}/src/{p}" if p.startswith("en/") else f"{base}/{p}"
            os.makedirs(os.path.dirname(full), exist_ok=True)
            with open(full, "w") as f:
                f.write(data)
        os.makedirs(f"{target}/fr", exist_ok=True)
        with open(f"{target}/fr/other.ftl", "w") as f:
            f.write("not = touched\n")
        if prev:
            for p in ("de/f.ftl", "de/x/f.ftl", "fr/s/n.ini", "fr/x/s/n.ini"):
                if not inplace:
                    os.makedirs(os.path.dirname(f"{target}/{p}"), exist_ok=True)
                    with open(f"{target}/{p}", "w") as f:
                        f.write("previous content " * 50)
        before = snapshot(d)
        args = ["--config", f"{d}/src/l10n.toml", "--base", base, "--target", target, "--locales", ",".join(locales)]
        build_cli.main(args + ["--coverage"] * coverage, standalone_mode=False)
        now = snapshot(d)
        # all paths of an existing reference
        want = dict(before)
        cov = {lc: {} for lc in locales}
        rel = os.path.relpath(target, d)
        for p in files:
            if not p.startswith("en/"):
                continue
            for lc in locales:
                ts = [f"{lc}/{p[3:]}"] if cfg == "all" else [f"{lc}/x/{p[3:]}"] * (lc == "fr") + [f"{lc}/y/{p[3:]}"] * (p.count("/") == 1 and p.endswith(".ftl"))
                for t in ts:
                    l10n = files.get(t)
                    if p.endswith(".txt"):
                        want[f"{rel}/{t}"] = (files[p] if l10n is None else l10n).encode()
                        continue
                    w = expected(p, files[p].encode(), None if l10n is None else l10n.encode())
                    want[f"{rel}/{t}"] = ser(w[0], trim_comments=True).encode()
                    check(p, now.get(f"{rel}/{t}", b"none"), w)
                    cov[lc][t[len(lc) + 1 :]] = {"total": w[1], "missing": w[2]}
        if coverage:
            for lc in locales:
                p = f"{rel}/{lc}/coverage.json"
                need(p in now, "no coverage for", lc)
                same(f"coverage for {lc}", json.loads(now.pop(p)), cov[lc])
        same("files", sorted(now), sorted(want))
        for p, data in want.items():
            same(p, now[p], data)
        if not inplace:
            build_cli.main(args + ["--coverage"] * coverage, standalone_mode=False)
            again = snapshot(d)
            for p, data in now.items():
                same(f"{p} again", again[p], data)
        T.trace(2)
        return f"{len(want) - len(before)} new files"
    finally:
        shutil.rmtree(d)


def run(ctx: Ctx) -> None:
    global SCRATCH
    SCRATCH = ctx.scratch()
    logging.disable()
    logging.basicConfig = lambda *a, **k: None  # keep quiet

    attrs = ["", "p", "q", "pq", "qp"]

    def ftl(id, how, val):
        body = "".join(f"\n    .{a} = {val} {a}" for a in how.strip("0*"))
        return f"{id} ={'' if '0' in how else ' ' + val if '*' not in how else ' { $n ->' + chr(10) + '   *[one] ' + val + chr(10) + '  }'}{body}\n"

    def fluents():
        for r1 in [None, *attrs, "0p", "*"]:
            for l1 in [None, *attrs, "r", "pr", "0p", "*q"]:
                for r2 in (None, "", "p", "*pq"):
                    for l2 in (None, "", "qp", "0pr"):
                        for t in ((None, ""), ("", None), ("", "pr"), ("p", "")) if not ctx.quick or r1 in (None, "", "p", "0p") else ((None, ""), ("p", "")):
                            for deco in (0, 1, 2):
                                parts = [ftl("m", r1, "src") if r1 is not None else "", ftl("n", r2, "src") if r2 is not None else "", ftl("-t", t[0], "src") if t[0] is not None else ""]
                                ref = ["".join(parts), "### NOTE\n\n## Group\n\n# NOTE\n" + parts[0] + "\n# NOTE\n\n" + "\n## Group NOTE\n\n".join(parts[1:]), parts[2] + "\n\n##\n\n" + parts[1] + parts[0]][deco]
                                loc = ["\n# NOTE l\n\n" * (deco == 1) + ftl(i, h, "tgt") for i, h in (("-t", t[1]), ("m", l1), ("n", l2), ("x", l2)) if h is not None]
                                yield ["f.ftl", ref, "".join(loc), deco == 2]
        for r in words("mn#g", 3):
            for l in (None, "", "m", "n", "mn", "g#m"):
                src = lambda ts, v: "".join({"#": f"\n# NOTE {v}\n\n", "g": "\n## Group\n\n"}.get(t) or f"{t} = {v}\n" for t in ts)
                if all(r.count(t) < 2 for t in "mn"):
                    for prev in (0, 1):
                        yield ["f.ftl", src(r, "src"), None if l is None else src(l, "tgt"), prev]

    ctx.space("fluent", fluents, judge, note="attributes of each entry on both sides, with terms, groups and comments")

    def formats():
        items = {"a": ("a", "A"), "b": ("b", "B é"), "#": ("#", "NOTE"), "[": ("[]", "T"), "e": ("e", "")}
        for name in KINDS:
            toks = {"f.ftl": "ab#", "n.ini": "ab#[e", "l.xliff": "ab#[e"}.get(name, "ab#e")
            refs = [ts for ts in words(toks, ctx.pick(3, 4)) if all(ts.count(t) < 2 or t == "#" or (t != "[" and "[" in ts[ts.index(t) : len(ts) - 1 - ts[::-1].index(t)]) for t in ts)]
            if name == "j.json" or name == "w.json":
                refs = [r for r in refs if "#" not in r and r]
            if name == "x.xml":
                refs = [r for r in refs if r[-1:] != ("#",)]
            if name == "o.po":
                refs = [r for r in refs if r[-1:] != ("#",) and ("#", "#") not in zip(r, r[1:])]
            locs = [None, "", "a", "b", "ba", "#ae", "[a", "b[ab", "[", "ax"]
            for r in refs:
                for l in locs:
                    if l is not None and ("[" in l and name not in SECTIONED):
                        continue
                    if l and "e" in l and name == "f.ftl":
                        continue
                    ref = make(name, [items[t] for t in r])
                    loc = None if l is None else make(name, [(items.get(t, ("x", ""))[0], "tgt ü" if t not in "#[" else "T" if t == "[" else "NOTE") for t in l], "fr")
                    for prev in (0, 1):
                        yield [name, ref, loc, prev]

    ctx.space("formats", formats, judge, note="every format, with sequences of entries, comments and sections on both sides")

    def special():
        T2 = 'xmlns:tools="http://schemas.android.com/tools"'
        xs = {
            "x.xml": (["<resources/>", '<resources xmlns:xliff="urn:oasis:names:tc:xliff:document:1.2"><string name="a">A <xliff:g id="q">%s</xliff:g></string><plurals name="b"><item quantity="one">1</item><item quantity="other">%d</item></plurals></resources>', f'<resources {T2}><string name="a" tools:ignore="x">A</string><string-array name="c"><item>c1</item><item>c2</item></string-array></resources>'], ["<resources/>", '<resources><plurals name="b"><item quantity="few">F</item><item quantity="other">%d</item></plurals><string-array name="c"><item>C1</item></string-array></resources>', f'<resources {T2}><string name="a" tools:x="y">tgt</string></resources>']),
            "w.json": (["{}", '{"a": {"message": "A $X$", "description": "NOTE", "placeholders": {"x": {"content": "$1", "example": "e"}}}, "b": {"message": "B"}}', '{"b": {"message": "B"}}'], ["{}", '{"b": {"message": "B $1"}}', '{"a": {"message": "", "description": "NOTE"}, "c": {"message": "C"}}']),
            "j.json": (["{}", '{"a": "A", "b": {"c": "C"}}', '{"b": {"c": "C", "d": {"e": "E"}}}'], ["{}", '{"b": {"c": "x"}}', '{"b": {"d": {"e": "y"}}, "z": "z"}']),
            "o.po": (['msgid ""\nmsgstr ""\n', '# NOTE\nmsgid ""\nmsgstr ""\n"Language: en\\n"\n\n#: NOTE.c:3\n#, c-format\nmsgid "a"\nmsgstr ""\n\nmsgctxt "x"\nmsgid "a"\nmsgstr ""\n\nmsgid "b"\nmsgid_plural "bs"\nmsgstr[0] ""\nmsgstr[1] ""\n'], ['msgid ""\nmsgstr ""\n"Language: fr\\n"\n', 'msgid ""\nmsgstr ""\n"Plural-Forms: nplurals=2; plural=n>1;\\n"\n\nmsgid "b"\nmsgid_plural "bs"\nmsgstr[0] "B"\nmsgstr[1] "Bs"\n\nmsgctxt "x"\nmsgid "a"\nmsgstr "tgt"\n', 'msgid "a"\nmsgstr "tgt"\n']),
            "i.inc": (["#filter emptyLines\n#define a A\n# NOTE\n#define b B\n#unfilter emptyLines\n"], ["", "#define b x\n"]),
            "l.xliff": ([], []),
        }
        unit = lambda i, t, note="": f'<trans-unit id="{i}"><source>src</source>{t and f"<target>{t}</target>"}{note}</trans-unit>'
        doc = lambda lc, body, tail="": f'<?xml version="1.0"?><xliff version="1.2" xmlns="urn:oasis:names:tc:xliff:document:1.2" xmlns:q="urn:q"><file original="S" source-language="en" target-language="{lc}" datatype="x" q:z="1"><header><tool tool-id="t" tool-name="n"/></header><body>{body}</body></file>{tail}</xliff>'
        bodies = ["", unit("a", ""), unit("a", "t") + unit("b", ""), f'<group id="g" restype="r">{unit("a", "", "<note>NOTE</note>")}</group>', unit("a", "") + f'<group id="g">{unit("a", "")}<group id="h" q:y="2">{unit("b", "x")}</group></group>']
        tails = ["", '<file original="T" source-language="en" datatype="y"><body><trans-unit id="a"><source>s</source></trans-unit></body></file>']
        xs["l.xliff"] = ([doc("en", b, t) for b in bodies for t in tails], [doc("fr", b.replace("<source>src</source>", "<source>src</source>").replace("</source></", "</source><target>tgt</target></"), t) for b in bodies for t in tails])
        for name, (refs, locs) in xs.items():
            for r in refs:
                for l in [None, *locs]:
                    if name == "j.json" and r == "{}":
                        continue
                    for prev in (0, 1):
                        yield [name, r, l, prev]

    ctx.space("special", special, judge, note="metadata, placeholders, plurals, arrays, groups and namespaces")

    def trees():
        refs = {"en/f.ftl": "a = A\nb = B\n    .p = P\n", "en/s/n.ini": "[S]\na=A\nb=B\n", "en/s/t.txt": "text", "en/g.ftl": "# NOTE\nc = C\n"}
        locs = {
            "f.ftl": [None, "b = x\n    .p = y\nz = z\na = { \"a\" }\n", ""],
            "s/n.ini": [None, "[S]\nb=x\n[T]\na=z\n"],
            "s/t.txt": [None, "local"],
        }
        for cfg in CFG:
            for rs in subsets(list(refs)):
                for de in itertools.product(*locs.values()):
                    for k, fr in enumerate(itertools.product(*locs.values())):
                        if ctx.quick and (k % 3 != len(rs) % 3 or de.count(None) == 2):
                            continue
                        files = {r: refs[r] for r in rs}
                        for lc, fs in (("de", de), ("fr", fr)):
                            for (p, _), data in zip(locs.items(), fs):
                                if data is not None:
                                    files[f"{lc}/{p}"] = data
                                    if cfg == "some":
                                        files[f"{lc}/x/{p}"] = data
                                        files[f"{lc}/y/{p}"] = data[: len(data) // 2] if p == "s/t.txt" else data
                        files["base/z.ftl"] = "z = Z\n"
                        for i, (lcs, inplace, cov) in enumerate(((["de", "fr"], 0, 1), (["fr"], 0, 0), (["de", "fr", "nn"], 1, 0), (["nn"], 1, 1))):
                            if not ctx.quick or i in (0, 1 + k % 3):
                                yield [cfg, files, lcs, inplace, cov, k % 2]

    ctx.space("trees", trees, judge_tree, note="several files and locales, by the command line")
    ctx.assume("Comments are trimmed as by serialize_resource(trim_comments=True), decided by C16", "A translation of a Fluent message needs the value and all attributes of the reference message, a term only needs to be there", "Where there is no localization, metadata of files and sections are those of the reference")
