"""
C40: results don't depend on the order of directory listings and sets.

Neither of these orders is defined, and they differ between file systems and runs.  The library is loaded with each of its sets, and each directory listing, made a choice point: every run is repeated for all
combinations of orders in which up to some number of these differ from the first.  Every order of up to three items is a choice, and for more items all rotations, reversals and swaps of neighbours.  What is
found, parsed, built, compared, linted, fixed and migrated, by the library and the command line, must always be the same, as files, values, exit codes and reported lines.
Assumed: building and fixing may have done any of the other files if they stop at one that fails; the order in which the files of a directory are processed and reported is free; sets are built by calls, displays, comprehensions and operators.
"""

from __future__ import annotations

import io
import itertools
import json
import logging
import os
import shutil
import sys

import orders

orders.install()

from click.testing import CliRunner  # noqa: E402
from core import Ctx, T, need, subsets  # noqa: E402
from files import KINDS, make  # noqa: E402
from moz.l10n.bin import build, compare, fix, lint, migrate as migrate_bin  # noqa: E402
from moz.l10n.formats import Format  # noqa: E402
from moz.l10n.formats.mf2.validate import mf2_validate_message  # noqa: E402
from moz.l10n.message import entry_to_json, parse_message, serialize_message  # noqa: E402
from moz.l10n.migrate import Migrate, copy, entry  # noqa: E402
from moz.l10n.model import *  # noqa: E402, F403
from moz.l10n.paths import L10nConfigPaths, L10nDiscoverPaths  # noqa: E402
from moz.l10n.resource import add_entries, l10n_equal, parse_resource, serialize_resource  # noqa: E402
from moz.l10n.util.walk_files import walk_files  # noqa: E402

SCRATCH = ""
BOUND = 1


def put(root: str, files: dict) -> None:
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(root)
    for path, text in files.items():
        path = f"{root}/{path}"
        os.makedirs(os.path.dirname(path), exist_ok=True)
        with open(path, "w", encoding="utf-8", newline="") as f:
            f.write(text)


def snapshot(root: str) -> dict:
    res = {}
    for d, _, fs in os.walk(root):
        for f in fs:
            with open(f"{d}/{f}", "rb") as file:
                res[os.path.relpath(f"{d}/{f}", root)] = file.read()
    return res


def every(what, run, bound=None, limit=100000):
    first, n = None, 0
    for choices, res in orders.explore(run, BOUND if bound is None else bound, limit):
        T.trace(1)
        n += 1
        if n == 1:
            first = res
            T.state(1)
        need(res == first, what, "with orders", choices, "gives", res, "rather than", first)
    return n, first


def some(f, *args):
    try:
        return f(*args)
    except Exception as e:
        return type(e).__name__


# Paths

SLOTS = ["en", "en-US", "en_us", "x/en", "x/en-US", "x/y/en", "z/en", "de", "fr", "pt-BR", "pt_BR", "x/de", "x/aa", "z/fr", "z/x/de", "en/de", "de/en", ".h/en"]
CONTENTS = {"-": [], "f": ["a.ftl"], "p": ["a.pot", "s/b.ftl"]}


def j_discover(c) -> str:
    slots, how = c
    root = f"{SCRATCH}/{os.getpid()}/d"
    put(root, {f"{d}/{f}": "" for d, cont in slots for f in CONTENTS[cont]})
    for d, _ in slots:
        os.makedirs(f"{root}/{d}", exist_ok=True)
    kw = {"root": {}, "ref": {"ref_root": f"{root}/x"}, "source": {"source_locale": ["en", "en-US"]}}[how]

    def run():
        try:
            p = L10nDiscoverPaths(root, **kw)
        except Exception as e:
            return type(e).__name__
        res = [p.ref_root, p.base, p.locales, p.locale_dir_sep, sorted(p.ref_paths), sorted(p.all_locales)]
        if p.base is not None:
            res.append(p.all())
            res.append([some(p.target, r, *()) for r in sorted(p.ref_paths)])
            res.append([p.find_reference(f"{lc}/{f}") for lc in ("de", "fr", "pt-BR") for f in ("a.ftl", "a.po", "s/b.ftl")])
        return res

    n, res = every("discovery", run, bound=BOUND + (len(slots) < 3))
    shutil.rmtree(root)
    return "error" if isinstance(res, str) else "one order" if n == 1 else "found"


WALKED = ["a", "b", "d/a", "d/b", "d/e/a", "e/a", "e/.x", ".y/a"]
IGNORE = ["", "a\n", "d/\n", "!a\n", "/a\n!d/a\n", "d/*\n!d/e\n", "*\n!b\n", "e\n!e/a\n"]


def j_walk(c) -> str:
    paths, ignore, dirs = c
    root = f"{SCRATCH}/{os.getpid()}/w"
    put(root, {p: "" for p in paths} | {".l10n-ignore": ignore})
    for d in dirs or ():
        os.makedirs(f"{root}/{d}", exist_ok=True)
    n, res = every("walk", lambda: sorted(walk_files(root, dirs)))
    shutil.rmtree(root)
    return f"{len(res)} files" if n > 1 else "one order"


REFS = ["en/a.ftl", "en/b.ftl", "en/s/a.ftl", "en/s/b.pot", "en/t/a.ftl"]
TOMLS = [
    '[[paths]]\nreference="en/**"\nl10n="{locale}/**"\n',
    'locales=["de","fr"]\n[[paths]]\nreference="en/**/a.ftl"\nl10n="{locale}/**/a.ftl"\n',
    '[[paths]]\nreference="en/**/*.ftl"\nl10n="{locale}/**/*.ftl"\nlocales=["fr","de"]\n[[paths]]\nreference="en/**"\nl10n="{locale}/**"\nlocales=["aa","de"]\n',
    'locales=["fr","de"]\n[[paths]]\nreference="en/*/*.ftl"\nl10n="{locale}/*-*.ftl"\n[[paths]]\nreference="en/*.ftl"\nl10n="x/{locale}/*.ftl"\nlocales=["aa","zz"]\n',
    '[[paths]]\nreference="en/**/*.ftl"\nl10n="{locale}/**/x-*.ftl"\nlocales=["fr"]\n[[includes]]\npath="i.toml"\n[[includes]]\npath="j.toml"\n',
    '[[paths]]\nreference="en/a.ftl"\nl10n="{locale}/a.ftl"\nlocales=["fr","de","aa"]\n[[paths]]\nreference="en/a.ftl"\nl10n="{locale}/a.ftl"\nlocales=["zz","de"]\n[[includes]]\npath="i.toml"\n',
]
INCLUDED = {"i.toml": 'locales=["de","zz"]\n[[paths]]\nreference="en/**"\nl10n="i/{locale}/**"\n[[includes]]\npath="j.toml"\n', "j.toml": '[[paths]]\nreference="en/s/**"\nl10n="{locale}/j/**"\nlocales=["aa","bb","fr"]\n'}


def j_config(c) -> str:
    refs, toml = c
    root = f"{SCRATCH}/{os.getpid()}/c"
    put(root, {r: "" for r in refs} | {"l10n.toml": TOMLS[toml], **INCLUDED})

    def run():
        p = L10nConfigPaths(f"{root}/l10n.toml")
        paths = p.all()
        res = [sorted(p.all_locales), sorted(p.ref_paths), paths]
        for r in sorted(set(p.ref_paths)):
            for lc in (None, "de", "fr", "zz", "xx"):
                t, ls = p.target(r, locale=lc)
                res.append([r, lc, t, sorted(ls)])
        for lc in ("de", "fr", "zz"):
            for _, t in sorted(paths):
                res.append([t, lc, p.find_reference(p.format_target_path(t, lc))])
        return res

    n, res = every("configuration", run, bound=BOUND + (len(refs) < 4))
    shutil.rmtree(root)
    return "ordered" if n > 1 else "one order"


# The command line

CONFIG = '{}[[paths]]\nreference="en/**"\nl10n="{{locale}}/**"\n'
FILES = {
    "f.ftl": ("a = A\n    .p = P\n    .q = Q\nb = B\n# C\nc = C\n", "c = c\na = a\n    .r = R\n    .p = p\n    .s = S\n    .q = q\n"),
    "s/p.properties": ("k=v\nl=w\n", "l=x\nz=y\n"),
    "s/n.ini": ("[S]\nk=v\n[T]\nk=w\n", "[T]\nk=x\n"),
    "w.json": ('{"a":{"message":"$x$ $Y$","placeholders":{"y":{"content":"$2"},"x":{"content":"$1"}}}}', '{"a":{"message":"$Y$ - $x$","placeholders":{"x":{"content":"$1"},"y":{"content":"$2"}}}}'),
    "t/x.xml": ('<resources><string name="a">A</string><string name="b">B</string></resources>', '<resources><string name="b">b</string></resources>'),
    "t/u.txt": ("text", "other text"),
    "bad.ftl": ("a = {\n", "x = \n"),
}
MIGRATIONS = [
    'from moz.l10n.migrate import *\nfrom moz.l10n.model import *\nMigrate({"f.ftl": {"n": lambda res, ctx: (PatternMessage(["new"]), {"a", "b", "c", "zz"}), "m": copy("s/p.properties", "l"), "o": entry(copy(None, "a"), {"x": copy(None, "c"), "w": copy(None, "a", property="p")}, allow_partial=True)}})\n',
    'from moz.l10n.migrate import *\nfrom moz.l10n.model import *\nMigrate({"en/s/n.ini": {("T", "n"): lambda res, ctx: (PatternMessage(["new"]), {("T", "k"), ("S", "k")}), ("S", "l"): copy("en/f.ftl", "c")}, "en/s/p.properties": {"q": copy("en/f.ftl", "a"), "r": copy(None, "l")}})\nMigrate({"en/f.ftl": {"y": copy("en/s/p.properties", "r")}})\n',
]
COMMANDS = ["build", "build-coverage", "build-locales", "compare", "compare-json", "compare-dirs", "lint", "lint-config", "lint-glob", "fix", "fix-continue", "fix-config", "fix-glob", "migrate0", "migrate1"]


def clean(text: str, root: str) -> list[str]:
    return sorted(text.replace(root, "ROOT").splitlines())


def j_cli(c) -> str:
    command, names, locales = c
    root = f"{SCRATCH}/{os.getpid()}/x"
    files = {"l10n.toml": CONFIG.format('locales=["fr","de","aa"]\n' if command.endswith("locales") else "")}
    if command.startswith("migrate"):
        names = dict.fromkeys(["f.ftl", "s/p.properties", "s/n.ini", *names])
    for i, n in enumerate(names):
        files[f"en/{n}"] = FILES[n][0]
        for j, lc in enumerate(locales):
            if (i + j) % 3 < 2:
                files[f"{lc}/{n}"] = FILES[n][1]
    kind = command.split("-")[0]
    lcs = ",".join(locales)
    cli, args = {
        "build": (build.cli, ["--config", "l10n.toml", "--base", ".", "--target", "out", "--locales", lcs, "-v"] + (["--coverage"] if "coverage" in command else [])),
        "build-locales": (build.cli, ["--config", "l10n.toml", "--base", ".", "--target", "out", "--locales", lcs, "-v"]),
        "compare": (compare.cli, ["--source", "l10n.toml", *locales]),
        "compare-json": (compare.cli, ["--source", "l10n.toml", "--json", *locales]),
        "compare-dirs": (compare.cli, ["--source", "en", *locales]),
        "lint": (lint.cli, ["-vv", "."]),
        "lint-config": (lint.cli, ["-v", "--config", "l10n.toml"]),
        "lint-glob": (lint.cli, ["-v", "**/*.*", "en/**"]),
        "fix": (fix.cli, ["-v", "."]),
        "fix-continue": (fix.cli, ["-v", "--continue", "."]),
        "fix-config": (fix.cli, ["-vv", "--config", "l10n.toml"]),
        "fix-glob": (fix.cli, ["-v", "*/*.*", "**/*.ini"]),
        "migrate0": (migrate_bin.cli, ["--root", ".", "--ref", "en", "m0.py", "-v"]),
        "migrate1": (migrate_bin.cli, ["--config", "l10n.toml", "m1.py", "-v"]),
    }[command if command != "build-coverage" else "build"]
    if command.startswith("migrate"):
        if command == "migrate1":
            files["l10n.toml"] = 'locales=["fr","de"]\n' + CONFIG.format("")
        for i, m in enumerate(MIGRATIONS):
            files[f"m{i}.py"] = m.replace("{\"a\", \"b\", \"c\", \"zz\"}", "orders.OSet([\"a\", \"b\", \"c\", \"zz\"])").replace('{("T", "k"), ("S", "k")}', 'orders.OSet([("T", "k"), ("S", "k")])').replace("import *\n", "import *\nimport orders\n", 1)
    log = logging.getLogger()

    def run():
        on, orders.ON = orders.ON, False
        put(root, files)
        os.chdir(root)
        text = io.StringIO()
        for h in list(log.handlers):
            log.removeHandler(h)
        handler = logging.StreamHandler(text)
        log.addHandler(handler)
        log.setLevel(logging.INFO)
        orders.ON = on
        try:
            r = CliRunner().invoke(cli, args)
        finally:
            orders.ON = False
            os.chdir(SCRATCH)
            log.removeHandler(handler)
        out = json.loads(r.stdout) if command == "compare-json" and r.exit_code == 0 and r.stdout.strip() else clean(r.output, root)
        if kind in ("build", "fix") and r.exit_code and "--continue" not in args:
            return (r.exit_code,)
        return r.exit_code, repr(r.exception), out, clean(text.getvalue(), root), snapshot(root)

    n, res = every(command, run, limit=20000)
    shutil.rmtree(root)
    return f"{kind}: exit code {res[0]}"


# Documents

KEYS = ["one", "few", "other"]


def fluent():
    sel = lambda v, ks, t="": f"{{ {v} ->\n" + "".join(f"    {'*' if i == len(ks) - 1 else ' '}[{k}] {k}{t}\n" for i, k in enumerate(ks)) + "}"
    for a, b in itertools.product(subsets(KEYS[:2]), repeat=2):
        for va, vb in (("$n", "$n"), ("$n", "$m"), ("NUMBER($n)", "$n"), ('NUMBER($n, type: "ordinal")', "$n")):
            for keys in (["other"], ["0", "other"]):
                yield f"k = x {sel(va, list(a) + keys)} y {sel(vb, list(b) + keys, ' z')} {{ $q }}\n"
    for outer in (["a", "b"], ["a", "one", "b"]):
        yield "k =\n    { $n ->\n" + "".join(f"        {'*' if x == outer[-1] else ' '}[{x}] {{ $n ->\n                [{x}] 1\n               *[other] {{ $m }} {x}\n            }}\n" for x in outer) + "    }\n"
    for s in ("$a $b", "$b $a"):
        v = s.split()
        yield f"k = {sel(v[0], KEYS)} {sel(v[1], KEYS)} {sel('$c', ['x', 'y'])} {{ {v[0]} }}\n"
    yield "-t = x\n    .a = 1\n    .b = 2\nk = { -t(a: 1, b: 2) } { F($x, c: 1, d: 2) } { $y }\n    .z = { -t.a ->\n        [1] x\n       *[2] y\n    }\n    .y = 1\n"


XC = '<xliff version="1.2" xmlns="urn:oasis:names:tc:xliff:document:1.2"><file original="L.stringsdict" source-language="en" target-language="de" datatype="plaintext"><body>{}</body></file></xliff>'


def xcode():
    unit = lambda id, s, n="": f'<trans-unit id="{id}"><source>{s}</source><target>{s} t</target>{n}</trans-unit>'
    for notes in itertools.product(["", "<note>a</note>", "<note>b</note>", "<note/>"], repeat=3):
        for vs in (["a"], ["a", "b"]):
            us = [unit("/k:dict/NSStringLocalizedFormatKey:dict/:string", " ".join(f"%#@{v}@" for v in vs), notes[0])]
            for i, v in enumerate(vs):
                us += [unit(f"/k:dict/{v}:dict/one:dict/:string", "%d one", notes[1]), unit(f"/k:dict/{v}:dict/other:dict/:string", "%d other", notes[2])]
            yield XC.format("".join(us))


DOCS = {
    "fluent": lambda: fluent(),
    "webext": lambda: (json.dumps({"k": {"message": m, "placeholders": {n: {"content": f"${i + 1}", **({"example": "e"} if i else {})} for i, n in enumerate(p)}}}) for m in ("$a$ $B$ $c$", "$c$$b$$a$", "$A$ $a$ $1") for r in (1, 2, 3) for p in itertools.permutations(["a", "B", "c"], r)),
    "xliff": lambda: xcode(),
    "mf2": lambda: (f".input {{$a :number opt=$c}} .local $b = {{$a :x o=$c p=$d}} .local $d = {{$c}} .match {' '.join(p)} " + " ".join(f"{' '.join(ks)} {{{{x {{$d}} {{$a}}}}}}" for ks in itertools.product(["one", "*"], repeat=len(p))) for r in (1, 2) for p in itertools.permutations(["$a", "$b"], r)),
    "gettext": lambda: ('#, ' + ", ".join(f) + '\n#: a.c:1 b.c:2\nmsgctxt "x"\nmsgid "a"\nmsgid_plural "b"\nmsgstr[0] "c"\nmsgstr[1] "d"\n' for r in (1, 2, 3) for f in itertools.permutations(["fuzzy", "c-format", "x"], r)),
    "android": lambda: ('<resources><plurals name="a">' + "".join(f'<item quantity="{q}">%d {q}</item>' for q in qs) + '</plurals><string-array name="b"><item>x</item><item>y</item></string-array></resources>' for qs in itertools.permutations(["one", "few", "other"])),
    "ini": lambda: ["[A]\nk=v\n[B]\nk=w\n[A]\nl=x\n"],
}


def j_doc(c) -> str:
    fmt, text = c

    def run():
        try:
            res = parse_resource(Format[fmt], text) if fmt != "mf2" else Resource(None, [Section((), [Entry(("k",), parse_message(Format.mf2, text))])])
        except Exception as e:
            return type(e).__name__
        out = [repr(res.sections), [some(entry_to_json, e) for e in res.all_entries()]]
        if fmt == "mf2":
            msg = next(res.all_entries()).value
            mf2_validate_message(msg)
            out.append(serialize_message(Format.mf2, msg))
        else:
            out.append(some(lambda: "".join(serialize_resource(res))))
            other = parse_resource(Format[fmt], text)
            out.append(l10n_equal(res, other))
            for e in other.all_entries():
                e.id = (*e.id[:-1], e.id[-1] + "2")
            out.append(some(add_entries, res, other))
            out.append(repr(res.sections))
        for e in res.all_entries():
            for m in (e.value, *e.properties.values()):
                if not isinstance(m, str):
                    out.append(repr(m.normalize()))
        return out

    n, res = every(fmt, run, limit=50000)
    return f"{fmt}: {'orders' if n > 1 else 'one order'}"


def run(ctx: Ctx) -> None:
    global SCRATCH, BOUND
    SCRATCH = ctx.scratch()
    sys.path.append(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    BOUND = ctx.pick(1, 2)

    def trees():
        for n in range(1, ctx.pick(3, 4) + 1):
            for dirs in itertools.combinations(SLOTS, n):
                for cs in itertools.product("f" if n > 2 else "-fp", repeat=n):
                    for how in ("root",) if n > 3 else ("root", "ref", "source"):
                        yield [list(zip(dirs, cs)), how]
        if ctx.quick:
            for dirs in itertools.combinations(["en", "x/en", "z/en", "de", "fr", "x/de", "x/aa", "z/fr", "z/x/de"], 4):
                yield [[(d, "f") for d in dirs], "root"]

    ctx.space("discover", trees, j_discover, note="trees of up to four directories")
    ctx.space("walk", lambda: ([ps, ig, ds] for n in range(ctx.pick(4, 6)) for ps in itertools.combinations(WALKED, n) for ig in IGNORE for ds in (None, ["d", "e"], ["e", ".", "d/e"])), j_walk, note="files, rules to ignore them, and directories to search")
    ctx.space("config", lambda: ([rs, t] for rs in subsets(REFS) for t in range(len(TOMLS))), j_config, note="configurations for every set of references")
    ctx.space("cli", lambda: ([cmd, ns, ls] for cmd in COMMANDS for n in range(1, ctx.pick(3, 4) + 1) for ns in itertools.combinations(FILES, n) for ls in (["de"], ["fr", "de"], ["de", "fr", "aa"]) if n < 3 or not ctx.quick or "bad.ftl" not in ns and len(ls) == 2), j_cli, note="every command, on sets of files in several locales")
    ctx.space("documents", lambda: ([f, t] for f, docs in DOCS.items() for t in docs()), j_doc, note="documents that are parsed or written with the help of sets")
