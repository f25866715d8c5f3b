"""
C28: comparison reports exactly the missing entries and erroneous files.

Trees with a source and localizations are compared by the command line, as JSON and as text.  An oracle that knows which entries each file was made
with, and which of them are broken, gives the missing entries and erroneous files of each locale, and the totals.
Enumerated: for every format, pairs of sequences of entries, comments and sections; and trees with several files, each complete, partial, empty, broken or not there, in
several locales, with sources given as directories, configurations of several forms or JSON files, with every way to name the paths and extensions.
Assumed: entries are identified by their dotted ids, as the reports and JSON sources do, and no two entries of a file share one.
"""

from __future__ import annotations

import itertools
import json
import os
import shutil

from core import Ctx, T, need, same, subsets, words
from files import BROKEN, KINDS, SECTIONED, make
from click.testing import CliRunner
from moz.l10n.bin.compare import cli
from util import *

SCRATCH = ""
UNREADABLE = {k: [b for b in v if "\\ud800" not in str(b)] for k, v in BROKEN.items()}
KIND = {"x.ini.ftl": "f.ftl", "a.ftl/n.ini": "n.ini"}
# Where files of a locale are: their paths relative to the directory of the locale, and the template in the configuration
LAYOUTS = {
    "dir": (lambda lc, f: f, None),
    "toml": (lambda lc, f: f, "{locale}/%s"),
    "name": (lambda lc, f: f"{lc}-{f}", "{locale}/{locale}-%s"),
    "deep": (lambda lc, f: f"x/{lc}/{f}", "{locale}/x/{locale}/%s"),
    "android": (lambda lc, f: f"../{ {'he': 'iw', 'pt-BR': 'pt-rBR', 'sr-Latn': 'b+sr+Latn'}.get(lc, lc) }-v/{f}", "{android_locale}-v/%s"),
    "next": (lambda lc, f: f"../t/{lc}/{f}", "t/{locale}/%s"),
    "json": (lambda lc, f: f, None),
}


def items(name: str, spec) -> tuple[str, list]:
    """The source of a file, and its ids"""
    name = KIND.get(name, name)
    section = "S" if name in SECTIONED else ""
    ids = []
    for k, v in spec:
        if k == "[]" and name in SECTIONED:
            section = v
        elif k not in ("[]", "#"):
            ids.append(f"{section}.{k}" if section else k)
    return make(name, spec), ids


def put(path: str, data) -> None:
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data if isinstance(data, bytes) else data.encode())


def included(path: str, ext: str | None) -> bool:
    exts = [x.strip() for x in (ext or "").strip("\"'").split(",")]
    dot = lambda x: x if x[0] == "." else "." + x
    no = [dot(x[1:]) for x in exts if x[:1] == "!" and x[1:]]
    yes = [dot(x) for x in exts if x and x[0] != "!"]
    return (not yes or any(path.endswith(x) for x in yes)) and not any(path.endswith(x) for x in no)


def judge(c) -> str:
    """
    layout, {name: items or a broken file's index}, {locale: {name: ...}}, extensions, how to name paths
    """
    layout, ref, locs, ext, naming = c
    d = f"{SCRATCH}/{os.getpid()}"
    where, template = LAYOUTS[layout]
    cwd = os.getcwd()
    try:
        source: dict[str, list] = {}
        for name, spec in ref.items():
            src, ids = items(name, spec)
            put(f"{d}/en/{name}", src)
            source[name] = ids
        if layout == "dir":
            src_path = "en"
        elif layout == "json":
            src_path = "src.json"
            put(f"{d}/src.json", json.dumps(source))
        else:
            src_path = "l10n.toml"
            put(f"{d}/l10n.toml", 'basepath = "."\n' + "".join(f'[[paths]]\nreference = "en/{n}"\nl10n = "{template % n}"\n' for n in ref))
        selected = {n: ids for n, ids in source.items() if included(n, ext)}
        total = sum(len(set(ids)) for ids in selected.values())
        paths, want = [], {}
        for i, (lc, files) in enumerate(locs.items()):
            base = f"base{i}" if naming == "apart" else "."
            if files is None:
                paths.append(f"{base}/{lc}")
                continue  # not there
            os.makedirs(f"{d}/{base}/{lc}")
            errors, missing = set(), {}
            have = {}
            for name, spec in files.items():
                if isinstance(spec, int):
                    data, have[name] = UNREADABLE[KIND.get(name, name)][spec], None
                else:
                    data, have[name] = items(name, spec)
                put(os.path.normpath(f"{d}/{base}/{lc}/{where(lc, name)}"), data)
            for name, ids in selected.items():
                rel = where(lc, name)
                if not ids:
                    continue
                if name not in have:
                    missing[rel] = list(dict.fromkeys(ids))
                elif have[name] is None:
                    errors.add(rel)
                elif set(ids) - set(have[name]):
                    missing[rel] = [x for x in dict.fromkeys(ids) if x not in have[name]]
            want[lc] = (sorted(errors), missing)
            paths.append(f"{base}/{lc}")
        if naming == "slash":
            paths = [p + "/" for p in paths]
        elif naming == "abs":
            paths = [os.path.normpath(f"{d}/{p}") for p in paths]
        elif naming == "plain":
            paths = [os.path.normpath(p) for p in paths]
        os.chdir(d)
        args = [*paths, "--source", src_path, *(["--ext", ext] if ext is not None else [])]
        run = CliRunner().invoke(cli, [*args, "--json"])
        if total == 0:
            need(isinstance(run.exception, ValueError), "no messages, but", run.exception, run.output)
            T.trace(1)
            return "nothing"
        need(run.exit_code == 0, "failed with", run.exception)
        got = json.loads(run.output)
        same("locales", sorted(got), sorted(want))
        for lc, (errors, missing) in want.items():
            same(f"erroneous files of {lc}", sorted(got[lc]["errors"] or ()), errors)
            need(all((got[lc]["errors"] or {}).values()), "an empty error")
            same(f"missing messages of {lc}", got[lc]["missing"] or {}, missing)
        for v in ([], ["-v"], ["-vv"]):
            run = CliRunner().invoke(cli, [*args, *v])
            need(run.exit_code == 0, "failed with", run.exception)
            lines = [x for x in run.output.split("\n") if x]
            same("total", lines[0], f"source: {total}")
            exp = []
            for lc, (errors, missing) in want.items():
                exp.append(f"{lc}: {-sum(map(len, missing.values()))}")
                exp += [f"  !!! {p}" for p in errors]
                for p, ms in missing.items() if v else ():
                    exp.append(f"  {p}: -{len(ms)}")
                    exp += [f"    {m}" for m in ms] if v == ["-vv"] else ()
            lines = [x if "!!!" not in x else x[: x.index(": ")] for x in lines[1:]]
            # multi-line errors continue on lines of their own
            lines = [x for x in lines if x in exp or x.startswith(("  ", *(f"{lc}:" for lc in locs)))]
            same("output" + "".join(v), sorted(x for x in lines if x in exp or ": -" in x), sorted(exp))
        T.trace(4)
        return f"{len(want)} locales, {sum(len(e) for e, _ in want.values())} errors, {sum(sum(map(len, m.values())) for _, m in want.values())} missing"
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


A, B, Z = ("a", "A"), ("b", "B"), ("z", "Z")
COM, SEC = ("#", "note"), ("[]", "X")


def sound(spec) -> bool:
    """No duplicates"""
    seen, sec = [], ""
    for k, v in spec:
        sec = v if k == "[]" else sec
        if k != "#":
            seen.append((sec, k))
    return len(seen) == len(set(seen))


def run(ctx: Ctx) -> None:
    global SCRATCH
    SCRATCH = ctx.scratch()

    def pairs():
        for name in KINDS:
            alpha = [A, B] + ([COM] if name[-4:] != "json" else []) + ([SEC] if name in SECTIONED else [])
            for r in words(alpha, ctx.pick(3, 4)):
                if not sound(r) or r.count(COM) > 1:
                    continue
                for t in [*words(alpha + [Z], ctx.pick(2, 3)), *(() if name[-4:] == "json" else [(COM, A, COM)]), None, *range(len(UNREADABLE[name]))]:
                    if not isinstance(t, tuple) or sound(t):
                        for layout in ("dir", "json"):
                            if layout == "dir" or len(r) < 3:
                                yield [layout, {name: r}, {"fr": {} if t is None else {name: t}}, None, "plain"]

    ctx.space("pairs", pairs, judge, note="for every format, a source and a localized file")

    def trees():
        full, part, none, bad = [A, B], [B], [], 0
        for layout in LAYOUTS:
            for names in (("f.ftl", "n.ini"), ("o.po", "j.json"), ("x.xml", "p.properties")):
                ref = {names[0]: full, names[1]: [A]}
                states = [{n: s for n, s in zip(names, ss) if s is not None} for ss in itertools.product((full, part, bad, None), repeat=2)]
                for one, two in itertools.product(states, [*states, None]):
                    if ctx.quick and (len(str((one, two, layout))) + len(names[0])) % 5:
                        continue
                    for naming in ("plain", "apart"):
                        yield [layout, ref, {"fr": one, "de": two}, None, naming]
                        yield [layout, ref, {"he": two, "pt-BR" if layout == "android" or len(str(one)) % 2 else "pt_BR": one}, None, naming]

    ctx.space("trees", trees, judge, note="two files in two locales, each complete, partial, broken or missing, with every form of source")

    def options():
        for layout in LAYOUTS:
            for naming in ("plain", "slash", "abs", "apart"):
                for ext in (None, "", "ftl", ".ftl", "ini,ftl", "!ftl", "!.ftl", "!ftl,!ini", "po", "ftl,!ftl", "'.ini, !x'", ",", "!", "n.ini", "tl"):
                    for names in [*subsets(["f.ftl", "n.ini", "p.properties"]), ("x.ini.ftl",), ("a.ftl/n.ini", "x.ini.ftl")]:
                        ref = {n: [A, B] for n in names}
                        for state in ({n: [A] for n in names}, {"n.ini": [B], "f.ftl": 0}, {}):
                            yield [layout, ref, {"fr": state, "de": {}, "sr-Latn": {n: [A, B] for n in names}, "es": None}, ext, naming]

    ctx.space("options", options, judge, note="filters by extension, and ways to name paths")
