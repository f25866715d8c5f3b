"""
C22: discovered paths map references and targets one to one.

Every directory tree with up to three (thorough: four) directories from a pool of source, locale, other and hidden names at several depths, each with a
content (nothing, localizable files, templates, other files, hidden files, files further below), is created and discovered, with each kind of
root, reference root and source locales.  An oracle lists which reference directories and bases the rules allow (more than
one where they tie).  For the chosen ones, the references, the targets for each locale, and the reference found for each target and for
other paths are checked.
"""

from __future__ import annotations

import itertools
import os
import posixpath
import re
import shutil

from core import Bad, Ctx, T, need, same, subsets, words
from moz.l10n.paths import L10nDiscoverPaths, MissingSourceDirectoryError

SLOTS = ["en", "en-US", "en_us", "x/en", "x/en-US", "de", "fr", "pt-BR", "pt_BR", "sr_Latn", "x/de", "x/aa", "en/de", "de/en", ".h/en", ".h/de", "x/y/zz", "x/y/de", "x"]
CONTENTS = {"-": [], "f": ["a.ftl"], "p": ["a.pot", "s/b.ftl"], "t": ["t.txt"], "d": ["s/b.ftl"], "o": ["a.po", "c.json", "t.txt"], "h": [".a.ftl", ".s/b.ftl"], "i": [".l10n-ignore", "a.ftl", "a.pot.ftl", "ig.ftl", "s/ig.ftl", "s/b.xliff"]}
EXT = {".dtd", ".ftl", ".inc", ".ini", ".json", ".properties", ".po", ".pot", ".xlf", ".xliff", ".xml"}
LOCALE = re.compile(r"[a-z]{2,3}([-_][A-Z][a-z]{3})?([-_][A-Z]{2})?|ca-valencia|ja-JP-mac")
SCRATCH = ""


def below(d: str, top: str) -> bool:
    return top == "" or d == top or d.startswith(top + "/")


def oracle(slots, ref_root: str | None, sources: list[str], top: str = ""):
    """The allowed (reference directory, files) and bases, all relative to the tree, where the root is `top`."""
    files = {f"{d}/{f}" for d, c in slots for f in CONTENTS[c]}
    dirs = {""}
    for p in [*(d for d, _ in slots), *map(posixpath.dirname, files)]:
        while p:
            dirs.add(p)
            p = posixpath.dirname(p)
    shown = {d for d in dirs if not any(x.startswith(".") for x in d.split("/"))}
    score = {v: i for i, s in enumerate(sources) for v in (s, s.lower(), s.replace("-", "_"), s.replace("-", "_").lower())}
    shown = {d for d in shown if below(d, top) or ref_root is not None and below(d, ref_root)}
    vis = {f for f in files if posixpath.dirname(f) in shown and not posixpath.basename(f).startswith(".")}
    refs = {d: score[posixpath.basename(d)] for d in shown if posixpath.basename(d) in score}
    if ref_root is not None:
        refs = {d: s for d, s in refs.items() if below(d, ref_root)}
        if ref_root in dirs and ref_root not in refs:
            refs[ref_root] = len(sources)
    pots = {d for d in refs if any(f.endswith(".pot") and below(f, d) for f in vis)}
    local = {d for d in refs if any(posixpath.splitext(f)[1] in EXT and below(f, d) for f in vis)}
    ok = pots or local
    if not ok:
        return None
    best = min(refs[d] for d in ok)
    res = {}
    for ref in ok:
        if refs[ref] != best:
            continue
        bases = {}
        for d in shown:
            lcs = [s for s in shown if s and posixpath.dirname(s) == d and LOCALE.fullmatch(posixpath.basename(s)) and posixpath.basename(s) not in score]
            if lcs and not below(d, ref) and below(d, top):
                bases[d] = lcs
        full = {d: ls for d, ls in bases.items() if any(posixpath.splitext(f)[1] in EXT and below(f, d) and posixpath.dirname(f) != d for f in vis)} or bases
        most = max(map(len, full.values()), default=0)
        ig = f"{ref}/.l10n-ignore".lstrip("/") in files
        refs_ = {f for f in vis if below(f, ref) and not (ig and posixpath.basename(f) == "ig.ftl")}
        res[ref] = refs_, {d: ls for d, ls in full.items() if len(ls) == most}
    return res


def judge(c) -> str:
    slots, root, ref_root, sources, force = c
    tree = f"{SCRATCH}/{os.getpid()}/tree"
    for d, code in slots:
        os.makedirs(f"{tree}/{d}", exist_ok=True)
        for f in CONTENTS[code]:
            os.makedirs(posixpath.dirname(f"{tree}/{d}/{f}"), exist_ok=True)
            with open(f"{tree}/{d}/{f}", "w") as file:
                file.write("ig.ftl\n" if f == ".l10n-ignore" else "")
    os.makedirs(f"{tree}/{root.partition(':')[2]}", exist_ok=True)
    try:
        return discover(c, tree)
    finally:
        shutil.rmtree(f"{SCRATCH}/{os.getpid()}")


def discover(c, tree: str) -> str:
    slots, root, ref_root, sources, force = c
    root, top = root.split(":") if ":" in root else (root, "")
    os.chdir(f"{tree}/{top}" if root == "." else tree if root == "../tree/" else posixpath.dirname(tree))
    arg = {"abs": tree, "rel": "tree", ".": ".", "../tree/": "../tree/"}[root]
    if top and root != ".":
        arg = posixpath.join(arg, top)
    rr = ref_root
    if ref_root is not None and ref_root.startswith("abs:"):
        ref_root = ref_root[4:]
        rr = f"{tree}/{ref_root}"
        if top:
            ref_root = posixpath.relpath(ref_root or ".", top)
    if ref_root == ".":
        ref_root = ""
    if top and ref_root is not None:
        ref_root = posixpath.normpath(posixpath.join(top, ref_root))
        ref_root = "" if ref_root == "." else ref_root
    exp = oracle(slots, ref_root, ["en-US", "en"] if sources is None else [sources] if isinstance(sources, str) else sources, top)
    full = lambda p: posixpath.normpath(posixpath.join(tree, p))

    def real(p):
        # as a full path, which must not go anywhere else
        return posixpath.normpath(posixpath.join(os.getcwd(), p))

    forced = []
    try:
        if force and exp:
            top = posixpath.normpath(os.path.abspath(arg) if root == "." or (rr and rr.startswith("/")) else arg)
            forced = [posixpath.join(top, next(iter(exp)), "forced.ftl"), posixpath.join(top, "zz", "forced.ftl")]
        paths = L10nDiscoverPaths(arg, rr, source_locale=sources, force_paths=forced or None)
    except MissingSourceDirectoryError:
        same("reference directories", exp, None)
        return "missing"
    need(exp is not None, "found, where there is nothing:", paths.ref_root)
    ref = real(paths.ref_root)
    need(ref in {full(r) for r in exp}, "reference root", ref, "expected one of", set(exp))
    files, bases = next(v for k, v in exp.items() if full(k) == ref)
    refs = list(paths.ref_paths)
    expf = {full(f) for f in files} | {real(f) for f in forced if below(real(f), ref)}
    same("ref_paths", sorted(map(real, refs)), sorted(expf))
    if not bases:
        need(paths.base is None and paths.locales is None and paths.all_locales == set(), "a base", paths.base, paths.locales)
        paths.base = posixpath.join(posixpath.dirname(paths.ref_root), "new")
        lcs: list[str] = []
        dirs: list[str] = []
    else:
        base = next((b for b in bases if full(b) == real(paths.base)), None)
        need(base is not None, "base", paths.base, "expected one of", set(bases))
        dirs = [posixpath.basename(d) for d in bases[base]]
        lcs = sorted({d.replace("_", "-") for d in dirs})
        same("locales", paths.locales, lcs)
        same("all_locales", paths.all_locales, set(lcs))
    base = real(paths.base)
    us = sum("_" in d for d in dirs) > sum("-" in d for d in dirs)

    def where(locale: str) -> str:
        if locale in dirs or "-" not in locale:
            return locale
        alt = locale.replace("-", "_")
        return alt if us or alt in dirs else locale

    for lc in [*lcs, *dirs, "xx-YY", "xx-Yyyy-ZZ", "aa"]:
        got_t = paths.format_target_path(posixpath.join(paths.base, "{locale}/x"), lc)
        same(f"format_target_path(…, {lc!r})", real(got_t), f"{base}/{where(lc)}/x")
    exp_all = {}
    for f in expf:
        rel = posixpath.relpath(f, ref)
        exp_all[f, f"{base}/{{locale}}/{rel[:-1] if rel.endswith('.pot') else rel}"] = lcs or None
    got = paths.all()
    same("all()", {(real(a), real(b)): v for (a, b), v in got.items()}, exp_all)
    for (f, t), _ in got.items():
        rel = posixpath.relpath(real(f), ref)
        names = [f, rel] if not os.path.isabs(paths.ref_root) else [real(f), rel]
        if rel.endswith(".pot"):
            names.append(rel[:-1])
        for name in names:
            if not os.path.isabs(name) and name is f:
                continue  # relative names are relative to the reference root
            got_t, got_l = paths.target(name)
            same(f"target({name!r})", (got_t, set(got_l)), (t, set(lcs)))
            for lc in [*lcs, "xx-YY", "aa"]:
                got_t, got_l = paths.target(name, locale=lc)
                if lcs and lc not in lcs:
                    same(f"target({name!r}, locale={lc!r})", (got_t, tuple(got_l)), (None, ()))
                    continue
                same(f"target({name!r}, locale={lc!r})", (real(got_t), set(got_l)), (real(t.replace("{locale}", where(lc))), {lc}))
                need("{" not in got_t, "a variable left in", got_t)
                found = paths.find_reference(got_t if os.path.isabs(got_t) else posixpath.relpath(got_t, paths.base))
                same(f"find_reference({got_t!r})", found, (f, {"locale": lc}))
                T.trace(2)
    for name in ["no.ftl", "../a.ftl", "t", "a.ftl/x"]:
        if posixpath.normpath(f"{ref}/{name}") not in expf:
            same(f"target({name!r})", tuple(paths.target(name)), (None, ()))
    for p in ["", "de", "a.ftl", "de/no.ftl", "Xde/a.ftl", "y/de/a.ftl", "../de/a.ftl", "d/a.ftl", "de-x/a.ftl", ".h/a.ftl"]:
        same(f"find_reference({p!r})", paths.find_reference(p), None)
    T.trace(1)
    return f"{len(expf)} references, {len(lcs)} locales"


def judge_names(c) -> str:
    """Paths with any characters in the names of the root, of directories, and of files"""
    where, name, locs = c
    if name in (".", ".."):
        return "not a name"
    tree = f"{SCRATCH}/names{os.getpid()}"
    root = f"{tree}/{name}" if where == "root" else f"{tree}/r"
    rel = {"root": "a.ftl", "dir": f"{name}/a.ftl", "file": f"{name}.ftl", "ending": f"a.ftl{name}", "pot": f"{name}.pot", "middle": f"{name}/{name}/{name}.pot"}[where]
    try:
        for f in (f"{root}/x/en/{rel}", *(f"{root}/x/{d}/z.ftl" for d in locs)):
            os.makedirs(os.path.dirname(f), exist_ok=True)
            open(f, "w").close()
        path = f"{root}/x/en/{rel}"
        try:
            paths = L10nDiscoverPaths(root)
        except MissingSourceDirectoryError:
            need(where == "ending" or "/." in f"/{rel}", "no source found")
            return "no source"
        T.trace()
        same("base", paths.base, f"{root}/x")
        want = rel[:-1] if rel.endswith(".pot") else rel
        hidden = any(part.startswith(".") for part in rel.split("/"))
        same("reference paths", sorted(paths.ref_paths), [] if hidden else [path])
        if hidden:
            return "hidden"
        names = {d.replace("_", "-"): d for d in locs}
        same("all", paths.all(), {(path, f"{root}/x/{{locale}}/{want}"): sorted(names)})
        for lc, d in names.items():
            for ref in (path, rel):
                same("target", paths.target(ref, locale=lc), (f"{root}/x/{d}/{want}", {lc}))
            same("formatted", paths.format_target_path(f"{root}/x/{{locale}}/{want}", lc), f"{root}/x/{d}/{want}")
            same("reference", paths.find_reference(f"{root}/x/{d}/{want}"), (path, {"locale": lc}))
            same("reference of path", paths.find_reference(f"{d}/{want}"), (path, {"locale": lc}))
        return "found"
    finally:
        shutil.rmtree(tree, ignore_errors=True)


NAMES = ["a", "{", "}", "{}", "{0}", "{x}", "%s", "%", " ", "é", "$x", "\\1", "*", "?", "[a]", ".", "en", "\n", "~", "locale", ":"]


def run(ctx: Ctx) -> None:
    global SCRATCH
    SCRATCH = ctx.scratch()

    def trees(n: int, contents: str):
        for ds in itertools.chain.from_iterable(itertools.combinations(SLOTS, k) for k in range(n + 1)):
            for cs in itertools.product(contents, repeat=len(ds)):
                yield [list(x) for x in zip(ds, cs)]

    ctx.space("trees", lambda: ([t, "abs", None, None, 0] for t in trees(ctx.pick(3, 4), ctx.pick("-fpt", "-fp"))), judge, note="every tree")
    if not ctx.quick:
        ctx.space("contents", lambda: ([t, "abs", None, None, 0] for t in trees(3, "".join(CONTENTS))), judge, note="every content")
    ways = [[r, rr, s, f] for r in ("abs", "rel", ".", "../tree/") for rr in (None, "x", "en", ".", "abs:x", "abs:de", "nope") for s in (None, "en", ["de", "en"], "pt-BR") for f in (0, 1)]
    ctx.space("ways", lambda: ([t, *w] for t in trees(2, ctx.pick("f", "-fpoi")) for w in ways), judge, note="every form of root, reference root and source locale")
    apart = [f"{a}/{b}" for a in "ls" for b in ("en", "de", "nl", "x/de", ".h/de", ".h/en", "x")] + ["en"]

    def beside():
        for k in range(1, ctx.pick(4, 5)):
            for ds in itertools.combinations(apart, k):
                for code in ctx.pick("f", "fp"):
                    for root in ("abs:l", "rel:l", ".:l", "../tree/:l"):
                        for rr in ("../s", "..", ".", "../s/en") if root[:3] != "abs" else ("../s", "..", "abs:s", "abs:", None):
                            yield [[[d, code] for d in ds], root, rr, None, 0]

    ctx.space("beside", beside, judge, note="reference roots beside and above the root")
    ctx.space("two", lambda: ([t, r, None, None, 1] for t in trees(2, "".join(CONTENTS)) for r in ("abs", ".")), judge)
    ctx.assume("Where directories tie, any of them may be chosen; names with braces are not used, as targets are templates", "A locale with directories for both separators counts once")
    ctx.space("names", lambda: ([w, "".join(n), locs] for n in words(NAMES, ctx.pick(2, 3), 1) for w in ("root", "dir", "file", "ending", "pot", "middle") for locs in (["de"], ["pt_BR", "sr_Latn", "de"]) if "{locale}" not in "".join(n)), judge_names, note=f"names of up to {ctx.pick(2, 3)} of {len(NAMES)} tokens")
