"""
C21: configured paths map references and targets one to one.

Configurations are one to three [[paths]] from a pool of templates (fixed paths, *, ** and both, locale and other variables, environment
variables, templates of templates, ..), with and without locale lists, in one file or spread over included ones, in directories with
names that are special to globs and regular expressions, over a real file tree.  For each of them, everything that the object tells is compared with an
oracle that expands the patterns over the list of files: the references, the targets and locales of each, the target of each for
each locale, and what is found for each target and for each path near to one.
Histories: every sequence of setting the base and the locales.
"""

from __future__ import annotations

import itertools
import os
import posixpath
from collections import Counter

from core import Bad, Ctx, T, need, same, subsets, words
from moz.l10n.paths import L10nConfigPaths

FILES = ["ref/a.ftl", "ref/b.ftl", "ref/x/a.ftl", "ref/x/y/a.ftl", "ref/x/y/b.txt", "ref/p.pot", "ref/d.po", "ref/x/q.pot", "ref/x/values/s.xml", "ref/y/values/s.xml",
         "ref/x/va/s1.xml", "ref/x/vb/s.xml", "r+f/(a).ftl", "r+f/[b].ftl", "r+f/c^.d.ftl", "ref/aXftl", "ref/m_n.ftl", "other/z.ftl", "a.ftl"]
ROOTS = ["plain", "a+b", "c[1]", "e(f)", "g.h i", "s$^", "a?b|c", "ref"]
MORE = ["ref/new.ftl", "ref/x/new.ftl", "ref/x/new.pot", "new.ftl", "ref/w/values/s.xml", "ref/sub/new.txt"]  # do not exist
TEMPLATES = {
    "a": ("ref/a.ftl", "{locale}/a.ftl"),
    "s": ("ref/*.ftl", "{locale}/*.ftl"),
    "D": ("ref/**", "l10n/{locale}/**"),
    "d": ("ref/**/*.ftl", "{l10n_base}/{locale}/x/**/*.ftl"),
    "v": ("ref/*/values/s.xml", "out/*/values-{android_locale}/s.xml"),
    "p": ("ref/p.pot", "{locale}/LC/p.po"),
    "P": ("ref/**/*.pot", "{locale}/po/**/*.pot"),
    "o": ("ref/d.po", "{locale}.po"),
    "m": ("ref/**/v*/s*.xml", "{locale}/**/w*/r*.xml"),
    "r": ("ref/b.ftl", "{locale}/b/{locale}.ftl"),
    "+": ("r+f/*.ftl", "t+f/{locale}/(*).ftl"),
    "[": ("r+f/[b].ftl", "t[f]/{locale}/[b].ftl"),
    "e": ("ref/x/*.ftl", "{l}x/*.ftl"),
    "f": ("ref/x/y/*", "{foo}/{locale}/*"),
    "_": ("ref/*_*.ftl", "{locale}/*/*.ftl"),
    ".": ("other/z.ftl", "../other/{locale}/z.ftl"),
    ",": ("other/*", "./{locale}//./other/../z/*"),
    "x": ("./other/../ref/x/a.ftl", "{locale}-x.ftl"),
    "w": ("other/**/*", "{locale}/w/**/*"),
    "n": ("none.ftl", "{locale}/none.ftl"),
    "1": ("ref/a.ftl", "one/de.ftl"),
    "c": ("ref/b.ftl", "{lc}/{android_locale}/b.ftl"),
    "b": ("*.ftl", "top/{locale}/*.ftl"),
}
LISTS = {"": None, "1": ["de"], "2": ["de", "fr"], "0": []}
LOCALES = ["de", "fr", "he", "sr-Latn", "pt-BR"]
ANDROID = {"he": "iw", "sr-Latn": "b+sr+Latn", "pt-BR": "pt-rBR"}
SCRATCH = ""


def build(scratch: str) -> None:
    for root in ROOTS:
        for f in FILES:
            for base in ("", "sub/"):
                path = f"{scratch}/{root}/{base}{f}"
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with open(path, "w"):
                    pass


def star_split(t: str) -> list[str]:
    """A template as literals, and stars: *, ** and **/."""
    out = [""]
    i = 0
    while i < len(t):
        for s in ("**/*", "**/", "**", "*"):
            if t.startswith(s, i):
                out += ["**" if s == "**/*" else s, ""]
                i += len(s)
                break
        else:
            out[-1] += t[i]
            i += 1
    return out


def matches(parts: list[str], path: str) -> list[tuple[str, ...]]:
    """All the ways in which a path can match."""
    if not path.startswith(parts[0]):
        return []
    rest = path[len(parts[0]) :]
    if len(parts) == 1:
        return [()] if not rest else []
    star, more = parts[1], parts[2:]
    res = []
    for n in range(len(rest) + 1):
        g = rest[:n]
        if (star == "*" and "/" in g) or (star == "**/" and g and not g.endswith("/")):
            continue
        res += [(g, *m) for m in matches(more, rest[n:])]
    return res


class Cfg:
    """The oracle for one configuration file."""

    def __init__(self, dir: str, doc: dict, files: list[str]) -> None:
        self.base = self.root = posixpath.normpath(posixpath.join(dir, doc.get("basepath", ".")))
        self.locales = doc.get("locales")
        self.includes: list[Cfg] = []
        self.data: dict[str, dict[str, list[str] | None]] = {}
        for p in doc.get("paths", []):
            ref = posixpath.normpath(posixpath.join(self.root, p["reference"]))
            target = p["l10n"]
            for k, v in doc.get("env", {}).items():
                target = target.replace("{" + k + "}", v)
            if "*" not in ref:
                self.data.setdefault(ref, {})[target] = p.get("locales")
                continue
            parts, tparts = star_split(ref), star_split(target)
            for f in files:
                ms = matches(parts, f)
                if ms:
                    if len(ms) != 1:
                        raise AssertionError(f"ambiguous: {p} {f}")
                    t = "".join(tparts[0::2][i] + (ms[0][i] if i < len(ms[0]) else "") for i in range(len(ms[0]) + 1))
                    self.data.setdefault(f, {})[t] = p.get("locales")

    def target(self, t: str, fmap: dict[str, str]) -> str:
        for k, v in {**fmap, "l10n_base": self.base}.items():
            t = t.replace("{" + k + "}", v)
        if t.endswith(".pot"):
            t = t[:-1]
        return posixpath.normpath(posixpath.join(self.base, t))


def reaching(c: Cfg, locale: str | None):
    """The files for a locale. The locales of a project limit those of what it includes."""
    if locale is None or not c.locales or locale in c.locales:
        yield c
        for inc in c.includes:
            yield from reaching(inc, locale)


def fill(t: str, locale: str) -> str:
    return t.replace("{locale}", locale).replace("{android_locale}", ANDROID.get(locale, locale)).replace("{lc}", locale.replace("-", "_"))


def variables(t: str, path: str) -> dict[str, str] | None:
    """The variables of a target without stars that give this path."""
    parts = t.split("{")
    lits, names = [parts[0]], []
    for p in parts[1:]:
        name, lit = p.split("}", 1)
        names.append(name)
        lits.append(lit)

    def go(i: int, pos: int, env: dict[str, str]):
        if not path.startswith(lits[i], pos):
            return None
        pos += len(lits[i])
        if i == len(names):
            return env if pos == len(path) else None
        end = pos
        while end < len(path) and path[end] != "/":
            end += 1
            v = path[pos:end]
            if env.get(names[i], v) == v and (r := go(i + 1, end, {**env, names[i]: v})) is not None:
                return r
        return None

    return go(0, 0, {})


FMAPS: list[dict[str, str]] = [{}, {"foo": "bar"}, {"foo": "b/c"}]


def compare(paths: L10nConfigPaths, cfgs: list[Cfg], near: bool) -> Counter:
    out: Counter = Counter()
    main = cfgs[0]
    same("base", paths.base, main.base)
    same("locales", paths.locales, main.locales)
    lists = [c.locales for c in cfgs] + [ls for c in cfgs for tl in c.data.values() for ls in tl.values()]
    same("all_locales", paths.all_locales, {x for ls in lists if ls is not None for x in ls})
    same("ref_paths", set(paths.ref_paths), {r for c in cfgs for r in c.data})

    for fm in FMAPS:
        exp: dict = {}
        for c in cfgs:
            for ref, tl in c.data.items():
                for t, ls in tl.items():
                    exp.setdefault((ref, c.target(t, fm)), []).append(ls or c.locales)
        # in one file, the last entry counts, but between files all do
        exp = {k: v[0] if len(v) == 1 else None if None in v else sorted({x for ls in v for x in ls}) for k, v in exp.items()}
        got = paths.all(fm)
        same(f"all({fm})", {k: sorted(v) if v is not None else None for k, v in got.items()}, {k: sorted(v) if v is not None else None for k, v in exp.items()})

    refs = {r for c in cfgs for r in c.data}
    for ref in sorted(refs):
        # of each configuration file: the entries for this reference
        rel = posixpath.relpath(ref, main.root)
        for locale in [None, *LOCALES]:
            exp_t: set = set()
            for c in reaching(main, locale):
                for t, ls in c.data.get(ref, {}).items():
                    if locale is None:
                        ok = ls is None or not c.locales or set(ls) & set(c.locales)
                        found = frozenset(c.locales or []) if ls is None else frozenset(set(ls) & set(c.locales) if c.locales else ls)
                    else:
                        ok, found = ls is None or locale in ls, frozenset([locale])
                    if ok:
                        tp = c.target(t, FMAPS[1])
                        exp_t.add((tp if locale is None else posixpath.normpath(fill(tp, locale)), found))
                if exp_t:
                    break  # included files are used only for what is not found before
            for r in {ref, rel, ref[:-1] if ref.endswith(".pot") else ref}:
                got_t = paths.target(r, format_map=FMAPS[1], locale=locale)
                got_f = (got_t[0], frozenset(got_t[1]))
                need(got_f in (exp_t or {(None, frozenset())}), f"target({r!r}, locale={locale!r}):", got_t, "expected one of", exp_t)
                out["targets"] += 1
    for r in ["nothing.ftl", "ref/a", "../a.ftl", "ref", "ref/x"]:
        full = posixpath.normpath(posixpath.join(main.root, r))
        if full not in refs:
            same(f"target({r!r})", paths.target(r), (None, set()))

    for q in {r[:-1] for r in refs if r[-1] == "t" and not r.endswith(".pot")} - set(refs):
        same(f"target({q!r})", paths.target(q), (None, set()))

    # targets and their neighbours
    made = set()
    for c in cfgs:
        for ref, tl in c.data.items():
            for t in tl:
                t = c.target(t, {})
                made |= {fill(t, lc).replace("{foo}", "bar") for lc in LOCALES}
    probes = set(made)
    if near:
        for p in made:
            tail = posixpath.relpath(p, main.base)
            for i, ch in enumerate(tail):
                if ch not in "/":
                    probes.add(p[: len(p) - len(tail)] + tail[:i] + ("X" if ch != "X" else ".") + tail[i + 1 :])
            segs = tail.split("/")
            probes |= {posixpath.join(main.base, *segs[:i], *segs[i + 1 :]) for i in range(len(segs))}
            probes |= {posixpath.join(main.base, *segs[:i], "de", *segs[i:]) for i in range(len(segs) + 1)}
            probes |= {p + "x", p + "t", p[:-1], p + "/a.ftl", "/tmp" + p}
    for p in probes:
        p = posixpath.normpath(p)
        if p.endswith(".pot"):
            continue  # as targets are .po files
        exp_r = []
        for c in cfgs:
            for ref, tl in c.data.items():
                for t in tl:
                    vs = variables(c.target(t, {}), p)
                    if vs is not None:
                        exp_r.append((ref, vs))
        got_r = paths.find_reference(p)
        if got_r is None:
            need(not exp_r, f"find_reference({p!r}) is None, expected", exp_r)
            need(p not in made, f"find_reference({p!r}) is None")
        else:
            need((got_r[0], dict(got_r[1])) in exp_r, f"find_reference({p!r}):", got_r, "expected", exp_r or None)
            rel = posixpath.relpath(p, main.base)
            same(f"find_reference({rel!r})", paths.find_reference(rel), got_r)
        out["found" if got_r else "not found"] += 1
    T.trace(len(probes) + out["targets"])
    return out


def entry(code: str) -> dict:
    ref, l10n = TEMPLATES[code[0]]
    e: dict = {"reference": ref, "l10n": l10n}
    if code[1:]:
        e["locales"] = LISTS[code[1:]]
    return e


def load(root: str, base: str, docs: dict[str, dict], force: list[str]):
    """The paths, and what is expected of them."""
    top = f"{SCRATCH}/{root}"
    docs = {f"{top}/{name}": doc for name, doc in docs.items()}
    files = [f"{top}/{b}{f}" for b in ("", "sub/") for f in FILES] + force

    cfgs: list[Cfg] = []
    seen: set = set()

    def include(name: str) -> Cfg:
        doc = docs[name]
        c = Cfg(os.path.dirname(name), doc, files)
        cfgs.append(c)
        for inc in doc.get("includes", []):
            p = inc["path"]
            for k, v in doc.get("env", {}).items():
                p = p.replace("{" + k + "}", v)
            p = posixpath.normpath(posixpath.join(c.root, p))
            if p not in seen:
                seen.add(p)
                c.includes.append(include(p))
        return c

    first = next(iter(docs))
    include(first)
    paths = L10nConfigPaths(first, cfg_load=lambda path: docs[path], force_paths=force or None, locale_map={"lc": lambda lc: lc.replace("-", "_")})
    return paths, cfgs


def document(base: str, entries: list[str], locales: str = "") -> dict:
    doc: dict = {"paths": [entry(e) for e in entries], "env": {"l": "{l10n_base}/{locale}/", "inc": "deep"}}
    if base:
        doc["basepath"] = base
    if locales:
        doc["locales"] = LISTS[locales]
    return doc


def describe(out: Counter) -> str:
    return ", ".join(sorted(out))


def judge_config(c) -> str:
    root, base, entries, locales, near = c
    doc = document(base, entries, locales)
    return describe(compare(*load(root, base, {"l10n.toml": doc}, []), near))


def judge_force(c) -> str:
    root, entries, force, inc, near = c
    top = f"{SCRATCH}/{root}"
    docs = {"l10n.toml": document("", entries)}
    if inc:
        docs = {"l10n.toml": {"includes": [{"path": "inc.toml"}]}, "inc.toml": docs["l10n.toml"]}
    return describe(compare(*load(root, "", docs, [f"{top}/{f}" for f in force]), bool(near)))


def judge_include(c) -> str:
    # [shape, entries and locales of each file]
    shape, files = c
    docs = {}
    names = ["l10n.toml", "deep/inc.toml", "b.toml"]
    for name, (entries, locales) in zip(names, files):
        docs[name] = document(".." if name.startswith("deep") else "", entries, locales)
    ins = {"line": {0: [1], 1: [2]}, "both": {0: [1, 2]}, "loop": {0: [1], 1: [2], 2: [1]}, "shared": {0: [1, 2], 1: [2]}}[shape]
    for i, js in ins.items():
        if i >= len(files):
            continue
        docs[names[i]]["includes"] = [{"path": "{inc}/inc.toml" if j == 1 else names[j]} for j in js if j < len(files)]
    return describe(compare(*load("plain", "", docs, []), False))


def judge_history(c) -> str:
    files, ops = c
    docs = {"l10n.toml": document("", *files[0]), "deep/inc.toml": document("..", *files[1])}
    docs["l10n.toml"]["includes"] = [{"path": "deep/inc.toml"}]
    paths, cfgs = load("plain", "", docs, [])
    out = compare(paths, cfgs, False)
    for op in ops:
        if op[0] == "b":
            base = {"b0": f"{SCRATCH}/plain/new", "b1": "/else/where", "b2": f"{SCRATCH}/plain"}[op]
            paths.base = base
            for cfg in cfgs:
                cfg.base = base
        else:
            ls = {"l0": None, "l1": ["de"], "l2": ["fr", "pt-BR"], "l3": []}[op]
            paths.locales = ls
            for cfg in cfgs:
                cfg.locales = ls
        out += compare(paths, cfgs, False)
        T.state(1)
    return describe(out)


def run(ctx: Ctx) -> None:
    global SCRATCH
    SCRATCH = ctx.scratch()
    build(SCRATCH)
    ones = [t + ls for t in TEMPLATES for ls in ("", "1", "2")]
    ctx.space("single", lambda: ([r, b, [e], lc, True] for r in ROOTS for b in ("", "sub", "./sub/..") for e in ones for lc in ("", "1", "2", "0")), judge_config, note="each template in each directory")
    two = [t + ls for t in TEMPLATES for ls in ("", "1")]
    ctx.space("pairs", lambda: (["plain", "", [a, b], lc, not ctx.quick] for a in two for b in two for lc in ("", "2")), judge_config, note="every pair of templates")
    if not ctx.quick:
        ctx.space("triples", lambda: (["plain", "", list(es), "", False] for es in itertools.product(TEMPLATES, repeat=3)), judge_config)
    force = [f for f in subsets(MORE[: ctx.pick(4, 6)])] + [["ref/w/values/s.xml"], ["ref/a.ftl", "ref/new.ftl"]]
    ctx.space("forced", lambda: ([r, [a, *b], list(f), inc, ctx.pick(0, 1)] for r in ("plain", "a+b") for a in TEMPLATES for b in ([], ["D"], ["b"], ["d1"]) for f in force for inc in (0, 1)), judge_force, note="files that do not exist")
    few = ["a", "a1", "s", "s2", "D", "c", "v", "o", "1"]
    ctx.space("includes", lambda: ([sh, [[[a], la], [[b], lb]] + ([[[c], ""]] if c else [])] for sh in ("line", "both", "loop", "shared") for a in few for b in few for c in (["", "a", "D1"] if ctx.quick else ["", *few])
                                   for la in ("", "2") for lb in ("", "2")), judge_include, note="included files")
    hist = [[[["a", "s1"], la], [[b], lb]] for b in ("d", "v", "a") for la in ("", "2") for lb in ("", "1")]
    ctx.space("histories", lambda: ([h, list(ops)] for h in hist for ops in words(["b0", "b1", "b2", "l0", "l1", "l2", "l3"], ctx.pick(3, 4))), judge_history, note="setting the base and the locales")
    ctx.assume("No directory or file name holds braces or stars, which have a meaning in targets", "Locale lists of included files are not longer than those of the including one",
               "Where several entries for one reference apply, any of them may be returned by target(); ** is a whole path segment")
