"""
C23: walking files honours ignore rules and yields every other file once.

Every list of up to three (thorough: four) ignore rules, from a pool of the kinds of git-ignore syntax, is applied to a tree with siblings and
nested directories to which the rules do and do not apply, and every subset of a set of paths as a tree, with several roots, ignore file
locations and choices of directories to search.  The oracle decides for each path by itself, top down, with its own matcher of the rules
(checked against git in the thorough tier).
"""

from __future__ import annotations

import itertools
import os
import shutil
import subprocess
from collections import Counter

from core import Bad, Ctx, T, need, same, subsets, words
from moz.l10n.util import walk_files

FILES = ["a.ftl", "b.txt", "b/a.ftl", "b/c.txt", "b/b/a.ftl", "b/b/b.txt", "c d/a.ftl", "c d/#x", "!a", ".h", ".hid/a.ftl", "b/.hid/x/b.txt", "b/.h.ftl", "ab/a.txt", "ab/a.ftl/x.txt", "ab/bb/b/a.ftl", "éa/ñ.ftl", "z", "build", "b/build/o.ftl", "aXftl"]
EMPTY = ["e", "b/e"]
RULES = ["", "# a.ftl", "a.ftl", "/a.ftl", "*.ftl", "*.txt", "b/", "/b", "b", "!a.ftl", "!b", "!*.txt", "**/b.txt", "/*", "?", "\\!a", "build/", "*.ftl  ", "c d", "éa/", "[ab].ftl", "/ab/", "!/b/", "z*"]
SCRATCH = ""


def rule(line: str):
    """(negative, only directories, anchored, pattern), or None"""
    line = line.rstrip()
    if not line or line.startswith("#"):
        return None
    neg = line.startswith("!")
    if neg or line.startswith("\\!"):
        line = line[1:]
    dironly = line.endswith("/")
    line = line.rstrip("/")
    if line.startswith("**/"):
        line = line[3:]
    anchored = line.startswith("/")
    return neg, dironly, anchored, line.lstrip("/")


def glob(pat: str, name: str) -> bool:
    if not pat:
        return not name
    if pat[0] == "*":
        return any(glob(pat[1:], name[i:]) for i in range(len(name) + 1))
    if not name:
        return False
    if pat[0] == "[":
        end = pat.index("]")
        return name[0] in pat[1:end] and glob(pat[end + 1 :], name[1:])
    return (pat[0] == "?" or pat[0] == name[0]) and glob(pat[1:], name[1:])


def ignored(rules: list, path: str) -> bool:
    """Whether a file is ignored, by itself or with a directory that it is in."""
    parts = path.split("/")
    for i, name in enumerate(parts):
        isdir = i + 1 < len(parts)
        out = name.startswith(".")
        for neg, dironly, anchored, pat in rules:
            if (isdir or not dironly) and (i == 0 or not anchored) and glob(pat, name):
                out = not neg
        if out:
            return True
    return False


def make(root: str, files, empty=()) -> None:
    for f in files:
        os.makedirs(os.path.dirname(f"{root}/{f}"), exist_ok=True)
        with open(f"{root}/{f}", "w"):
            pass
    for d in empty:
        os.makedirs(f"{root}/{d}", exist_ok=True)


def expected(files, lines: list[str], dirs=None) -> list[str]:
    rules = [r for r in map(rule, lines) if r]
    return sorted(f for f in files if not ignored(rules, f) and (not dirs or any(d == "." or f.startswith(os.path.normpath(d) + "/") for d in dirs)))


def walked(root: str, files, lines, dirs=None, given: str | None = None, **kw) -> str:
    exp = expected(files, lines, dirs)
    got = list(walk_files(given or root, dirs, **kw))
    T.trace(1)
    top = given or root
    for p in got:
        need(os.path.isfile(p), "not a file", p)
        need(os.path.normpath(p).startswith(os.path.normpath(top) + "/") or top == ".", "outside the root", p)
    rel = sorted(os.path.relpath(p, top) for p in got)
    same(f"files of {given or 'root'}, {dirs}", rel, exp, "with rules", lines)
    return "all" if len(rel) == len(files) else "none" if not rel else "some"


def ignorefile(lines: list[str], sep: str = "\n") -> str:
    path = f"{SCRATCH}/{os.getpid()}.ignore"
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write(sep.join(lines) + (sep if len(lines) % 2 else ""))
    return path


def judge_rules(c) -> str:
    lines, sep = c
    return walked(f"{SCRATCH}/tree", FILES, lines, ignorepath=ignorefile(lines, sep))


DIRS = [["b"], ["b/b"], ["b", "ab"], ["b", "b/b"], ["b/b", "b"], ["b", "b"], ["ab/bb", "./b/"], ["c d", "éa"], [], ["."], [".", "b"], ["b/e"], ["ab/a.ftl", "b/build"], ["ab/bb/b"], [".hid"], ["b/.hid/x", "b"], ["../other"], ["b", ".."]]


def judge_dirs(c) -> str:
    lines, dirs, given = c
    root = f"{SCRATCH}/tree"
    os.chdir(root if given == "." else SCRATCH)
    given = {"abs": root, "slash": root + "/", "rel": "tree", ".": ".", "up": "tree/b/.."}[given]
    return walked(root, FILES, lines, dirs, given, ignorepath=ignorefile(lines))


def judge_tree(c) -> str:
    # a subset of the files, with the ignore file within the root
    files, lines, name = c
    root = f"{SCRATCH}/{os.getpid()}.tree"
    make(root, files, ["e"])
    kw = {}
    if name == "default":
        name = ".l10n-ignore"
    elif name != "none":
        kw["ignorepath"] = name
    if name == "none":
        kw["ignorepath"] = None
    elif name == "dir":
        os.makedirs(f"{root}/dir")
    elif name != "missing":
        make(root, [name])
        with open(f"{root}/{name}", "w", encoding="utf-8") as f:
            f.write("\n".join(lines))
    try:
        more = [name] if name in ("ig", "e/ig") else []
        return walked(root, [*files, *more], lines if name not in ("none", "dir", "missing") else [], **kw)
    finally:
        shutil.rmtree(root)


def judge_git(c) -> str:
    """The oracle agrees with git."""
    root = f"{SCRATCH}/tree"
    out = subprocess.run(["git", "--git-dir", f"{SCRATCH}/git", "--work-tree", root, "ls-files", "-z", "--others", "--exclude=.*", f"--exclude-from={ignorefile(c)}"],
                         cwd=root, capture_output=True, text=True, check=True, env={**os.environ, "GIT_CONFIG_GLOBAL": "/dev/null", "GIT_CONFIG_SYSTEM": "/dev/null"}).stdout
    same("git", sorted(f for f in out.split("\0") if f), expected(FILES, c), c)
    return ""


def run(ctx: Ctx) -> None:
    global SCRATCH
    SCRATCH = ctx.scratch()
    make(SCRATCH, ["other/x.ftl", "top.ftl"])
    make(f"{SCRATCH}/tree", FILES, EMPTY)
    ctx.space("rules", lambda: ([list(r), sep] for r in words(RULES, ctx.pick(3, 4)) for sep in (("\n", "\r\n") if len(r) < 3 else ("\n",))), judge_rules, note="every list of rules")
    ctx.space("dirs", lambda: ([list(r), d, g] for r in words(RULES, ctx.pick(1, 2)) for d in DIRS for g in ("abs", "slash", "rel", ".", "up")), judge_dirs, note="every choice of directories and form of the root")
    some = ["a.ftl", "b/a.ftl", "b/c.txt", "b/b/a.ftl", ".h", ".hid/a.ftl", "e/x.txt", "ab/build/x"]
    sets = [["b/"], ["*.ftl", "!a.ftl"], ["/*", "!/b/"], ["a.ftl"], ["build/", "e"]]
    ctx.space("trees", lambda: ([list(f), r, n] for f in subsets(some) for r in sets for n in ("default", "ig", "e/ig", "none", "dir", "missing") if not (n == "e/ig" and "e" in r)), judge_tree, note="every subset of a set of files")
    if not ctx.quick and shutil.which("git"):
        subprocess.run(["git", "init", "-q", "--bare", f"{SCRATCH}/git"], check=True)
        ctx.space("git", lambda: (list(r) for r in words(RULES, 2)), judge_git, note="the oracle against git")
    ctx.assume("Of git-ignore rules, those whose meaning the gitignorant library shares with git: no slash within a pattern")
