"""
C30: linting fails exactly on files with errors and changes nothing.

Trees with files of all formats that are fine, broken, or not localization files are linted by every way of selecting files.  The result, and what is reported of each
file, must be what an oracle gives that knows how each file was made; all files must stay as they were, and nothing may be opened for writing.
Enumerated: every set of up to some files of every kind, in every order of the arguments, with and without skipping unknown files; and every sequence of fragments
of each format, which must fail if and only if they can't be parsed.
Assumed: files in no known format, and those not in UTF-8, count as failing unless they are skipped by their extension.
"""

from __future__ import annotations

import builtins
import itertools
import logging
import os
import shutil

from checks.c29 import RAW
from core import Ctx, T, need, same, subsets, texts
from files import BROKEN, KINDS, make
from click.testing import CliRunner
from moz.l10n.bin.lint import cli, lint
from moz.l10n.formats import UnsupportedFormat
from moz.l10n.paths import MissingSourceDirectoryError
from util import *

SCRATCH = ""
LOG = logging.getLogger("moz.l10n.bin.lint")
OPEN = builtins.open


class Watch(logging.Handler):
    """Collects reports, and files that are opened for writing"""

    def __init__(self):
        super().__init__(logging.DEBUG)
        self.lines, self.written = [], []

    def emit(self, record):
        self.lines.append(record.getMessage())

    def __enter__(self):
        self.before = LOG.level
        LOG.addHandler(self)
        LOG.setLevel(logging.DEBUG)

        def opener(file, mode="r", *a, **kw):
            if set(mode) & set("wax+"):
                self.written.append(file)
            return OPEN(file, mode, *a, **kw)

        builtins.open = opener
        return self

    def __exit__(self, *a):
        builtins.open = OPEN
        LOG.removeHandler(self)
        LOG.setLevel(self.before)


def put(path: str, data) -> None:
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with OPEN(path, "wb") as f:
        f.write(data if isinstance(data, bytes) else data.encode())


def snapshot(tree: str) -> dict:
    out = {}
    for d, _, fs in os.walk(tree):
        for f in fs:
            with OPEN(f"{d}/{f}", "rb") as file:
                st = os.stat(f"{d}/{f}")
                out[f"{d}/{f}"] = (file.read(), st.st_mtime_ns, st.st_ino, st.st_mode)
    return out


OK = {k: make(k, [("a", "A")] if k[-4:] == "json" else [("#", "x"), ("a", "A")]) for k in KINDS}
# name, contents -> what is reported
STATES: dict = {}
for k, v in OK.items():
    STATES[k, "ok"] = (v, "ok")
    STATES[k, "empty"] = ("", "unsupported" if k.endswith("json") or k == "x.xml" else "FAIL" if k == "l.xliff" else "ok")
for k, vs in BROKEN.items():
    for i, v in enumerate(vs):
        if "\\ud800" not in str(v):
            utf8 = isinstance(v, bytes) and k not in ("x.xml",)
            STATES[k, f"bad{i}"] = (v, "unsupported" if utf8 or k.endswith("json") or (k == "x.xml" and "<resources" not in str(v)) else "FAIL")
STATES["t.txt", "ok"] = ("a = A\n", "unsupported")
STATES["t.txt", "json"] = ('{"a": "A"}', "ok")
STATES["t.txt", "xml"] = (OK["x.xml"], "ok")
STATES["noext", "ok"] = ("a", "unsupported")
STATES["noext", "json"] = ('{"a": {"message": "A"}}', "ok")
STATES["x.xml", "other"] = ("<html/>", "unsupported")
STATES["x.xml", "json"] = ('{"a": "A"}', "unsupported")
STATES["j.json", "other"] = ('{"a": ["A"]}', "unsupported")
STATES["j.json", "xml"] = (OK["x.xml"], "ok")
STATES["w.json", "comment"] = ('{\n// c\n"a": {"message": "A"}}', "ok")
STATES["j.json", "comment"] = ('{\n// c\n"a": "A"}', "unsupported")
STATES["w.json", "bad-"] = ('{"a": {"message": "$X$"}}', "FAIL")
NAMES = sorted(STATES)


def judge(c) -> str:
    """files: (directory, name, state), how, order of the arguments, skip unknown"""
    files, how, skip = c
    tree = os.path.realpath(f"{SCRATCH}/{os.getpid()}")
    cwd = os.getcwd()
    try:
        os.makedirs(f"{tree}/en")
        for d, name, state in files:
            put(f"{tree}/{d}{name}", STATES[name, state][0])
        paths = [d + name for d, name, _ in files]
        want = sorted((d + name, "skip" if skip and name in ("t.txt", "noext") else STATES[name, s][1]) for d, name, s in files)
        os.chdir(tree)
        args: tuple = ()
        config = None
        if how == "files":
            args = tuple(paths)
        elif how == "abs":
            args = tuple(f"{tree}/{p}" for p in paths)
        elif how == "outside":
            os.makedirs(f"{tree}/cwd")
            os.chdir(f"{tree}/cwd")
            args = tuple(f"../{p}" for p in paths)
        elif how == "glob":
            args = ("**/*", "none/*")
        elif how == "dir":
            args = (tree if len(files) % 2 else ".",)
            if any(d and n in KINDS for d, n, _ in files):
                want = [w for w in want if w[0].startswith("en/")]
        else:
            put(f"{tree}/l10n.toml", 'basepath = "."\n[[paths]]\nreference = "en/**"\nl10n = "{locale}/**"\n')
            config = "l10n.toml"
            want = [w for w in want if w[0].startswith("en/")]
        before = snapshot(tree)
        with Watch() as log:
            try:
                res = lint(args, config_path=config, skip_unknown=skip)
            except MissingSourceDirectoryError:
                need(how == "dir" and not any(n in KINDS for _, n, _ in files if how == "dir"), "failed")
                return "no source"
        same("files", snapshot(tree), before)
        same("files opened for writing", log.written, [])
        lines = [x for x in log.lines if x.split(" ")[0] in ("ok", "FAIL", "unsupported", "skip")]
        base = os.getcwd() if how != "config" else tree
        got = sorted((os.path.relpath(os.path.join(base, x.split(" - ")[0].split(" ", 1)[1].split("\n")[0]), tree), x.split(" ")[0]) for x in lines)
        same("reports", got, want)
        same("result", res, 1 if any(w[1] in ("FAIL", "unsupported") for w in want) else 0)
        opts = (["-u"] if skip else []) + (["--config", config] if config else [])
        run = CliRunner().invoke(cli, [*opts, *args])
        same("exit code", run.exit_code, res)
        same("files after the command", snapshot(tree), before)
        T.trace(2)
        return f"{how} {res}"
    finally:
        os.chdir(cwd)
        shutil.rmtree(tree, ignore_errors=True)


def judge_text(c) -> str:
    name, srcs = c
    d = f"{SCRATCH}/{os.getpid()}"
    try:
        bad = []
        paths = []
        for i, src in enumerate(srcs):
            path = f"{d}/{i}/{name}"
            put(path, src)
            paths.append(path)
            try:
                parse_resource(name, src.encode())
            except UnsupportedFormat:
                bad.append((i, "unsupported"))
            except Exception:
                bad.append((i, "FAIL"))
        with Watch() as log:
            res = lint(paths)
        same("result", res, 1 if bad else 0)
        lines = [x for x in log.lines if x.split(" ")[0] in ("ok", "FAIL", "unsupported", "skip")]
        got = [(i, x.split(" ")[0]) for i, x in enumerate(lines) if not x.startswith("ok ")]
        same("failures", got, bad)
        same("files opened for writing", log.written, [])
        for path, src in zip(paths, srcs):
            with OPEN(path, "rb") as f:
                same("contents", f.read(), src.encode())
        T.trace(len(srcs))
        return f"{len(bad)} of {len(srcs)}"
    finally:
        shutil.rmtree(d, ignore_errors=True)


def judge_args(c) -> str:
    """Nothing selected, or invalid arguments"""
    args, config, want = c
    d = os.path.realpath(f"{SCRATCH}/{os.getpid()}")
    cwd = os.getcwd()
    try:
        put(f"{d}/en/f.ftl", "a = A\n")
        put(f"{d}/l10n.toml", 'basepath = "."\n[[paths]]\nreference = "en/*.ini"\nl10n = "{locale}/*.ini"\n')
        os.chdir(d)
        with Watch() as log:
            same("result", lint(args, config_path=config), want)
        same("reports", [x for x in log.lines if not x.startswith(("With --config", "Either paths", "Found no", "ok "))], ["unsupported l10n.toml"] if args == ("*",) else [])
        T.trace(1)
        return str(want)
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def run(ctx: Ctx) -> None:
    global SCRATCH
    SCRATCH = ctx.scratch()
    logging.disable(logging.NOTSET)
    top = logging.getLogger("moz.l10n")
    top.setLevel(logging.CRITICAL + 1)
    top.propagate = False

    def trees():
        for n in range(1, ctx.pick(3, 4)):
            for names in itertools.permutations(NAMES, n):
                if len({x[0] for x in names}) < n or n == 3 and len(str(names)) % 23:
                    continue
                for dirs in {("",) * n, ("en/",) * n, ("", "en/", "")[:n]}:
                    for how in ("files", "abs", "outside", "glob", "dir", "config"):
                        if how in ("glob", "dir", "config") and list(names) != sorted(names):
                            continue
                        if ctx.quick and n == 2 and how == "abs":
                            continue
                        for skip in (False, True):
                            if n < 2 or not skip or any(x[0] in ("t.txt", "noext") for x in names):
                                yield [[[d, *x] for d, x in zip(dirs, names)], how, skip]

    ctx.space("trees", trees, judge, note="sets of files of every kind, in every order, by every way to select them")

    def fragments():
        for name, (head, toks, tail) in RAW.items():
            srcs = [head + s + tail for s in texts(toks, ctx.pick(3, 4))]
            if name == "a.po":
                srcs = [s for s in srcs if "\\r\\n" not in s]
            for i in range(0, len(srcs), 3):
                yield [name, srcs[i : i + 3]]

    ctx.space("fragments", fragments, judge_text, note="every sequence of fragments of each format, three files at a time")
    ctx.space("arguments", lambda: ([a, c, w] for a, c, w in [((), None, 2), (("en/f.ftl",), "l10n.toml", 2), ((), "l10n.toml", 0), (("none",), None, 0), (("none", "*.x"), None, 0), (("*",), None, 1), (("en",), None, 0), (("en/f.ftl", "en/f.ftl"), None, 0)]), judge_args, note="nothing selected, and conflicting arguments")
