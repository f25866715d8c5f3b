"""
C26: failing operations never destroy localization files.

Faults: each scenario (migrating, fixing, building all or one of several files, with previous contents) is run once to find how often code that reads, parses,
converts or serializes is entered or resumed, and then again for every one of these points with an exception raised there, of each of
several types, and for every opening and reading of a file with it failing.  After each such run, whether it failed, went on or reported an error, every file
that was there must have its previous contents, or complete new ones: those of a run without fault, or for migrations, others which hold
all that was there.
Bad data: every position of a file or entry that cannot be parsed, converted or written among several.
"""

from __future__ import annotations

import builtins
import io
import itertools
import logging
import os
import shutil
import sys

from core import REPO, Bad, Ctx, T, need, same, subsets, words
from files import BROKEN, KINDS, SECTIONED, make
from moz.l10n.bin.build import cli as build_cli
from moz.l10n.bin.build_file import cli as build_file_cli
from moz.l10n.bin.fix import fix
from moz.l10n.formats import UnsupportedFormat
from moz.l10n.migrate import Migrate, all_migrations, copy, entry
from moz.l10n.paths import L10nConfigPaths
from util import *

SCRATCH = ""
TRACED = tuple(os.path.join(REPO, "python/moz/l10n", d) for d in ("formats/", "message/", "resource/", "model.py", "util/"))
ERRORS = {
    "error": lambda: RuntimeError("fault"),
    "os": lambda: OSError(5, "fault"),
    "decode": lambda: UnicodeDecodeError("utf-8", b"\xff", 0, 1, "fault"),
    "format": lambda: UnsupportedFormat("fault"),
    "stop": lambda: KeyboardInterrupt(),
    "missing": lambda: FileNotFoundError(2, "fault"),
    "value": lambda: ValueError("fault"),
}
OPEN = builtins.open


class Unreadable(io.BytesIO):
    def read(self, *a):
        raise OSError(5, "fault")

    readline = readlines = read1 = __next__ = read


class Fault:
    """Counts the points of a run, and fails at one of them"""

    def __init__(self, kind: str, at: int, err: str) -> None:
        self.kind, self.at, self.err, self.n, self.hit = kind, at, err, 0, False

    def trace(self, frame, event, arg):
        if event == "call" and frame.f_code.co_filename.startswith(TRACED):
            self.n += 1
            if self.n == self.at:
                self.hit = True
                sys.settrace(None)
                raise ERRORS[self.err]()
        return None

    def open(self, file, mode="r", *a, **kw):
        if SCRATCH in str(file) and (self.kind == "open" or "w" not in mode):
            self.n += 1
            if self.n == self.at:
                self.hit = True
                if self.kind == "open":
                    raise ERRORS[self.err]()
                return Unreadable()
        return OPEN(file, mode, *a, **kw)

    def __enter__(self):
        if self.kind == "call":
            sys.settrace(self.trace)
        else:
            builtins.open = self.open
        return self

    def __exit__(self, *a):
        sys.settrace(None)
        builtins.open = OPEN
        return False


def snapshot(tree: str) -> dict:
    out = {}
    for d, _, fs in os.walk(tree):
        for f in fs:
            with open(f"{d}/{f}", "rb") as file:
                out[os.path.relpath(f"{d}/{f}", tree)] = file.read()
    return out


CONFIG = '[[paths]]\nreference="en/**"\nl10n="{locale}/**"\nlocales=["de","fr"]\n'


def setup(tree: str, files: dict) -> None:
    for p, data in {"l10n.toml": CONFIG, **files}.items():
        os.makedirs(os.path.dirname(f"{tree}/{p}"), exist_ok=True)
        with open(f"{tree}/{p}", "wb") as f:
            f.write(data if isinstance(data, bytes) else data.encode("utf-8", "surrogateescape"))


# --- scenarios with faults

ALL = ["f.ftl", "p.properties", "n.ini", "x.xml", "o.po", "j.json", "w.json", "l.xliff", "d.dtd", "i.inc"]


def id_in(name: str, id: str):
    return ("S", id) if name in SECTIONED else id


def some(name: str, ids: str, lc: str) -> str:
    # unusual layout, so that fixing has something to do
    return make(name, [("#", "note"), *((i, f"{lc} {i}") for i in ids)], lc) + ("" if "." not in name else "\n\n")


def tree_of(names, spare: str = "") -> dict:
    out = {}
    for name in names:
        out[f"en/{name}"] = some(name, "abc", "en")
        out[f"de/{name}"] = some(name, "b", "de")
        if name != spare:
            out[f"fr/{name}"] = some(name, "abx", "fr")
    return out


def migrate(tree: str, names) -> None:
    mig = {f"en/{name}": {id_in(name, "n"): copy(f"en/{name}", id_in(name, "a")), id_in(name, "m"): copy(f"en/{name}", id_in(name, "b")), id_in(name, "k"): entry(copy(f"en/{names[0]}", id_in(names[0], "b"), value_only=True))} for name in names}
    if "l.xliff" in names:
        del mig["en/l.xliff"][id_in("l.xliff", "k")]
    try:
        Migrate(mig, L10nConfigPaths(f"{tree}/l10n.toml")).apply()
    finally:
        all_migrations.clear()


def perform(op: str, tree: str, names) -> object:
    if op == "migrate":
        return migrate(tree, names)
    if op == "fix":
        return fix([f"{tree}/fr/*", f"{tree}/de/*"])
    if op == "fix-config":
        return fix([tree], f"{tree}/l10n.toml", continue_on_error=True)
    if op == "fix-dir":
        return fix([tree], continue_on_error=True)
    if op == "build":
        return build_cli.main(["--config", f"{tree}/l10n.toml", "--base", tree, "--target", f"{tree}/out", "--locales", "de,fr", "--coverage"], standalone_mode=False)
    if op == "build-in-place":
        return build_cli.main(["--config", f"{tree}/l10n.toml", "--base", tree, "--target", tree, "--locales", "de,fr"], standalone_mode=False)
    if op == "build-file":
        for name in names:
            build_file_cli.main(["--source", f"{tree}/en/{name}", "--l10n", f"{tree}/fr/{name}", "--target", f"{tree}/out/fr/{name}"], standalone_mode=False)
        return None
    assert op == "build-source"
    for name in names:
        build_file_cli.main(["--source", f"{tree}/en/{name}", "--target", f"{tree}/out/fr/{name}"], standalone_mode=False)


OPS = ["migrate", "fix", "fix-config", "fix-dir", "build", "build-in-place", "build-file", "build-source"]


def scenario(op: str, tree: str, names, spare: str) -> None:
    files = tree_of(names, spare)
    if op.startswith("build"):
        for p, data in list(files.items()):
            if not p.startswith("en/"):
                files[f"out/{p}"] = "previous " * 300
    if op == "fix-dir":
        files["l10n.toml"] = ""
    setup(tree, files)


def rows(res):
    return [(tuple(s.id) + tuple(e.id), dump(e)) for s in res.sections for e in s.entries if isinstance(e, E)]


def complete(op: str, path: str, before: bytes, after: bytes | None, now: bytes) -> None:
    if now in (before, after):
        return
    need(op == "migrate", path, "is neither as before nor as after a complete run:", now)
    try:
        res = parse_resource(path, now)
    except Exception as e:
        raise Bad(f"{path} cannot be parsed: {now!r}: {e!r}") from None
    got = rows(res)
    want = rows(parse_resource(path, before))
    same(f"previous entries of {path}", [r for r in got if r in want], want)
    same(f"complete contents of {path}", now.decode(), ser(res))


def judge_fault(c) -> str:
    op, names, spare, kind, err, at = c
    d = f"{SCRATCH}/{os.getpid()}"
    try:
        scenario(op, f"{d}/a", names, spare)
        perform(op, f"{d}/a", names)
        after = snapshot(f"{d}/a")
        scenario(op, f"{d}/b", names, spare)
        before = snapshot(f"{d}/b")
        fault = Fault(kind, at, err)
        failed = ""
        with fault:
            try:
                failed = perform(op, f"{d}/b", names) or ""
            except (Exception, KeyboardInterrupt, SystemExit) as e:
                failed = type(e).__name__
        need(fault.hit, "no fault at", at)
        now = snapshot(f"{d}/b")
        for p, data in before.items():
            need(p in now, p, "was removed")
            if p.startswith("en/") and op != "fix-dir" and op != "fix-config":
                same(p, now[p], data)
            elif not (op.startswith("build") and now[p] in before.values()):  # a copy of another file is complete
                complete(op, p, data, after.get(p), now[p])
        T.trace(1)
        return f"{op} {failed}".strip()
    finally:
        shutil.rmtree(d)


def points(op: str, names, spare: str, kind: str) -> int:
    d = f"{SCRATCH}/{os.getpid()}"
    try:
        scenario(op, d, names, spare)
        with Fault(kind, -1, "error") as f:
            perform(op, d, names)
        return f.n
    finally:
        shutil.rmtree(d)


# --- bad data


def judge_bad(c) -> str:
    """Files that can't be parsed, or can be but not written"""
    op, names, where, which = c
    d = f"{SCRATCH}/{os.getpid()}"
    try:
        files = tree_of(names)
        bad = f"{where[0]}/{where[1]}"
        files[bad] = BROKEN[where[1]][which]
        if op.startswith("build"):
            for p in list(files):
                if not p.startswith("en/"):
                    files[f"out/{p}"] = "previous " * 300
        setup(f"{d}/b", files)
        if op == "fix-dir":
            os.remove(f"{d}/b/l10n.toml")
        before = snapshot(f"{d}/b")
        failed = ""
        try:
            failed = perform(op, f"{d}/b", names) or ""
        except (Exception, SystemExit) as e:
            failed = type(e).__name__
        now = snapshot(f"{d}/b")
        for p, data in before.items():
            need(p in now, p, "was removed")
            if p == bad:
                same(p, now[p], data)
            elif now[p] != data:
                need(not p.startswith("en/") or op in ("fix-dir", "fix-config"), p, "was changed")
                if p.startswith("out/") and before.get(bad) is not None and where[0] == "en" and p.endswith(where[1]):
                    # Files of no known format are copied; if only writing the source fails, its entry may be translated
                    locale_file = p.removeprefix("out/")
                    if now[p] not in (before.get(locale_file), before.get(bad)):
                        same(p, rows(parse_resource(p, now[p])), [r for r in rows(parse_resource(p, before[locale_file])) if r[0] == ("a",)])
                elif p.startswith("out/"):
                    want = set("abc")
                    have = {i[-1] for i, _ in rows(parse_resource(p, now[p]))}
                    need(have == want or (p.endswith("ftl") and have == {i for i, _ in []} | ({"a", "b"} if "fr" in p else {"b"})), p, "has entries", have)
                elif op.startswith("build"):
                    need(parse_resource(p, now[p]).sections is not None)
                else:
                    same(f"entries of {p}", [r for r in rows(parse_resource(p, now[p])) if r[0][-1] not in ("n", "m", "k")], rows(parse_resource(p, data)))
        T.trace(1)
        return f"{op} {failed}".strip()
    finally:
        shutil.rmtree(d)


def thrower(res, ctx):
    raise RuntimeError("fault")


ENTRIES = {
    "ok": lambda res, ctx: PM(["fine"]),
    "surrogate": lambda res, ctx: PM(["x\ud800"]),
    "meta": lambda res, ctx: E(("x",), PM(["x"]), meta=[Md("foo bar", "x")]),
    "select": lambda res, ctx: SM({"n": Ex(V("n"), "foo")}, (V("n"), V("n")), {(CK(), "x"): ["a"], (CK(), CK()): ["b"]}),
    "markup": lambda res, ctx: PM([M("open", "b"), "x"]),
    "function": lambda res, ctx: PM([Ex(V("x"), "unknown", {"a b": "c"})]),
    "type": lambda res, ctx: 42,
    "inner": lambda res, ctx: PM([42]),
    "comment": lambda res, ctx: E(("x",), PM(["x"]), comment="-->\ud800"),
    "properties": lambda res, ctx: E(("x",), PM(["x"]), {"a b": PM(["x"])}),
    "raise": thrower,
}


def judge_entries(c) -> str:
    """Migrated entries that can't be written"""
    name, state, specs = c
    tree = f"{SCRATCH}/{os.getpid()}"
    try:
        files = {"en/f.ftl": "a = A\n", "fr/f.ftl": "b = B\n", f"en/{name}": some(name, "ab", "en"), "en/p.properties": "a = A\n", "fr/p.properties": "b = B\n"}
        files[f"fr/{name}"] = some(name, "b", "fr")
        if state == "none":
            del files[f"fr/{name}"]
        setup(tree, files)
        before = snapshot(tree)
        failed = ""
        try:
            mig = {"en/f.ftl": {"n": ENTRIES["ok"]}} if name != "f.ftl" else {}
            mig[f"en/{name}"] = {id_in(name, f"n{i}"): ENTRIES[s] for i, s in enumerate(specs)}
            if name != "p.properties":
                mig["en/p.properties"] = {"n": ENTRIES["ok"]}
            Migrate(mig, L10nConfigPaths(f"{tree}/l10n.toml")).apply()
        except Exception as e:
            failed = type(e).__name__
        finally:
            all_migrations.clear()
        now = snapshot(tree)
        for p, data in before.items():
            complete("migrate", p, data, None, now[p])
        p = f"fr/{name}"
        if p not in before and p in now:
            same(f"complete contents of {p}", now[p].decode(), ser(parse_resource(p, now[p])))
        if failed and state != "none":
            need(before[p] == now[p] or name in ("f.ftl", "p.properties") or "raise" not in specs, p, "was changed")
        T.trace(1)
        return failed or "written"
    finally:
        shutil.rmtree(tree)


def run(ctx: Ctx) -> None:
    global SCRATCH
    SCRATCH = ctx.scratch()
    logging.disable()
    sys.unraisablehook = lambda *a: None  # faults while finalizing generators
    logging.basicConfig = lambda *a, **k: None

    groups = ctx.pick([["f.ftl", "p.properties"], ["n.ini", "x.xml"], ["l.xliff", "f.ftl"], ["o.po", "j.json"], ["w.json", "i.inc"], ["d.dtd", "f.ftl"]], [["f.ftl", a] for a in ALL[1:]] + [[a, b] for a, b in zip(ALL[1:], ALL[2:])] + [["p.properties", "f.ftl", "n.ini"]])

    def calls():
        k = 0
        for names in groups:
            for op in OPS:
                n = points(op, names, names[-1], "call")
                for at in range(1, n + 1):
                    for err in ERRORS:
                        k += 1
                        if not ctx.quick or k % 11 == 0 or (err == "error" and at % 2):
                            yield [op, names, names[-1], "call", err, at]

    ctx.space("calls", calls, judge_fault, note="an exception wherever reading, parsing, converting or serializing code is entered or resumed")

    def opens():
        for names in groups:
            for op in OPS:
                for kind in ("open", "read"):
                    n = points(op, names, names[-1], kind)
                    for at in range(1, n + 1):
                        for err in ("os", "missing") if kind == "open" else ("os",):
                            yield [op, names, names[-1], kind, err, at]

    ctx.space("opens", opens, judge_fault, note="each opening of a file failing, and each reading")

    def bads():
        for names in [[a, b] for a in ALL for b in ctx.pick(["f.ftl", "n.ini"], ALL) if a != b]:
            for op in OPS:
                for lc in ("en", "de", "fr"):
                    for name in names:
                        for i in range(len(BROKEN[name])):
                            yield [op, names, [lc, name], i]

    ctx.space("bad files", bads, judge_bad, note="each file of several being one that can't be parsed, or can't be written")

    def entries():
        for name in ALL:
            for state in ("some", "none"):
                for n in range(1, ctx.pick(3, 4)):
                    for specs in itertools.product(ENTRIES, repeat=n):
                        yield [name, state, list(specs)]

    ctx.space("entries", entries, judge_entries, note="migrated entries which their file's format can't hold")
    ctx.assume("Failures while a file's complete new contents are being written, as by a full disk, are not covered", "Files are as such complete if they are as serialized from what is parsed from them")
