"""
C29: fixing a file keeps its content and reaches a fixed point.

Files of every format put together from every short sequence of fragments, in odd formatting and with odd line breaks, are fixed in place.  What was parsed before
must be parsed from the fixed file, a second run must not change a byte, and files which cannot be parsed must be reported and stay as they are.
Selections: trees with files that are well-formatted, untidy, broken or unknown are fixed by every way of selecting files: directories, configurations, and
patterns.  An oracle which matches the patterns on its own gives the files that may change, and the reports and results that go with them.
Histories: every sequence of runs and edits of a tree.
Assumed: comments that follow one another may be joined and rewrapped; files whose text can't be encoded in UTF-8 (lone surrogates) fail to be fixed; obsolete
gettext entries have no extracted comments or references.
"""

from __future__ import annotations

import itertools
import logging
import os
import re
import shutil

from core import Ctx, T, need, same, subsets, texts, words
from files import BROKEN, make
from click.testing import CliRunner
from moz.l10n.bin.fix import cli, fix
from moz.l10n.formats import UnsupportedFormat
from moz.l10n.paths import MissingSourceDirectoryError
from util import *

SCRATCH = ""
LOG = logging.getLogger("moz.l10n.bin.fix")


class Lines(logging.Handler):
    def __init__(self):
        super().__init__(logging.INFO)
        self.lines = []

    def emit(self, record):
        self.lines.append(record.getMessage())

    def __enter__(self):
        self.before = LOG.level
        LOG.addHandler(self)
        LOG.setLevel(logging.INFO)
        return self

    def __exit__(self, *a):
        LOG.removeHandler(self)
        LOG.setLevel(self.before)


def content(res) -> list:
    """What is kept: entries, and the lines of comments between them, or only their words where comments are reindented"""
    out: list = [res.format.name]
    wrap = res.format in (Format.dtd, Format.android, Format.xliff)

    def text(s: str) -> list:
        return s.split() if wrap else [x.rstrip() for x in s.split("\n") if x.strip()]

    for item in flow(res, lambda m: dump(merged(m))):
        if item[0] == "comment":
            ws = text(item[1])
            if isinstance(out[-1], tuple) and out[-1][0] == "comment":
                out[-1] = ("comment", out[-1][1] + ws)
            else:
                out.append(("comment", ws))
        elif item[0] == "section":
            out.append((*item[:2], text(item[2]), *item[3:]))
        elif item[0] == "entry":
            old = res.format == Format.gettext and ("obsolete", "true") in item[5]
            meta = [(k, v.strip()) if k == "translator-comments" else (k, v) for k, v in item[5] if not old or k != "reference"]
            out.append((*item[:4], [] if old else text(item[4]), [m for m in meta if m[1]]))
        else:
            out.insert(1, item)
    return out


def put(path: str, data) -> bytes:
    data = data if isinstance(data, bytes) else data.encode("utf-8", "surrogatepass")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)
    return data


def get(path: str) -> bytes:
    with open(path, "rb") as f:
        return f.read()


def surrogates(x) -> bool:
    return any("\ud800" <= ch <= "\udfff" for ch in repr(x).encode().decode("unicode_escape", "ignore"))


def judge_file(c) -> str:
    name, src = c
    path = f"{SCRATCH}/{os.getpid()}/{name}"
    try:
        data = put(path, src)
        try:
            before = content(parse_resource(name, data))
        except (UnsupportedFormat, UnicodeDecodeError):
            before = "Skip"
        except Exception:
            before = "FAIL"
        with Lines() as log:
            res = fix([path])
        now = get(path)
        T.trace(1)
        state = log.lines[0].split(":")[0] if log.lines else ""
        if isinstance(before, str):
            same("state", state, before)
            same("result", res, before == "FAIL")
            same("contents", now, data)
            return state
        if state == "FAIL" and surrogates(before):
            same("contents", now, data)
            return state
        same("state", state, "OK" if now == data else "Fixed", log.lines)
        same("result", res, 0)
        same("contents", content(parse_resource(name, now)), before, "from", now)
        same("formatting", now, "".join(serialize_resource(parse_resource(name, data))).encode())
        with Lines() as log:
            same("second result", fix([path]), 0)
        same("contents fixed again", get(path), now)
        same("second report", log.lines[0].split(":")[0], "OK")
        T.trace(1)
        return state
    finally:
        shutil.rmtree(os.path.dirname(path), ignore_errors=True)


X12 = '<xliff version="1.2" xmlns="urn:oasis:names:tc:xliff:document:1.2">'
# name -> prefix, fragments, suffix
RAW = {
    "a.properties": ("", ["a=A\n", "b : B", "  c  C\\\n   D\n", "# x\n", " !y\n", "#   w  \n", "\n", "\r\n", "\t\n", "d\n", "e = \\u00e9\\n\\\n", "f=\x0c g \n", "g:\u2028\x85\n", "# \n", "#\n", "h = {$x} %s \\ \n"], ""),
    "a.dtd": ("", ['<!ENTITY a "A">', "<!ENTITY  b\n 'B \"q\" '>\n", "<!-- x -->\n", "<!--\n y\n  z -->", "\n", "\r\n", '<!ENTITY c "&amp; &#38; %p; \n x">', '<!ENTITY % p SYSTEM "chrome://p">\n%p;\n', " ", '<!ENTITY d ""> <!-- t -->\n', "junk\n"], ""),
    "a.inc": ("", ["#define a A\n", "#define b  B \n", "#define c\n", "# x\n", "#   w  \n", "#\n", "\n", "\r\n", "#filter emptyLines\n", "#unfilter emptyLines\n", "# #define d D\n", "#define e \u2028\x85 #\n", "#define f F"], ""),
    "a.ini": ("", ["[S]\n", "[ T ]\n", "a=A\n", "b : B \n", " c = C\n", "# x\n", "; y\n", "#   w  \n", "\n", "\r\n", "d =\n", "e=E ; t\n", "f=\n  F\n\n  G\n", "[S]", "g=\u2028\x85 \n"], ""),
    "a.ftl": ("", ["a = A\n", "b   =   B\n", "c =\n    C\n\n     D\n", "-t = T\n .x = X\n", "d = {  $x  }{\"\"}\n   .y=Y\n", "# x\n", "#   w  \n", "## G\n", "##\n", "### R\n", "\n", "\r\n", "e = { $n ->\n  [a] A\n *[b] {-t}\n}\n", "junk\n", "f = \u2028\x85 \n", "#\n"], ""),
    "a.po": ('msgid ""\nmsgstr ""\n', ['"X-A: b\\n"\n', '\nmsgid "a"\nmsgstr "A"\n', '\nmsgid  "b"\nmsgstr ""\n"B"\n"\\n"\n', "\n# x\n", "#   w  \n", "#. y\n", "#.   z  \n", "#: f:1 g:2\n", "#, fuzzy, c-format\n", '\nmsgctxt "c"\nmsgid "d"\nmsgid_plural "ds"\nmsgstr[0] "D"\nmsgstr[1] "Ds"\n', '\n#~ msgid "o"\n#~ msgstr "O"\n', "\n", "\r\n", '\n#| msgid "p"\nmsgid "q"\nmsgstr "Q"\n', "#\n", '\nmsgid "e"\nmsgstr "\\t\\\\ \\"é"\n'], ""),
    "a.json": ("{", ['"a": "A",', '\n "b":{"c":"C"},', '"d": {},', '"e": "\\u00e9\\n\\ud83d\\ude00",', "\n\n", '"f":"",', '"b":{"g": "G"},', '"h": {"message": "H"},', '"\\ud800": "x",', "//c\n"], '"z": "Z"}'),
    "w.json": ("{", ['"a": {"message": "A"},', '\n "b":{"description":"d","message":"$X$","placeholders":{"x":{"content":"$1"}}},', "\n\n", "//c\n", '"c": {"message": "", "description": ""},', '"d": {"message": "$$1 $2 $$$$ $Y$"},', '"e": {"message": "$X$ $1","placeholders":{"X":{"content":"$1","example":"e"},"q":{"content":""}}},'], '"z": {"message": "Z"}}'),
    "a.xml": ("<resources>", ['<string name="a">A</string>', '\n\n <string name="b"  translatable="false"> B\\n\n  \'q\' "  s "</string>\n', "<!-- x -->", "\n<!--\n  y\n   z-->\n\n", '<string-array name="c"><item>C</item>  <item/></string-array>', '<plurals name="d"><item quantity="other">%d Ds</item><item quantity="one">D</item></plurals>', "\n", "\r\n", '<string name="e"><![CDATA[<b>E</b>]]> <i>f</i> %1$s &amp; \\u0020</string>', '<string name="g"/>', "junk", '<string name="h" other="x">\\@H\u2028</string>'], "</resources>"),
    "a.xliff": (X12 + '<file original="f" source-language="en" datatype="x"><body>', ['<trans-unit id="a"><source>A</source></trans-unit>', '\n\n<trans-unit id="b" approved="yes"><source>B</source>\n<target state="final"> b  <g id="1">c</g></target><note>N</note></trans-unit>', "<!-- x -->", '<group id="g"><trans-unit id="c"><source/><target/></trans-unit></group>', "\n", "\r\n", "junk", '<trans-unit id="d" xml:space="preserve"><source> &lt;D\n</source><target>%s</target><note from="x">n</note><note> m </note></trans-unit>', '</body></file><file original="h" source-language="en" target-language="fr" datatype="y"><header><tool tool-id="t"/></header><body>', '<trans-unit id="e"><source>E</source><alt-trans><target>x</target></alt-trans></trans-unit>'], "</body></file></xliff>"),
}


# --- selections

GOOD = {"f.ftl": "a = A\n", "n.ini": "[S]\na=A\n", "p.properties": "a = A\n", "x.xml": '<?xml version="1.0" encoding="utf-8"?>\n<resources>\n  <string name="a">A</string>\n</resources>\n', "j.json": '{\n  "a": "A"\n}\n', "t.txt": "a=A\n"}
FILES = ["en/f.ftl", "en/x/n.ini", "f.ftl", "de/x.xml", "t.txt"]
UNTIDY = {"f.ftl": "a   =   A\n", "n.ini": "[S]\na = A\n", "p.properties": "a=A\n", "x.xml": '<resources>\n<string name="a">A</string></resources>', "t.txt": "a =  A\n"}
BAD = {"f.ftl": BROKEN["f.ftl"][0], "n.ini": BROKEN["n.ini"][0], "x.xml": BROKEN["x.xml"][1], "t.txt": "<a"}
UNKNOWN = {"f.ftl": b"a = \xff\n", "n.ini": b"[S]\na=\xff\n", "x.xml": "<a/>", "t.txt": b"\xff"}
STATES = {"good": GOOD, "untidy": UNTIDY, "bad": BAD, "unknown": UNKNOWN}
PATTERNS = ["f.ftl", "en/f.ftl", "*.ftl", "*", "*/*", "**", "**/*.ftl", "en/**", "**/*.*", "??/[f-n]*", "./t.txt", "none", "en", "en/x/", "*/x/n.ini", "{abs}/en/*.ftl", "d*"]


def glob_re(p: str) -> str:
    out = ""
    for part in re.split(r"(\*\*/|\*\*|\*|\?|\[[^]]*\])", p):
        start = not out or out.endswith("/")
        out += {"**/": "(?:[^./][^/]*/)*", "**": "(?:[^./][^/]*/?)*", "*": "(?!\\.)[^/]*" if start else "[^/]*", "?": "[^/]"}.get(part, part if part[:1] == "[" else re.escape(part))
    return out


def selected(tree: str, how: str, args, files: dict) -> list:
    """Files and directories that are to be fixed, once for each time"""
    if how == "glob":
        dirs = {os.path.dirname(f) for f in files} | {"en", "en/x", "de"}
        out = []
        for p in args:
            rel = os.path.relpath(p, tree) if p[0] == "/" else p.removeprefix("./")
            rx = re.compile(glob_re(rel))
            if "*" not in rel and "?" not in rel:
                out += [f for f in (*files, *dirs) if f == rel.rstrip("/")]
            else:
                out += [f for f in files if rx.fullmatch(f)]
        return out
    if how == "dir":
        base = args[0].rstrip("/")
        base = "" if base in (".", tree) else base + "/"
        within = [f for f in files if f.startswith(base)]
        if all(f.endswith(".txt") for f in within):
            return []  # fails
        # A directory for the source language is used where there is one
        return [f for f in within if f.startswith("en/")] or within if not base else within
    assert how == "config"
    if args[0] == "en/f.ftl":
        return ["en/f.ftl"]  # reported as failing if not there
    return [f for f in files if re.fullmatch({"en/**": "en/.*", "en/*": "en/[^/]*", "**/*.ini": ".*\\.ini", "en/f.ftl": "en/f.ftl"}[args[0]], f)]


def judge_select(c) -> str:
    """{file: state}, how, arguments, continue on error"""
    files, how, args, go_on = c
    tree = os.path.realpath(f"{SCRATCH}/{os.getpid()}")
    cwd = os.getcwd()
    try:
        for d in ("en/x", "de"):
            os.makedirs(f"{tree}/{d}")
        src = {f: put(f"{tree}/{f}", STATES[s][os.path.basename(f)]) for f, s in files.items()}
        os.chdir(tree)
        args = [a.replace("{abs}", tree) for a in args]
        todo = selected(tree, how, args, files)
        with Lines() as log:
            if how == "config":
                put(f"{tree}/l10n.toml", f'basepath = "."\n[[paths]]\nreference = "{args[0]}"\nl10n = "{{locale}}/{args[0].removeprefix("en/")}"\n')
                res = fix([], "l10n.toml", go_on)
            elif how == "dir":
                try:
                    res = fix(args, continue_on_error=go_on)
                except MissingSourceDirectoryError as e:
                    need(not todo, "failed with", e)
                    res = None
            else:
                res = fix(args, continue_on_error=go_on)
        kind = {f: files.get(f, "bad") if not f.endswith("t.txt") else "unknown" for f in todo}  # a directory fails
        reports = [tuple(x.split(": ", 1)) for x in log.lines if x.partition(":")[0] in ("OK", "Fixed", "Skip", "FAIL")]
        reports = [(s, os.path.normpath(p.split("\n")[0])) for s, p in reports]
        fails = [p for s, p in reports if s == "FAIL"]
        left = list(todo)
        done: set = set()
        for s, p in reports:
            p = os.path.normpath(p)
            p = os.path.relpath(os.path.join(tree, args[0] if how == "dir" else "", p), tree) if not p.startswith("/") else os.path.relpath(p, tree)
            need(p in left, "reported", p, "of", todo)
            left.remove(p)
            same(f"report of {p}", s, {"good": "OK", "untidy": "OK" if p in done else "Fixed", "bad": "FAIL", "unknown": "Skip"}[kind[p]])
            done.add(p)
        if go_on or not fails:
            same("files not reported", left, [])
        else:
            need(len(fails) == 1 and reports[-1][0] == "FAIL", "went on after an error")
        if res is not None:
            same("result", res, 1 if fails else 0)
        same("failures", bool(fails), any(k == "bad" for k in kind.values()))
        for f, data in src.items():
            want = STATES["good"][os.path.basename(f)].encode() if f in done and files[f] == "untidy" and kind[f] == "untidy" else data
            same(f"contents of {f}", get(f"{tree}/{f}"), want)
        found = {os.path.relpath(f"{d}/{f}", tree) for d, _, fs in os.walk(tree) for f in fs} - {"l10n.toml"}
        same("files", found, set(files))
        same("last report", sorted(x for x in log.lines[len(reports):] if "Fixed " in x or "Skipped " in x or "With " in x),
             sorted(filter(None, [res is not None and any(s != "Skip" for s, _ in reports) and f"Fixed {sum(s == 'Fixed' for s, _ in reports)}/{sum(s != 'Skip' for s, _ in reports)} file" + "s" * (sum(s != "Skip" for s, _ in reports) > 1),
                                  any(s == "Skip" for s, _ in reports) and f"Skipped {sum(s == 'Skip' for s, _ in reports)} unsupported file" + "s" * (sum(s == "Skip" for s, _ in reports) > 1),
                                  fails and f"With {len(fails)} parse failure" + "s" * (len(fails) > 1)])))
        T.trace(1)
        return f"{how} {res} {len(reports)} files"
    finally:
        os.chdir(cwd)
        shutil.rmtree(tree, ignore_errors=True)


# --- histories

EDITS = {"f.ftl": "b  =  B\n", "n.ini": "b=B\n", "p.properties": "b=B\n"}
OPS = ["fix f", "fix all", "fix *.ini", "cli", "edit f", "edit n", "break f", "mend f"]


def judge_history(ops) -> str:
    tree = os.path.realpath(f"{SCRATCH}/{os.getpid()}")
    cwd = os.getcwd()
    try:
        model: dict = {n: [UNTIDY[n].encode(), False, {"a"}] for n in EDITS}  # contents if tidy or broken, broken, entries
        state = {n: "untidy" for n in EDITS}
        ents = {n: ["a"] for n in EDITS}
        for n in EDITS:
            put(f"{tree}/{n}", UNTIDY[n])
        os.chdir(tree)
        for i, op in enumerate(ops):
            before = {n: get(n) for n in EDITS}
            if op.startswith("edit"):
                n = {"f": "f.ftl", "n": "n.ini"}[op[-1]]
                key = f"k{i}"
                put(f"{tree}/{n}", get(n) + EDITS[n].replace("b", key, 1).encode())
                ents[n].append(key)
                if state[n] == "tidy":
                    state[n] = "untidy"
                continue
            if op == "break f":
                if state["f.ftl"] != "bad":
                    put(f"{tree}/f.ftl", b"= broken\n" + get("f.ftl"))
                    state["f.ftl"] = "bad"
                continue
            if op == "mend f":
                if state["f.ftl"] == "bad":
                    put(f"{tree}/f.ftl", get("f.ftl").removeprefix(b"= broken\n"))
                    state["f.ftl"] = "untidy"
                continue
            names = {"fix f": ["f.ftl"], "fix all": sorted(EDITS), "fix *.ini": ["n.ini"], "cli": sorted(EDITS)}[op]
            if op == "cli":
                res = CliRunner().invoke(cli, ["--continue", *names]).exit_code
            else:
                res = fix(["*.ini"] if op == "fix *.ini" else names, continue_on_error=True)
            same(f"result of {op}", res, int(any(state[n] == "bad" for n in names)))
            for n in EDITS:
                if n not in names or state[n] in ("bad", "tidy"):
                    same(f"{n} after {op}", get(n), before[n])
                else:
                    state[n] = "tidy"
                if state[n] != "bad":
                    same(f"entries of {n}", [e.id[-1] for s in parse_resource(n, get(n)).sections for e in s.entries], ents[n])
            T.step(1)
        T.trace(1)
        return " ".join(sorted(state.values()))
    finally:
        os.chdir(cwd)
        shutil.rmtree(tree, ignore_errors=True)


def run(ctx: Ctx) -> None:
    global SCRATCH
    SCRATCH = ctx.scratch()
    logging.disable(logging.NOTSET)
    logging.getLogger("moz.l10n").setLevel(logging.CRITICAL + 1)
    logging.getLogger("moz.l10n").propagate = False

    def files():
        for name, (head, toks, tail) in RAW.items():
            for src in texts(toks, ctx.pick(3, 4)):
                if name != "a.xliff" or src.count("<group") < 2 and src.count("<file") < 2:  # duplicates can't be written
                    yield [name, head + src + tail]

    ctx.space("files", files, judge_file, note="every sequence of fragments of each format")

    def selections():
        for how, argss in (("glob", [[p] for p in PATTERNS if p not in ("en", "en/x/")] + [list(p) for p in itertools.product(PATTERNS[::2], PATTERNS[1::3])]), ("dir", [["."], ["en"], ["de"], ["en/x/"]]), ("config", [["en/**"], ["en/*"], ["**/*.ini"], ["en/f.ftl"]])):
            for args in argss:
                for fs in subsets(FILES, ctx.pick(3, 5)):
                    for ss in itertools.product(STATES, repeat=len(fs)):
                        if ctx.quick and len(args) > 1 and (len(str(args)) + len("".join(ss))) % 7:
                            continue
                        for go_on in (True, False) if "bad" in ss or len(args) > 1 else (True,):
                            if len(args) == 1 or all(os.path.basename(p) != "" for p in args):
                                yield [dict(zip(fs, ss)), how, args, go_on]

    ctx.space("selections", selections, judge_select, note="every way to select files of every state")
    ctx.space("histories", lambda: words(OPS, ctx.pick(4, 5)), judge_history, note="every sequence of runs and edits")
