"""
C32: single messages survive parse and serialize in every format.

Sources of single messages are enumerated for every format from its tokens, and parsed with each of the options.  An own reading of each format (for printf specifiers a
hand-written scanner, for XML and Fluent their libraries' trees, the grammar of MessageFormat 2) gives the text and placeholders of both the source and the serialization;
parsing and serializing once more must change nothing.  Messages of all parts are also serialized, from patterns and messages, in every format: they are refused, or hold all
of their parts in order.
Assumed: for Android, relative argument indices may be made explicit; for Fluent, outer whitespace is not part of a message.
"""

from __future__ import annotations

import itertools
import re

from lxml import etree

import aapt
import ftl
import mf2
import xlf
from checks import c07
from checks.c01 import unescape
from checks.c08 import one
from core import Ctx, T, need, same, texts, words
from moz.l10n.message import parse_message, serialize_message
from util import *

PLAIN = [Format.dtd, Format.inc, Format.ini, Format.gettext, Format.plain_json]

# --- printf


def letter(c: str) -> bool:
    return c.isascii() and c.isalpha()


def spec_at(s: str, i: int):
    """The end, argument and type of the printf specifier that starts at i, if there is one"""
    starts = [(i + 1, None)]
    if s[i + 1 : i + 2] in "123456789" and s[i + 2 : i + 3] == "$" and s[i + 1 : i + 2]:
        starts.insert(0, (i + 3, "arg" + s[i + 1]))
    if s[i + 1 : i + 2] == "(":
        j = i + 2
        while j < len(s) and (s[j].isalnum() or s[j] in "_."):
            j += 1
        if j > i + 2 and s[j : j + 1] == ")":
            starts.insert(0, (j + 1, s[i + 2 : j]))
    for j, arg in starts:
        if j < len(s) and s[j] in "-#+ 0,":
            j += 1
        while j < len(s) and s[j] in "0123456789.":
            j += 1
        if s[j : j + 1] in ("T", "t") and letter(s[j + 1 : j + 2]):
            k = j + 1
            while k < len(s) and letter(s[k]):
                k += 1
            return k, arg, "datetime"
        for mod in ("hh", "h", "ll", "l", "L", "z", "j", "q", ""):
            t = s[j + len(mod) : j + len(mod) + 1]
            if s.startswith(mod, j) and t and (letter(t) or t in "@%"):
                return j + len(mod) + 1, arg, t
    return None


FUNCTIONS = {**dict.fromkeys("cCsS", "string"), **dict.fromkeys("dDoOpuUxX", "integer"), **dict.fromkeys("aAeEfFgG", "number"), "datetime": "datetime"}


def printf(s: str) -> list:
    out: list = []
    i = 0
    while i < len(s):
        spec = s[i] == "%" and spec_at(s, i)
        if spec:
            end, arg, t = spec
            out.append((s[i:end], "%", None) if t == "%" else (s[i:end], ("$", arg or "arg"), FUNCTIONS.get(t, "printf")))
            i = end
        elif out and isinstance(out[-1], str):
            out[-1] += s[i]
            i += 1
        else:
            out.append(s[i])
            i += 1
    return out


def parts(msg) -> list:
    need(isinstance(msg, PM) and not msg.declarations, "message", msg)
    for a, b in itertools.pairwise([None, *msg.pattern]):
        need(b != "" and not (isinstance(a, str) and isinstance(b, str)), "pattern", msg)
    return [p if isinstance(p, str) else (p.attributes["source"], ("$", p.arg.name) if isinstance(p.arg, V) else p.arg, p.function) for p in msg.pattern]


def again(fmt, msg, src: str, out: str, **kw) -> None:
    """A second round changes nothing"""
    back = parse_message(fmt, out, **kw)
    same("parsed back", dump(merged(back)), dump(merged(msg)), "from", out)
    same("serialized again", serialize_message(fmt, back), out)
    T.trace(2)


def judge_plain(src: str) -> str:
    want = printf(src)
    for fmt in PLAIN:
        msg = parse_message(fmt, src, printf_placeholders=True)
        same("parts", parts(msg), want)
        same("serialized", serialize_message(fmt, msg), src)
        msg = parse_message(fmt, src)
        same("text", parts(msg), [src] if src else [])
        same("text serialized", serialize_message(fmt, msg), src)
        if src:
            same("string pattern", serialize_message(fmt, [src]), src)
    T.trace(4)
    return str(sum(not isinstance(x, str) for x in want))


def judge_properties(src: str) -> str:
    F = Format.properties
    if re.search(r"(?<!\\)(\\\\)*\\$", src) or "\n" in src:
        return "continued"
    text = unescape(src.lstrip(" \t\f"))
    out = ""
    if src and not src.strip(" \t\f"):
        try:
            need(False, "accepted", parse_message(F, src))
        except ValueError:
            return "rejected"
    for printf_ in (False, True):
        msg = parse_message(F, src, printf_placeholders=printf_)
        same("parts", parts(msg), printf(text) if printf_ else [text] if text else [])
        out = serialize_message(F, msg)
        same("serialized", unescape(out.lstrip(" \t\f")), text, "in", out)
        again(F, msg, src, out, printf_placeholders=printf_)
    return "same" if out == src else "changed"


# --- android

ENTITIES = '<!DOCTYPE string [<!ENTITY foo "Foo"><!ENTITY b.r "">]>'


def judge_android(c) -> str:
    src, ascii_ = c
    kw = {"ascii_spaces": True} if ascii_ else {}

    def read(s: str):
        return aapt.read(etree.fromstring(f"{ENTITIES}<string>{s}</string>", etree.XMLParser(resolve_entities=False)), **kw)

    try:
        want = read(src)
    except etree.XMLSyntaxError:
        try:
            got = parse_message(Format.android, src, android_ascii_spaces=ascii_)
        except Exception:
            T.trace(1)
            return "rejected"
        need("&" in src, "accepted", got)
        return "other entity"
    msg = parse_message(Format.android, src, android_ascii_spaces=ascii_)
    same("parts", aapt.canon(msg, **kw), want)
    before = dump(msg)
    out = serialize_message(Format.android, msg)
    same("message after serializing", dump(msg), before)
    same("serialized", aapt.relative(read(out)), aapt.relative(want), "in", out)
    msg2 = parse_message(Format.android, out, android_ascii_spaces=ascii_)
    same("parsed back", aapt.relative(aapt.canon(msg2, **kw)), aapt.relative(want), "from", out)
    out2 = serialize_message(Format.android, msg2)
    same("serialized again", out2, out)
    T.trace(4)
    return str(sum(not isinstance(x, str) for x in want))


# --- webext


def judge_webext(src: str) -> str:
    F = Format.webext
    want = c07.scan(src, c07.PHS)
    try:
        msg = parse_message(F, src, webext_placeholders=c07.PHS)
    except ValueError:
        need(want is None, "rejected")
        T.trace(1)
        return "rejected"
    need(want is not None, "accepted")
    same("parts", c07.segments(msg), want)
    out = serialize_message(F, msg)
    same("serialized", c07.scan(out, c07.PHS), want, "in", out)
    again(F, msg, src, out, webext_placeholders=c07.PHS)
    if not any(x[0] == "ph" for x in want if not isinstance(x, str)):
        same("without placeholders", dump(parse_message(F, src)), dump(msg))
    return str(sum(not isinstance(x, str) for x in want))


# --- fluent


def ftl_entry(src: str):
    """The pattern of a message, and whether there is nothing but it"""
    # A block, of which the first line may start with any character
    tree = ftl.parse_ast('m =\n {""}' + src.lstrip().replace("\n", "\n ") + "\n")
    if len(tree.body) != 1 or not isinstance(tree.body[0], ftl.ast.Message) or tree.body[0].attributes:
        return None
    value = tree.body[0].value
    value.elements.pop(0)
    return value if value.elements else None


def choices(pattern) -> list:
    """The text and placeholders for each sequence of variants"""
    out = []
    stack: list[list[int]] = [[]]
    while stack:
        pre = stack.pop()
        path: list = []

        def choose(sel):
            i = pre[len(path)] if len(path) < len(pre) else 0
            if len(path) >= len(pre):
                stack.extend([[*[p[1] for p in path], j] for j in range(1, len(sel.variants))])
            v = sel.variants[i]
            path.append(((repr(ftl.inline(ftl.unplace(sel.selector))), getattr(v.key, "name", None) or getattr(v.key, "value", None), v.default), i))
            return v

        s = ftl.segs(pattern, choose)
        out.append((tuple(p[0] for p in path), tuple(s)))
    return sorted(out, key=repr)


def judge_fluent(src: str) -> str:
    F = Format.fluent
    pattern = ftl_entry(src)
    try:
        msg = parse_message(F, src)
    except ValueError:
        need(pattern is None or src.lstrip()[:1] in (".", "[", "*", "}") or re.search(r"\n\s*[.*\[]", src), "rejected, but read as", pattern)
        T.trace(1)
        return "rejected"
    if pattern is None:
        same("text", one(msg), ()) if not src.strip() else need(False, "accepted", msg)
        return "empty"
    before = dump(msg)
    out = serialize_message(F, msg)
    same("message after serializing", dump(msg), before)
    got = ftl_entry(out)
    if not ftl.has_select(pattern):
        want = ftl.segs(pattern)
        same("parts", list(one(msg)), want)
        same("serialized", ftl.segs(got) if got else [], want, "in", out)
        same("escaped", serialize_message(F, msg, fluent_escape_empty=True), out if out.strip() else '{ "" }')
    elif len([e for e in pattern.elements if isinstance(ftl.unplace(e), ftl.ast.SelectExpression)]) == 1:
        same("choices", [x[1] for x in choices(got)], [x[1] for x in choices(pattern)]) if out.count("->") == src.count("->") == 1 else None
    back = parse_message(F, out)
    same("parsed back", one(back), one(msg), "from", out)
    same("serialized again", serialize_message(F, back), out)
    same("without escapes", serialize_message(F, msg, fluent_escape_syntax=False).replace(" ", ""), unescaped(out).replace(" ", "")) if isinstance(msg, PM) and "\u2028" not in src and not any(isinstance(x, Ex) and isinstance(x.arg, str) for x in msg.pattern) else None
    T.trace(4)
    return "select" if ftl.has_select(pattern) else str(sum(not isinstance(x, str) for x in one(msg)))


def unescaped(out: str) -> str:
    return re.sub(r'\{ "([{}.*\[])" \}', r"\1", out)


# --- xliff


def judge_xliff(c) -> str:
    src, xcode = c
    F = Format.xliff

    def read(s: str):
        return xlf.tree(etree.fromstring(f"<target>{s}</target>", etree.XMLParser(resolve_entities=False)), True, "target", True)

    try:
        want = read(src)
    except etree.XMLSyntaxError:
        try:
            got = parse_message(F, src, xliff_is_xcode=xcode)
        except Exception:
            T.trace(1)
            return "rejected"
        need(False, "accepted", got)
    msg = parse_message(F, src, xliff_is_xcode=xcode)
    before = dump(msg)
    out = serialize_message(F, msg)
    same("message after serializing", dump(msg), before)
    same("serialized", read(out), want, "in", out)
    text = "".join(x if isinstance(x, str) else "\0" for x in msg.pattern)
    raw = "".join(read_text(want))
    if not xcode:
        same("text", text.replace("\0", ""), raw)
        need(not any(isinstance(x, Ex) for x in msg.pattern if x is not None), "placeholders", msg)
    again(F, msg, src, out, xliff_is_xcode=xcode)
    return str(sum(not isinstance(x, str) for x in msg.pattern))


def read_text(tree) -> list:
    return [t for k in tree[2] for t in ([k] if isinstance(k, str) else read_text(k) if len(k) == 3 and isinstance(k[2], tuple) else [])]


# --- MessageFormat 2


def judge_mf2(src: str) -> str:
    F = Format.mf2
    verdict, meaning = mf2.read(src)
    try:
        msg = parse_message(F, src)
    except Exception as e:
        need(isinstance(e, ValueError), "failed with", e)
        need(verdict is not True, "rejected", e)
        T.trace(1)
        return "rejected"
    need(verdict is not False, "accepted")
    if meaning is not None:
        same("message", dump(msg), dump(meaning))
    before = dump(msg)
    out = serialize_message(F, msg)
    same("message after serializing", dump(msg), before)
    v2, m2 = mf2.read(out)
    need(v2 is not False, "serialized as invalid", out)
    if m2 is not None:
        same("serialized", dump(m2), before, "in", out)
    again(F, msg, src, out)
    return type(msg).__name__


# --- messages of all parts

PARTS = [
    "a", " ", "%", "$", "{", "}", "\\", "<b>", "&", '"', "'", "\n", "é", "$1", "%s", "",
    Ex(V("x")), Ex(V("x"), attributes={"source": "%1$s"}), Ex(V("arg1"), attributes={"source": "$1"}), Ex("lit"), Ex("lit", attributes={"source": "<s>"}), Ex(None, "fn"), Ex(V("x"), "number"),
    Ex(V("x"), attributes={"source": True}), M("open", "b"), M("close", "b"), M("standalone", "br"), M("open", "g", attributes={"source": "<g>"}),
]


def judge_parts(c) -> str:
    fmt, ixs = c
    F = Format[fmt]
    pattern = [PARTS[i] for i in ixs]
    before = dump(PM(pattern))

    def attempt(x):
        try:
            return serialize_message(F, x)
        except ValueError:
            return None

    out = attempt(PM(pattern))
    same("pattern", attempt(list(pattern)), out)
    same("message after serializing", dump(PM(pattern)), before)
    T.trace(2)
    text = all(isinstance(p, str) for p in pattern)
    need(out is not None or not text, "text refused")
    if F in PLAIN or F == Format.properties:
        if any(not isinstance(p, str) and not isinstance(p.attributes.get("source"), str) for p in pattern):
            same("serialized", out, None)
        else:
            raw = "".join(p if isinstance(p, str) else p.attributes["source"] for p in pattern)
            same("serialized", unescape(out) if F == Format.properties else out, raw)
    elif out is None:
        pass
    elif F == Format.android and text:
        same("read back", "".join(x for x in aapt.read(etree.fromstring(f"<string>{out}</string>"))) if out else "", "".join(pattern), "from", out)
    elif F == Format.webext:
        phs = {}
        got = c07.scan(out, phs)
        need(got is not None, "undefined placeholder in", out)
        same("placeholders", [x[1] for x in got if not isinstance(x, str)], [str(p.attributes.get("source", "$" + p.arg.name.removeprefix("arg")))[1:] for p in pattern if not isinstance(p, str)])
        same("text", "".join(x for x in got if isinstance(x, str)), "".join(p for p in pattern if isinstance(p, str)))
    elif F == Format.xliff:
        got = etree.fromstring(f"<target>{out}</target>")
        raw = "".join(p if isinstance(p, str) else p.attributes["source"] if isinstance(p, Ex) and isinstance(p.attributes.get("source"), str) else "" if isinstance(p, M) and "source" not in p.attributes else "\0" for p in pattern)
        if "\0" not in raw:
            same("text", "".join(got.itertext()), raw)
    elif F == Format.fluent:
        got = ftl_entry(out)
        if text:
            same("text", "".join(ftl.segs(got)) if got else "", "".join(pattern).strip() if got is None else "".join(pattern), "in", out)
        else:
            need(got is not None, "invalid", out)
            same("parts", len([x for x in ftl.segs(got) if not isinstance(x, str)]), len([x for x in one(PM(pattern)) if not isinstance(x, str)]))
    elif F == Format.mf2:
        same("read back", dump(merged(parse_message(F, out))), dump(merged(PM([p for p in pattern if p != ""]))), "from", out)
    for p in pattern:
        if isinstance(p, str) and out is not None and p in ("a", "é"):
            need(p in out or "\\u00e9" in out, "lost", p, "in", out)
    if F in PLAIN or F in (Format.android, Format.xliff):
        for decl in ({"d": Ex("1")}, {"x": Ex(V("x"), "number")}):
            same("message with declarations", attempt(PM(pattern, decl)), None)
    elif F == Format.mf2 and out is not None:
        got = serialize_message(F, PM(pattern, {"d": Ex("1")}))
        same("declarations", dump(merged(parse_message(F, got))), dump(merged(PM([p for p in pattern if p != ""], {"d": Ex("1")}))))
    sm = SM({"n": Ex(V("n"), "number")}, (V("n"),), {("one",): pattern, (CK(),): ["o"]})
    try:
        got = serialize_message(F, sm)
        need(F in (Format.fluent, Format.mf2), "select message serialized as", got)
    except ValueError:
        need(F not in (Format.fluent, Format.mf2) or out is None, "select message refused")
    return f"{fmt} {'refused' if out is None else 'ok'}"


def run(ctx: Ctx) -> None:
    q = ctx.pick
    toks = ["%", "1", "$", "(", "x", ")", "s", "d", " ", "-", "l", "t", "@", "é", ".", "h", "\n"]
    ctx.space("plain", lambda: texts(toks, q(4, 5)), judge_plain, note="all texts of printf characters, in plain formats")
    specs = ["%", "%s", "%1$d", "%(a.b)s", "%%", "%-5.2f", "%tY", "%lld", "%hhx", "%zu", "% d", "%0$s", "%10$s", "%T", "%@", "%,d", "%()s", "%(a", "a", " ", "{0}", "%1$", "%#x", "%é", "%(é_1)s", "%qw"]
    ctx.space("specs", lambda: texts(specs, q(3, 4)), judge_plain, note="all sequences of printf specifiers and the like")
    toks = ["\\", "n", "u", "0", "41", "00e9", "%", "s", " ", "=", ":", "#", "!", "\t", "\x0c", "é", "\\u", "ud83d", "ude00", "\u2028", '"']
    ctx.space("properties", lambda: texts(toks, q(4, 5)), judge_properties, note="all texts of escapes in properties")
    toks = ["a", " ", '"', "'", "\\", "\\n", "\\u0020", "\\\"", "%1$s", "%d", "&foo;", "&amp;", "<b>", "</b>", "<xliff:g xmlns:xliff='urn:oasis:names:tc:xliff:document:1.2' id='i'>", "</xliff:g>", "@string/a", "\n", "<!-- c -->", "<br/>", "&lt;", "<![CDATA[ <i> ]]>", "&b.r;", "&x;", "\u2003", "%<s"]
    ctx.space("android", lambda: ([s, a] for s in texts(toks, q(3, 4)) for a in (False, True)), judge_android, note="all texts of Android tokens")
    toks = ["$", "$$", "$1", "$a$", "$A$", "$A_B$", "$1$", "$a@b$", "$0", "a", " ", "$_1$", "$arg1$", "$b$", "é", "-"]
    ctx.space("webext", lambda: texts(toks, q(4, 5)), judge_webext, note="all texts of placeholders in messages.json")
    toks = ["a", " ", "\n", "\n  ", "{$x}", '{"b"}', "{a}", "{-t}", "{NUMBER($x, a: 1)}", "{ $n ->\n [a] A\n*[b] B\n}", "{ $n ->\n [1] A {$x}\n   C\n *[other]  B\n }", "{", "}", ".", "*", "[", "\\", '{""}', '{"{"}', "{a.b}", "\t", "é", "{5}", "#", "=", "\u2028"]
    ctx.space("fluent", lambda: texts(toks, q(3, 4)), judge_fluent, note="all texts of Fluent tokens")
    toks = ["a", " ", "<g id='1'>", "</g>", "<x id='2'/>", "<ph id='3' ctype='c'>p</ph>", "%@", "%1$d", "&lt;", "&amp;", "\n", "<mrk mtype='m'>", "</mrk>", "<bpt id='4'>", "</bpt>", "é", "<sub>", "</sub>", "%%", "]]>", "<e:f xmlns:e='e' e:h='i'/>"]
    ctx.space("xliff", lambda: ([s, x] for s in texts(toks, q(3, 4)) for x in (False, True)), judge_xliff, note="all texts of XLIFF tokens")
    toks = ["a", " ", "{", "}", "$x", ":f", "|b|", "\\", "#m", "/", "@d", "=", ".input", "{{", "}}", "*", ".match", "1", ".local", "{$y :f}", ".input {$x :f}", ".match $x ", "* {{", "|1| {{", ".local $z = {$x}"]
    ctx.space("mf2", lambda: texts(toks, q(4, 5)), judge_mf2, note="all texts of MessageFormat 2 tokens")
    fmts = [f.name for f in Format]
    ctx.space("parts", lambda: ([f, list(w)] for f in fmts for w in words(range(len(PARTS)), q(3, 4))), judge_parts, note="all patterns of parts of every kind, in every format")
