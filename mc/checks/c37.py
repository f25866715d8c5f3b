"""
C37: invalid localization text is rejected, and parsed resources are well-formed.

All texts of up to a number of tokens are parsed in each format, where the words in a text are all different: it is either refused with the errors that are for this, or gives a resource that is
well-formed as documented in the data model, and that holds each word of the text.  In XML and JSON the standard parsers tell which texts must be refused in any case.
Assumed: as documented, Android drops stray text with a warning; polib is lenient on what it reads as PO; XLIFF and Android names and values that are the same for all files needn't be kept.
"""

from __future__ import annotations

import itertools
import json
import logging
import re
import signal
from configparser import Error as IniError

from lxml import etree

from core import Bad, Ctx, T, need, words
from moz.l10n.formats.mf2.from_json import mf2_from_json
from moz.l10n.message import message_to_json
from util import *

logging.disable(logging.CRITICAL)

ERRORS = (ValueError, OSError, SyntaxError, IniError)


class Hang(Exception):
    pass


def on_alarm(*_):
    raise Hang


# As in the MessageFormat 2 grammar, without the characters outside the BMP
NAME = re.compile("[a-zA-Z_\xc0-\xd6\xd8-\xf6\xf8-\u02ff\u0370-\u037d\u037f-\u061b\u061d-\u1fff\u200c\u200d\u2070-\u218f\u2c00-\u2fef\u3001-\ud7ff\uf900-\ufdcf\ufdf0-\ufffc]"
                  "[a-zA-Z_\xc0-\xd6\xd8-\xf6\xf8-\u02ff\u0370-\u037d\u037f-\u061b\u061d-\u1fff\u200c\u200d\u2070-\u218f\u2c00-\u2fef\u3001-\ud7ff\uf900-\ufdcf\ufdf0-\ufffc0-9.\xb7\u0300-\u036f\u203f\u2040-]*")


def name_ok(x) -> None:
    if isinstance(x, V):
        need(isinstance(x.name, str) and NAME.fullmatch(x.name), "variable name", x)


def comment_ok(c, where: str) -> None:
    need(isinstance(c, str) and (c == "" or not c.isspace()), where, "has comment", repr(c))


def meta_ok(meta, where: str) -> None:
    need(isinstance(meta, list) and all(type(m) is Md and isinstance(m.key, str) and m.key and isinstance(m.value, str) for m in meta), where, "has metadata", meta)


def expression_ok(x) -> None:
    need(isinstance(x.arg, (str, V)) or x.arg is None, "argument", x)
    name_ok(x.arg)
    need(x.function is None or isinstance(x.function, str) and x.function, "function", x)
    need(x.arg is not None or x.function or "bin-unit" in x.attributes, "neither argument nor function", x)
    need(x.function or not x.options, "options without function", x)
    placeholder_ok(x)


def placeholder_ok(x) -> None:
    need(isinstance(x.options, dict) and all(isinstance(k, str) and k and isinstance(v, (str, V)) for k, v in x.options.items()), "options", x)
    need(isinstance(x.attributes, dict) and all(isinstance(k, str) and k and (v is True or isinstance(v, str)) for k, v in x.attributes.items()), "attributes", x)
    for v in x.options.values():
        name_ok(v)


def pattern_ok(p) -> None:
    need(isinstance(p, list), "pattern", p)
    for x in p:
        if isinstance(x, Ex):
            expression_ok(x)
        elif isinstance(x, M):
            need(x.kind in ("open", "standalone", "close") and isinstance(x.name, str) and x.name, "markup", x)
            placeholder_ok(x)
        else:
            need(type(x) is str, "pattern part", repr(x))


def message_ok(m) -> None:
    need(isinstance(m, (PM, SM)), "not a message", repr(m))
    need(isinstance(m.declarations, dict), "declarations", m)
    for k, x in m.declarations.items():
        need(isinstance(k, str) and k and isinstance(x, Ex), "declaration", k)
        name_ok(V(k))
        expression_ok(x)
    if isinstance(m, PM):
        pattern_ok(m.pattern)
    else:
        need(isinstance(m.selectors, tuple) and m.selectors and all(isinstance(s, V) and s.name in m.declarations for s in m.selectors), "selectors", m)
        for keys, p in m.variants.items():
            need(len(keys) == len(m.selectors) and all(isinstance(k, (str, CK)) for k in keys), "variant", keys)
            pattern_ok(p)


def well_formed(res, fmt: Format) -> None:
    need(res.format == fmt, "format", res.format)
    comment_ok(res.comment, "resource")
    meta_ok(res.meta, "resource")
    need(isinstance(res.sections, list), "sections")
    for s in res.sections:
        need(isinstance(s.id, tuple) and all(isinstance(x, str) for x in s.id), "section id", s.id)
        comment_ok(s.comment, f"section {s.id}")
        meta_ok(s.meta, f"section {s.id}")
        for e in s.entries:
            if isinstance(e, C):
                need(e.comment, "empty comment")
                comment_ok(e.comment, "comment")
            else:
                need(isinstance(e, E), "entry", e)
                need(isinstance(e.id, tuple) and e.id and all(isinstance(x, str) for x in e.id), "id", e.id)
                comment_ok(e.comment, f"entry {e.id}")
                meta_ok(e.meta, f"entry {e.id}")
                message_ok(e.value)
                for k, v in e.properties.items():
                    need(isinstance(k, str) and k, "property name", k)
                    message_ok(v)


def text(tokens) -> tuple[str, list]:
    """With all words different"""
    out, n = "", 0
    for t in tokens:
        for i, part in enumerate(t.split("W")):
            if i:
                out += f"w{n}w"
                n += 1
            out += part
    return out, [f"w{i}w" for i in range(n)]


def must_refuse(fmt: Format, src: str) -> bool:
    if fmt in (Format.android, Format.xliff):
        try:
            root = etree.fromstring(src.encode())
        except etree.XMLSyntaxError:
            return True
        return root.tag != "resources" if fmt == Format.android else etree.QName(root).localname != "xliff"
    if fmt in (Format.plain_json, Format.webext):
        if fmt == Format.webext:
            src = re.sub(r"//.*|/\*.*?\*/", "", src)
        try:
            return not isinstance(json.loads(src), dict)
        except ValueError:
            return True
    return False


PO_LINES = (('msgid ""', "h"), ('msgstr ""', "e"), ("msgid W", "?"), ("msgstr[W]", "?"), ('"W: ', "m"), ("msgid_plural", "p"), ("msgid", "i"), ("msgctxt", "x"), ("msgstr[0]", "0"), ("msgstr[1]", "1"), ("msgstr ", "s"), ('"', "q"), ("#~ msgid", "o"), ("#~ msgstr", "O"), ("#", "c"), ("\n", " "))
PO_FILE = re.compile(r" *(?:hem* *)?(c* *(x[qm]*)?i[qm]*([se][qm]*|p[qm]*0[qm]*(1[qm]*)?) *|c* *oO *)*")


def may_ignore(fmt: Format, tokens: list, src: str) -> str:
    """All text that need not be kept"""
    if fmt == Format.gettext:
        # polib accepts more than the format has
        kinds = "".join(next((k for p, k in PO_LINES if t.startswith(p)), "?") for t in tokens)
        return src if not PO_FILE.fullmatch(kinds) else ""
    if fmt == Format.fluent:
        # Positional arguments of terms have no meaning
        return "".join(m[0] for m in re.finditer(r"\{\s*-\w+\s*\([^}]*", src))
    if fmt in (Format.plain_json, Format.webext):
        same_keys = []

        def pairs(items):
            if len(items) > len(dict(items)):
                same_keys.append(items)
            return dict(items)

        json.loads(re.sub(r"//.*|/\*.*?\*/", "", src), object_pairs_hook=pairs)
        if same_keys:
            return src
    if fmt == Format.plain_json:
        # Objects without messages
        return "".join(m[1] for m in re.finditer(r'("\w+")\s*:\s*\{\s*\}', src))
    if fmt == Format.webext:
        data = json.loads(re.sub(r"//.*", "", src))
        res = " ".join(re.findall("//.*", src))
        for msg in data.values():
            used = [x.lower() for x in re.findall(r"\$(\w+)\$", msg["message"])]
            res += str({k: v for k, v in msg.items() if k not in ("message", "description", "placeholders")})
            for p, d in (msg.get("placeholders") or {}).items():
                # Names of placeholders are kept as they are in the message
                res += p if p.lower() in used else str((p, d))
                res += str({k: v for k, v in d.items() if k not in ("content", "example")})
        return res
    if fmt in (Format.android, Format.xliff):
        root = etree.fromstring(src.encode())
        res = " ".join(c.text for c in root.itersiblings() if isinstance(c, etree._Comment))
        for c in root.iter(etree.Comment):
            # Comments in values
            if any(etree.QName(a).localname in ("string", "item", "source", "target", "note") for a in c.iterancestors()):
                res += c.text
        if fmt == Format.android:
            res += re.sub(r"<!ENTITY[^>]*>", "", (re.search(r"<!DOCTYPE[^[]*\[(.*?)\]>", src, re.S) or " ")[0])
            res += " ".join(str(el.get("name")) for el in root.iter("string-array") if not len(el)) + " ".join(str(dict(el.attrib)) for el in root.iter("item"))
            for el in (root, *root):
                if el.tag not in ("string", "item"):
                    res += (el.text or "") + " ".join(c.tail or "" for c in el)
            if "%" in src:
                res += src
        return res
    return ""


def judge(c) -> str:
    f, tokens = c
    fmt = Format[f]
    src, ws = text(tokens)
    T.trace(1)
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(10)
    try:
        res = parse_resource(fmt, src)
    except ERRORS:
        return "refused"
    except Hang:
        raise Bad("parsing does not end", repr(src))
    except Exception as e:
        raise Bad("failed with", repr(e), "for", repr(src))
    finally:
        signal.alarm(0)
    need(not must_refuse(fmt, src), "was not refused:", repr(src))
    well_formed(res, fmt)
    got = str(dump(res))
    lost = [w for w in ws if w not in got]
    if lost:
        ignored = may_ignore(fmt, tokens, src)
        lost = [w for w in lost if w not in ignored]
    need(not lost, "lost", lost, "of", repr(src), got)
    return "parsed" if any(s.entries for s in res.sections) else "empty"


PO = ['msgid "W"\n', 'msgstr "W"\n', 'msgctxt "W"\n', 'msgid_plural "W"\n', 'msgstr[0] "W"\n', 'msgstr[1] "W"\n', '"W"\n', "# W\n", "#. W\n", "#: W:1\n", "#, W\n", '#~ msgid "W"\n', '#~ msgstr "W"\n', "\n", 'msgid ""\n', 'msgstr ""\n', '"W: W\\n"\n', "W\n", 'msgstr[W] "W"\n', 'msgid W\n']
TOKENS = {
    "dtd": ["<!ENTITY ", "W", " ", '"', ">", "<!--", "-->", "\n", "%", ";", "'", "&W;", '<!ENTITY W "W">', '<!ENTITY % p SYSTEM "W">%p;', "<!ENTITY % p SYSTEM 'W'>\n%p;\n", "<!ENTITY % ", "]", "\ufeff", "<"],
    "properties": ["W", " ", "=", ":", "\\", "\n", "#", "!", "\\u00e9", "\\uW", "\f", "\r", "%W", "é"],
    "inc": ["#define ", "W", " ", "\n", "# ", "#", "#filter W", "#unfilter W", "\t", "#define W W", "\r", "é"],
    "ini": ["[", "]", "W", " ", "\n", "=", ":", "#", ";", "\t", "[W]", "W=W", "%"],
    "gettext": PO,
    "fluent": ["W", " ", "=", "\n", "{", "}", "-", "$", "*", "[", "]", "->", ".", "#", '"', "(", ")", ":", "W = W", "other", "0", ",$W", "{F(W:0)}", "F", "{-W.W->[a]W\n*[b]W\n}"],
    "plain_json": ["{", "}", '"W"', ":", ",", '""', "1", "null", "[", "]", "\n", "W", '"\\', '"W":"W"', '"W":{', "true"],
    "webext": ["{", "}", '"W":{', '"message":"W"', '"message":"a$p$"', ",", '"description":"W"', '"placeholders":{', '"p":{', '"content":"W"', '"example":"W"', '"message":1', "null", '"W":', '"W"', '"content":"$1"', '"description":1', '"example":1', '"content":1', "//W\n", "/*W*/", "1", '"p":', '"placeholders":', "[", "]", '"message":"a$W$"'],
    "android": ["<resources>", "</resources>", '<string name="W">', '<string name="">', "<string>", "</string>", "W", "<b>", "</b>", "<!--W-->", '<plurals name="W">', "</plurals>", '<item quantity="one">', '<item quantity="other">', '<item quantity="W">', "<item>", "</item>", '<string-array name="W">', "</string-array>", "<xliff:g>", "<W/>", "&W;", "\\", "\\u00", '"', "'", "%", "%1$", "<![CDATA[W]]>", "\n", "<!DOCTYPE resources [", '<!ENTITY W "W">', "]>", "&lt;", "\\u0041W"],
    "xliff": ['<xliff version="1.2">', "</xliff>", '<file original="W">', "<file>", "</file>", "<header>W</header>", "<body>", "</body>", '<group id="W">', "<group>", "</group>", '<trans-unit id="W">', "<trans-unit>", "</trans-unit>", "<source>", "</source>", "<target>", "</target>", "<note>W</note>", "W", "<!--W-->", '<g id="W">', "</g>", '<x id="W"/>', '<bin-unit id="W">', "</bin-unit>", "<W/>", "\n", "<alt-trans>W</alt-trans>", '<target state="W">'],
}
A = ["<resources>"]
X = ['<xliff version="1.2" xmlns="urn:oasis:names:tc:xliff:document:1.2">', '<file original="W" source-language="W" target-language="W" datatype="W">']
DOCS = {
    "dtd": [["<!--", "W", "-->", "\n", "<!ENTITY ", "W", " ", '"', "W", '"', ">", "\n"], ["<!ENTITY % ", "p", ' SYSTEM "W">%', "p", ";", "\n", '<!ENTITY W "W">'], ["<!ENTITY ", "W", " ", "'", '"', "W", "&W;", "'", " ", ">"]],
    "properties": [["#", "W", "\n", "W", " ", "=", "W", "\\", "\n", "W", "\n"], ["W", ":", "W", "\\", "n", "W", "\n", "!", "W", "\n", "\n", "W"]],
    "inc": [["# ", "W", "\n", "\n", "#define ", "W", " ", "W", " ", "W", "\n"], ["#filter W", "\n", "#define W W", "\n", "\n", "#unfilter W", "\n", "#define ", "W"]],
    "ini": [["#", "W", "\n", "[", "W", "]", "\n", "W", "=", "W", "\n", " ", "W", "\n"], ["[W]", "\n", "W=W", "\n", "\n", "[W]", "\n", ";", "W", "\n", "W=W"]],
    "gettext": [['msgid ""\n', 'msgstr ""\n', '"W: W\\n"\n', "\n", "# W\n", "#. W\n", "#: W:1\n", "#, W\n", 'msgctxt "W"\n', 'msgid "W"\n', 'msgstr "W"\n', '"W"\n', "\n"], ['msgid "W"\n', 'msgid_plural "W"\n', 'msgstr[0] "W"\n', 'msgstr[1] "W"\n', "\n", '#~ msgid "W"\n', '#~ msgstr "W"\n', "\n", 'msgid "W"\n', 'msgstr "W"\n']],
    "fluent": [["#", " ", "W", "\n", "W", " ", "=", " ", "W", " ", "{", "$", "W", "}", "\n", " ", ".", "W", "=", "W", "\n"], ["-", "W", "=", "{", "$", "W", "->", "\n", " ", "*", "[", "other", "]", " ", "W", "\n", " ", "}", "\n"],
        ["W", "=", "{", "F", "(", "$", "W", ")", "}"], ["W", "=", "{", "F", "(", "$", "W", ",", "W", ":", "0", ")", "}", "{", '"', "W", '"', "}"], ["##", " ", "W", "\n", "\n", "W", "=", "{", "-", "W", "(", "W", ":", '"', "W", '"', ")", "}", "\n"]],
    "plain_json": [["{", '"W"', ":", '"W"', ",", '"W":{', '"W":"W"', ",", '"W"', ":", "{", '"W":"W"', "}", "}", "}", "\n"]],
    "webext": [["{", '"W":{', '"message":"a$p$"', ",", '"description":"W"', ",", '"placeholders":{', '"p":{', '"content":"W"', ",", '"example":"W"', "}", "}", "}", "}"], ["{", '"W":{', '"message":"W"', "}", ",", "//W\n", '"W":', "{", '"message":"W"', "}", "}"]],
    "android": [[*A, "<!--W-->", '<string name="W">', "W", "<b>", "W", "</b>", "</string>", "</resources>"], [*A, '<plurals name="W">', '<item quantity="one">', "W", "</item>", '<item quantity="other">', "W", "</item>", "</plurals>", "</resources>"],
        [*A, '<string-array name="W">', "<item>", "W", "</item>", "<!--W-->", "<item>", '"', "W", '"', "</item>", "</string-array>", "</resources>"], ["<!DOCTYPE resources [", '<!ENTITY W "W">', "]>", *A, '<string name="W">', "<![CDATA[W]]>", "</string>", "</resources>"]],
    "xliff": [[*X, "<header>W</header>", "<body>", '<trans-unit id="W">', "<source>", "W", '<x id="W"/>', "</source>", "<target>", "W", "</target>", "<note>W</note>", "</trans-unit>", "</body>", "</file>", "</xliff>"],
        [*X, "<body>", '<group id="W">', "<!--W-->", '<bin-unit id="W">', "<bin-source>W</bin-source>", "</bin-unit>", "</group>", "</body>", "</file>", "</xliff>"]],
}


BYTES = [b"\xff", b"\xc3", b"\xa9", b"\xc3\xa9", b"\x00", b"\xef\xbb\xbf", b"\xff\xfe", b"\xfe\xff", b"\xed\xa0\x80", b"\xe2\x80\xa8", b"\x1b", b"\x80"]


def judge_bytes(c) -> str:
    f, d, where = c
    fmt = Format[f]
    doc = [t.encode() for t in re.findall(r"\w+|\W", text(DOCS[f][d])[0])]
    for i, b in sorted(where, reverse=True):
        if i > len(doc):
            return "past the end"
        doc.insert(i, BYTES[b])
    src = b"".join(doc)
    T.trace(1)
    try:
        res = parse_resource(fmt, src)
    except ERRORS:
        return "refused"
    except Exception as e:
        raise Bad("failed with", repr(e), "for", repr(src))
    well_formed(res, fmt)
    if not src.startswith((b"\xff\xfe", b"\xfe\xff")):
        try:
            src.decode("utf-8", "surrogatepass" if "json" in f or f == "webext" else "strict")
        except UnicodeDecodeError:
            raise Bad("was not refused:", src, dump(res))
    return "parsed"


def edits(doc: list, tokens: list):
    for i in range(len(doc) + 1):
        for t in tokens:
            yield doc[:i] + [t] + doc[i:]
        if i < len(doc):
            yield doc[:i] + doc[i + 1 :]
            for t in tokens:
                if t != doc[i]:
                    yield doc[:i] + [t] + doc[i + 1 :]
            for j in range(i + 1, len(doc)):
                yield doc[:i] + [doc[j]] + doc[i + 1 : j] + [doc[i]] + doc[j + 1 :]
                yield doc[:i] + doc[j:]


X12 = '<xliff version="1.2" xmlns="urn:oasis:names:tc:xliff:document:1.2"><file original="f" source-language="en" target-language="fr" datatype="plaintext"><body><trans-unit id="a"><source>NAME</source><target>NAME</target></trans-unit></body></file></xliff>'
NAMED = {
    "android": [f'<resources xmlns:xliff="urn:oasis:names:tc:xliff:document:1.2"><string name="a">{x}</string></resources>' for x in ('<xliff:g id="NAME">%s</xliff:g>', '<xliff:g>%NAME</xliff:g>', "<xliff:g>{NAME}</xliff:g>", "%NAME", '&NAME;', '<xliff:g id="NAME">a<b>b</b></xliff:g>')],
    "webext": ['{"a":{"message":"$NAME$","placeholders":{"NAME":{"content":"c"}}}}', '{"a":{"message":"$NAME$ $NAME$ $1","placeholders":{"NAME":{"content":"$1"}}}}'],
    "xliff": [X12.replace("NAME", x) for x in ('<x id="NAME"/>', '<g id="NAME">a</g>', "%#@NAME@", "%NAME")],
    "fluent": ["a = { $NAME }\n", "a = { $NAME ->\n *[a] b\n}\n", "a = { NAME() }\n", "a = { F(NAME: $NAME) }\n"],
    "gettext": ['msgid ""\nmsgstr ""\n\nmsgid "a"\nmsgstr "%(NAME)s %NAME"\n'],
}


def judge_name(c) -> str:
    """Whatever placeholders are called, the variables have valid names."""
    f, src, name = c
    T.trace(1)
    try:
        res = parse_resource(Format[f], src.replace("NAME", name))
    except ERRORS:
        return "refused"
    well_formed(res, Format[f])
    return "parsed"


def run(ctx: Ctx) -> None:
    for f, srcs in NAMED.items():
        ctx.space(f"{f}-names", lambda f=f, srcs=srcs: ([f, src, "".join(w)] for src in srcs for w in words("19a-.@_:$ é\xb7", ctx.pick(3, 4))), judge_name, note="all names of placeholders")
    q = ctx.pick
    for f, ts in TOKENS.items():
        end = PO[:2] if f == "gettext" else []
        ctx.space(f, lambda f=f, ts=ts, end=end: ([f, [*w, *end]] for w in words(ts, q(3 if len(ts) > 20 else 4, 5 if len(ts) < 20 else 4))), judge, note="all texts of tokens")

        def changed(f=f, ts=ts, end=end):
            for doc in DOCS[f]:
                yield [f, doc]
                for once in edits(doc, ts):
                    yield [f, once + end]
                    if not ctx.quick or len(doc) < 9:
                        for twice in edits(once, ts):
                            yield [f, twice + end]

        ctx.space(f"{f}-edits", changed, judge, note="documents with one change or more")
        ctx.space(f"{f}-bytes", lambda f=f: ([f, d, list(zip(at, bs))] for n in range(1, q(2, 3)) for d in range(len(DOCS[f])) for at in itertools.product(range(0, 120, 1 if n == 1 else 7), repeat=n) for bs in itertools.product(range(len(BYTES)), repeat=n)), judge_bytes, note="documents with other bytes in them")
