"""
C09: Android XML round trips, against an aapt-like reading of the XML.

All texts and sequences of parts up to the depth as strings, array items and plural items, all inner
source texts of tokens, all structures of comments, strings, arrays, plurals and entities, and all
attributes and comment texts up to the depth.
"""

from __future__ import annotations

import logging
import re

from lxml import etree

import aapt
from core import Bad, Ctx, T, need, same, subsets, texts, words
from util import *

from moz.l10n.formats.android import android_parse, android_serialize

A = Format.android
logging.getLogger("moz.l10n.formats.android.parse").setLevel(logging.CRITICAL)
XMLNS = 'xmlns:xliff="urn:oasis:names:tc:xliff:document:1.2"'
DTD = '<!DOCTYPE resources [<!ENTITY foo "Foo"><!ENTITY bar "Bar">]>'


def ser(res: Resource) -> str:
    return "".join(android_serialize(res))


def root(src: str):
    try:
        return etree.fromstring(src.encode(), etree.XMLParser(resolve_entities=False))
    except etree.XMLSyntaxError as e:
        raise Bad(f"not well-formed: {e} in {src!r}")


def xml_values(src: str, **kw) -> list:
    """The values in a file."""
    out = []
    for el in root(src):
        if isinstance(el, (etree._Comment, etree._ProcessingInstruction)):
            continue
        items = [x for x in el if not isinstance(x, etree._Comment)]
        if el.tag == "string":
            out.append(((el.get("name"),), aapt.read(el, **kw)))
        elif el.tag == "string-array":
            out += [((el.get("name"), str(i)), aapt.read(x, **kw)) for i, x in enumerate(items)]
        else:
            out.append(((el.get("name"),), [(x.get("quantity"), aapt.read(x, **kw)) for x in items]))
    return out


def value(v) -> list:
    if isinstance(v, SM):
        return [(str(k[0]), aapt.canon(p)) for k, p in v.variants.items()]
    return aapt.canon(v)


def model_values(res: Resource) -> list:
    return [(tuple(e.id), value(e.value)) for s in res.sections if not s.id for e in s.entries if isinstance(e, E)]


def plural(one, other) -> SM:
    return SM({"quantity": Ex(V("quantity"), "number")}, (V("quantity"),), {("one",): one, (CK("other"),): other})


def around(pos: str, p: list) -> list:
    """Entries that use a pattern."""
    a, z = E(("aaa",), PM(["x"])), E(("zzz",), PM(["y"]))
    if pos == "string":
        return [a, E(("m",), PM(p)), z]
    if pos == "item":
        return [a, E(("m", "0"), PM(p)), E(("m", "1"), PM(["b"])), E(("m", "2"), PM(p)), z]
    if pos == "plural":
        return [a, E(("m",), plural(["1"], p)), z]
    return [a, E(("m",), plural(p, p)), z]


def nsless(res: Resource) -> Resource:
    res.meta = [m for m in res.meta if m.key != "xmlns:xliff"]
    return res


def check(res: Resource, strict: bool = True) -> str:
    before = dump(res)
    exp = model_values(res)
    src = ser(res)
    same("resource after serializing", dump(res), before)
    same("values in the XML", xml_values(src), exp, "from", src)
    got = android_parse(src)
    T.trace(2)
    same("values parsed back", model_values(got), exp, "from", src)
    need({(m.key, m.value) for m in res.meta} <= {(m.key, m.value) for m in got.meta}, "lost metadata of", res.meta, "from", src)
    again = ser(got)
    if strict:
        same("serialized again", again, src)
    else:
        same("values parsed again", model_values(android_parse(again)), exp, "from", again)
        same("serialized again", ser(android_parse(again)), again)
    same("parsed again", dump(android_parse(src.encode())), dump(got))
    return src


def judge_text(case: list) -> str:
    pos, w = case[0], case[1]
    if pos == "str":
        res = Resource(A, [S((), [E(("m",), w)])])
        src = ser(res)
        same("values in the XML", xml_values(src), model_values(res), "from", src)
        same("values parsed back", model_values(android_parse(src)), model_values(res), "from", src)
        T.trace(2)
        return "ok"
    check(Resource(A, [S((), around(pos, [w] if w else []))]))
    return "ok"


P = {
    "a": "a", "_": " ", "n": "\n", "<": "<b>", "%": "%", "d": "d", "'": "'", "q": '"', "b": "\\", "@": "@s/t",
    "s": Ex(V("arg1"), "string", {}, {"source": "%1$s"}), "i": Ex(V("arg"), "integer", {}, {"source": "%d"}),
    "p": Ex("%", None, {}, {"source": "%%"}), "N": Ex("\n", None, {}, {"source": "%n"}),
    "e": Ex(V("foo"), "entity"), "h": Ex("<a b=\"c\" d='e\\\\'>", "html"), "r": Ex("<br>", "html"), "u": Ex("<ul>", "html"),
    "k": Ex("{x", None, {}, {"translate": "no"}), "l": Ex("%d", None, {}, {"translate": "no"}), "g": Ex("it's  \\ \"x\"", None, {}, {"translate": "no"}), "G": Ex(V("id"), "xliff:g", {"id": "id", "example": "e<&\">"}, {"translate": "no", "source": "%s"}),
    "E": Ex(V("foo"), "entity", {}, {"translate": "no"}), "o": M("open", "u", {"c": "d<&\"\n>"}), "c": M("close", "u"),
    "O": M("open", "xliff:g", {"id": "y"}, {"translate": "no"}), "C": M("close", "xliff:g", {}, {"translate": "no"}), "S": M("standalone", "br"),
}


def nested(w) -> bool:
    stack = []
    for k in w:
        if k in "oO":
            stack.append(k)
        elif k in "cC":
            if not stack or stack.pop() != k.lower().replace("c", "o" if k == "c" else "O"):
                return False
    return not stack


def rewritten(p: list) -> list:
    """As it is read back: adjacent text joined."""
    return aapt.merge([x if isinstance(x, str) else ("part", dump(x)) for x in p])


def judge_parts(case: list) -> str:
    pos, w = case
    if not nested(w):
        try:
            src = ser(Resource(A, [S((), around(pos, [P[k] for k in w]))]))
        except ValueError:
            T.trace()
            return "refused"
        raise Bad(f"improper nesting written as {src!r}")
    dtd = [S(("!ENTITY",), [E(("foo",), PM(["Foo"]))])] if "e" in w or "E" in w else []
    res = Resource(A, [*dtd, S((), around(pos, [P[k] for k in w]))])
    src = check(res, not any(x in w for x in ("_u", "r_", "O")))  # Space before block tags is normalized
    # Placeholders stay what they were
    parts = [P[k] for k in w]
    got = [e for e in android_parse(src).sections[-1].entries if e.id[0] == "m"][0].value
    got = got.pattern if isinstance(got, PM) else list(got.variants.values())[-1]
    # Literals stay literals
    if not any(k in "gGO" for k in w):
        lits = [g.arg for g in got if isinstance(g, Ex) and isinstance(g.arg, str) and g.attributes.get("translate") == "no" and g.function is None]
        for k in "kl":
            same("literals", lits.count(P[k].arg), list(w).count(k), P[k], "in", got, "from", src)
    if not any(k in "gGOS<r" for k in w):
        for k in "siNpeEh":
            x = dump(P[k])
            same("placeholders", [dump(g) for g in got].count(x), list(w).count(k), P[k], "in", got, "from", src)
    return "ok"


INNER = ["a", " ", "\n", "\\n", "\\u0020", "\\'", '\\"', '"', "\\\\", "%s", "%1$d", "%%", "%", "%n", "&lt;b>", '&lt;a b="c">', '&lt;a b=\\"c\\">', "&lt;br/>", "&lt;p>", "<b>", "</b>",
         "<br/>", "<xliff:g>", "</xliff:g>", '<xliff:g id="x">', "&foo;", "@", "?s", "&amp;", "\u00a0", "<![CDATA[<i>]]>", "\\u0025", "<!-- c -->", "\\",
         "{x}", "d", "\\@", "]]&gt;", "\\u003c", "&#9;"]


def judge_inner(case: list) -> str:
    src, opts = case
    doc = f'{DTD}<resources {XMLNS}><string name="m">{src}</string></resources>'
    try:
        r = etree.fromstring(doc.encode(), etree.XMLParser(resolve_entities=False))
    except etree.XMLSyntaxError:
        return "not XML"
    kw = {"ascii_spaces": "a" in opts, "literal_quotes": "q" in opts}
    try:
        got = nsless(android_parse(doc, **kw))
    except ValueError as e:
        need("%<" in src or "%&lt;" in src, "rejected", e)
        return "rejected"
    T.trace(2)
    exp = aapt.read(r[0], **kw)
    if "%&lt;" in src or "%<" in src:
        if "\\" in src:
            return "relative"
        exp = aapt.relative(exp)
    v = got.sections[-1].entries[0].value
    same("parsed", aapt.canon(v), exp, "as", v)
    out = ser(got)
    same("values in the XML", xml_values(out, **kw), model_values(got), "from", out)
    again = nsless(android_parse(out, **kw))
    if "&lt;p>" in src or "&lt;br/>" in src:
        out = ser(again)  # Space before block tags is normalized
        again = nsless(android_parse(out, **kw))
    same("values after serializing", model_values(again), model_values(got), "from", out)
    same("serialized again", ser(again), out)
    if any(isinstance(p, Ex) and p.arg == "" for p in v.pattern):
        return "empty span"
    # Text may be read as HTML, or the other way around
    a, b = (rewritten([p.arg if isinstance(p, Ex) and p.function == "html" else p for p in x.sections[-1].entries[0].value.pattern]) for x in (again, got))
    same("parts after serializing", a, b, "from", out)
    return "ok"


def thing(k: str, n: int) -> list:
    return {
        "s": lambda: [E((f"m{n}",), PM([f"v{n}"]))],
        "c": lambda: [E((f"m{n}",), PM([f"v{n}"]), comment=f"about {n}")],
        "C": lambda: [E((f"m{n}",), PM([f"v{n}"]), comment=f"about {n}\ntwo\n\nthree", meta=[Md("translatable", "false")])],
        "a": lambda: [E((f"m{n}", "0"), PM(["A"])), E((f"m{n}", "1"), PM([]))],
        "A": lambda: [E((f"m{n}", "0"), PM(["A"]), comment="c0", meta=[Md("x", "y")]), E((f"m{n}", "1"), PM(["B"]), comment="c1\nd", meta=[Md("x", "y")]),
                      E((f"m{n}", "2"), PM(["B"]), meta=[Md("x", "y")])],
        "p": lambda: [E((f"m{n}",), plural(["1"], ["%d"]))],
        "P": lambda: [E((f"m{n}",), plural(["1"], []), comment="plural\nplural", meta=[Md("tools", "b<&\">'\n")])],
        "d": lambda: [E((f"m{n}", "0"), PM(["A"]), meta=[Md("product", "y")]), E((f"m{n}", "0"), PM(["B"])), E((f"m{n}", "1"), PM(["C"]))],
        "#": lambda: [C(f"standalone {n}")],
        "2": lambda: [C(f"standalone {n}\n- two")],
        "e": lambda: [E((f"m{n}",), PM([]))],
    }[k]()


def norm(c: str) -> str:
    return "\n".join(line.strip() for line in c.split("\n")).strip("\n")


def items(res: Resource) -> list:
    out: list = []
    if res.comment.strip():
        out.append(("comment", norm(res.comment)))
    out += [("meta", m.key, m.value) for m in res.meta if m.key != "xmlns:xliff"]
    for s in res.sections:
        if s.id:
            out.append(("section", s.id))
        if s.comment.strip():
            out.append(("#", norm(s.comment)))
        for e in s.entries:
            if isinstance(e, Comment):
                out.append(("#", norm(e.comment)))
            else:
                out.append(("entry", tuple(e.id), value(e.value), norm(e.comment), dump(e.meta)))
    return out


def check_items(res: Resource) -> None:
    exp = items(res)
    comments = [res.comment] + [e.comment for s in res.sections for e in [s, *s.entries]]
    src = check(res, not any(re.search(r"\s\n|\n\s", c) for c in comments))
    same("items parsed back", items(android_parse(src)), exp, "from", src)


def judge_structure(case: list) -> str:
    comment, meta, ents, secs = case
    n = 0
    sections = []
    if ents:
        sections.append(S(("!ENTITY",), [E(("foo",), PM(["Foo"])), E(("bar",), PM(["B ", Ex(V("foo"), "entity"), "<b>'%d"]))][:ents]))
    for scomment, word in secs:
        entries: list = []
        for k in word:
            n += 1
            entries += thing(k, n)
        sections.append(S((), entries, comment=scomment))
    check_items(Resource(A, sections, comment=comment, meta=[Md(*m) for m in meta]))
    return "ok"


def judge_comment(case: list) -> str:
    where, c = case
    e = E(("m",), PM(["v"]))
    res = Resource(A, [S((), [E(("a",), PM(["a"])), e, E(("z",), PM(["z"]))])])
    if where == "resource":
        res.comment = c
    elif where == "section":
        res.sections[0].comment = c
    elif where == "entry":
        e.comment = c
    elif where == "item":
        e.id, e.comment = ("m", "0"), c
    elif where == "plural":
        e.value, e.comment = plural(["a"], ["b"]), c
    elif where == "last":
        res.sections[0].entries.append(C(c))
    else:
        res.sections[0].entries.insert(1, C(c))
    try:
        check_items(res)
    except Bad:
        if "--" in c:
            return "dashes"
        raise
    return "ok"


def judge_meta(case: list) -> str:
    where, k, v = case
    m = [Md(k, v), Md("zz", v)]
    e = E(("m",), PM(["v"]))
    res = Resource(A, [S((), [E(("a",), PM(["a"])), e, E(("z",), PM(["z"]))])])
    if where == "resource":
        res.meta = m
    elif where == "item":
        e.id, e.meta = ("m", "0"), m
    elif where == "plural":
        e.value, e.meta = plural(["a"], ["b"]), m
    else:
        e.meta = m
    try:
        check_items(res)
    except ValueError:
        need(k in ("1a", "", "a b", "name"), "refused", k)
        return "refused"
    return "ok"


LINES = ['<string name="a">x</string>', "<!-- c -->", "<!--\n d\n   e -->", "\n", "\n\n", "\n \n", '<string-array name="b">', "<item>y</item>", "</string-array>",
         '<plurals name="c">', '<item quantity="one">1</item>', '<item quantity="other">2</item>', "</plurals>", '<string name="d" t="u"/>', "text"]


def xml_comments(r) -> list:
    return [line.strip() for c in r.iter(etree.Comment) for line in c.text.split("\n") if line.strip()]


def judge_source(src: str) -> str:
    doc = f"<!--top--><!--\nalso\n--><resources>{src}</resources>"
    try:
        r = etree.fromstring(doc.encode())
    except etree.XMLSyntaxError:
        return "not XML"
    try:
        got = android_parse(doc)
    except ValueError:
        T.trace()
        bad = r.xpath("/resources/item") + r.xpath("//string-array/*[name()!='item']") + r.xpath("//plurals/*[name()!='item' or not(@quantity)]")
        dup = any(len(p.xpath("item[@quantity='one']")) > 1 or len(p.xpath("item[@quantity='other']")) > 1 for p in r.iter("plurals"))
        need(bad or dup, "rejected", src)
        return "rejected"
    T.trace()
    same("values parsed", model_values(got), xml_values(doc), "from", doc)
    same("comment of the resource", got.comment, "top\n\nalso", "from", doc)
    if all(el.tag in ("string", etree.Comment) for el in r):
        placed, pending = [], []
        for el in r:
            if el.tag == "string":
                placed.append((el.get("name"), pending))
                pending = []
            else:
                pending = pending + [line.strip() for line in el.text.split("\n") if line.strip()]
                if (el.tail or "").count("\n") > 1:
                    placed.append((None, pending))
                    pending = []
        placed += [(None, pending)] if pending else []
        same("places of comments", [(e.id[0] if isinstance(e, E) else None, [x for x in e.comment.split("\n") if x]) for e in got.sections[0].entries], placed, "from", doc)
    coms = ["top", "also"] + xml_comments(r)
    got_coms = [line for x in items(got) for c in ([x[1]] if x[0] in ("#", "comment") else [x[3]] if x[0] == "entry" else []) for line in c.split("\n") if line.strip()]
    got_coms = [x for line in got_coms if (x := line.removeprefix("other:").removeprefix("one:").strip())]
    same("comments", sorted(got_coms), sorted(coms), "from", doc)
    try:
        out = ser(got)
    except ValueError as e:
        ids = [e.id for e in got.sections[0].entries if isinstance(e, E)]
        need(len(set(ids)) < len(ids), "not serialized", e)
        return "duplicate arrays"
    again = android_parse(out)
    same("items after serializing", items(again), items(got), "from", out)
    same("serialized again", ser(again), out)
    return "ok"


def judge_entity(case: list) -> str:
    """Entity declarations."""
    w = [{"a": "a", "&": "&", "%": "%", "q": '"', "'": "'", "e": Ex(V("foo"), "entity"), ";": ";", "<": "<b/>", " ": " ", "n": "\n", "r": "\r"}[k] for k in case]
    res = Resource(A, [S(("!ENTITY",), [E(("foo",), PM(["f"])), E(("bar",), PM(w))]), S((), [E(("m",), PM([Ex(V("bar"), "entity")]))])])
    src = ser(res)
    T.trace(2)

    def ent(p) -> list:
        names = {"amp": "&", "quot": '"', "apos": "'"}
        return aapt.merge([x if isinstance(x, str) else names.get(x.arg.name, ("entity", x.arg.name)) for x in p])

    got = android_parse(src)
    same("entities", [e.id for e in got.sections[0].entries], [("foo",), ("bar",)], "from", src)
    same("entity", ent(got.sections[0].entries[1].value.pattern), ent(w), "from", src)
    same("serialized again", ser(got), src)
    return "ok"


BAD = {
    "id": lambda: E(("",), PM(["x"])), "id2": lambda: E(("a b",), PM(["x"])), "id3": lambda: E(("a", "b"), PM(["x"])), "id4": lambda: E(("a", "0", "b"), PM(["x"])),
    "idx": lambda: E(("a", "1"), PM(["x"])), "none": lambda: E((), PM(["x"])), "control": lambda: E(("a",), PM([Ex(None, "fn")])),
    "item-plural": lambda: E(("a", "0"), plural(["a"], ["b"])), "key": lambda: E(("a",), SM({"n": Ex(V("n"), "number")}, (V("n"),), {("1",): ["a"], (CK("other"),): ["b"]})),
    "two": lambda: E(("a",), SM({"n": Ex(V("n"), "number"), "m": Ex(V("m"), "number")}, (V("n"), V("m")), {(CK(), CK()): ["a"]})),
    "string": lambda: E(("a",), SM({"n": Ex(V("n"), "string")}, (V("n"),), {(CK("other"),): ["b"]})),
    "decl": lambda: E(("a",), PM(["b"], declarations={"x": Ex(V("x"), "number")})), "markup-var": lambda: E(("a",), PM([M("standalone", "b", {"x": V("y")})])),
    "close": lambda: E(("a",), PM([M("close", "b")])), "open": lambda: E(("a",), PM([M("open", "b"), M("close", "c")])), "meta": lambda: E(("a",), PM([]), meta=[Md("name", "b")]),
    "other2": lambda: E(("a",), SM({"n": Ex(V("n"), "number")}, (V("n"),), {("other",): ["a"], (CK("other"),): ["b"]})),
    "unclosed": lambda: E(("a",), PM([M("open", "b"), "x"])),
    "ref": lambda: E(("a",), PM([Ex("foo", "reference")])), "entity": lambda: E(("a",), PM([Ex("foo", "entity")])), "nul": lambda: E(("a",), PM([Ex("x", None, {}, {"source": "\x00"})])),
}


def judge_bad(kind: str) -> str:
    try:
        out = ser(Resource(A, [S((), [BAD[kind]()])]))
    except ValueError:
        T.trace()
        return "refused"
    raise Bad(f"{kind} written as {out!r}")


TEXT = ["a", " ", "\n", "'", '"', "\\", "%", "d", "<b>", "&", "@", "?", "\u00a0", "\x00", "\x1b", "\u2028", "]]>", "{x}", "n", "u0041", "\t", "s/t", "1$", "\r", "é"]


def run(ctx: Ctx) -> None:
    d = ctx.pick(3, 4)
    ctx.space("texts", lambda: ([p, s] for s in texts(TEXT, d) for p in ("string", "str") if p == "string" or s), judge_text,
              note=f"texts of up to {d} of {len(TEXT)} tokens")
    ctx.space("text-positions", lambda: ([p, s] for s in texts(TEXT, 2) for p in ("item", "plural", "plurals")), judge_text)
    ctx.space("parts", lambda: ([p, "".join(w)] for w in words(P, ctx.pick(3, 4)) for p in ("string", "plural") if p == "string" or len(w) < 3), judge_parts)
    ctx.space("inner", lambda: ([s, o] for s in texts(INNER, ctx.pick(3, 4)) for o in ("", "a", "q", "aq") if len(s) < 6 or not o), judge_inner,
              note=f"texts of up to {ctx.pick(3, 4)} of {len(INNER)} tokens")
    ctx.space("inner-quotes", lambda: ([s, ""] for s in texts(['"', "\\", " ", "a", "n", "<b>", "</b>", "&foo;"], ctx.pick(5, 6))), judge_inner)
    ctx.space("bad", lambda: BAD, judge_bad)
    ctx.space("entities", lambda: ("".join(w) for w in words("a&%q'e;< nr", ctx.pick(3, 4))), judge_entity)
    metas = [[], [["a", "b<&\">'\n\t"], ["xmlns:tools", "http://x/"]], [["xmlns:xliff", "urn:oasis:names:tc:xliff:document:1.2"], ["xmlns:b", "http://y/"]]]
    ctx.space("structures", lambda: ([c, m, e, [[g, w]]] for c in ("", "res\n\n two\n- x") for m in metas for e in (0, 1, 2) for g in ("", "g")
                                     for w in words("scCaApP#2ed", ctx.pick(2, 3))), judge_structure)
    ctx.space("structures-deep", lambda: (["", [], 0, [["", w]]] for w in words("scaAp#P", ctx.pick(4, 5))), judge_structure)
    ctx.space("sections", lambda: (["", [], 0, [[g, v], [h, w]]] for g in ("", "g") for h in ("", "h") for v in words("sad#c", 2) for w in words("sad#c", 2)), judge_structure)
    ctx.space("comments", lambda: ([w, c] for w in ("resource", "section", "entry", "item", "plural", "standalone", "last")
                                   for c in texts(["a", "\n", " ", "-", "&", "<!", "]]>", "\u2028", "\x85"], ctx.pick(3, 4), 1) if c.strip()), judge_comment)
    ctx.space("attributes", lambda: ([w, k, v] for w in ("resource", "string", "item", "plural") for k in ("a", "x-y", "é", "1a", "", "a b", "name" if w != "resource" else "b")
                                     for v in texts(["a", " ", "\n", "<", "&", '"', "\t", "'", ">", "\u00a0", "\r"], 2)), judge_meta)
    ctx.space("lines", lambda: ("".join(w) for w in words(LINES, ctx.pick(5, 6))), judge_source,
              note=f"contents of up to {ctx.pick(5, 6)} of {len(LINES)} tokens")
    ctx.assume("HTML in text, and percent formatting in text, is the same as the placeholders that they are read as.",
               "Whitespace within comment lines' ends, `--` within comments, and the name of a plural's variable are not kept.")
