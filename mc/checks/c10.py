"""
C10: XLIFF round trips, against the XML trees of the input and output.

All contents of text elements, units, bodies and groups, headers and files that are built of up to the depth of
tokens, and all resources up to the depth which can be represented; both with targets and sources as messages.
"""

from __future__ import annotations

from lxml import etree

import xlf
from core import Bad, Ctx, T, need, same, texts, words
from util import *

from moz.l10n.formats.xliff import xliff_parse, xliff_serialize

X = Format.xliff
NS = 'xmlns="urn:oasis:names:tc:xliff:document:1.2" xmlns:x="http://x/" version="1.2"'
FILE = 'original="f" source-language="en" datatype="plaintext"'


def ser(res: Resource, **kw) -> str:
    return "".join(xliff_serialize(res, **kw))


def xml(doc: str):
    try:
        return etree.fromstring(doc.encode())
    except etree.XMLSyntaxError:
        return None


def check(doc: str) -> str:
    root = xml(doc)
    if root is None:
        return "not XML"
    secs = xlf.sections(root)
    res = []
    for se in (False, True):
        name = "source" if se else "target"
        try:
            got = xliff_parse(doc, source_entries=se)
        except ValueError as e:
            T.trace()
            need(not xlf.valid(doc, se), "rejected", e, "for", doc)
            res.append("rejected")
            continue
        try:
            out = ser(got, source_entries=se)
        except ValueError as e:
            T.trace()
            nosource = not se and any(u.get("id") for u in root.iter("{*}trans-unit") if u.find("{*}source") is None)
            need(len(set(secs)) < len(secs) or nosource, "not serialized", e, "for", doc)
            res.append("refused")
            continue
        T.trace(2)
        same("document", xlf.document(out, name), xlf.document(doc, name), "as", out, "with sources" if se else "with targets")
        same("comments", comment_lines(xml(out)), comment_lines(root), "as", out)
        again = xliff_parse(out.encode(), source_entries=se)
        same("resource", norm(again), norm(got), "from", out)
        same("serialized again", ser(again, source_entries=se), out)
        values = [xlf.text(u.find("{*}" + name)) for u in root.iter("{*}trans-unit", "{*}bin-unit")]
        need(len(values) == sum(len([e for e in s.entries if isinstance(e, E)]) for s in got.sections), "entries", got)
        by_id: dict = {}
        for u, v in zip(root.iter("{*}trans-unit", "{*}bin-unit"), values):
            by_id.setdefault(u.get("id"), []).append("" if xlf.local(u.tag) == "bin-unit" else v)
        for s in got.sections:
            for e in s.entries:
                if isinstance(e, E):
                    need(flat(e.value.pattern) in by_id[e.id[0]], "value", e, "of", by_id)
        res.append("ok")
    return "+".join(res)


def comment_lines(root) -> list:
    """All lines of the comments outside units and metadata, which may be moved and joined."""
    res = [line for c in root.itersiblings(etree.Comment, preceding=True) for line in lines_of(c)]
    for el in [root, *root.iter("{*}file", "{*}body", "{*}group")]:
        if all(xlf.local(a.tag) in ("xliff", "file", "body", "group") for a in [el, *el.iterancestors()]):
            res += [line for c in el.iterchildren(etree.Comment) for line in lines_of(c)]
    return sorted(res)


def lines_of(c) -> list:
    return [s.removeprefix("- ") for line in (c.text or "").split("\n") if (s := line.strip())]


def norm(res: Resource) -> tuple:
    """With joined text, and independent of the order in which different elements are set in metadata."""
    for s in res.sections:
        for e in s.entries:
            if isinstance(e, E):
                e.meta.sort(key=lambda m: m.key.split("/")[0] if m.key[:1] != "@" else "")
                p: list = []
                for x in e.value.pattern:
                    if isinstance(x, str) and p and isinstance(p[-1], str):
                        p[-1] += x
                    else:
                        p.append(x)
                e.value.pattern = p
    return dump(res)


def flat(p: list) -> str:
    return "".join(x if isinstance(x, str) else x.attributes.get("source", "") if isinstance(x, Ex) else "" for x in p)


CONTENT = ["a", " ", "\n", '<x id="1"/>', '<g id="1">', "</g>", '<bx id="2"/>', '<x:f x:a="b"/>', '<ph id="1" x:b="c">', "</ph>", "<!--c-->", "&amp;", "&#13;",
           "%d", '<x id="1" xml:space="preserve"/>', "\u00a0", "<?p i?>", "<![CDATA[<b>]]>", "<mrk mtype='seg'/>", "\u2028", "<ex/>", "&#160;<sub/>"]
UNIT = ["<source>a</source>", "<target>b</target>", "<target/>", '<target state="x"/>', "<source/>", "<note>n</note>", '<note from="f" priority="1"> m\n k </note>',
        "<note/>", "<alt-trans>", "</alt-trans>", "<!-- c -->", "<seg-source>", "</seg-source>", '<mrk mid="1">', "</mrk>", "t", "\n", '<x:foo a="b" x:c="d"/>', "<?pi x?>",
        '<source xml:lang="en">a</source>', "<target> </target>", "<source> </source>", "<note> </note>"]
BODY = ["<trans-unit id='a'><source>s</source></trans-unit>", "<trans-unit id='b'><source>s</source><target>t</target><note>n</note></trans-unit>", '<group id="g">', "<group>",
        "</group>", "<!-- c -->", "<!--\n d\n   e\n\n f -->", "<bin-unit id='i'><bin-source><external-file href='h'/></bin-source></bin-unit>", "<note>n</note>", "<note>n</note><note>o</note>", "t", "\n",
        "<trans-unit><source>s</source></trans-unit>", "<x:y/>", '<group id="h" x:a="b">', "<!---->", "<trans-unit id=''><source/></trans-unit>", "<!-- -->"]
HEADER = ['<tool tool-id="t"/>', "<note>n</note>", "<phase-group>", "</phase-group>", "<b>", "</b>", "t", " ", "<!--c-->", '<x:c x:d="e">', "</x:c>", "<b/>", "<![CDATA[x]]>", "<?p?>"]
FILES = ["<!-- c -->", "<!--\n d\n e-->", f"<file {FILE}>", '<file original="g" x:a="b">', "</file>", "<header/>", "<header><note>n</note></header>", "<body/>",
         '<body><trans-unit id="a"><source>s</source></trans-unit></body>', "t", "\n", "<skl/>", '<body><group id="g"/></body>', "<?p?>", "<!---->", '<file original="h"><body/></file>']


def doc(body: str) -> str:
    return f"<xliff {NS}><file {FILE}><body>{body}</body></file></xliff>"


def judge_content(case: list) -> str:
    where, w = case
    unit = {
        "target": f"<source>s</source><target>{w}</target>",
        "source": f"<source>{w}</source>",
        "both": f"<source>{w}</source><target state='x'>{w}</target>",
        "alt": f"<source>s</source><alt-trans><target>{w}</target></alt-trans>",
        "note": f"<source>s</source><note>{w}</note>",
    }[where]
    return check(doc(f"<trans-unit id='u'>{unit}</trans-unit>"))


def judge_unit(w: str) -> str:
    return check(doc(f"<trans-unit id='u' approved='yes' x:y='z'>{w}</trans-unit>"))


def judge_bin(w: str) -> str:
    return check(doc(f"<bin-unit id='u' mime-type='z'>{w}</bin-unit>"))


def judge_body(w: str) -> str:
    return check(doc(w))


def judge_header(w: str) -> str:
    return check(f"<xliff {NS}><file {FILE}><header>{w}</header><body/></file></xliff>")


def judge_files(w: str) -> str:
    return check(f"<!-- top -->\n<!--\n two\n\n three--><xliff {NS}>{w}</xliff>")


def judge_root(case: list) -> str:
    com, attrs, version, ns = case
    src = f'{com}<xliff version="{version}" {ns} {attrs}><file {FILE}><body><trans-unit id="a"><source>s</source></trans-unit></body></file></xliff>'
    if version not in ("1.0", "1.1", "1.2") or "2.0" in ns or "other" in ns:
        try:
            xliff_parse(src)
        except ValueError:
            T.trace()
            return "rejected"
        raise Bad(f"accepted {src}")
    return check(src)


def judge_attr(case: list) -> str:
    el, name, value = case
    v = "".join({"<": "&lt;", "&": "&amp;", '"': "&quot;", "\n": "&#10;", "\t": "&#9;", "\r": "&#13;"}.get(c, c) for c in value)
    a = f'{name}="{v}"'
    at = {k: a if k == el else "" for k in ("file", "header", "tool", "group", "unit", "source", "target", "note", "x", "g", "body")}
    return check(
        f"<xliff {NS}><file {FILE} {at['file']}><header {at['header']}><tool {at['tool']}/></header><body><group id='g' {at['group']}>"
        f"<trans-unit id='u' {at['unit']}><source {at['source']}>s</source><target {at['target']}>a<x {at['x']}/><g {at['g']}>b</g></target>"
        f"<note {at['note']}>n</note></trans-unit></group></body></file></xliff>"
    )


P = {
    "a": "a", "_": " ", "n": "\n", "<": "<b>", "r": "\r", "s": Ex(V("arg"), None, {}, {"source": "%@"}), "x": M("standalone", "x", {"id": "1"}), "g": M("open", "g", {"id": "<&\"\n'"}),
    "G": M("close", "g"), "p": M("open", "ph", {"xml:space": "preserve"}), "P": M("close", "ph"), "f": M("standalone", "x:foo", {"x:a": "b"}),
    "v": Ex(V("arg")), "o": M("open", "g", {"id": V("x")}), "c": M("close", "g", {"a": "b"}), "m": M("standalone", "mrk"), "u": M("standalone", "y:foo"),
}


def nested(w: str) -> bool:
    stack = []
    for k in w:
        if k in "gp":
            stack.append(k)
        elif k in "GP":
            if not stack or stack.pop() != k.lower():
                return False
    return not stack


def canon(p: list) -> list:
    """Joined text, with explicit elements."""
    out: list = []
    for x in p:
        if isinstance(x, Ex):
            x = x.attributes["source"]
        if isinstance(x, str):
            if out and isinstance(out[-1], str):
                out[-1] += x
            elif x:
                out.append(x)
        else:
            name = x.name.replace("{http://x/}", "x:")
            if x.kind in ("open", "standalone"):
                out.append(("open", name, tuple((k.replace("{http://x/}", "x:").replace(f"{{{xlf.XML}}}", "xml:"), v) for k, v in x.options.items())))
            if x.kind in ("close", "standalone"):
                out.append(("close", name))
    return out


def judge_parts(case: list) -> str:
    se, w = case
    pattern = [P[k] for k in w]
    res = Resource(X, [S(("f",), [E(("a",), PM(pattern), meta=[] if se else [Md("source", "s")]), E(("b",), "text", meta=[] if se else [Md("source", "s")])])],
                   meta=[Md("@version", "1.2"), Md("@xmlns", "urn:oasis:names:tc:xliff:document:1.2"), Md("@xmlns:x", "http://x/")])
    before = dump(res)
    try:
        out = ser(res, source_entries=se)
    except ValueError:
        T.trace()
        need(not nested(w) or any(k in "vocu" for k in w), "refused", w)
        return "refused"
    need(nested(w) and not any(k in "vocu" for k in w), "accepted", w, "as", out)
    T.trace(2)
    same("resource after serializing", dump(res), before)
    got = xliff_parse(out, source_entries=se)
    same("pattern", canon(got.sections[0].entries[0].value.pattern), canon(pattern), "from", out)
    same("text", got.sections[0].entries[1].value.pattern, ["text"], "from", out)
    same("serialized again", ser(got, source_entries=se), out)
    return "ok"


SECTIONS = [("f",), ("f", "a"), ("f", "a", "b"), ("f", "c"), ("g",), ("g", "a"), ("f", "")]


def judge_sections(case: list) -> str:
    """Sections, with or without their parents."""
    paths, kind = case
    res = Resource(X, [], meta=[Md("@version", "1.2")], comment="res" if "r" in kind else "")
    for n, p in enumerate(paths):
        i = SECTIONS[p]
        s = S(i, [E((f"e{n}",), PM([f"v{n}"]), meta=[Md("source", f"s{n}")])], meta=[Md("@x-a", str(n))] + ([Md("note", f"n{n}")] if len(i) > 1 else [Md("header/note", "h")]))
        if "c" in kind and len(i) == 1:
            s.comment = f"about {n}\n\nmore"
        if "e" in kind:
            s.entries[0].comment = f"entry {n}\n\nmore"
        if "C" in kind:
            s.entries.insert(0, C(f"standalone {n}\nmore"))
            s.entries.append(C(f"last {n}"))
        if "u" in kind:
            s.entries.append(E(("u",), PM([]), meta=[Md("source", "s"), Md("note", "given")], comment="c"))
        res.sections.append(s)
    ids = [s.id for s in res.sections]
    try:
        out = ser(res)
    except ValueError:
        T.trace()
        # A section whose parent comes only later would have to be inserted in it
        late = any(a == b[: len(a)] for i, b in enumerate(ids) for a in ids[i:])
        need(len(set(ids)) < len(ids) or late, "refused", ids)
        return "refused"
    T.trace(2)
    got = xliff_parse(out)
    same("comment", got.comment, res.comment)
    gs = {s.id: s for s in got.sections}
    need(len(gs) == len(got.sections), "sections", got)
    for s in res.sections:
        g = gs.pop(s.id)
        same("section metadata", dump(g.meta), dump(s.meta), "in", s.id, "from", out)
        same("section comment", g.comment, s.comment, "in", s.id, "from", out)
        same("entries", [(e.comment,) if isinstance(e, Comment) else (e.id, e.value.pattern, e.comment if e.id != ("u",) else "c") for e in g.entries],
             [(e.comment,) if isinstance(e, Comment) else (e.id, e.value.pattern, e.comment) for e in s.entries], "from", out)
        u = [e for e in g.entries if isinstance(e, E) and e.id == ("u",)]
        need(not u or [m.value for m in u[0].meta if m.key == "note"] == ["given"], "note", u)
    for s in gs.values():
        need(not s.meta and not s.entries and not s.comment, "parent section", s, "from", out)
    same("serialized again", ser(got), out)
    trimmed = ser(res, trim_comments=True)
    need(not any(x in trimmed for x in ("<!--", "about", "entry ", "standalone", "given")), "comments not trimmed", trimmed)
    same("values without comments", [e.value.pattern for s in xliff_parse(trimmed).sections for e in s.entries],
         [e.value.pattern for s in got.sections for e in s.entries if isinstance(e, E)])
    return "ok"


def judge_comment(case: list) -> str:
    where, c = case
    res = Resource(X, [S(("f",), [E(("a",), PM(["v"]), meta=[Md("source", "s")])])], meta=[Md("@version", "1.2")])
    if where == "resource":
        res.comment = c
    elif where == "section":
        res.sections[0].comment = c
    elif where == "entry":
        res.sections[0].entries[0].comment = c
    else:
        res.sections[0].entries.append(C(c))
    out = ser(res)
    T.trace(2)
    got = xliff_parse(out)
    want = xlf.lines(c) if where != "entry" else c.strip()
    g = {"resource": lambda: got.comment, "section": lambda: got.sections[0].comment, "entry": lambda: got.sections[0].entries[0].comment,
         "standalone": lambda: got.sections[0].entries[-1].comment}[where]()
    if where != "entry":
        want = want.replace("--", "-\u200b-\u200b")
    same("comment", g, want, "from", out)
    same("serialized again", dump(xliff_parse(ser(got))), dump(got))
    return "ok"


BAD = {
    "anonymous": lambda: Resource(X, [S((), [])]), "id2": lambda: Resource(X, [S(("f",), [E(("a", "b"), PM(["x"]), meta=[Md("source", "s")])])]),
    "no id": lambda: Resource(X, [S(("f",), [E((), PM(["x"]), meta=[Md("source", "s")])])]),
    "declaration": lambda: Resource(X, [S(("f",), [E(("a",), PM(["x"], {"x": Ex(V("x"))}), meta=[Md("source", "s")])])]),
    "select": lambda: Resource(X, [S(("f",), [E(("a",), SM({"x": Ex(V("x"), "number")}, (V("x"),), {(CK(),): ["x"]}), meta=[Md("source", "s")])])]),
    "no source": lambda: Resource(X, [S(("f",), [E(("a",), PM(["x"]))])]),
    "root meta": lambda: Resource(X, [], meta=[Md("version", "1.2")]), "prefix": lambda: Resource(X, [], meta=[Md("@y:a", "1.2")]),
    "name": lambda: Resource(X, [S(("f",), [E(("a",), PM([M("standalone", "a b")]), meta=[Md("source", "s")])])]),
    "control": lambda: Resource(X, [S(("f",), [E(("a",), PM(["\x00"]), meta=[Md("source", "s")])])]),
    "duplicate": lambda: Resource(X, [S(("f",), []), S(("f",), [])]),
}


def judge_bad(kind: str) -> str:
    try:
        out = ser(BAD[kind]())
    except ValueError:
        T.trace()
        return "refused"
    raise Bad(f"{kind} written as {out!r}")


def run(ctx: Ctx) -> None:
    d = ctx.pick(3, 4)
    ctx.space("contents", lambda: ([w, s] for s in texts(CONTENT, d) for w in ("target", "source", "both", "alt", "note") if w in ("target", "both") or len(s) < 40), judge_content,
              note=f"contents of up to {d} of {len(CONTENT)} tokens")
    ctx.space("units", lambda: texts(UNIT, ctx.pick(4, 5)), judge_unit, note=f"contents of up to {ctx.pick(4, 5)} of {len(UNIT)} tokens")
    ctx.space("bin-units", lambda: texts(UNIT, 2), judge_bin)
    ctx.space("bodies", lambda: texts(BODY, ctx.pick(4, 5)), judge_body, note=f"contents of up to {ctx.pick(4, 5)} of {len(BODY)} tokens")
    ctx.space("headers", lambda: texts(HEADER, ctx.pick(4, 6)), judge_header, note=f"contents of up to {ctx.pick(4, 6)} of {len(HEADER)} tokens")
    ctx.space("files", lambda: texts(FILES, ctx.pick(4, 6)), judge_files, note=f"contents of up to {ctx.pick(4, 6)} of {len(FILES)} tokens")
    nss = ["", 'xmlns="urn:oasis:names:tc:xliff:document:1.2"', 'xmlns="urn:oasis:names:tc:xliff:document:1.1" xmlns:y="http://y/"', 'xmlns="urn:oasis:names:tc:xliff:document:2.0"',
           'xmlns="http://other/"']
    ctx.space("roots", lambda: ([c, a, v, n] for c in ("", "<!---->", "<!-- a -->", "<!-- a\n\n   b --><!--c-->", "<!-- a\n   - b\n   - c -->") for n in nss for v in ("1.0", "1.1", "1.2", "2.0", "")
                                for a in ("", 'xml:lang="en"', 'xmlns:x="http://x/" x:a="b"')), judge_root)
    ctx.space("attributes", lambda: ([e, n, v] for e in ("file", "header", "tool", "group", "unit", "source", "target", "note", "x", "g") for n in ("a", "x:a", "xml:space")
                                     for v in texts(["a", " ", "\n", "<", "&", '"', "\t", "'", "\r", "/"], 2)), judge_attr)
    ctx.space("parts", lambda: ([se, "".join(w)] for w in words(P, ctx.pick(4, 5)) for se in (False, True) if len(w) < 4 or not se), judge_parts)
    ctx.space("sections", lambda: ([list(p), k] for p in words(range(len(SECTIONS)), ctx.pick(3, 4)) for k in ("", "r", "c", "e", "C", "u", "rceCu")), judge_sections)
    ctx.space("comments", lambda: ([w, c] for w in ("resource", "section", "entry", "standalone") for c in texts(["a", "\n", " ", "-", "&", "<!", "\u2028", "\x85"], 4, 1) if c.strip()), judge_comment)
    ctx.space("bad", lambda: BAD, judge_bad)
    ctx.assume("Whitespace between elements is not content, other than within source, target and seg-source elements.",
               "Units come before groups in a list, and the order of a unit's elements of different names is not kept.",
               "Text documents in which two files or groups have the same identifiers may be refused.")
