"""C02: DTD round trips, against an independent reader and the expat XML parser.

All values, names and comments of tokens up to the depth, all structures of entities, comments and references to other files, and all source texts of tokens up to the depth; expat tells the values of
entities in what is written, an own reader those of what is read.
"""

from __future__ import annotations

import re
from xml.parsers import expat

from core import Bad, Ctx, T, need, same, texts, words
from util import *

F = Format.dtd

NAME = r"[A-Za-z_:\u00c0-\u00d6\u00d8-\u00f6][A-Za-z0-9_:.\-\u00b7\u00c0-\u00d6\u00d8-\u00f6]*"
TOKEN = re.compile(
    r"(?P<ws>\s+)"
    r"|<!\s*--(?P<comment>.*?)--\s*>"
    rf"|<!ENTITY\s+%\s+(?P<pe>{NAME})\s+SYSTEM\s+(?P<uri>\"[^\"]*\"|'[^']*')\s*>\s*%(?P=pe);"
    rf"|<!ENTITY\s+(?P<name>{NAME})\s+(?P<value>\"[^\"]*\"|'[^']*')\s*>",
    re.DOTALL,
)


def dtd_comment(c: str) -> str:
    """Comments: indentation is not kept, and double dashes are broken up."""
    c = c.replace("\r\n", "\n").replace("--", "-\u200b-\u200b")
    return "\n".join(line.strip() for line in c.split("\n")).strip("\n")


def dflow(res: Resource) -> list:
    out = [("include", m.key, m.value) for m in res.meta]
    res = Resource(res.format, res.sections, comment=res.comment)
    for item in flow(res, text_of):
        if item[0] == "comment":
            item = ("comment", dtd_comment(item[1]))
        elif item[0] == "entry":
            v = item[2]
            if '"' in v and "'" in v:
                v = v.replace('"', "&quot;")
            item = ("entry", item[1], v, item[3], dtd_comment(item[4]), item[5])
        if item != ("comment", ""):
            out.append(item)
    return out


def reference(src: str) -> list | None:
    """Reads DTD source; None if it is not valid."""
    includes = []
    out: list = []
    pending: list[str] = []
    pos = 0
    trailing = None  # index of an entry on the same line, before which there was no other comment
    gap = 0

    def flush() -> None:
        c = dtd_comment("\n".join(pending))
        if c:
            out.append(("comment", c))
        pending.clear()

    while pos < len(src):
        m = TOKEN.match(src, pos)
        if not m:
            return None
        pos = m.end()
        kind = m.lastgroup
        if kind in ("ws", "uri"):
            # Comments are set apart from what follows them by an empty line,
            # or by an include that takes as many lines.
            if kind == "uri":
                includes.append(("include", m["pe"], m["uri"][1:-1]))
            gap += m[0].count("\n")
            if gap:
                trailing = None
            if pos < len(src):
                nxt = TOKEN.match(src, pos)
                if nxt and nxt.lastgroup in ("ws", "uri"):
                    continue
            if gap > 1:
                flush()
            gap = 0
        elif kind == "comment":
            c = m["comment"].strip()
            if not c and pending:
                pending.append("")
            if c:
                if re.search(rf"<!ENTITY\s+{NAME}\s+[\"']", c):
                    pending.append(c)
                    flush()
                elif trailing is not None:
                    e = out[trailing]
                    out[trailing] = (*e[:4], dtd_comment(f"{e[4]}\n{c}" if e[4] else c), e[5])
                else:
                    pending.append(c)
            trailing = None
        else:
            v = m["value"][1:-1]
            if '"' in v and "'" in v:
                v = v.replace('"', "&quot;")
            out.append(("entry", (m["name"],), v, (), dtd_comment("\n".join(pending)), ()))
            pending.clear()
            trailing = len(out) - 1
    flush()
    return includes + out


def xml_entities(dtd: str) -> dict[str, str]:
    found: dict[str, str] = {}

    def decl(name, is_param, value, *rest):
        if not is_param and name not in found:
            found[name] = value

    p = expat.ParserCreate()
    p.EntityDeclHandler = decl
    p.Parse(f"<!DOCTYPE x [\n{dtd}\n]><x/>", True)
    return found


def well_formed(v: str) -> str | None:
    """The value of an entity with this literal value, if it may have one."""
    q = '"' if '"' not in v else "'" if "'" not in v else None
    if q is None:
        v, q = v.replace('"', "&quot;"), '"'
    try:
        return xml_entities(f"<!ENTITY k {q}{v}{q}>")["k"]
    except expat.ExpatError:
        return None


def resource(items: list, comment: str = "", meta=()) -> Resource:
    return Resource(F, [S((), items)], comment=comment, meta=list(meta))


def check(res: Resource, xml: bool = True) -> str:
    before = dump(res)
    exp = dflow(res)
    src = ser(res)
    same("resource after serializing", dump(res), before)
    got = parse(F, src)
    T.trace(2)
    same("parsed back", dflow(got), exp, "from", src)
    same("read by reference", reference(src), exp, "from", src)
    same("serialized again", ser(got), src)
    if xml:
        ents = {e.id[0]: well_formed(text_of(e.value)) for e in res.all_entries()}
        if None not in ents.values():
            try:
                same("entities as XML", xml_entities(src), ents, "from", src)
            except expat.ExpatError as e:
                raise Bad(f"not well-formed: {e} {src!r}")
            return "xml"
    return "raw"


def judge_value(v: str) -> str:
    return check(resource([E(("k",), PM([v])), E(("z",), PM(["end"]))]))


def judge_name(name: str) -> str:
    res = resource([E(("a",), PM(["x"])), E((name,), PM(["v"])), E(("z",), PM(["end"]))])
    if re.fullmatch(NAME, name):
        return check(res)
    try:
        src = ser(res)
    except ValueError:
        return "rejected"
    raise Bad(f"invalid name {name!r} serialized as {src!r}")


def judge_comment(case: list) -> str:
    where, c = case
    if where == "entry":
        res = resource([E(("a",), PM(["x"])), E(("k",), PM(["v"]), comment=c)])
    elif where == "first":
        res = resource([E(("k",), PM(["v"]), comment=c)])
    elif where == "res":
        res = resource([E(("k",), PM(["v"]), comment="")], c)
    elif where == "last":
        res = resource([E(("k",), PM(["v"])), C(c)])
    else:
        res = resource([E(("a",), PM(["x"])), C(c), E(("k",), PM(["v"]))], "top")
    exp = dflow(res)
    src = ser(res)
    got = parse(F, src)
    T.trace(2)
    same("parsed back", dflow(got), exp, "from", src)
    same("read by reference", reference(src), exp, "from", src)
    two = ser(got)
    got2 = parse(F, two)
    same("parsed again", dflow(got2), exp, "from", two)
    same("serialized third time", ser(got2), two)
    need(not re.search(r"--[^>]", re.sub(r"<!--", "", two)), "double dash in comment", two)
    return where


def squash(items: list) -> list:
    """Without empty lines inside comments."""
    sq = lambda c: "\n".join(line for line in c.split("\n") if line)
    return [("comment", sq(i[1])) if i[0] == "comment" else (*i[:4], sq(i[4]), i[5]) if i[0] == "entry" else i
            for i in items]


def judge_source(src: str) -> str:
    ref = reference(src)
    try:
        got = parse(F, src)
    except ValueError:
        need(ref is None, "valid source is rejected:", src)
        return "rejected"
    T.trace()
    need(ref is not None, "invalid source is accepted:", src, "as", dump(got))
    sq = squash if "<!---->" in src else list
    same("parsed", sq(dflow(got)), sq(ref), "from", src)
    need(not got.comment or src.lstrip().startswith("<!--"), "comment moved to the start:", src)
    out = ser(got)
    again = parse(F, out)
    T.trace()
    same("content after serializing", dflow(again), dflow(got), "from", out)
    out2 = ser(again)
    same("serialized again", ser(parse(F, out2)), out2)
    same("bytes", dump(parse(F, src.encode())), dump(got))
    return f"{len(ref)} items"


ITEMS = {
    "e": lambda n: E((f"k{n}",), PM([f"v{n}"])),
    "c": lambda n: E((f"k{n}",), PM([f"v{n}"]), comment=f"about {n}"),
    "m": lambda n: E((f"k{n}",), PM([]), comment=f"two\n\nlines {n}"),
    "s": lambda n: C(f"standalone {n}"),
    "d": lambda n: E(("a", f"b{n}"), PM([f" v{n} "])),
    "o": lambda n: C(f'<!ENTITY old{n} "gone">'),
}


def judge_structure(case: list) -> str:
    comment, nmeta, word = case
    items = [ITEMS[w](n) for n, w in enumerate(word)]
    res = resource(items, comment, [Md(f"inc{i}", f"chrome://x/{i}.dtd") for i in range(nmeta)])
    src = ser(res)
    got = parse(F, src)
    T.trace()
    for e in res.all_entries():
        e.id = (".".join(e.id),)
    exp = dflow(res)
    same("parsed back", dflow(got), exp, "from", src)
    same("reference", reference(src), exp, "from", src)
    out = ser(got)
    same("parsed again", dflow(parse(F, out)), exp, "from", out)
    same("serialized again", ser(parse(F, out)), out)
    return "ok"


VALUE = ["a", '"', "'", " ", "<", ">", "&amp;", "&#38;", "\n", "&quot;", "é", "-->", "%", "]", "--", "!", "&b;", "\t", "😀", "\\"]
NAMES = ["a", "-", ".", "0", ":", "_", "é", " ", "\u00b7", '"', "&", "\n", "<!--", ">"]
COMMENT = ["a", "-", " ", "\n", "--", ">", "<!--", '"', "é", "%x;"]
SOURCE = ['<!ENTITY a "v">', "\n", "<!-- c -->", " ", "<!ENTITY b.c 'w'>", '<!ENTITY % x SYSTEM "u">\n%x;', "<!--d\ne-->",
          '<!-- <!ENTITY z "q"> -->', "junk", "<!-- f\r\ng -->", "<!ENTITY % y SYSTEM '\"u\"'>%y;", "<!---->", "\r\n", '<!ENTITY\n\td\n\t "">', '<!ENTITY e "']


def run(ctx: Ctx) -> None:
    d = ctx.pick(3, 4)
    ok = lambda v: "<!--" not in v and "<!\n--" not in v and "<! --" not in v and "<!\t--" not in v
    ctx.space("values", lambda: filter(ok, texts(VALUE, d)), judge_value, note=f"values of up to {d} of {len(VALUE)} tokens")
    ctx.space("values-deep", lambda: filter(ok, texts(VALUE[:8], ctx.pick(5, 6), d + 1)), judge_value)
    ctx.space("names", lambda: (n for n in texts(NAMES, ctx.pick(4, 5), 1) if n != "a"), judge_name)
    ctx.space("comments", lambda: ((w, c) for c in texts(COMMENT, ctx.pick(4, 5)) if c.strip()
                                   for w in ("entry", "first", "res", "last", "alone")), judge_comment)
    ds = ctx.pick(5, 6)
    ctx.space("sources", lambda: texts(SOURCE, ds), judge_source, note=f"texts of up to {ds} of {len(SOURCE)} tokens")
    ctx.space("sources-deep", lambda: texts(SOURCE[:7], ctx.pick(6, 7), ds + 1), judge_source)
    ctx.space("structures", lambda: ((c, n, w) for w in words(ITEMS, ctx.pick(4, 5)) for n in (0, 1, 2, 3)
                                     for c in ("", "top", "two\n\nparts")), judge_structure)
    ctx.assume("Entity values that contain the start of an XML comment are not representable in this format, and are left out.",
               "Indentation of comment lines and double dashes in comments are not kept by design.")
