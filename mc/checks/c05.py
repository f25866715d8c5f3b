"""
C05: gettext round trips, against an independent PO reader.

All texts up to the depth in each field, all subsets of metadata and field kinds, all
assignments of plural forms to headers and options, and all line sequences up to the depth.
"""

from __future__ import annotations

import re
from itertools import chain

from core import Bad, Ctx, T, need, same, subsets, texts, words
from util import *

from moz.l10n.formats.gettext import gettext_parse, gettext_serialize

F = Format.gettext

ESC = {"n": "\n", "t": "\t", "r": "\r", "v": "\v", "b": "\b", "f": "\f", "\\": "\\", '"': '"'}


def unq(s: str) -> str:
    m = re.fullmatch(r'"((?:[^"\\]|\\.)*)"', s, re.DOTALL)
    if not m:
        raise ValueError(s)
    return re.sub(r"\\(.)", lambda m: ESC.get(m[1], m[0]), m[1], flags=re.DOTALL)


class Ref:
    """The contents of a PO text; None from read() if it is not well-formed."""

    def __init__(self) -> None:
        self.header: list[str] = []
        self.meta: dict[str, str] = {}
        self.entries: list[dict] = []


def new() -> dict:
    return {"t": [], "c": [], "r": [], "f": [], "ob": False, "ctx": None, "id": None, "pl": None, "s": None, "p": {}}


def read(src: str) -> Ref | None:
    ref = Ref()
    cur = new()
    field: tuple | None = None
    complete = False  # cur has a msgstr
    lead = True  # nothing but # comments so far
    seen: set[str] = set()

    def done() -> None:
        nonlocal cur, complete, field
        if complete:
            ref.entries.append(cur)
            cur = new()
        complete = False
        field = None

    for line in re.split("\r\n|\n|\r", src):
        line = line.strip()
        if not line:
            continue
        ob = False
        if line.startswith("#"):
            if m := re.match(r"#~\s+(?=\S)", line):
                ob = True
                line = line[m.end():]
            elif line.startswith("#~"):
                return None
            else:
                done()
                if cur["ctx"] is not None or cur["id"] is not None:
                    return None
                body = line[2:]
                kind = line[1:2]
                if kind in (".", ":", ",") and body and body[0] != " ":
                    return None
                if kind == "." and body.strip():
                    lead = False
                    cur["c"].append(body[1:])
                elif kind == ":":
                    lead &= not body.strip()
                    cur["r"] += body.split()
                elif kind == ",":
                    lead &= not body.strip()
                    if body.strip():
                        cur["f"] += [x.strip() for x in body.split(",")]
                elif kind == "|":
                    lead = False
                    cur["prev"] = True
                elif kind == " " or line == "#":
                    (ref.header if lead else cur["t"]).append(body)
                elif kind != ".":
                    return None
                continue
        lead = False
        m = re.match(r'(msgctxt|msgid|msgid_plural|msgstr|msgstr\[([0-9])\])\s*(?=")', line)
        try:
            if m:
                text = unq(line[m.end():])
                kw = m[1]
                if kw in ("msgctxt", "msgid") and complete:
                    done()
                if ob != cur["ob"] and (cur["ctx"] is not None or cur["id"] is not None):
                    return None
                cur["ob"] = ob
                if kw == "msgctxt":
                    if cur["ctx"] is not None or cur["id"] is not None:
                        return None
                    field = (cur, "ctx")
                elif kw == "msgid":
                    if cur["id"] is not None:
                        return None
                    field = (cur, "id")
                elif kw == "msgid_plural":
                    if cur["id"] is None or cur["pl"] is not None or complete:
                        return None
                    field = (cur, "pl")
                elif kw == "msgstr":
                    if cur["id"] is None or complete or cur["pl"] is not None:
                        return None
                    field = (cur, "s")
                    complete = True
                else:
                    if cur["pl"] is None or cur["s"] is not None or int(m[2]) in cur["p"]:
                        return None
                    field = (cur["p"], int(m[2]))
                    complete = True
                field[0][field[1]] = text
            elif line.startswith('"'):
                if field is None or ob != cur["ob"]:
                    return None
                field[0][field[1]] += unq(line)
            else:
                return None
        except ValueError:
            return None
    if not complete and (cur["ctx"] is not None or cur["id"] is not None):
        return None
    trailing = cur if not complete else None
    done()
    if trailing and any(trailing.get(k) for k in ("t", "c", "r", "f", "prev")):
        return None  # comments which belong to nothing
    for e in ref.entries:
        if e["id"] == "" and e["ctx"] is None and not e["ob"]:
            if e is not ref.entries[0] or e["c"] or e["t"] or e["r"] or e["f"] or e["s"] is None:
                return None
            for line in e["s"].split("\n"):
                if line:
                    k, sep, v = line.partition(":")
                    if not sep or k in ref.meta:
                        return None
                    ref.meta[k] = v.strip()
            ref.entries.pop(0)
            break
        break
    for e in ref.entries:
        if e["id"] == "":
            return None  # a header lookalike
        if e["ob"]:
            if e["c"] or e["r"]:
                return None  # not kept for obsolete entries
        key = (e["id"], e["ctx"])
        if key in seen:
            return None
        seen.add(key)
    return ref


def refs(xs: list[str]) -> list[str]:
    return [x if re.search(r".:[0-9]*$", x) else x + ":" for x in xs]


def model(ref: Ref) -> tuple:
    """What the reference reader found, in the form of content()."""
    out = []
    for e in ref.entries:
        meta = []
        if tc := "\n".join(e["t"]).strip("\n"):
            meta.append(("translator-comments", tc))
        meta += [("reference", r) for r in refs(e["r"])]
        if e["ob"]:
            meta.append(("obsolete", "true"))
        meta += [("flag", f) for f in e["f"]]
        if e["pl"]:
            meta.append(("plural", e["pl"]))
        if e["p"]:
            n = max(e["p"])
            value = ("plural", tuple((str(i) if i < n else ("*", str(i)), e["p"].get(i, "")) for i in range(n + 1)))
        else:
            value = e["s"]
        id = (e["id"],) if e["ctx"] is None else (e["id"], e["ctx"])
        out.append((id, value, "\n".join(e["c"]), tuple(sorted(meta))))
    return ("\n".join(ref.header).strip("\n").rstrip(), tuple(sorted(ref.meta.items())), tuple(out))


def value(msg) -> object:
    if isinstance(msg, SM):
        same("declarations", dump(msg.declarations), (("n", dump(Ex(V("n"), "number"))),))
        same("selectors", msg.selectors, (V("n"),))
        return ("plural", tuple(((k[0] if isinstance(k[0], str) else ("*", k[0].value)), text_of(PM(p)))
                                for k, p in msg.variants.items()))
    return text_of(msg)


def tmeta(e: E) -> list[tuple[str, str]]:
    m = [(m.key, m.value.strip("\n") if m.key == "translator-comments" else m.value) for m in e.meta]
    return [x for x in m if x != ("translator-comments", "")]


def content(res: Resource) -> tuple:
    """Metadata are compared as multisets with the order within each key."""
    need(len(res.sections) == 1 and not res.sections[0].id, "sections", res)
    need(len({m.key for m in res.meta}) == len(res.meta), "duplicate header fields")
    return (res.comment, tuple(sorted((m.key, m.value) for m in res.meta)),
            tuple((e.id, value(e.value), e.comment,
                   tuple(sorted(tmeta(e)))) for e in res.sections[0].entries))


def order(res: Resource) -> tuple:
    return tuple(tuple((m.key, m.value) for m in e.meta if m.key == k)
                 for e in res.sections[0].entries for k in ("reference", "flag"))


def make(entries: list, comment: str = "", meta: dict | None = None) -> Resource:
    return Resource(F, [S((), entries)], comment=comment, meta=[Md(k, v) for k, v in (meta or {}).items()])


def check(res: Resource, **kw) -> str:
    before = dump(res)
    exp = content(res)
    src = "".join(gettext_serialize(res, **kw))
    same("resource after serializing", dump(res), before)
    if any(c in src for c in "\u2028\u2029\x85\x1c\x1d\x1e"):
        # polib reads these only from files, where the library parses them too (see its tests)
        return via_file(src, exp)
    got = gettext_parse(src)
    T.trace(2)
    same("parsed back", content(got), exp, "from", src)
    same("order within metadata", order(got), order(res))
    ref = read(src)
    need(ref is not None, "not well-formed", src)
    same("read by reference", model(ref), exp, "from", src)
    same("serialized again", "".join(gettext_serialize(got, **kw)), src)
    return "ok"


def via_file(src: str, exp: tuple) -> str:
    import os
    import tempfile

    with tempfile.TemporaryDirectory(dir="/dev/shm") as dir:
        path = os.path.join(dir, "x.po")
        with open(path, "w", newline="") as f:
            f.write(src)
        got = parse_resource(path)
        T.trace()
        same("parsed back from file", content(got), exp, "from", src)
        same("serialized again", ser(got), src)
    return "file"


def sel(*items: tuple[str, str]) -> SM:
    """A plural message, as gettext files are parsed."""
    last = len(items) - 1
    return SM({"n": Ex(V("n"), "number")}, (V("n"),),
              {((CK(k) if i == last else k),): ([v] if v else []) for i, (k, v) in enumerate(items)})


H2 = {"Language": "xx", "Plural-Forms": "nplurals=2; plural=(n != 1);"}


def judge_text(case: list) -> str:
    field, s = case
    id, ctx, pl, v, p0, p1 = "id", "ctx", "ids", "val", "one", "many"
    h = dict(H2)
    if field == "id":
        id = s
    elif field == "ctx":
        ctx = s
    elif field == "plural":
        pl = s
    elif field == "value":
        v = s
    elif field == "p0":
        p0 = s
    elif field == "p1":
        p1 = s
    elif field == "meta":
        h["X-T"] = s
    return check(make([
        E((id,), PM([v])),
        E((id, ctx), sel(("0", p0), ("1", p1)), meta=[Md("plural", pl)]),
        E(("z" + id, ctx), PM(["end"]), meta=[Md("obsolete", "true")]),
    ], meta=h))


def judge_wrap(case: list) -> str:
    field, s, width = case
    meta = []
    e = E(("id",), PM(["v"]))
    if field == "value":
        e.value = PM([s])
    elif field == "plural":
        e = E(("id", "ctx"), sel(("0", "a"), ("1", s)), meta=[Md("plural", s)])
    elif field == "id":
        e.id = (s, s)
    return check(make([e, E(("z",), PM(["end"]))], meta=H2), wrapwidth=width)


def judge_wrap_refs(case: list) -> str:
    words_, width = case
    e = E(("id",), PM(["v"]), meta=[Md("reference", w) for w in words_])
    return check(make([e, E(("z",), PM(["end"]))], meta=H2), wrapwidth=width)


def judge_comment(case: list) -> str:
    where, c = case
    e = E(("id",), PM(["v"]))
    if where == "header":
        return check(make([e], comment=c, meta=H2))
    if where == "extracted":
        e.comment = c
    else:
        e.meta.append(Md("translator-comments", c))
        if where == "obsolete":
            e.meta.append(Md("obsolete", "true"))
    return check(make([E(("a",), PM(["a"])), e, E(("z",), PM(["end"]))], meta=H2))


def entry(kind: str, items, n: int = 0) -> E:
    obsolete = "o" in items
    meta = []
    comment = ""
    for i in items:
        if i == "t":
            meta.append(Md("translator-comments", f"T {n}\n\n  more"))
        elif i == "c":
            comment = f"C {n}\n, x"
        elif i == "r":
            meta += [Md("reference", f"src/a-b.c:{n}"), Md("reference", "http://x:")]
        elif i == "R":
            meta += [Md("reference", "b.c:2"), Md("reference", "a.c:1"), Md("reference", "b.c:2")]
        elif i == "f":
            meta += [Md("flag", "fuzzy"), Md("flag", "c-format")]
        elif i == "F":
            meta += [Md("flag", "range: 0..10"), Md("flag", "a")]
    if obsolete:
        meta = [m for m in meta if m.key != "reference"] + [Md("obsolete", "true")]
        comment = ""
    id = (f"id{n}",)
    value = PM([f"v{n}"])
    if "x" in items:
        id = ("id", f"ctx{n}")
    if kind == "empty":
        value = PM([""])
    elif kind == "multi":
        value = PM([f"l1\nl2 {n}\n"])
    elif kind == "plural":
        value = sel(("0", f"o{n}"), ("1", "m\n"))
    elif kind == "plural-empty":
        value = sel(("0", ""), ("1", ""))
    if kind.startswith("plural") or kind == "simple-plural":
        meta.append(Md("plural", f"ids{n}"))
    return E(id, value, comment=comment, meta=meta)


def judge_entry(case: list) -> str:
    kind, items, h, nx = case
    es = [entry("text", "", 7), entry(kind, items, 1)] + ([entry(*nx, 2)] if nx else [])
    return check(make(es, comment="head\n\n: er" if h else "", meta=H2 if h or "plural" in kind else None))


def judge_structure(case: list) -> str:
    return check(make([entry(k, i, n) for n, (k, i) in enumerate(case)], meta=H2))


CATS = ["one", "few", "other"]
HEADERS = {
    "none": None, "1": "nplurals=1; plural=0;", "2": "nplurals=2; plural=(n != 1);", "3": " nplurals=3; plural=0;",
    "tmpl": "nplurals=INTEGER; plural=EXPRESSION;", "loose": "nplurals = 2; plural=0;", "bare": "nplurals=2",
}


def judge_plurals(case: list) -> str:
    """Every assignment of forms: nothing is lost, whatever the header says."""
    header, forms, opt = case
    h = {} if HEADERS[header] is None else {"Plural-Forms": HEADERS[header]}
    src = 'msgid ""\nmsgstr ""\n' + "".join(f'"{k}: {v}\\n"\n' for k, v in h.items()) + '\nmsgid "a"\nmsgid_plural "as"\n'
    src += "".join(f'msgstr[{i}] "{v}"\n' for i, v in enumerate(forms) if v is not None)
    names = CATS[:opt] if opt else None
    top = max(i for i, v in enumerate(forms) if v is not None)
    if names and top >= opt:
        try:
            res = gettext_parse(src, plurals=names)
        except (ValueError, IndexError):
            return "too few names"
        raise Bad("parsed with too few names", res)
    res = gettext_parse(src, plurals=names)
    head, *lines = re.split(r"(?=msgstr\[)", src)
    same("forms in another order", dump(gettext_parse(head + "".join(reversed(lines)), plurals=names)), dump(res))
    e = res.sections[0].entries[0]
    key = (lambda i: names[i]) if names else str
    same("forms", value(e.value),
         ("plural", tuple((key(i) if i < top else ("*", key(i)), forms[i] or "") for i in range(top + 1))))
    out = "".join(gettext_serialize(res, plurals=names))
    T.trace(2)
    ref = read(out)
    need(ref is not None, "not well-formed", out)
    got = ref.entries[0]["p"]
    for i, v in enumerate(forms):
        same(f"msgstr[{i}]", got.get(i, ""), v or "", "from", out)
    need(not any(got.get(i) for i in got if i >= len(forms)), "more forms", out)
    m = re.match(r"\s*nplurals=([0-9])(;|$)", h.get("Plural-Forms", ""))
    if m and m[2]:
        need(set(range(int(m[1]))) <= set(got), "too few forms", out)
    if not m or int(m[1]) <= top + 1:
        same("parsed back", content(gettext_parse(out, plurals=names)), content(res), "from", out)
    return "kept"


def judge_keys(case: list) -> str:
    """Every set of variant keys: serialized at the index that the key names, or refused."""
    n, keys, opt = case
    names = CATS[:opt] if opt else None
    star = {"*": CK(), "*1": CK("1"), "*other": CK("other"), "*9": CK("9")}
    variants = {((star.get(k) or k),): [f"<{k}>"] for k in keys}
    msg = SM({"n": Ex(V("n"), "number")}, (V("n"),), variants)
    res = make([E(("a",), msg, meta=[Md("plural", "as")])], meta={"Plural-Forms": f"nplurals={n}; plural=0;"})
    where: dict[int, str] = {}
    for k in keys:
        nm = k.lstrip("*") or (names[-1] if names else str(n - 1))
        if names:
            idx = names.index(nm) if nm in names else None
        else:
            idx = int(nm) if re.fullmatch("[0-9]", nm) else None
        if idx is None:
            where = {}
            break
        where.setdefault(idx, f"<{k}>")
    dup = len(where) != len(keys)
    try:
        out = "".join(gettext_serialize(res, plurals=names))
    except ValueError:
        need(dup, "refused", keys)
        return "refused"
    T.trace()
    got = read(out).entries[0]["p"]
    if dup and len(where) == 0:
        raise Bad(f"a variant was dropped: {out}")
    for i in range(max([n, *(i + 1 for i in where)])):
        same(f"msgstr[{i}]", got.get(i), where.get(i, ""), "from", out)
    return "written"


def judge_obsolete(case: list) -> str:
    """Each value of the metadata, for each kind of entry."""
    kind, values, trim = case
    e = entry(kind, "", 1)
    e.meta += [Md("obsolete", v) for v in values]
    out = "".join(gettext_serialize(make([entry("text", "", 7), e], meta=H2), trim_comments=trim))
    T.trace()
    got = [x["id"] for x in read(out).entries if x["ob"]]
    obsolete = bool(values) and values[-1] != "false"
    same("obsolete", got, ["id1"] if obsolete and not trim else [], "in", out)
    same("entries", len(read(out).entries), 1 if obsolete and trim else 2, "in", out)
    return "obsolete" if obsolete else "current"


LINES = {
    "i": 'msgid "{n}"', "s": 'msgstr "v{n}"', "q": '"more\\n"', "p": 'msgid_plural "s{n}"', "0": 'msgstr[0] "x"', "1": 'msgstr[1] "y{n}"',
    "c": 'msgctxt "c"', "#": "# T{n}", ".": "#. C{n}", ":": "#: a.c:{n} b", ",": "#, f{n}, g", "b": "", "h": "#",
    "I": '#~ msgid "{n}"', "S": '#~ msgstr "v"', "Q": '#~ "more"', "e": 'msgid ""', "|": '#| msgid "old"', "w": '  msgstr   "w"  ',
    "A": 'msgid "{n}"\nmsgstr "v"', "B": 'msgctxt "{n}"\nmsgid "a"\nmsgstr ""', "P": 'msgid "{n}"\nmsgid_plural "{n}s"\nmsgstr[0] "x"',
    "O": '#~ msgid "{n}"\n#~ msgstr "v"', "D": '#~ msgid "{n}"\n#~ msgid_plural "{n}s"\n#~ msgstr[0] "x"',
    "Z": '#, fuzzy\n#~ msgid "{n}"\n#~ msgstr "z"', "N": 'msgid "{n}"\nmsgid_plural "s"\nmsgstr[1] "y"\nmsgstr[0] "x"',
    "E": 'msgstr ""', "H": '"A: b\\n"', "x": "junk", "y": 'msgstr "a"b"', "C": 'msgctxt ""',
}


def judge_source(case: list) -> str:
    head, w = case
    src = ('# top\nmsgid ""\nmsgstr "K: v\\n"\n\n' if head else "")
    src += "".join(LINES[k].replace("{n}", str(n)) + "\n" for n, k in enumerate(w))
    ref = read(src)
    try:
        got = gettext_parse(src)
    except Exception:
        need(ref is None, "rejected", src)
        return "rejected"
    T.trace()
    same("bytes", dump(gettext_parse(src.encode())), dump(got))
    if ref is None:
        return "unspecified"
    exp = model(ref)
    same("parsed", content(got), exp, "from", src)
    skipped = gettext_parse(src, skip_obsolete=True)
    same("skip_obsolete", content(skipped), (*exp[:2], tuple(e for e in exp[2] if ("obsolete", "true") not in e[3])))
    if any(e["pl"] is not None and not e["p"] for e in ref.entries):
        return "no plural forms"
    out = "".join(gettext_serialize(got))
    again = gettext_parse(out)
    T.trace()
    same("content after serializing", content(again), exp, "from", out)
    same("serialized again", "".join(gettext_serialize(again)), out)
    return f"{len(ref.entries)} entries"


TEXT = ["a", '"', "\\", "\n", "n", " ", "\t", "#", "\r", "\v", "\b", "\f", "é", "\x1c", "\u2028", "\x85", "%s", "😀", "\u00a0", ":", "msgid", "~"]
WRAP = ["aaaa", " ", "-", "\\", "\n", '"', "bb", "\t"]
COMMENT = ["a", " ", "\n", "#", ",", ":", ".", "~", "|", '"', "\\", "msgid", "é", "-", "!"]


def texts_for(field: str, d: int):
    for s in texts(TEXT, d, 0):
        if field in ("id", "plural") and not s:
            continue  # the header; no plural
        if field == "meta" and ("\n" in s or "\r" in s or s != s.strip() or len(s.splitlines()) > 1):
            continue
        yield [field, s]


def comments(where: str, d: int):
    seen = set()
    for s in chain(texts(COMMENT, d, 1), texts(COMMENT[:8], d + 1, d + 1)):
        if s in seen:
            continue
        seen.add(s)
        if where == "header":
            ok = s == "\n".join(x.rstrip() for x in s.split("\n")).strip("\n") and not s.startswith("#")
        else:
            # Each line holds something, and ends with it
            ok = all(x and x == x.rstrip() for x in s.split("\n"))
            if where == "translator" or where == "obsolete":
                ok = s == "\n".join(x.rstrip() for x in s.split("\n")).strip("\n")
        if ok:
            yield [where, s]


KINDS = ["text", "empty", "multi", "plural", "plural-empty"]
ITEMS = "tcrRfFox"


def run(ctx: Ctx) -> None:
    d = ctx.pick(3, 4)
    fields = ["id", "ctx", "plural", "value", "p0", "p1", "meta"]
    ctx.space("texts", lambda: (c for f in fields for c in texts_for(f, d)), judge_text,
              note=f"texts of up to {d} of {len(TEXT)} tokens in each of {len(fields)} fields")
    ctx.space("wrapping", lambda: ([f, s, w] for f in ("value", "plural", "id") for w in (0, 12, 20)
                                   for s in texts(WRAP, ctx.pick(4, 6), 1)), judge_wrap)
    paths = ["a.c:1", "dir/b-c.c:22", "x-y:", "http://h:", "é.py:3"]
    ctx.space("references", lambda: ([w, n] for w in words(paths, ctx.pick(4, 6)) for n in (0, 16, 200)), judge_wrap_refs)
    ctx.space("comments", lambda: (c for w in ("header", "extracted", "translator", "obsolete")
                                   for c in comments(w, ctx.pick(3, 4))), judge_comment)
    ctx.space("entries", lambda: ([k, i, h, nx] for k in KINDS for i in subsets(ITEMS) for h in (0, 1)
                                  for nx in (None, ("text", "t"), ("plural", "o"), ("text", "r"))), judge_entry)
    small = [(k, i) for k in ("text", "plural") for i in ("", "t", "c", "o", "to", "x", "f")]
    ctx.space("structures", lambda: words(small, ctx.pick(4, 5)), judge_structure)
    form = [None, "", "x", "y"]
    ctx.space("plurals", lambda: ([h, f, o] for h in HEADERS for n in (1, 2, 3, 4) for f in words(form, n, n)
                                  for o in (0, 1, 2, 3) if any(v is not None for v in f)), judge_plurals)
    keys = ["0", "1", "2", "5", "one", "few", "other", "*", "*1", "*other", "*9", "x", "01", "-1", "²"]
    ctx.space("plural-keys", lambda: ([n, k, o] for n in (1, 2, 3) for o in (0, 2, 3) for k in words(keys, 3, 1)
                                      if len(set(k)) == len(k) and sum(x[0] == "*" for x in k) <= 1), judge_keys)
    ctx.space("obsolete", lambda: ([k, v, t] for k in KINDS for v in ([], [""], ["true"], ["false"]) for t in (False, True)), judge_obsolete)
    ctx.space("sources", lambda: ([h, w] for h in (0, 1) for w in words(LINES, ctx.pick(3, 4))), judge_source,
              note=f"{len(LINES)} kinds of lines")
    ctx.space("sources-deep", lambda: ([h, w] for h in (0, 1) for w in words("ABPOD1q#.:,|b", ctx.pick(4, 5))), judge_source)
    ctx.assume(
        "polib fixes the order of header fields, strips trailing whitespace from comments, and does not keep "
        "previous msgids, header flags, comments that no entry follows, or the extracted comments and references of obsolete entries.",
        "Line separators other than CR and LF are read as the library's own tests require: only from files.",
        "References hold no whitespace; header fields are `Name: value` lines.")
