"""
C11: plurals and other variance of Xcode files in XLIFF, against a reading of the units' XML.

All sequences of units up to the depth which may define a message, in string catalogs and stringsdict files, all
texts up to the depth of printf placeholders in each of the units, and all select messages built of up to the depth
of variants; both with targets and sources as messages.
"""

from __future__ import annotations

import re
from itertools import product

from lxml import etree

import xlf
from checks.c37 import meta_ok
from core import Bad, Ctx, T, need, same, texts, words
from util import *

from moz.l10n.formats.xliff import xliff_is_xcode, xliff_parse, xliff_parse_message, xliff_serialize, xliff_serialize_message

X = Format.xliff
CATS = ("zero", "one", "two", "few", "many", "other")
TOOL = '<header><tool tool-id="com.apple.dt.xcode"/></header>'


def ser(res: Resource, **kw) -> str:
    return "".join(xliff_serialize(res, **kw))


def esc(s: str) -> str:
    return s.replace("&", "&amp;").replace("<", "&lt;")


def doc(units: list, name: str) -> str:
    """Each unit is [id, source, target, *other], with None as a missing target."""
    body = ""
    for id, source, target, *rest in units:
        t = "" if target is None else f"<target>{esc(target)}</target>"
        body += f'<trans-unit id="{id}"><source>{esc(source)}</source>{t}{"".join(rest)}</trans-unit>'
    return f'<xliff version="1.2"><file original="{name}" source-language="en">{TOOL}<body>{body}</body></file></xliff>'


PH = re.compile(r"%(?:([1-9])\$)?(?:#@([A-Za-z_]\w*)@|[-#+ 0,]?[0-9.]*(?:((?:hh|h|ll|l|q|z|t|j)?[dDiuUoxX])|(L?[aAeEfFgG])|([cCsS])|([pO])|(@)|(%)))")


def args(text: str) -> list:
    """The names of placeholders, and the functions of their values."""
    out = []
    for m in PH.finditer(text):
        n, sub, i, f, s, p, o, pct = m.groups()
        if sub:
            out.append((sub, "substitution", m[0]))
        elif not pct:
            k = ("int", "integer") if i or p else ("num", "number") if f else ("str", "string") if s else ("arg", None)
            out.append((k[0] + (n or ""), k[1], m[0]))
    return out


def fill(text: str, name: str, value: str) -> str:
    """Put the value of a substitution in its places."""
    return PH.sub(lambda m: value if m[2] == name else m[0], text)


def flat(p: list) -> str:
    return "".join(x if isinstance(x, str) else x.attributes["source"] for x in p)


def messages(units: list, se: bool):
    """
    What the units of a string catalog say: None, if they are not supported.

    The values of a message are keyed by (), ("plural", category), ("device", name), or names and categories of substitutions.
    """
    out: dict = {}
    for id, source, target, *_ in units:
        mid, *dim = id.split("|==|")
        if len(dim) > 1:
            return None
        key = tuple(dim[0].split(".")) if dim else ()
        d = out.setdefault(mid, {})
        ok = key == () or (key[0] == "plural" and len(key) == 2) or (key[0] == "device" and len(key) == 2) or (key[0] == "substitutions" and len(key) == 4 and key[2] == "plural")
        if key in d or not ok or (key and key[0] != "device" and key[-1] not in CATS):
            return None
        d[key] = source if se else target
    for mid, d in out.items():
        kinds = {k[0] if k else "" for k in d}
        if kinds not in ({""}, {"plural"}, {"device"}, {"", "substitutions"}):
            return None
        subs = {k[1] for k in d if k and k[0] == "substitutions"}
        if "" not in kinds and (*next(iter(d))[:-1], "other") not in d:
            return None
        if subs:
            base = d[()]
            if base:
                in_base = {a[0] for a in args(base) if a[1] == "substitution"}
                if not subs <= in_base:
                    return None
            elif len(subs) > 1 and any(d.values()):
                return None  # The order of selectors is not known
            if (base or len(subs) == 1) and any(("substitutions", s, "plural", "other") not in d for s in subs):
                return None
        if "plural" in kinds:
            # All values need to have the same first argument, if they have it
            first = {next((a for a in args(v or "") if not re.match("%[2-9]\\$", a[2])), None) for v in d.values()} - {None}
            if len(first) > 1:
                return None
    return out


def judge_catalog(units: list, name: str = "a.xcstrings") -> str:
    src = doc(units, name)
    res = []
    for se in (False, True):
        want = messages(units, se)
        try:
            got = xliff_parse(src, source_entries=se)
        except ValueError as e:
            T.trace()
            need(want is None, "rejected", e, "for", src)
            res.append("rejected")
            continue
        need(want is not None, "accepted", src, "as", got)
        T.trace()
        entries = got.sections[0].entries
        same("ids", [e.id for e in entries], [(k,) for k in want])
        for e in entries:
            message(e, want[e.id[0]])
        try:
            out = ser(got, source_entries=se)
        except ValueError as e:
            ok = any(isinstance(x.value, SM) and (len(x.value.selectors) != 1 or list(x.value.declarations.values())[0].function in (None, "string", "substitution")) for x in entries)
            need(ok, "not serialized", e, "for", src)
            res.append("refused")
            continue
        T.trace()
        units2 = [[u.get("id"), xlf.text(u.find("source")), xlf.text(u.find("target")) if u.find("target") is not None else None,
                   *(etree.tostring(n, with_tail=False).decode() for n in u.iter("note"))] for u in etree.fromstring(out.encode()).iter("trans-unit")]
        same("units", norm(units2, se), norm(units, se), "from", src, "as", out)
        again = xliff_parse(out, source_entries=se)
        same("serialized again", ser(again, source_entries=se), out)
        res.append("ok")
    return "+".join(res)


def norm(units: list, se: bool) -> list:
    """Units grouped by message, with the text around substitutions in them if they have their own."""
    by_msg: dict = {}
    for u in units:
        mid, *dim = u[0].split("|==|")
        by_msg.setdefault(mid, []).append(list(u))
    out = []
    for us in by_msg.values():
        if any("|==|substitutions" in u[0] for u in us):
            us.sort(key=lambda u: "|==|" in u[0])
            base = us[0]
            n = 1 if se else 2
            vals = [u[n] for u in us[1:]]
            if base[n] and any(vals):
                ph = [a for a in args(base[n]) if a[1] == "substitution" and a[0] == us[1][0].split(".")[1]]
                for u in us[1:]:
                    if u[n]:
                        u[n] = fill(base[n], ph[0][0], u[n])
                    elif not se:
                        u[n] = None
                base[n] = ph[-1][2]
        out += us
    return out


def message(e: Entry, d: dict) -> None:
    v = e.value
    kind = next(iter(k for k in d if k), ("",))[0]
    if kind == "":
        need(isinstance(v, PM) and not v.declarations, "value", v)
        same("text", flat(v.pattern), d[()] or "")
        same("placeholders", [(x.arg.name, x.function) for x in v.pattern if isinstance(x, Ex) and isinstance(x.arg, V)], [a[:2] for a in args(d[()] or "")])
        return
    need(isinstance(v, SM), "value", v)
    if kind in ("plural", "device"):
        same("variants", [("*" if isinstance(k[0], CK) else k[0], flat(p)) for k, p in v.variants.items()], [("*" if k[1] == "other" else k[1], x or "") for k, x in d.items()])
        (sel,) = v.selector_expressions()
        if kind == "device":
            same("selector", sel.function, "device")
            return
        first = {next((a[:2] for a in args(x or "") if not re.match("%[2-9]\\$", a[2])), None) for x in d.values()} - {None}
        if first:
            same("selector", [(sel.arg.name, sel.function)], list(first))
            same("declared", list(v.declarations), [sel.arg.name])
        else:
            same("selector", sel.function, "number")
        return
    base = d[()]
    names = list(dict.fromkeys(a[0] for a in args(base or "") if a[1] == "substitution" and ("substitutions", a[0], "plural", "other") in d))
    if not base:
        names = list(dict.fromkeys(k[1] for k in d if k))
        if len(names) > 1:
            return
    same("selectors", [s.name for s in v.selectors], names)
    cats = [[k[3] for k in d if k and k[1] == n] for n in names]
    same("variants", [tuple("other" if isinstance(x, CK) else x for x in k) for k in v.variants], list(product(*cats)))
    for keys, p in v.variants.items():
        text = base or ""
        for n, k in zip(names, keys):
            val = d[("substitutions", n, "plural", "other" if isinstance(k, CK) else k)]
            if val:
                text = fill(text, n, val) if base else val
        same("text of variant", flat(p), text, "for", keys)


# [id, source, target]
UNITS = [["m", "a", None], ["m", "%#@s@ in %2$#@t@", "%#@s@"], ["m", "%1$@ %2$#@s@", "x %#@s@ y %#@s@"], ["m|==|plural.one", "%d a", "%d b"], ["m|==|plural.other", "%d as", None],
         ["m|==|plural.few", "c %2$@", "%1$@"], ["m|==|plural.other", "%d %@", "%ld"], ["m|==|plural.most", "a", "b"], ["m|==|device.ipad", "a", "%d"],
         ["m|==|device.other", "b", ""], ["m|==|substitutions.s.plural.one", "%2$ld a", "%d b"], ["m|==|substitutions.s.plural.other", "%2$ld as", "%d bs"],
         ["m|==|substitutions.t.plural.other", "%d as", "%arg bs"], ["m|==|substitutions.t.plural.many", "%d as", None], ["m|==|substitutions.s.plural.other", "u", None],
         ["m|==|substitutions.s.device.other", "a", "b"], ["m|==|plural.other.x", "a", "b"], ["m|==|plural.one|==|x", "a", "b"], ["n|==|plural.other", "a", ""], ["n", "", None]]


def judge_text(case: list) -> str:
    kind, w = case
    if w != w.strip() and not w.strip():
        return "blank"
    if kind == "sub" and "#@s@" in w:
        return "recursive"
    return {
        "plain": lambda: judge_catalog([["m", w, w], ["n", "a", None]]),
        "strings": lambda: judge_catalog([["m", w, w], ["n", "a", None]], "a.strings"),
        "one": lambda: judge_catalog([["m|==|plural.one", w, w], ["m|==|plural.other", "x %d y", "x %d y"]]),
        "other": lambda: judge_catalog([["m|==|plural.one", "x", "x"], ["m|==|plural.other", w, w]]),
        "device": lambda: judge_catalog([["m|==|device.other", w, w], ["m|==|device.mac", "%", "%%"]]),
        "base": lambda: judge_catalog([["m", w, w], ["m|==|substitutions.s.plural.one", "x", "%d x"], ["m|==|substitutions.s.plural.other", "%@ x", "%d y"]]),
        "sub": lambda: judge_catalog([["m", "a %#@s@ b", "%1$#@s@"], ["m|==|substitutions.s.plural.one", "x", "%d x"], ["m|==|substitutions.s.plural.other", w, w]]),
        "dict": lambda: judge_dict([["", "%#@v@", "%#@v@"], ["v/one", w, "%d"], ["v/other", w, w]]),
        "format": lambda: judge_dict([["", w, w], ["v/one", "x", "%d"], ["v/other", "x", "x"]]),
    }[kind]()


TOKENS = ["%", "d", "@", "%d", "%@", "%1$@", "%2$d", "%ld", "%lld", "%#@s@", "%2$#@s@", "a", " ", "%%", "%zd", "%qu", "%5.2f", "%-5s", "$", "#", "1", "&", "\n", "%#@v@", "%hhx", "%Lg", "%c", "\u2028", "%+", "l"]


def judge_dict(units: list) -> str:
    """Units of one message in a stringsdict file: its format key is "", and the others are name/category."""
    def full(u):
        k, *rest = u
        return ["/m:dict/NSStringLocalizedFormatKey:dict/:string" if k == "" else "/m:dict/" + k.replace("/", ":dict/") + ":dict/:string", *rest]

    src = doc([full(u) for u in units], "a.stringsdict")
    fmt = [u for u in units if u[0] == ""]
    var = [u for u in units if u[0]]
    names = {u[0].split("/")[0] for u in var}
    fv = re.search("%#@([a-zA-Z_]\\w*)@", fmt[0][1]) if fmt else None
    cats = [u[0].split("/")[1] for u in var if "/" in u[0]]
    ok = (len(fmt) < 2 and (not fmt or fv) and len(names) == 1 and len(cats) == len(var) and (not fmt or fv[1] in names) and set(cats) <= set(CATS) and len(set(cats)) == len(cats)
          and "other" in cats and all(u[0].count("/") == 1 for u in var))
    res = []
    for se in (False, True):
        try:
            got = xliff_parse(src, source_entries=se)
        except ValueError as e:
            T.trace()
            need(not ok, "rejected", e, "for", src)
            res.append("rejected")
            continue
        T.trace(2)
        need(ok or not units, "accepted", src, "as", got)
        if not units:
            return "empty"
        (e,) = got.sections[0].entries
        same("id", e.id, ("m",))
        same("variants", [("other" if isinstance(k[0], CK) else k[0], flat(p)) for k, p in e.value.variants.items()],
             [(u[0].split("/")[1], (u[1] if se else u[2]) or "") for u in var])
        for u, p in zip(var, e.value.variants.values()):
            same("placeholders", [(x.arg.name, x.function) for x in p if isinstance(x, Ex) and isinstance(x.arg, V)], [a[:2] for a in args((u[1] if se else u[2]) or "")])
        (sel,) = e.value.selector_expressions()
        same("selector", [sel.arg.name, sel.function], [*names, "number"])
        out = ser(got, source_entries=se)
        units2 = [[u.get("id"), xlf.text(u.find("source")), xlf.text(u.find("target")) if u.find("target") is not None else None,
                   *(etree.tostring(n, with_tail=False).decode() for n in u.iter("note"))] for u in etree.fromstring(out.encode()).iter("trans-unit")]
        # The format key has its source as its default target
        exp = [full([*u[:2], u[2] or u[1], *u[3:]] if u[0] == "" else u) for u in fmt + var]
        same("units", units2, exp, "from", src)
        again = xliff_parse(out, source_entries=se)
        same("resource", dump(again), dump(got), "from", out)
        res.append("ok")
    return "+".join(res)


DICT = [["", "%#@v@", "%#@v@"], ["", "a %#@v@ b", "c %#@v@"], ["", "%#@w@", None], ["", "a", "a"], ["v/one", "%d a", "%d b"], ["v/other", "%d as", None], ["v/other", "%d as", "c"], ["v/few", "", ""],
        ["w/other", "a", "b"], ["v/most", "a", "b"], ["v", "a", "b"], ["v/zero", "%1$@", "x", "<note>n</note>", "<note>o</note>"], ["v/two/x", "a", "b"]]

DETAIL = ["<note>n</note>", "<note> p\n</note>", '<note from="f">n</note>', "<note>m</note>", '<note priority="1"/>', '<target state="x">b</target>', '<target state="x"/>', "<target/>", "<target>b</target>", "<target> </target>"]
KINDS = {
    "plain": ("m", [], "a.xcstrings"),
    "plural": ("m|==|plural.one", [["m|==|plural.other", "a", "b", "<note>n</note>"]], "a.xcstrings"),
    "device": ("m|==|device.mac", [["m|==|device.other", "a", "b"]], "a.xcstrings"),
    "base": ("m", [["m|==|substitutions.s.plural.other", "a", "b", "<note>n</note>"]], "a.xcstrings"),
    "sub": ("m|==|substitutions.s.plural.one", [["m|==|substitutions.s.plural.other", "a", "b"], ["m", "%#@s@", "%#@s@", "<note>x</note>"]], "a.xcstrings"),
    "dict": ("/m:dict/v:dict/one:dict/:string", [["/m:dict/v:dict/other:dict/:string", "a", "b", "<note>n</note>"]], "a.stringsdict"),
    "format": ("/m:dict/NSStringLocalizedFormatKey:dict/:string", [["/m:dict/v:dict/other:dict/:string", "a", "b"]], "a.stringsdict"),
}


def units(d: str) -> dict:
    """The units of a document as XML, without empty notes, and with a target for format keys"""
    r = {}
    for u in etree.fromstring(d.encode()).iter("trans-unit"):
        for n in u.findall("note"):
            if not n.text and not n.attrib:
                u.remove(n)
        t = u.find("target")
        if "FormatKey" in u.get("id") and (t is None or not t.text):
            if t is None:
                t = etree.SubElement(u, "target")
            t.text = u.find("source").text
        r[u.get("id")] = xlf.tree(u)
    return r


ODD = ["<target>b</target>", '<target xml:space="preserve">b</target>', "<note>n</note>", "<note>n<b/></note>", "<target>b<g/></target>", "<x/>", '<alt-trans a="1"/>', "<source>c</source>", "t", "<!--c-->", "<?p q?>"]


def judge_odd(case: list) -> str:
    """Units with parts that Xcode doesn't write: all is kept, or refused"""
    kind, attr, inner, w = case
    id, others, name = KINDS[kind]
    base = {"base": "%#@s@", "format": "%#@v@"}.get(kind, "a")
    w = w.replace("b<", base + "<") if kind in ("base", "format") else w
    src = doc([], name)
    rest = doc(others, name)
    rest = rest[rest.index("<body>") + 6: rest.index("</body>")]
    full = src.replace("<body></body>", f'<body><trans-unit id="{id}"><source{attr}>{base}{inner}</source>{w}</trans-unit>{rest}</body>')
    status = "kept"
    for se in (False, True):
        T.trace()
        try:
            got = xliff_parse(full, source_entries=se)
        except ValueError:
            status = "refused"
            continue
        try:
            out = ser(got, source_entries=se)
        except ValueError:
            status = "read only"
            continue
        same("units", units(out), units(full), "from", full)
    return status


def judge_detail(case: list) -> str:
    """Attributes and notes of units, compared as XML."""
    kind, w, attr = case
    id, others, name = KINDS[kind]
    base = {"base": "%#@s@", "format": "%#@v@"}.get(kind, "a")
    w = w.replace("b", base) if kind in ("base", "format") else w
    if kind == "base" and "> <" in w:
        return "no substitution"
    src = doc([], name)
    unit = f'<trans-unit id="{id}" {attr}><source>{base}</source>{w}</trans-unit>'
    rest = doc(others, name)
    rest = rest[rest.index("<body>") + 6: rest.index("</body>")]
    full = src.replace("<body></body>", f"<body>{unit}{rest}</body>")
    if w.count("<target") > 1:
        try:
            xliff_parse(full)
        except ValueError:
            T.trace()
            return "rejected"
        raise Bad(f"accepted {full}")
    for se in (False, True):
        out = ser(xliff_parse(full, source_entries=se), source_entries=se)
        T.trace()

        same("units", units(out), units(full), "from", full)
    got = xliff_parse(full)
    for s in got.sections:
        meta_ok(s.meta, "section")
        for e in s.entries:
            meta_ok(e.meta, "entry")
            need(all(x == x.strip() for x in e.comment.split("\n")), "comment", repr(e.comment))
            if name != "a.stringsdict" and "<note" in w and ">n<" in w:
                need("n" in e.comment, "comment", e)
    trimmed = ser(got, trim_comments=True)
    need("<note" not in trimmed, "notes in", trimmed)
    return "ok"


def judge_build(case: list) -> str:
    """Messages that are not read from a file."""
    name, kind, keys, texts_, comment, se = case
    decl = {"number": {"n": Ex(V("n"), "number")}, "integer": {"n": Ex(V("int"), "integer")}, "device": {"n": Ex(None, "device")}, "string": {"n": Ex(V("n"), "string")},
            "sub": {"n": Ex(V("n"), "substitution", {}, {"substitution": True, "source": "%#@n@"})}, "none": {"n": Ex(V("n"))}}[kind]
    variants = {tuple(CK("other") if k == "other" else CK() if k == "*" else k for k in [key]): [t] if t else [] for key, t in zip(keys, texts_)}
    msg = SM(decl, (V("n"),), variants)
    names = ["other" if k == "*" else k for k in keys]
    pre = "n/" if kind == "sub" else ""
    meta = [] if se else [*([Md("source", "base")] if kind == "sub" else []), *(Md(f"{pre}{k}/source", f"s{k}") for k in names)]
    res = Resource(X, [S((name,), [E(("m",), msg, comment=comment, meta=meta)], meta=[Md("header/tool/@tool-id", "com.apple.dt.xcode")])], meta=[Md("@version", "1.2")])
    before = dump(res)
    if name == "a.stringsdict":
        ok = kind == "number" and not comment
    elif name == "a.xcstrings":
        ok = kind not in ("string", "none")
    else:
        ok = False
    try:
        out = ser(res, source_entries=se)
    except ValueError:
        T.trace()
        need(not ok, "refused", res)
        return "refused"
    need(ok, "accepted", res, "as", out)
    T.trace(2)
    same("resource after serializing", dump(res), before)
    try:
        got = xliff_parse(out, source_entries=se)
    except ValueError:
        need("other" not in names or any(k not in CATS for k in names), "bad output", out)
        return "ok, without a default"
    (e,) = got.sections[0].entries
    same("id", e.id, ("m",))
    same("variants", [("other" if isinstance(k[0], CK) else k[0], flat(p)) for k, p in e.value.variants.items()], [(n, t if t or kind != "sub" else "%#@n@") for n, t in zip(names, texts_)], "from", out)
    if comment:
        need(comment in e.comment, "comment", e.comment, "from", out)
    return "ok"


def judge_detect(case: list) -> str:
    tool, name = case
    src = doc([["m|==|plural.other", "%d a", "%d b"], ["/m:dict/v:dict/other:dict/:string", "%d", "%d"]] if name == "a.strings" else
              [["/m:dict/v:dict/other:dict/:string", "%d a", "%d b"]] if "dict" in name else [["m|==|plural.other", "%d a", "%d b"]], name).replace(TOOL, tool)
    got = xliff_parse(src)
    T.trace(2)
    is_x = 'tool-id="com.apple.dt.xcode"' in tool
    same("is Xcode", xliff_is_xcode(got), is_x)
    want = SM if is_x and name in ("a.xcstrings", "a.stringsdict") else PM
    for e in got.sections[0].entries:
        need(isinstance(e.value, want), "value", e.value)
        p = e.value.pattern if isinstance(e.value, PM) else next(iter(e.value.variants.values()))
        need(isinstance(p[0], Ex) == is_x, "pattern", p)
    same("document", xlf.document(ser(got), "target"), xlf.document(src, "target"))
    return "ok"


def judge_message(case: list) -> str:
    """Single messages."""
    w, x = case
    src = esc(w)
    msg = xliff_parse_message(src, is_xcode=x)
    T.trace(2)
    need(isinstance(msg, PM), "message", msg)
    same("text", flat(msg.pattern), w)
    if x:
        same("placeholders", [(p.arg.name, p.function) for p in msg.pattern if isinstance(p, Ex) and isinstance(p.arg, V)], [a[:2] for a in args(w)])
    else:
        need(not any(isinstance(p, Ex) for p in msg.pattern), "placeholders", msg)
    out = xliff_serialize_message(msg)
    same("message", dump(xliff_parse_message(out, is_xcode=x)), dump(msg), "from", out)
    return "ok"


def run(ctx: Ctx) -> None:
    d = 4
    ctx.space("catalogs", lambda: ([UNITS[i] for i in w] for w in words(range(len(UNITS)), d)), judge_catalog, note=f"up to {d} of {len(UNITS)} units")
    subs = [u for u in UNITS if "plural." not in u[0] or "substitutions" in u[0]][:3] + [u for u in UNITS if "substitutions" in u[0]]
    ctx.space("substitutions", lambda: ([subs[i] for i in w] for w in words(range(len(subs)), ctx.pick(5, 6), 5)), judge_catalog)
    ctx.space("stringsdicts", lambda: ([DICT[i] for i in w] for w in words(range(len(DICT)), ctx.pick(4, 5))), judge_dict, note=f"up to {ctx.pick(4, 5)} of {len(DICT)} units")
    kinds = ("plain", "strings", "one", "other", "device", "base", "sub", "dict", "format")
    ctx.space("texts", lambda: ([k, w] for w in texts(TOKENS, ctx.pick(2, 3)) for k in kinds), judge_text, note=f"up to {ctx.pick(2, 3)} of {len(TOKENS)} tokens")
    ctx.space("details", lambda: ([k, w, a] for k in KINDS for w in texts(DETAIL, ctx.pick(3, 4)) for a in ("", 'xml:space="preserve" approved="yes"')), judge_detail)
    ks = ["one", "other", "few", "*", "ipad"]
    ctx.space("odd details", lambda: ([k, a, i, w] for k in KINDS for a in ("", ' xml:space="preserve"', ' a="1"') for i in ("", "<g/>", "<!--c-->", "<?p q?>") for w in texts(ODD, ctx.pick(2, 3))), judge_odd)
    ctx.space("built", lambda: ([n, k, list(keys), list(t), c, se] for n in ("a.xcstrings", "a.stringsdict", "a.strings") for k in ("number", "integer", "device", "string", "sub", "none")
                                for keys in words(ks, 3, 1) if len({x if x != "*" else "other" for x in keys}) == len(keys) for t in product(["", "x"], repeat=len(keys)) for c in ("", "note") for se in (False, True)), judge_build)
    ctx.space("detection", lambda: ([t, n] for t in (TOOL, "", "<header/>", '<header><tool tool-id="x"/></header>', '<header><note>n</note><tool tool-id="com.apple.dt.xcode" tool-name="X"/></header>')
                                    for n in ("a.xcstrings", "a.stringsdict", "a.strings", "xcstrings")), judge_detect)
    ctx.space("single messages", lambda: ([w, x] for w in texts(TOKENS, ctx.pick(3, 4)) for x in (False, True)), judge_message)
    ctx.assume("In source entries or targets with a substitution, the text around it is moved into its variants, which read the same.",
               "The format key of a stringsdict message has its source as its default target; empty notes are not kept.",
               "Messages with more than one substitution are only read, and so are those with a first argument that is not a number, as serializing them is refused.")
