"""C01: .properties round trips, against an independent reader of the format.

An own reader of the Java format (escapes, continuations, separators, comments) is the oracle.  All values and keys of tokens up to the depth, all pairs of values, all structures of entries and comments, and all
source texts of tokens up to the depth are made: what is written must read the same by both, what is read must be what the reference reads, and a second round trip changes nothing.
"""

from __future__ import annotations

import re

from core import Ctx, T, need, same, texts, words
from util import *

from moz.l10n.formats.properties import (
    properties_parse,
    properties_parse_message,
    properties_serialize,
    properties_serialize_message,
)

F = Format.properties

# ------------------------------------------------ reference reader

SIMPLE = {"t": "\t", "n": "\n", "f": "\f", "r": "\r"}
HEX = "0123456789abcdefABCDEF"


def unescape(s: str) -> str:
    out = []
    i = 0
    while i < len(s):
        c = s[i]
        if c != "\\" or i + 1 == len(s):
            out.append(c)
            i += 1
            continue
        c = s[i + 1]
        i += 2
        if c == "u" and i < len(s) and s[i] in HEX:
            j = i
            while j < len(s) and j < i + 4 and s[j] in HEX:
                j += 1
            out.append(chr(int(s[i:j], 16)))
            i = j
        else:
            out.append(SIMPLE.get(c, c))
    # UTF-16 surrogate pairs
    return re.sub("[\ud800-\udbff][\udc00-\udfff]",
                  lambda m: m[0].encode("utf-16", "surrogatepass").decode("utf-16"), "".join(out))


def reference(src: str) -> list:
    """Reads .properties source into the form of util.flow()."""
    lines = re.split("\r\n|\n|\r", src)
    out: list = []
    pending: list[str] = []

    def flush() -> None:
        c = ncomment("\n".join(pending))
        if c.strip():
            out.append(("comment", c))
        pending.clear()

    i = 0
    while i < len(lines):
        line = lines[i].lstrip(" \t\f")
        i += 1
        if not line:
            flush()
            continue
        if line[0] in "#!":
            body = line[1:]
            pending.append(body[1:] if body.startswith(" ") else body)
            continue
        # key
        k = 0
        while k < len(line) and line[k] not in " \t\f=:":
            k += 2 if line[k] == "\\" else 1
        k = min(k, len(line))
        key = unescape(line[:k])
        rest = line[k:].lstrip(" \t\f")
        if rest[:1] in ("=", ":"):
            rest = rest[1:].lstrip(" \t\f")
        # value
        value = ""
        while True:
            stripped = rest.rstrip("\\")
            odd = (len(rest) - len(stripped)) % 2 == 1
            if odd and i < len(lines):
                value += unescape(rest[:-1])
                rest = lines[i].lstrip(" \t\f")
                i += 1
            else:
                value += unescape(rest)
                break
        c = ncomment("\n".join(pending))
        pending.clear()
        out.append(("entry", (key,), value, (), c if c.strip() else "", ()))
    flush()
    return out


def entry_flow(res: Resource) -> list:
    return flow(res, text_of)


# ------------------------------------------------ judges


def resource(items: list, comment: str = "") -> Resource:
    return Resource(F, [S((), items)], comment=comment)


def check_resource(res: Resource) -> str:
    before = dump(res)
    exp = entry_flow(res)
    src = ser(res)
    same("resource after serializing", dump(res), before)
    got = parse(F, src)
    T.trace(2)
    same("parsed back", entry_flow(got), exp, "from", src)
    same("read by reference", reference(src), exp, "from", src)
    same("serialized again", ser(got), src)
    latin = "".join(properties_serialize(res, encoding="iso-8859-1"))
    T.trace()
    same("parsed back from ascii", [e for e in entry_flow(parse(F, latin)) if e[0] == "entry"],
         [e for e in exp if e[0] == "entry"], "from", latin)
    need(all(ord(c) < 128 for c in re.sub(r"(?m)^#.*", "", latin)), "non-ascii output", latin)
    return "escaped" if "\\" in src else "plain"


def judge_value(v: str) -> str:
    items = [E(("k",), PM([v] if v else [])), E(("z",), PM(["end"]))]
    out = check_resource(resource(items))
    src = properties_serialize_message(PM([v]))
    got = properties_parse_message(src)
    T.trace()
    same("message parsed back", text_of(got), v, "from", src)
    got = properties_parse_message(src, printf_placeholders=True)
    same("message with placeholders parsed back",
         "".join(p if isinstance(p, str) else p.attributes["source"] for p in got.pattern), v, "from", src)
    same("and serialized", properties_serialize_message(got), src)
    res = parse(F, ser(resource(items)), properties_printf_placeholders=True)
    same("resource with placeholders serialized", ser(res), ser(resource(items)))
    return out


def judge_key(k: str) -> str:
    return check_resource(resource([E(("a",), PM(["x"])), E((k,), PM(["v"])), E(("z",), PM(["end"]))]))


def judge_source(src: str) -> str:
    if re.search(r"(?<!\\)(\\\\)*\\$", src):
        src += "\n"  # a lone backslash at the end of input means nothing defined
    got = parse(F, src)
    T.trace()
    # Line continuations within keys and before separators are left out
    bad_key = re.search(r"(?m)(^|[\r\n])[ \t\f]*(?![#!])(\\[^\r\n]|[^\\\r\n \t\f=:])*[ \t\f]*\\[\r\n]", src)
    exp = entry_flow(got)
    if not bad_key:
        same("parsed", exp, reference(src), "from", src)
    out = ser(got)
    again = parse(F, out)
    T.trace()
    same("content after serializing", entry_flow(again), exp, "from", out)
    same("serialized again", ser(again), out)
    same("bytes", dump(parse(F, src.encode())), dump(got))
    return f"{len([e for e in exp if e[0] == 'entry'])} entries"


ITEMS = {
    "e": lambda n: E((f"k{n}",), PM([f"v{n}"])),
    "c": lambda n: E((f"k{n}",), PM([f"v{n}"]), comment=f"about {n}"),
    "m": lambda n: E((f"k{n}",), PM([]), comment=f" two\n\n#lines {n}"),
    "s": lambda n: C(f"standalone {n}"),
    "t": lambda n: C(f"#st\n! and {n}"),
    "d": lambda n: E(("a", f"b{n}"), PM([f" v{n} "])),
}


def judge_structure(case: list) -> str:
    comment, word = case
    items = [ITEMS[w](n) for n, w in enumerate(word)]
    res = resource(items, comment)
    src = ser(res)
    got = parse(F, src)
    T.trace()
    for e in res.all_entries():
        e.id = (".".join(e.id),)
    same("parsed back", entry_flow(got), entry_flow(res), "from", src)
    same("reference", reference(src), entry_flow(res), "from", src)
    if comment or not items or isinstance(items[0], E):
        # The structure is fully representable
        same("equal", dump(got), dump(res), "from", src)
    same("serialized again", ser(got), src)
    return "ok"


def judge_values_pair(case: list) -> str:
    a, b, c = case
    return check_resource(resource([E(("k",), PM([a] if a else []), comment=c), E(("l",), PM([b] if b else []))]))


VALUE = ["a", " ", "\\", "\n", "u", "0041", "#", "=", ":", "\t", "!", "\r", "\f", "é", "😀", "\u00a0", "\u2028", "\x1c", "\x85", "%1$s"]
KEY = ["a", " ", "\\", "=", ":", "#", "!", ".", "\n", "\t", "u", "0041", "é", "😀", "\r", "\f", "%s"]
SOURCE = ["k", "=", "\n", " ", "\\", "#", "v", ":", "u0041", "\r\n", "!", "\t", "\r", "\\ud83d\\ude00"]
RARE = ["k", "=", "\n", " ", "\\", "#", "\f", "\u00a0", "\u2028", "\x85", "\x0b", "\x1c", "é", "\ufeff", "\\t", "\\f", "\\r", "\\n",
        "\\u00", "\\uD83D", "\\ude00", "\\z", "'", "U"]
VTEXT = ["a", "a ", " a", "\\", "a\\", "\\ ", "", " ", "#", "a\nb"]


def run(ctx: Ctx) -> None:
    d = ctx.pick(3, 4)
    ctx.space("values", lambda: texts(VALUE, d), judge_value, note=f"values of up to {d} of {len(VALUE)} tokens")
    ctx.space("values-deep", lambda: texts(VALUE[:7], ctx.pick(5, 6), d + 1), judge_value)
    ctx.space("keys", lambda: texts(KEY, d, 1), judge_key, note=f"keys of up to {d} of {len(KEY)} tokens")
    ds = ctx.pick(5, 6)
    ctx.space("sources", lambda: texts(SOURCE, ds), judge_source, note=f"texts of up to {ds} of {len(SOURCE)} tokens")
    ctx.space("sources-deep", lambda: texts(SOURCE[:7], ctx.pick(7, 8), ds + 1), judge_source)
    ctx.space("sources-rare", lambda: texts(RARE, ctx.pick(3, 4)), judge_source, note=f"{len(RARE)} tokens")
    ctx.space("structures", lambda: ((c, w) for w in words(ITEMS, ctx.pick(4, 5)) for c in ("", "top", "two\n\nparts")),
              judge_structure)
    ctx.space("pairs", lambda: ((a, b, c) for a, b, c in words(VTEXT, 3, 3) if c == ncomment(c)), judge_values_pair)
    ctx.assume("Line continuations inside keys, and a lone backslash at the end of the input, are not covered by the reference reader.")
