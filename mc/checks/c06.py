"""C06: plain JSON round trips, against the tree of strings read by Python's json.

All trees of objects and strings up to the depth, all values of tokens, all sequences of identifiers, with a section break at each place, all patterns of parts, and all kinds of content that cannot be represented.
"""

from __future__ import annotations

import itertools
import json

from core import Bad, Ctx, T, need, same, texts, words
from util import *

F = Format.plain_json


def leaves(tree: dict, path: tuple = ()) -> list:
    out = []
    for k, v in tree.items():
        if isinstance(v, dict):
            out += leaves(v, (*path, k))
        else:
            out.append(((*path, k), v))
    return out


def entries(res: Resource) -> list:
    return [((*s.id, *e.id), text_of(e.value)) for s in res.sections for e in s.entries]


def no_dups(pairs: list) -> dict:
    need(len({k for k, _ in pairs}) == len(pairs), "duplicate keys in output", pairs)
    return dict(pairs)


def judge_tree(tree: dict) -> str:
    src = json.dumps(tree)
    got = parse(F, src)
    T.trace()
    exp = leaves(tree)
    same("entries", entries(got), exp, "from", src)
    for e in got.all_entries():
        need(e.id and all(isinstance(p, str) for p in e.id) and not e.comment and not e.meta and not e.properties, "odd entry", e)
    before = dump(got)
    out = ser(got)
    T.trace()
    same("resource after serializing", dump(got), before)
    same("leaves of output", leaves(json.loads(out, object_pairs_hook=no_dups)), exp, "in", out)
    again = parse(F, out)
    same("parsed back", dump(again), before)
    same("serialized again", ser(again), out)
    for form in (json.dumps(tree, ensure_ascii=False), json.dumps(tree, indent=3), "\n " + src + "\n", "\ufeff" + json.dumps(tree, ensure_ascii=False)):
        same("other form", dump(parse(F, form)), before)
        same("bytes", dump(parse(F, form.encode())), before)
    same("trimmed", ser(got, trim_comments=True), out)
    return f"{len(exp)} leaves"


def judge_ids(case: list) -> str:
    """A resource with given ids, in one or two sections."""
    ids, split, *equal = unlist(case)
    ents = [E(i, PM(["v" if equal else f"v{n}"])) for n, i in enumerate(ids)]
    if split is None:
        res = Resource(F, [S((), ents)])
        full = list(ids)
    else:
        res = Resource(F, [S((), ents[:split]), S(("a",), ents[split:])])
        full = [*ids[:split], *(("a", *i) for i in ids[split:])]
    exp = [(i, "v" if equal else f"v{n}") for n, i in enumerate(full)]
    before = dump(res)
    # One id may not be the start of another
    clash = len({*full}) < len(full) or any(a != b and b[: len(a)] == a for a in full for b in full)
    try:
        out = ser(res)
    except Exception:
        need(clash, "refused:", full)
        return "refused"
    T.trace()
    need(not clash, "entries lost from", full, "in", out)
    same("resource after serializing", dump(res), before)
    same("leaves", sorted(leaves(json.loads(out, object_pairs_hook=no_dups))), sorted(exp), "in", out)
    got = parse(F, out)
    same("parsed back", sorted(entries(got)), sorted(exp))
    same("serialized again", ser(got), out)
    # Keys keep the order in which they are first seen
    firsts = list(dict.fromkeys(i[0] for i in full))
    same("order", list(json.loads(out)), firsts)
    return "ok"


def judge_value(v: str) -> str:
    return judge_tree({"k": v, "n": {v: "x", "z": v}, "end": "end"})


def judge_pattern(parts: list) -> str:
    """Values given as strings or as split patterns."""
    text = "".join(parts)
    for value in (text, PM(list(parts)), PM([text])):
        res = Resource(F, [S((), [E(("k",), value)])])
        same("value", json.loads(ser(res)), {"k": text})
        T.trace()
    for bad in (PM([*parts, Ex(V("x"))]), PM([*parts, M("open", "b")])):
        try:
            out = ser(Resource(F, [S((), [E(("k",), bad)])]))
        except ValueError:
            continue
        raise Bad(f"placeholder lost in {out!r}")
    return "ok"


def judge_unsupported(case: list) -> str:
    """Comments and metadata are refused, unless trimmed."""
    com, meta, where, trim = case
    res = Resource(F, [S((), [E(("k",), PM(["v"]))])])
    target = {"res": res, "section": res.sections[0], "entry": res.sections[0].entries[0]}.get(where)
    if where == "alone":
        res.sections[0].entries.insert(0, C(com))
        meta = False
    else:
        target.comment = com
        target.meta = [Md("k", "v")] if meta else []
    T.trace()
    try:
        out = ser(res, trim_comments=trim)
    except ValueError:
        need(not trim and (com or meta), "refused", case)
        return "refused"
    need(trim or not (com or meta), "comment or metadata lost", case, out)
    same("output", json.loads(out), {"k": "v"})
    return "ok"


BADS = ["[]", "null", "1", '"x"', '{"a": 1}', '{"a": null}', '{"a": ["x"]}', '{"a": {"b": false}}', '{"a": "b"', "{'a': 'b'}",
        '{"a": "b"} x', '{"a": "b",}', "", '{"a": "b", "c": [{}]}', '{"a": 1.5, "b": "c"}', '{"a": {"b": "c", "d": {"e": 0}}}']


def judge_invalid(src: str) -> str:
    T.trace()
    try:
        got = parse(F, src)
    except ValueError:
        return "rejected"
    raise Bad(f"invalid source is accepted: {src!r} as {dump(got)}")


def trees(keys: list, leaf: list, depth: int, width: int):
    """Every object with up to `width` of the keys, nested up to `depth`."""
    subs: list = list(leaf)
    if depth > 1:
        subs += list(trees(keys, leaf, depth - 1, width))
    for n in range(width + 1):
        for ks in itertools.permutations(keys, n):
            for vs in itertools.product(subs, repeat=n):
                yield dict(zip(ks, vs))


VALUE = ["a", '"', "\\", "\n", "é", "😀", "//", "/", "\u2028", "\x00", " ", "{", "$", "\x7f", ".", "\ufeff", "u0041", "\t", "'"]
PATHS = [("a",), ("b",), ("a", "b"), ("b", "a"), ("a", "a"), ("a", "b", "c"), ("a.b",), ("",), ("a", "")]


def run(ctx: Ctx) -> None:
    ctx.space("trees", lambda: trees(["a", "b", ""], ["x", ""], 2, 2), judge_tree)
    ctx.space("deep trees", lambda: trees(["k", "a.b"], ["x"], ctx.pick(3, 3), 2), judge_tree)
    ctx.space("values", lambda: texts(VALUE, ctx.pick(4, 5)), judge_value)
    ctx.space("ids", lambda: ((ids, split) for n in range(1, ctx.pick(5, 6)) for ids in itertools.permutations(PATHS, n)
                              for split in (None, *range(n))
                              if split is None or not set(ids[:split]) & {("a", *i) for i in ids[split:]}), judge_ids)
    ctx.space("duplicates", lambda: ((ids, split, *eq) for n in range(2, 4) for ids in itertools.product(PATHS, repeat=n) for split in (None, *range(n)) for eq in ((), (1,))), judge_ids)
    ctx.space("patterns", lambda: words(["a", "", " ", "\n", '"'], ctx.pick(4, 6)), judge_pattern)
    ctx.space("unsupported", lambda: ((c, m, w, t) for c in ("", "c") for m in (False, True)
                                      for w in ("res", "section", "entry", "alone") for t in (False, True)), judge_unsupported)
    ctx.space("invalid", lambda: BADS, judge_invalid)
