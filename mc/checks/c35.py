"""
C35: metadata operations act as an ordered multimap.

All histories of get, has, set and del, with all keys and values, from all small lists of items, on a resource, section and entry each; a list of pairs is the model.  Every step compares the
result, the items in order, that items which are not concerned are the very same objects, and all else of the owner and of others that hold equal items.  In the formats with metadata, what a
history leaves is also serialized and read again.
Assumed: the order in which a format writes its metadata is its own.
"""

from __future__ import annotations

import itertools

from core import Ctx, T, need, same, words
from util import *

KEYS = ["a", "b", "A"]
VALUES = ["x", "y", ""]
OPS = [("get", k) for k in KEYS] + [("has", k) for k in KEYS] + [("has", k, v) for k in KEYS for v in VALUES] + [("set", k, v) for k in KEYS for v in VALUES] + [("del", k) for k in KEYS]
EDITS = [o for o in OPS if o[0] in ("set", "del")]


def model(items: list, op: tuple):
    """The result, and the items that are there after, as indices of those before or new pairs"""
    what, key, *value = op
    at = [i for i, (k, _) in enumerate(items) if k == key]
    if what == "get":
        return items[at[0]][1] if at else None
    if what == "has":
        return any(not value or items[i][1] == value[0] for i in at)
    if what == "set":
        if at:
            items[at[0]] = (key, *value)
        else:
            items.append((key, *value))
        return None
    for i in reversed(at):
        del items[i]
    return len(at)


def owner(kind: str, items: list):
    meta = [Md(k, v) for k, v in items]
    if kind == "entry":
        return E(("e",), PM(["v"]), {"p": PM(["q"])}, "c", meta)
    s = S(("s",), [E(("e",), PM(["v"]), meta=[Md(k, v) for k, v in items])], "c", meta if kind == "section" else [Md(k, v) for k, v in items])
    return s if kind == "section" else Resource(Format.ini, [s], "c", meta)


def rest(x):
    return repr({k: v for k, v in vars(x).items() if k != "meta"})


def judge_steps(c) -> str:
    kind, start, ops = c
    x = owner(kind, start)
    other = owner(kind, start)
    default = type(x)(*((("n",), PM([])) if kind == "entry" else (("n",), []) if kind == "section" else (None, [])))
    model_ = [tuple(i) for i in start]
    before = rest(x)
    for op in ops:
        op = tuple(op)
        old, old_pairs = list(x.meta), [(m.key, m.value) for m in x.meta]
        want = model(model_, op)
        got = getattr(x, f"{op[0]}_meta")(*op[1:])
        same(f"{op}", got, want)
        need(type(got) is type(want), "type", got, want)
        same(f"items after {op}", [(m.key, m.value) for m in x.meta], model_)
        need(isinstance(x.meta, list) and all(type(m) is Md for m in x.meta), "kinds of items", x.meta)
        # Items that are left are the same as before
        left = [m for m, (k, _) in zip(old, old_pairs) if k != op[1] or op[0] != "del"]
        need(all(m is n for m, n in zip(x.meta, left)), "items are replaced by", op)
        T.trace()
        T.step()
    same("everything else", rest(x), before)
    same("another with equal items", [(m.key, m.value) for m in other.meta], [tuple(i) for i in start])
    same("a new one", default.meta, [])
    return kind


# --- in files

X = '<xliff version="1.2" xmlns="urn:oasis:names:tc:xliff:document:1.2"><file original="f" source-language="en" datatype="x"><body>{}</body></file></xliff>'
FILES = {
    "android": ('<resources><string name="a"{}>A</string><string name="b" product="x">B</string></resources>', [("product", "x"), ("translatable", "y"), ("z", None)], "x y", lambda items: "".join(f' {k}="{v}"' for k, v in items)),
    "gettext": ('msgid ""\nmsgstr ""\n\n{}msgid "a"\nmsgstr "A"\n\n#, x\nmsgid "b"\nmsgstr "B"\n', [("flag", "x"), ("reference", "x"), ("translator-comments", None)], "x:1 y:2", lambda items: "".join(f"# {v}\n" for k, v in items if k[0] == "t") + "".join(f"#: {v}\n" for k, v in items if k[0] == "r") + "".join(f"#, {v}\n" for k, v in items if k[0] == "f")),
    "xliff": (X.format('<trans-unit id="a"{}><source>A</source></trans-unit><trans-unit id="b" approved="x"><source>B</source></trans-unit>'), [("@approved", "x"), ("@resname", "x"), ("@xml:space", None)], "x y", lambda items: "".join(f' {k[1:]}="{v}"' for k, v in items)),
}


def judge_files(c) -> str:
    fmt, start, ops = c
    F = Format[fmt]
    form, _, _, write = FILES[fmt]
    items = [tuple(i) for i in start]
    src = form.replace("{}", write(items))
    res = parse(F, src)
    e, f = res.sections[0].entries
    same("items", sorted((m.key, m.value) for m in e.meta if m.key != "source"), sorted(items))
    items = [(m.key, m.value) for m in e.meta]
    for op in ops:
        same(f"{op}", getattr(e, f"{op[0]}_meta")(*op[1:]), model(items, tuple(op)))
    out = ser(res)
    e2, f2 = parse(F, out).sections[0].entries
    same("items read back", sorted((m.key, m.value) for m in e2.meta), sorted(items), "from", out)
    same("the other entry", dump(f2), dump(f))
    same("everything else", dump(E(e2.id, e2.value, e2.properties, e2.comment)), dump(E(("a",), e.value)))
    T.trace(1)
    T.step(len(ops))
    return fmt


def run(ctx: Ctx) -> None:
    q = ctx.pick
    pairs = list(itertools.product(KEYS, VALUES))
    ctx.space("steps", lambda: ([k, list(s), list(o)] for k in ("entry", "section", "resource") for s in words(pairs, 2) for o in words(OPS, q(2, 3))), judge_steps, note="all histories of operations, from all lists of up to two items")
    ctx.space("edits", lambda: (["entry", list(s), list(o)] for s in words(pairs[::2], 3) for o in words(EDITS, q(2, 4))), judge_steps, note="all histories of edits, from longer lists")
    ctx.space("long", lambda: (["entry", [], list(o)] for o in words([("set", "a", "x"), ("set", "b", "y"), ("set", "a", "y"), ("del", "a"), ("del", "b"), ("get", "a"), ("has", "b", "y")], q(5, 7))), judge_steps, note="longer histories")

    def files():
        for fmt, (_, keys, values, _) in FILES.items():
            ks = [k for k, _ in keys]
            vs = values.split()
            ops = [("set", k, v) for k in ks for v in vs if k != "@xml:space"] + [("del", k) for k in ks] + [("get", k) for k in ks] + [("has", k, vs[0]) for k in ks]
            for n in range(4):
                for w in itertools.combinations(ks, n):
                    for v in itertools.product(vs, repeat=n):
                        for o in words(ops, q(2, 3)):
                            yield [fmt, list(zip(w, v)), list(o)]

    ctx.space("files", files, judge_files, note="histories on entries of files that are then written and read")
