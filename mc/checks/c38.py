"""
C38: JSON messages are read as their schemas describe.

Around documents that use every part of the two JSON forms of messages, and of entries, all documents with up to two changes (a value removed, replaced by one of any other type or kind, a member
or item added, two swapped) are read.  What a published schema accepts must be read as the message that it describes, as built by an independent reader; what the MessageFormat 2 schema does not
accept must be refused with a validation error, in whatever part the fault is.
Assumed: as documented, MessageFormat 2 JSON with a duplicate declaration, or an .input declaration of another variable, is refused as well; documents that the schemas of the compact form do not accept
may be read in any way; variants with the same keys aren't distinguished; metadata has a key and a value.
"""

from __future__ import annotations

import copy
import itertools
import json

from checks.c14 import ENTRY, MF2, MSG
from core import Bad, Ctx, T, need, same
from moz.l10n.formats.mf2.from_json import mf2_from_json
from moz.l10n.formats.mf2.to_json import mf2_to_json
from moz.l10n.formats.mf2.validate import MF2ValidationError
from moz.l10n.message import entry_from_json, entry_to_json, message_from_json, message_to_json
from util import *


# Readers of what the schemas accept


def mval(d):
    return d["value"] if d["type"] == "literal" else V(d["name"])


def mopts(d):
    return {k: mval(v) for k, v in d.get("options", {}).items()}


def mattrs(d):
    return {k: v if v is True else v["value"] for k, v in d.get("attributes", {}).items()}


def mexpr(d):
    fn = d.get("function")
    return Ex(mval(d["arg"]) if "arg" in d else None, fn["name"] if fn else None, mopts(fn) if fn else {}, mattrs(d))


def mpat(ds):
    return [d if isinstance(d, str) else mexpr(d) if d["type"] == "expression" else M(d["kind"], d["name"], mopts(d), mattrs(d)) for d in ds]


def mf2(d):
    """The message, or None if it must be refused for other reasons"""
    decls = {}
    for x in d["declarations"]:
        if x["name"] in decls or x["type"] == "input" and x["value"]["arg"]["name"] != x["name"]:
            return None
        decls[x["name"]] = mexpr(x["value"])
    if d["type"] == "message":
        return PM(mpat(d["pattern"]), decls)
    return SM(decls, tuple(V(s["name"]) for s in d["selectors"]), {tuple(k["value"] if k["type"] == "literal" else CK(k.get("value")) for k in v["keys"]): mpat(v["value"]) for v in d["variants"]})


def copts(d):
    return {k: v if isinstance(v, str) else V(v["$"]) for k, v in d.items()}


def cexpr(d):
    fn = d.get("fn")
    return Ex(d["_"] if "_" in d else V(d["$"]) if "$" in d else None, fn, copts(d.get("opt", {})) if "fn" in d else {}, d.get("attr", {}))


def cpat(ds):
    res = []
    for d in ds:
        if isinstance(d, str):
            res.append(d)
        elif "_" in d or "$" in d or "fn" in d:
            res.append(cexpr(d))
        else:
            kind = next(k for k in ("open", "close", "elem") if k in d)
            res.append(M("standalone" if kind == "elem" else kind, d[kind], copts(d.get("opt", {})), d.get("attr", {})))
    return res


def compact(d):
    if isinstance(d, list):
        return PM(cpat(d))
    decls = {k: cexpr(x) for k, x in d["decl"].items()}
    if "sel" in d:
        return SM(decls, tuple(V(s) for s in d["sel"]), {tuple(k if isinstance(k, str) else CK(k["*"] or None) for k in v["keys"]): cpat(v["pat"]) for v in d["alt"]})
    return PM(cpat(d["msg"]), decls)


def unclear(d) -> bool:
    """Documents that fit more than one kind of the compact form"""
    if isinstance(d, dict):
        if "sel" in d and "msg" in d:
            return True
        if len([k for k in ("_", "$", "fn", "open", "close", "elem") if k in d]) > 1 + ("fn" in d and ("_" in d or "$" in d)):
            return True
        return any(unclear(x) for x in d.values())
    return isinstance(d, list) and any(unclear(x) for x in d)


LIT, VAR = {"type": "literal", "value": "x"}, {"type": "variable", "name": "v"}
FN = {"type": "function", "name": "f", "options": {"o": LIT, "p": VAR}}
EXP = {"type": "expression", "arg": VAR, "function": FN, "attributes": {"a": LIT, "b": True}}
MF2S = [
    {"type": "message", "declarations": [], "pattern": ["x"]},
    {"type": "message", "declarations": [], "pattern": [{"type": "expression", "arg": LIT}]},
    {"type": "message", "declarations": [], "pattern": [{"type": "expression", "function": {"type": "function", "name": "f"}}]},
    {"type": "message", "declarations": [{"type": "input", "name": "v", "value": EXP}, {"type": "local", "name": "w", "value": {"type": "expression", "arg": LIT}}], "pattern": ["a", EXP]},
    {"type": "message", "declarations": [], "pattern": [{"type": "markup", "kind": "open", "name": "m", "options": {"o": LIT, "p": VAR}, "attributes": {"a": LIT, "b": True}}, {"type": "markup", "kind": "close", "name": "m"}]},
    {"type": "select", "declarations": [{"type": "input", "name": "v", "value": {"type": "expression", "arg": VAR, "function": {"type": "function", "name": "number"}}}], "selectors": [VAR],
     "variants": [{"keys": [{"type": "literal", "value": "one"}], "value": ["1"]}, {"keys": [{"type": "*", "value": "other"}], "value": ["n", {"type": "expression", "arg": VAR}]}]},
]
MF2_VALUES = [None, True, False, 0, 1.5, "", "x", "literal", "variable", "expression", "function", "markup", "input", "local", "*", "message", "select", "open", "standalone", [], {}, [[]], ["x"], [{}], LIT, VAR, FN, EXP, {"type": "*"}, {"x": "x"}, {"type": "expression"}, {"type": []}]
MF2_KEYS = ["type", "value", "name", "arg", "function", "options", "attributes", "kind", "declarations", "pattern", "selectors", "variants", "keys", "x"]
CS = [
    ["x"],
    [{"_": "x"}, {"$": "v"}, {"fn": "f"}],
    {"decl": {"v": {"$": "v", "fn": "number", "opt": {"o": "x", "p": {"$": "w"}}, "attr": {"a": "y", "b": True}}}, "msg": ["a", {"$": "v", "fn": "f", "opt": {"o": "x"}, "attr": {"b": True}}, "b"]},
    [{"open": "m", "opt": {"o": "x", "p": {"$": "w"}}, "attr": {"a": "y", "b": True}}, {"elem": "e", "opt": {"o": ""}}, {"close": "m", "attr": {"c": ""}}],
    {"decl": {"v": {"$": "v", "fn": "number"}}, "sel": ["v"], "alt": [{"keys": ["one"], "pat": ["1"]}, {"keys": [{"*": "other"}], "pat": ["n", {"$": "v"}]}]},
    {"decl": {"v": {"$": "v", "fn": "number"}, "w": {"_": "w", "fn": "string"}}, "sel": ["v", "w"], "alt": [{"keys": ["one", {"*": ""}], "pat": []}, {"keys": [{"*": ""}, {"*": "x"}], "pat": [{"elem": "x"}]}]},
]
C_VALUES = [None, True, False, 0, "", "x", [], {}, ["x"], [""], {"$": "x"}, {"_": ""}, {"_": "x", "attr": {"a": True}}, {"fn": "x", "opt": {"o": {"$": "v"}}}, {"elem": "x"}, {"open": "x"}, {"close": ""}, {"*": ""}, {"*": "x"}, {"o": "x"}, {"a": True}, [{"*": "x"}]]
C_KEYS = ["_", "$", "fn", "opt", "attr", "open", "close", "elem", "decl", "msg", "x", "*", ""]
ES = [
    {"=": ["x"]},
    {"#": "c", "@": [["k", "v"], ["k", "w"]], "=": {"decl": {"v": {"$": "v", "fn": "number"}}, "sel": ["v"], "alt": [{"keys": [{"*": ""}], "pat": ["n"]}]}, "+": {"p": ["y"], "q": {"decl": {"v": {"_": "v"}}, "msg": [{"$": "v"}]}}},
    {"+": {"p": []}},
]
E_VALUES = [None, True, 0, "", "x", [], {}, ["x"], [["x", "y"]], [["x"]], {"p": ["x"]}, {"decl": {}, "msg": []}]
E_KEYS = ["=", "+", "@", "#", "x", ""]
KINDS = {"mf2": (MF2S, MF2_VALUES, MF2_KEYS), "compact": (CS, C_VALUES, C_KEYS), "entry": (ES, E_VALUES, E_KEYS)}


def edits(d, values, keys):
    yield from (copy.deepcopy(v) for v in values)
    if isinstance(d, dict):
        for k in d:
            yield {x: y for x, y in d.items() if x != k}
            for e in edits(d[k], values, keys):
                yield {x: e if x == k else y for x, y in d.items()}
        for k in keys:
            if k not in d:
                for v in values:
                    yield {**d, k: v}
        if len(d) > 1:
            yield dict(reversed(d.items()))
    elif isinstance(d, list):
        for i in range(len(d)):
            yield d[:i] + d[i + 1 :]
            yield d[: i + 1] + d[i:]
            for e in edits(d[i], values, keys):
                yield d[:i] + [e] + d[i + 1 :]
            for j in range(i):
                yield d[:j] + [d[i]] + d[j + 1 : i] + [d[j]] + d[i + 1 :]
        for i in range(len(d) + 1):
            for v in values:
                yield d[:i] + [v] + d[i:]


def dupkeys(d) -> bool:
    ks = [json.dumps([k if isinstance(k, str) else "*" if "*" in k or k.get("type") == "*" else k.get("value") for k in v["keys"]]) for v in d["alt" if "alt" in d else "variants"]] if isinstance(d, dict) and ("alt" in d or d.get("type") == "select") else []
    return len(set(ks)) < len(ks)


def noname(d) -> bool:
    """With an empty function name, which can't be written"""
    return isinstance(d, list) and any(map(noname, d)) or isinstance(d, dict) and (d.get("fn") == "" or any(map(noname, d.values())))


def judge(c) -> str:
    kind, doc = c
    before = copy.deepcopy(doc)
    T.trace(1)
    if kind == "mf2":
        want = mf2(doc) if MF2.is_valid(doc) else None
        try:
            got = mf2_from_json(doc)
        except MF2ValidationError:
            need(want is None, "was refused, but is valid:", doc)
            return "refused"
        except Exception as e:
            raise Bad("failed with", repr(e), "for", doc)
        same("document after reading", doc, before)
        need(want is not None, "was not refused:", doc, "but read as", dump(got))
        same("message", dump(got), dump(want))
        if not dupkeys(doc):
            same("written and read", dump(mf2_from_json(mf2_to_json(got))), dump(got))
        return "read"
    if kind == "compact":
        if not MSG.is_valid(doc) or unclear(doc):
            return "not in schema"
        got = message_from_json(doc)
        same("document after reading", doc, before)
        same("message", dump(got), dump(compact(doc)))
        if not dupkeys(doc) and not noname(doc):
            same("written and read", dump(message_from_json(message_to_json(got))), dump(got))
        return "read"
    if not ENTRY.is_valid(doc) or any(unclear(x) for x in doc.values()) or any(len(m) != 2 for m in doc.get("@", [])):
        return "not in schema"
    got = entry_from_json("a.b", doc)
    same("document after reading", doc, before)
    want = E(("a", "b"), compact(doc["="]) if "=" in doc else PM([]), {k: compact(v) for k, v in doc.get("+", {}).items()}, doc.get("#", ""), [Md(*x) for x in doc.get("@", [])])
    same("entry", dump(got), dump(want))
    if not noname(doc):
        same("written and read", dump(entry_from_json(*entry_to_json(got))), dump(got))
    return "read"


def run(ctx: Ctx) -> None:
    for kind, (docs, values, keys) in KINDS.items():

        def gen(kind=kind, docs=docs, values=values, keys=keys):
            for i, doc in enumerate(docs):
                yield [kind, doc]
                for once in edits(doc, values, keys):
                    yield [kind, once]
                    if len(json.dumps(doc)) < ctx.pick(70 if kind == "mf2" else 30, 160):
                        for twice in edits(once, values[:: ctx.pick(3, 1)], keys):
                            yield [kind, twice]

        ctx.space(kind, gen, judge, note="documents with one change, and small ones with two")
