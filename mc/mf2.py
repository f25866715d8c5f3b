"""
A reference reader of MessageFormat 2 syntax, built from the ABNF of LDML 46.

The grammar is regular, so it is transcribed here as regular expressions, one per production.
`read(src)` gives the message that the grammar and the data model rules assign to the text, REJECT, or EITHER
where the grammar itself is ambiguous or leaves acceptance to the implementation.
"""

from __future__ import annotations

import re
from typing import Any

from util import CK, Ex, M, PM, SM, V

REJECT, EITHER = "reject", "either"

WS = "[\t\n\r \u3000]"
B = "[\u061c\u200e\u200f\u2066-\u2069]"
o = f"(?:{WS}|{B})*"
s = f"{B}*{WS}{o}"

_START = [(0x41, 0x5A), (0x61, 0x7A), (0x5F, 0x5F), (0xC0, 0xD6), (0xD8, 0xF6), (0xF8, 0x2FF), (0x370, 0x37D),
          (0x37F, 0x61B), (0x61D, 0x1FFF), (0x200C, 0x200D), (0x2070, 0x218F), (0x2C00, 0x2FEF), (0x3001, 0xD7FF),
          (0xF900, 0xFDCF), (0xFDF0, 0xFFFC), (0x10000, 0xEFFFF)]
_CHAR = _START + [(0x30, 0x39), (0x2D, 0x2D), (0x2E, 0x2E), (0xB7, 0xB7), (0x300, 0x36F), (0x203F, 0x2040)]


def is_start(cp: int) -> bool:
    return any(a <= cp <= b for a, b in _START)


def is_char(cp: int) -> bool:
    return any(a <= cp <= b for a, b in _CHAR)


def _cls(ranges: list) -> str:
    return "".join(f"\\U{a:08x}-\\U{b:08x}" for a, b in ranges)


CORE = f"[{_cls(_START)}][{_cls(_CHAR)}]*"
NUMBER = "-?(?:0|[1-9][0-9]*)(?:\\.[0-9]+)?(?:[eE][-+]?[0-9]+)?"
QUOTED = r"\|(?:[^\\|\0]|\\[\\{|}])*\|"


class Grammar:
    def __init__(self, bidi: str):
        name = f"{bidi}{CORE}{bidi}"
        ident = f"{name}(?::{name})?"
        literal = f"(?:{QUOTED}|{name}|{NUMBER})"
        var = f"\\${name}"
        option = f"{s}(?P<ok>{ident}){o}={o}(?P<ov>{literal}|{var})"
        attr = f"{s}@(?P<ak>{ident})(?:{o}={o}(?P<av>{literal}))?"
        opts, attrs = (re.sub(r"\?P<\w+>", "?:", f"(?:{x})*") for x in (option, attr))
        func = f":(?P<f>{ident})(?P<o>{opts})"
        nf = re.sub(r"\?P<\w+>", "?:", func)
        expr = (f"\\{{{o}(?:(?P<a>{literal}|{var})(?:{s}:(?P<f>{ident})(?P<o>{opts}))?"
                f"|:(?P<f0>{ident})(?P<o0>{opts}))(?P<at>{attrs}){o}\\}}")
        markup = (f"\\{{{o}(?:\\#(?P<mo>{ident})(?P<oo>{opts})(?P<ao>{attrs}){o}(?P<sl>/?)"
                  f"|/(?P<mc>{ident})(?P<oc>{opts})(?P<ac>{attrs}){o})\\}}")
        pexpr, pmark = (re.sub(r"\?P<\w+>", "?:", x) for x in (expr, markup))
        vexpr = f"\\{{{o}{var}(?:{s}{nf})?{attrs}{o}\\}}"
        text = r"(?:[^\\{}\0]|\\[\\{|}])"
        pattern = f"(?:{text}|{pexpr}|{pmark})*"
        inp = f"\\.input{o}(?P<ie>{vexpr})"
        loc = f"\\.local{s}(?P<lv>{var}){o}={o}(?P<le>{pexpr})"
        decl = re.sub(r"\?P<\w+>", "?:", f"(?:{inp}|{loc})")
        key = f"(?:{literal}|\\*)"
        qp = f"\\{{\\{{{pattern}\\}}\\}}"
        variant = f"(?P<keys>{key}(?:{s}{key})*){o}(?P<p>{qp})"
        pvariant = re.sub(r"\?P<\w+>", "?:", variant)
        matcher = f"\\.match(?P<sel>(?:{s}{var})+){s}(?P<vs>{pvariant}(?:{o}{pvariant})*)"
        body = f"(?:(?P<q>{qp})|(?P<m>{matcher}))"
        c = lambda x: re.compile(x, re.DOTALL)  # noqa: E731
        self.complex = c(f"{o}(?P<d>(?:{decl}{o})*){body}{o}")
        self.simple = c(f"{o}(?:(?!{WS}|\\.|\\{{\\{{){pattern})?")
        self.inp, self.loc, self.expr, self.markup = c(inp), c(loc), c(expr), c(markup)
        self.option, self.attr, self.variant, self.key = c(option), c(attr), c(variant), c(key)
        self.keysep, self.osep, self.sel = c(s), c(o), c(f"{s}({var})")
        self.part = c(f"(?P<t>{text}+)|(?P<e>{pexpr})|(?P<mk>{pmark})")
        self.name_core = c(CORE)

    # ------------------------------------------------------------ meaning

    def ident(self, x: str) -> str:
        return re.sub(B, "", x)

    def value(self, x: str) -> Any:
        if x.startswith("|"):
            return re.sub(r"\\(.)", r"\1", x[1:-1])
        x = re.sub(B, "", x)
        return V(x[1:]) if x.startswith("$") else x

    def opts(self, x: str) -> dict:
        res, pos = {}, 0
        while pos < len(x):
            m = self.option.match(x, pos)
            assert m, x
            k = self.ident(m["ok"])
            if k in res:
                raise DataModelError("Duplicate option")
            res[k] = self.value(m["ov"])
            pos = m.end()
        return res

    def attrs(self, x: str) -> dict:
        res, pos = {}, 0
        while pos < len(x):
            m = self.attr.match(x, pos)
            assert m, x
            k = self.ident(m["ak"])
            if k in res:
                raise Unspecified("duplicate attribute")
            res[k] = True if m["av"] is None else self.value(m["av"])
            pos = m.end()
        return res

    def expression(self, x: str) -> Ex:
        m = self.expr.fullmatch(x)
        assert m, x
        f = m["f"] or m["f0"]
        return Ex(None if m["a"] is None else self.value(m["a"]), f and self.ident(f),
                  self.opts(m["o"] or m["o0"] or ""), self.attrs(m["at"]))

    def placeholder(self, x: str) -> Any:
        m = self.markup.fullmatch(x)
        if not m:
            return self.expression(x)
        if m["mc"] is not None:
            return M("close", self.ident(m["mc"]), self.opts(m["oc"]), self.attrs(m["ac"]))
        return M("standalone" if m["sl"] else "open", self.ident(m["mo"]), self.opts(m["oo"]), self.attrs(m["ao"]))

    def pattern(self, x: str) -> list:
        res: list = []
        pos = 0
        while pos < len(x):
            m = self.part.match(x, pos)
            assert m, x
            res.append(re.sub(r"\\(.)", r"\1", m["t"]) if m["t"] else self.placeholder(m[0]))
            pos = m.end()
        return res

    def message(self, src: str) -> Any:
        m = self.complex.fullmatch(src)
        if not m:
            return PM(self.pattern(src)) if self.simple.fullmatch(src) else REJECT
        decls: dict[str, Ex] = {}
        seen: set[str] = set()
        d, pos = m["d"], 0
        while pos < len(d):
            x = self.inp.match(d, pos)
            if x:
                e = self.expression(x["ie"])
                name = e.arg.name
                refs = {v.name for v in e.options.values() if isinstance(v, V)}
            else:
                x = self.loc.match(d, pos)
                assert x, d
                name = self.value(x["lv"]).name
                e = self.expression(x["le"])
                refs = {v.name for v in [e.arg, *e.options.values()] if isinstance(v, V)}
            if name in seen or name in refs:
                raise DataModelError("Duplicate declaration")
            seen |= refs | {name}
            decls[name] = e
            pos = self.osep.match(d, x.end()).end()
        if m["q"] is not None:
            return PM(self.pattern(m["q"][2:-2]), decls)
        sels = tuple(self.value(v[0] if isinstance(v, tuple) else v) for v in self.sel.findall(m["sel"]))
        for sel in sels:
            name = sel.name
            while name in decls and decls[name].function is None and isinstance(decls[name].arg, V):
                if decls[name].arg.name == name:
                    break
                name = decls[name].arg.name
            if name not in decls or decls[name].function is None:
                raise DataModelError("Missing selector annotation")
        variants: dict = {}
        vs, pos = m["vs"], 0
        while pos < len(vs):
            x = self.variant.match(vs, pos)
            assert x, vs
            keys, kp = [], 0
            while kp < len(x["keys"]):
                k = self.key.match(x["keys"], kp)
                assert k, x["keys"]
                keys.append(CK() if k[0] == "*" else self.value(k[0]))
                kp = k.end()
                if kp < len(x["keys"]):
                    kp = self.keysep.match(x["keys"], kp).end()
            if len(keys) != len(sels):
                raise DataModelError("Variant key mismatch")
            if tuple(keys) in variants:
                raise DataModelError("Duplicate variant")
            variants[tuple(keys)] = self.pattern(x["p"][2:-2])
            pos = self.osep.match(vs, x.end()).end()
        if (CK(),) * len(sels) not in variants:
            raise DataModelError("Missing fallback variant")
        return SM(decls, sels, variants)


class DataModelError(Exception):
    pass


class Unspecified(Exception):
    pass


STRICT, LAX = Grammar(f"{B}?"), Grammar(f"{B}*")


def read(src: str) -> tuple[Any, Any]:
    """
    (verdict, message): verdict True when the text must be accepted, False when it must be rejected,
    None when either will do; message is the meaning, if accepted (or None, if that is open too).
    """
    verdicts, meaning = [], None
    for g in (STRICT, LAX):
        try:
            got = g.message(src)
        except DataModelError:
            got = REJECT
        except Unspecified:
            return None, None
        verdicts.append(got is not REJECT)
        if got is not REJECT:
            meaning = got
    if verdicts[0] != verdicts[1]:
        return None, meaning
    # Ambiguous in the grammar: an isolate or mark may start a complex message, or be the text of a simple one.
    if verdicts[0] and isinstance(meaning, PM) and re.match(f"{WS}*{B}(?:{WS}|{B})*\\.", src):
        if not STRICT.complex.fullmatch(src):
            return None, meaning
    return verdicts[0], meaning
