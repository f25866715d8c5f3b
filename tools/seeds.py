"""Planted bugs: each is a small plausible change, written from a property's text and the code."""
SEEDS = []


def seed(id, property, edits, needs, breaks, demo):
    if isinstance(edits, tuple):
        edits = [edits]
    SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo))


RT = """
from moz.l10n.formats import Format
from moz.l10n.model import *
from moz.l10n.resource import parse_resource, serialize_resource
"""

seed("p01-key-formfeed", "C01", ("formats/properties/parse.py",
     'elif ch in {"\\n", "\\r", "\\t", "\\f", " ", "=", ":"}:', 'elif ch in {"\\n", "\\r", "\\t", " ", "=", ":"}:'),
     "a form feed between key and value",
     "the form feed and the value's start become part of the key",
     RT + r"""
res = parse_resource(Format.properties, "k\fv\n")
assert [(e.id, e.value.pattern) for e in res.all_entries()] == [(("k",), ["v"])], res
""")
seed("p01-crlf-continuation", "C01", ("formats/properties/parse.py",
     "                    elif ch == \"\\n\" and at_cr:\n                        at_cr = False\n                        line_start = start + idx + 1\n",
     "                    elif ch == \"\\n\" and at_cr:\n                        line_start = start + idx + 1\n"),
     "a CRLF line continuation directly followed by an empty CRLF-free line end",
     "after a CRLF continuation, the next line's end is taken as part of the continuation",
     RT + r"""
res = parse_resource(Format.properties, "k = a\\\r\n\nx = y\n")
assert [e.id for e in res.all_entries()] == [("k",), ("x",)], res
""")
seed("p02-comment-dashes", "C02", ("formats/dtd/serialize.py",
     'line.rstrip().replace("--", "-\\u200b-\\u200b")', 'line.rstrip().replace("--", "-\\u200b-")'),
     "a comment with four or more dashes in a row",
     "a run of dashes in a comment still contains -- in the output, which is not well-formed XML",
     RT + r"""
src = "".join(serialize_resource(Resource(Format.dtd, [Section((), [Entry(("k",), PatternMessage(["x"]), comment="a ---- b")])])))
body = src.split("<!--", 1)[1].split("-->", 1)[0]
assert "--" not in body, src
""")
seed("p03-comment-then-directive", "C03", ("formats/inc/parse.py",
     '                if comment:\n                    entries.append(Comment(comment))\n                    comment = ""\n                entries.append(Comment(line))',
     '                entries.append(Comment(line))'),
     "a comment block directly followed by a directive line",
     "the comment before a directive moves after it, and is attached to the next entry",
     RT + r"""
res = parse_resource(Format.inc, "# c\n#filter emptyLines\n#define a b\n")
assert [getattr(e, "id", e.comment) for e in res.sections[0].entries] == ["c", "#filter emptyLines", ("a",)], res
assert res.sections[0].entries[2].comment == "", res
""")
seed("p04-comment-indent", "C04", ("formats/ini/parse.py",
     'cv = cl[1:] if cl and cl.startswith(" ") else cl', 'cv = cl.lstrip(" ") if cl else cl'),
     "a comment with an indented line",
     "indentation within comments is lost",
     RT + r"""
res = parse_resource(Format.ini, "[S]\n# a:\n#   b\nk=v\n")
assert res.sections[0].entries[0].comment == "a:\n  b", res
""")
seed("p06-split-text", "C06", ("formats/plain_json/serialize.py",
     "                    value = \"\".join(msg.pattern)  # type: ignore[arg-type]\n",
     "                    value = next((p for p in msg.pattern if p), \"\")\n"),
     "a message whose text is split into several elements of its pattern",
     "only the first part of its text is written",
     RT + r"""
import json
src = "".join(serialize_resource(Resource(Format.plain_json, [Section((), [Entry(("x",), PatternMessage(["a", "b"]))])])))
assert json.loads(src) == {"x": "ab"}, src
""")

PO = RT + """
from moz.l10n.formats.gettext import gettext_parse, gettext_serialize
"""
seed("p05-plural-gap", "C05", ("formats/gettext/parse.py",
     "                    plural_key(idx, idx == max_idx, plurals): (\n                        [pe.msgstr_plural[idx]] if idx in pe.msgstr_plural else []\n                    )\n                    for idx in range(max_idx + 1)",
     "                    plural_key(idx, idx == max_idx, plurals): [pe.msgstr_plural[idx]]\n                    for idx in keys"),
     "a plural entry with a gap in its msgstr indices and `plurals` unset or set",
     "the missing form's variant is absent instead of empty",
     PO + r"""
res = gettext_parse('msgid ""\nmsgstr ""\n\nmsgid "a"\nmsgid_plural "as"\nmsgstr[0] "x"\nmsgstr[2] "z"\n')
v = res.sections[0].entries[0].value
assert [k[0] if isinstance(k[0], str) else k[0].value for k in v.variants] == ["0", "1", "2"], v
""")
seed("p05-comment-indent", "C05", ("formats/gettext/serialize.py",
     'cs = (m.value).lstrip("\\n").rstrip()', 'cs = (m.value).strip()'),
     "a translator comment whose first line is indented",
     "the indentation of a translator comment's first line is lost",
     PO + r"""
src = 'msgid ""\nmsgstr ""\n\n#   x\n# y\nmsgid "a"\nmsgstr "b"\n'
res = gettext_parse(src)
again = gettext_parse("".join(gettext_serialize(res)))
assert res == again, again
""")

seed("p07-dollar-run", "C07", ("formats/webext/parse.py",
     'placeholder = compile(r"\\$([a-zA-Z0-9_@]+)\\$|(\\$[1-9])|\\$(\\$+)")', 'placeholder = compile(r"\\$([a-zA-Z0-9_@]+)\\$|(\\$[1-9])|\\$(\\$)")'),
     "a run of three or more dollar signs",
     "runs of dollar signs are unescaped in pairs, while the serializer escapes each run with one more",
     RT + r"""
from moz.l10n.formats.webext import webext_parse_message
assert webext_parse_message("a $$$$ b", None).pattern == ["a $$$ b"]
""")
seed("p07-bytes-comments", "C07", ("util/loads.py",
     'bytes_comment = compile(rb\'^((?:[^"\\n]|"(?:[^"\\\\\\n]|\\\\.)*")*?)//.*\', MULTILINE)', 'bytes_comment = compile(rb\'^((?:[^"\\n]|"[^"\\n]*")*?)//.*\', MULTILINE)'),
     "bytes with line comments, where a string holds an escaped quote followed by //",
     "the rest of the string is taken as a comment, when reading from a file",
     RT + r"""
src = '{ // c\n"k": {"message": "a \\" // b"}}'
a = parse_resource(Format.webext, src)
b = parse_resource(Format.webext, src.encode())
assert a == b
""")

seed("p08-group-overwritten", "C08", ("formats/fluent/parse.py",
     "            if entries or section.comment:\n", "            if entries:\n"),
     "a group comment directly followed by another group comment",
     "the first of two consecutive group comments is lost",
     RT + r"""
res = parse_resource(Format.fluent, "## A\n\n## B\n\nm = x\n")
assert [s.comment for s in res.sections] == ["A", "B"], res
""")
seed("p08-message-options", "C08", ("formats/fluent/serialize.py",
     '        elif named:\n            raise ValueError("Options on message references are not supported")\n        else:\n',
     '        else:\n'),
     "a message reference with options, which Fluent cannot express",
     "options on message references are dropped silently instead of being refused",
     RT + r"""
msg = PatternMessage([Expression("m", "message", {"a": "1"})])
try:
    out = "".join(serialize_resource(Resource(Format.fluent, [Section((), [Entry(("k",), msg)])])))
except ValueError:
    pass
else:
    raise AssertionError(out)
""")
seed("p20-term-selector-args", "C20", ("formats/fluent/parse.py",
     '        name = "-" + exp.id.name\n        if exp.attribute is not None:\n            name += "." + exp.attribute.name\n',
     '        name = "-" + exp.id.name\n        if exp.attribute is not None:\n            name += "." + exp.attribute.name\n            return Expression(name, "message")\n'),
     "selecting on the same attribute of a term with different arguments",
     "select expressions on a term attribute with arguments are merged with those without",
     RT + r"""
src = "m =\n    { -t.a(b: 1) ->\n        [x] X\n       *[y] Y\n    }\n"
res = parse_resource(Format.fluent, src)
assert "".join(serialize_resource(res)) == src, "".join(serialize_resource(res))
""")
seed("p20-number-keys", "C20", ("formats/fluent/parse.py",
     "        name = v.key.value\n        is_numeric = True\n",
     "        # Consider 1 and 1.0 as the same key\n        name = v.key.value.rstrip(\"0\").rstrip(\".\") or \"0\"\n        is_numeric = True\n"),
     "a numeric variant key that is a multiple of ten",
     "the variant for 10 is read as the one for 1",
     RT + r"""
src = "m =\n    { $x ->\n        [10] ten\n       *[other] o\n    }\n"
res = parse_resource(Format.fluent, src)
assert "".join(serialize_resource(res)) == src, "".join(serialize_resource(res))
""")

seed("p09-array-comment", "C09", ("formats/android/parse.py",
     "                        comment.clear()\n                        idx += 1\n",
     "                        idx += 1\n"),
     "a string array with a comment on an item that is not its last",
     "comments of an earlier item are repeated on the later items of a string array",
     RT + r"""
src = '<resources><string-array name="m"><!-- a --><item>A</item><item>B</item></string-array></resources>'
res = parse_resource(Format.android, src)
assert [e.comment for e in res.sections[0].entries] == ["a", ""], res
""")
seed("p09-entity-percent", "C09", ("formats/android/serialize.py",
     '{"&": "&amp;", "%": "&#37;", \'"\': "&quot;"}', '{"&": "&amp;", \'"\': "&quot;"}'),
     "an entity value with a percent sign",
     "percent signs in entity values are not escaped, so the file is not well-formed",
     RT + r"""
res = Resource(Format.android, [Section(("!ENTITY",), [Entry(("foo",), PatternMessage(["100% x"]))]),
                                Section((), [Entry(("m",), PatternMessage(["a"]))])])
again = parse_resource(Format.android, "".join(serialize_resource(res)))
assert again.sections == res.sections, again
""")
seed("p09-reference-prefix", "C09", ("formats/android/parse.py",
     "resource_ref.fullmatch(el.text)", "resource_ref.match(el.text)"),
     "text that starts like a resource reference",
     "the text following a reference makes it a bad reference, which cannot be serialized",
     RT + r"""
src = '<resources><string name="m">?foo bar</string></resources>'
res = parse_resource(Format.android, src)
assert res.sections[0].entries[0].value == PatternMessage(["?foo bar"]), res
""")

seed("p10-nested-close", "C10", ("formats/xliff/serialize.py",
     "                prev = parent\n                parent = cast(etree._Element, parent.getparent())\n",
     "                prev = parent\n                parent = el\n"),
     "inline elements nested three deep, or followed by text in their parent",
     "text following a nested inline element is moved, or a valid pattern is refused",
     RT + r"""
src = '<xliff version="1.2"><file original="f"><body><trans-unit id="a"><source>s</source><target><g id="1"><g id="2">b</g>c</g></target></trans-unit></body></file></xliff>'
res = parse_resource(Format.xliff, src)
out = "".join(serialize_resource(res))
assert '<g id="1"><g id="2">b</g>c</g>' in out, out
""")
seed("p10-group-notes", "C10", ("formats/xliff/parse.py",
     '            unit_base = f"{name}[{idx}]" if idx > 1 else name\n', '            unit_base = name\n'),
     "a group with more than one note",
     "the notes of a group are merged into one",
     RT + r"""
src = '<xliff version="1.2"><file original="f"><body><group id="g"><note>a</note><note>b</note></group></body></file></xliff>'
res = parse_resource(Format.xliff, src)
out = "".join(serialize_resource(res))
assert "<note>a</note>" in out and "<note>b</note>" in out, out
""")

XC = '<xliff version="1.2"><file original="a.%s"><header><tool tool-id="com.apple.dt.xcode"/></header><body>%s</body></file></xliff>'
XCU = "unit = lambda id, s: f'<trans-unit id=\"{id}\"><source>{s}</source></trans-unit>'\n"
seed("p11-first-argument", "C11", ("formats/xliff/parse_xcode.py",
     'not_first_placeholder = compile(r"%[2-9]\\$")', 'not_first_placeholder = compile(r"%[2-9]\\$[^@]")'),
     "a plural string in which a string argument precedes the number, with explicit indices",
     "a plural message selects on its second argument",
     RT + XCU + "src = " + repr(XC) + " % ('xcstrings', unit('m|==|plural.one', '%2$@ has %1$d') + unit('m|==|plural.other', '%2$@ have %1$d'))\n" + r"""
from moz.l10n.formats.xliff import xliff_parse
msg = xliff_parse(src, source_entries=True).sections[0].entries[0].value
assert msg.selector_expressions()[0].function == "integer", msg
""")
seed("p11-dimension", "C11", ("formats/xliff/parse_xcode.py",
     '            if len(key) == 3 and key[1] == "plural":\n', '            if len(key) == 3:\n'),
     "a substitution which varies by device",
     "device variants of a substitution are read as plural variants, and written as them",
     RT + XCU + "src = " + repr(XC) + " % ('xcstrings', unit('m', '%#@s@') + unit('m|==|substitutions.s.device.other', 'x'))\n" + r"""
from moz.l10n.formats.xliff import xliff_parse
try:
    res = xliff_parse(src, source_entries=True)
except ValueError:
    pass
else:
    assert "s.device.other" in "".join(serialize_resource(res)), res
""")
seed("p11-format-key-late", "C11", ("formats/xliff/parse_xcode.py",
     '            if var_match[1] != prev.var_name:\n                error("Mismatching key values")\n', ''),
     "a stringsdict message with its format key last, for another variable",
     "a format key that does not refer to the variable of the variants is accepted",
     RT + XCU + "src = " + repr(XC) + " % ('stringsdict', unit('/m:dict/v:dict/other:dict/:string', '%d') + unit('/m:dict/NSStringLocalizedFormatKey:dict/:string', '%#@w@'))\n" + r"""
from moz.l10n.formats.xliff import xliff_parse
try:
    res = xliff_parse(src, source_entries=True)
except ValueError:
    pass
else:
    raise AssertionError(res)
""")
MF = """
from moz.l10n.model import *
from moz.l10n.message import *
from moz.l10n.formats.mf2.message_parser import mf2_parse_message, MF2ParseError
from moz.l10n.formats.mf2.serialize import mf2_serialize_message
from moz.l10n.formats.mf2.validate import mf2_validate_message, MF2ValidationError
from moz.l10n.formats.mf2.to_json import mf2_to_json
from moz.l10n.formats.mf2.from_json import mf2_from_json
from moz.l10n.formats import Format
"""
seed("p12-decimal-literal", "C12", ("formats/mf2/serialize.py",
     "    if name_re.fullmatch(literal) or number_re.fullmatch(literal):\n", "    if name_re.fullmatch(literal) or literal.replace(\".\", \"\", 1).isdecimal():\n"),
     "a literal of digits with leading zeros or non-ASCII digits",
     "digits that are not a number literal are written without quotes",
     MF + r"""
for v in ("007", "\u0663", "1."):
    m = PatternMessage([Expression(v)])
    assert mf2_parse_message(mf2_serialize_message(m)) == m, v
""")
seed("p12-empty-attribute", "C12", ("formats/mf2/serialize.py",
     '        yield f" @{name}" if value is True else f" @{name}={_literal(value)}"', '        yield f" @{name}={_literal(value)}" if value and value is not True else f" @{name}"'),
     "an attribute whose value is the empty string",
     "an attribute with an empty value is written as one without a value",
     MF + r"""
m = PatternMessage([Expression("a", None, {}, {"x": ""})])
assert mf2_parse_message(mf2_serialize_message(m)) == m
""")
seed("p13-implicit-declaration", "C13", ("formats/mf2/message_parser.py",
     """            if expr.function:
                for opt_value in expr.options.values():
                    if isinstance(opt_value, VariableRef):
                        declared.add(opt_value.name)
            if name in declared:
                raise MF2ParseError(self, f"Duplicate declaration for ${name}")
            declarations[name] = expr
            declared.add(name)
""", """            if name in declared:
                raise MF2ParseError(self, f"Duplicate declaration for ${name}")
            declarations[name] = expr
            declared.add(name)
            if expr.function:
                for opt_value in expr.options.values():
                    if isinstance(opt_value, VariableRef):
                        declared.add(opt_value.name)
"""),
     "a declaration whose own option refers to the variable it declares",
     "a declaration that refers to itself in an option is accepted",
     MF + r"""
try:
    mf2_parse_message(".local $x = {1 :f a=$x} {{a}}")
except MF2ParseError:
    pass
else:
    raise AssertionError
""")
seed("p13-attribute-mark", "C13", ("formats/mf2/message_parser.py",
     """            if id in attributes:
                raise MF2ParseError(self, f"Duplicate attribute name {id}")
            if self.skip_opt_space() == "=":
                self.pos += 1
                self.skip_opt_space()
""", """            if id in attributes:
                raise MF2ParseError(self, f"Duplicate attribute name {id}")
            if self.skip_opt_space() == "=":
                self.pos += 1
                self.req_space()
"""),
     "a bidirectional mark, without a space, between an attribute's equals sign and its value",
     "a mark before an attribute's value is not skipped, and the message rejected",
     MF + r"""
assert mf2_parse_message("{a @b=\u2068c\u2069}") == PatternMessage([Expression("a", None, {}, {"b": "c"})])
""")
seed("p13-name-range", "C13", ("formats/mf2/validate.py", r"\u037F-\u061B\u061D-\u1FFF", r"\u037F-\u1FFF"),
     "a name with U+061C, the Arabic letter mark", "the mark is taken as part of a name, rather than skipped around it",
     MF + r"""
assert mf2_parse_message("{$a\u061c}") == PatternMessage([Expression(VariableRef("a"))])
""")
seed("p14-empty-operand", "C14", ("message/to_json.py", "    if isinstance(expr.arg, str):\n", "    if expr.arg and isinstance(expr.arg, str):\n"),
     "an expression with an empty literal operand", "the empty literal is dropped from the JSON",
     MF + r"""
m = PatternMessage([Expression("", "f")])
assert message_from_json(message_to_json(m)) == m
""")
seed("p14-empty-text-value", "C14", ("message/to_json.py", "        or entry.value.pattern\n", "        or any(entry.value.pattern)\n"),
     "an entry with properties whose value is a single empty text", "the value is read back as an empty pattern, rather than an empty text",
     MF + r"""
e = Entry(("a",), PatternMessage([""]), properties={"p": PatternMessage(["b"])})
assert entry_from_json(*entry_to_json(e)) == e
""")
seed("p14-mf2-options", "C14", ("formats/mf2/from_json.py", 'options = _options(json_func["options"]) if "options" in json_func else {}',
     'options = _options(json_func["options"]) if arg is not None and "options" in json_func else {}'),
     "a function with options and no operand", "options of a function without an operand are lost",
     MF + r"""
m = PatternMessage([Expression(None, "f", {"b": "c"})])
assert mf2_from_json(mf2_to_json(m)) == m
""")
seed("p15-last-selector", "C15", ("formats/mf2/validate.py", """            if sel_expr is None:
                raise MF2ValidationError(
                    msg, f"Missing selector annotation for ${sel.name}"
                )
""", """        if sel_expr is None:
            raise MF2ValidationError(msg, f"Missing selector annotation for ${sel.name}")
"""),
     "two selectors, of which the first has no annotation", "only the last selector's annotation is checked",
     MF + r"""
m = SelectMessage({"x": Expression("a"), "y": Expression("b", "f")}, (VariableRef("x"), VariableRef("y")), {(CatchallKey(), CatchallKey()): []})
try:
    mf2_validate_message(m)
except MF2ValidationError:
    pass
else:
    raise AssertionError
""")
seed("p15-deep-cycle", "C15", ("formats/mf2/validate.py", """            for dep in dependencies[name]:
                if dep not in res:
                    res.add(dep)
                    deep_dependencies(dep, res)
""", """            for dep in dependencies[name]:
                if dep not in res:
                    res.add(dep)
                    res.update(dependencies.get(dep, ()))
"""),
     "a cycle of four declarations", "a cycle of more than a few declarations is not found",
     MF + r"""
m = PatternMessage([], {a: Expression(VariableRef(b)) for a, b in ("ab", "bc", "cd", "de", "ef", "fg", "gh", "ha")})
try:
    mf2_validate_message(m)
except MF2ValidationError:
    pass
else:
    raise AssertionError
""")
seed("p17-second-new", "C17", ("resource/add_entries.py", "                        prev_pos[0].entries.insert(idx, entry)\n                        prev_pos = (prev_pos[0], idx)\n", "                        prev_pos[0].entries.insert(idx, entry)\n"),
     "two new entries that follow a shared one", "new entries are added in reverse order",
     RT + r"""
from moz.l10n.resource import add_entries
def e(c): return Entry((c,), PatternMessage([c]))
t = Resource(None, [Section((), [e("a"), e("z")])])
add_entries(t, Resource(None, [Section((), [e("a"), e("b"), e("c")])]))
assert [x.id[0] for x in t.sections[0].entries] == list("abcz")
""")
seed("p17-section-order", "C17", ("resource/add_entries.py", "            cur_tgt_section = replace(src_section, entries=new_entries)\n            target.sections.insert(idx, cur_tgt_section)", "            target.sections.insert(idx, replace(src_section, entries=new_entries))"),
     "two new sections after a shared one", "new sections are added in reverse order",
     RT + r"""
from moz.l10n.resource import add_entries
def e(c): return Entry((c,), PatternMessage([c]))
t = Resource(None, [Section(("x",), [e("a")])])
add_entries(t, Resource(None, [Section(("x",), [e("a")]), Section(("y",), [e("a")]), Section(("z",), [e("a")])]))
assert [s.id[0] for s in t.sections] == list("xyz"), t.sections
""")
seed("p17-comment-position", "C17", ("resource/add_entries.py", "                        for i, e in enumerate(s.entries)\n                        if isinstance(e, Entry) and e.id == entry.id", "                        for i, e in enumerate(s.all_entries())\n                        if e.id == entry.id") if False else
     ("resource/add_entries.py", "if prev_pos and prev_pos[0].comment == sc:", "if prev_pos and prev_pos[0].id == src_section.id:"),
     "a new entry after a shared one that is in a section with another comment", "the new entry is added to a section with another comment",
     RT + r"""
from moz.l10n.resource import add_entries
def e(c): return Entry((c,), PatternMessage([c]))
t = Resource(None, [Section(("x",), [e("a")], comment="t")])
add_entries(t, Resource(None, [Section(("x",), [e("a"), e("b")], comment="s")]))
assert [s.comment for s in t.sections] == ["t", "s"], t.sections
""")
seed("p18-resource-meta-order", "C18", ("resource/l10n_equal.py", "        and l10n_meta(a) == l10n_meta(b)\n", "        and sorted(m.key for m in a.meta) == sorted(m.key for m in b.meta)\n        and a.meta[:1] == b.meta[:1]\n"),
     "resources with several metadata items", "the resource metadata's values are not compared after the first, and its order matters",
     RT + r"""
from moz.l10n.resource import l10n_equal
def r(*vs): return Resource(None, [], meta=[Metadata(*v) for v in vs])
assert not l10n_equal(r("mx", "n1"), r("mx", "n2"))
assert l10n_equal(r("mx", "n1"), r("n1", "mx"))
""")
seed("p19-argument-and-option", "C19", ("model.py", """            yield self.arg
        for opt in self.options.values():
            if isinstance(opt, VariableRef):
                yield opt
""", """            yield self.arg
            return
        for opt in self.options.values():
            if isinstance(opt, VariableRef):
                yield opt
"""),
     "an expression with variables both as its operand and as an option", "the declaration of a variable used only as an option is dropped",
     RT + r"""
m = PatternMessage([Expression(VariableRef("x"), "f", {"o": VariableRef("y")})], {"y": Expression("1", "g")})
assert "y" in m.normalize().declarations
""")
seed("p19-second-selector", "C19", ("model.py", "        var_refs = set(sel.name for sel in self.selectors)\n", "        var_refs = {self.selectors[0].name}\n"),
     "a message with two selectors", "the declaration of the second selector is dropped",
     RT + r"""
m = SelectMessage({"x": Expression("1", "g"), "y": Expression("1", "g")}, (VariableRef("x"), VariableRef("y")), {(CatchallKey(), CatchallKey()): []})
assert len(m.normalize().declarations) == 2
""")
seed("p16-webext-string", "C16", ("formats/webext/serialize.py", """                    if not trim_comments and entry.comment:
                        res[name]""", """                    if entry.comment:
                        res[name]"""),
     "a webext entry with a string value", "the description of a string value is written also when trimming comments",
     RT + r"""
res = Resource(Format.webext, [Section((), [Entry(("a",), "b", comment="zqx")])])
assert "zqx" not in "".join(serialize_resource(res, trim_comments=True))
""")
seed("p18-empty-string-value", "C18", ("resource/l10n_equal.py", "        if isinstance(entry, Entry)\n", "        if isinstance(entry, Entry) and (entry.value or entry.comment)\n"),
     "an entry whose value is an empty string", "entries with an empty string value are ignored",
     RT + r"""
from moz.l10n.resource import l10n_equal
def r(*ids): return Resource(None, [Section((), [Entry((i,), "") for i in ids])])
assert not l10n_equal(r("a"), r("b"))
""")
seed("p19-empty-at-end", "C19", ("util/normalize.py", "    while i < len(pattern):\n", "    while i < len(pattern) - (len(pattern) > 2 and not pattern[-1] and not isinstance(pattern[-2], str)):\n"),
     "an empty text at the end, after a placeholder", "the empty text at the end is kept",
     RT + r"""
m = PatternMessage(["a", Expression(VariableRef("x")), ""])
assert len(m.normalize().pattern) == 2
""")
seed("p16-second-note", "C16", ("formats/xliff/serialize.py", """            if not trim_comments or name != "note":""", """            if not trim_comments or key != "note":"""),
     "a note with attributes in an XLIFF unit", "a note with attributes is written also when trimming comments",
     RT + r"""
src = '<xliff version="1.2" xmlns="urn:oasis:names:tc:xliff:document:1.2"><file original="f" source-language="en"><body><trans-unit id="a"><source>b</source><note from="zqx">c</note></trans-unit></body></file></xliff>'
assert "zqx" not in "".join(serialize_resource(parse_resource(Format.xliff, src), trim_comments=True))
""")
seed("p16-fluent-groups", "C16", ("formats/fluent/serialize.py", "if (not trim_comments and idx != 0) or section_comment:", "if (not trim_comments or len(resource.sections) > 2) and idx != 0 or section_comment:"),
     "more than two sections in a Fluent resource", "empty group comments are written when trimming comments",
     RT + r"""
res = parse_resource(Format.fluent, "a = 1\n\n## g\n\nb = 2\n\n## h\n\nc = 3\n")
assert "#" not in "".join(serialize_resource(res, trim_comments=True))
""")
TREE = r"""
import os, sys, tempfile, atexit, shutil
from moz.l10n.paths import *
from moz.l10n.util import walk_files
tmp = os.path.realpath(tempfile.mkdtemp())
atexit.register(shutil.rmtree, tmp, True)
def put(*files):
    for f in files:
        p = os.path.join(tmp, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").close()
def cfg(toml, **kw):
    return L10nConfigPaths(os.path.join(tmp, "l10n.toml"), cfg_load=lambda p: toml, **kw)
"""
seed("p21-var-span", "C21", ("paths/config.py", "                    if match.span(idx + 1) not in var_spans\n", "                    if group not in vars.values()\n"),
     "a part matched by a wildcard equal to the locale", "the wildcard's part is lost when looking up the reference",
     TREE + r"""
put("en/fr.ftl")
c = cfg({"paths": [{"reference": "en/*.ftl", "l10n": "{locale}/*.ftl"}]})
assert c.find_reference("fr/fr.ftl") == (os.path.join(tmp, "en/fr.ftl"), {"locale": "fr"})
""")
seed("p22-base-in-reference", "C22", ("paths/discover.py", "            if not _dir_contains(self._ref_root, bd)\n", "            if self._ref_root != bd\n"),
     "directories named as locales in a subdirectory of the reference directory", "a directory within the reference is used as the base",
     TREE + r"""
put("r/en-US/x/ab/a.ftl", "r/en-US/x/cd/a.ftl", "r/fr/a.ftl")
p = L10nDiscoverPaths(tmp)
assert p.base == os.path.join(tmp, "r") and p.locales == ["fr"], (p.base, p.locales)
""")
seed("p22-separator-tie", "C22", ("paths/discover.py", "                > sum(\"-\" in dir for dir in locale_dirs_)\n", "                >= sum(\"-\" in dir for dir in locale_dirs_)\n"),
     "as many locale directories with underscores as with hyphens", "an underscore is used for a locale without a directory",
     TREE + r"""
put("en/a.ftl", "pt-BR/a.ftl", "zh_TW/a.ftl")
p = L10nDiscoverPaths(tmp)
assert p.format_target_path(os.path.join(tmp, "{locale}/a.ftl"), "es-MX").endswith("/es-MX/a.ftl")
""")
seed("p22-replace-all", "C22", ("paths/discover.py", "        for ref_path in self.ref_paths:\n            target = ref_path.replace(self._ref_root, locale_root, 1)\n            if target.endswith(\".pot\"):", "        for ref_path in self.ref_paths:\n            target = ref_path.replace(self._ref_root, locale_root)\n            if \".pot\" in target:"),
     "a reference file with .pot within its name", "the last character of the target's name is dropped",
     TREE + r"""
put("en/a.pot.ftl", "fr/a.ftl")
p = L10nDiscoverPaths(tmp)
assert [t for _, t in p.all()] == [os.path.join(tmp, "{locale}/a.pot.ftl")], p.all()
""")
seed("p23-index", "C23", ("util/walk_files.py", "                if check_match(ignore, rp, is_dir=True):\n", "                if check_match(ignore, rp):\n"),
     "a rule for directories only, with a directory of the name", "directories are not excluded by rules that end with /",
     TREE + r"""
put("b/a.ftl", "c/a.ftl")
open(os.path.join(tmp, ".l10n-ignore"), "w").write("b/\n")
assert [os.path.relpath(f, tmp) for f in walk_files(tmp)] == ["c/a.ftl"]
""")
seed("p24-region", "C24", ("paths/android_locale.py", "    if len(rest) == 1 and fullmatch(r\"[A-Z]{2}\", rest[0]):", "    if len(rest) == 1 and fullmatch(r\"[A-Z]{2}|[0-9]{3}\", rest[0]):"),
     "a numeric region", "the code for es-419 is es-r419, which is not valid",
     TREE + r"""
assert parse_android_locale(get_android_locale("es-419")) == "es-419"
""")
seed("p24-legacy-three", "C24", ("paths/android_locale.py", "        m = fullmatch(r\"([a-z]{2,3})(?:-r([A-Z]{2}))?\", alocale)", "        m = fullmatch(r\"([a-z]{2,3}?)(?:-?r([A-Z]{2}))?\", alocale.strip())"),
     "a qualifier with surrounding whitespace, or without a hyphen", "invalid qualifiers are accepted",
     TREE + r"""
assert parse_android_locale("en ") is None
""")
seed("p23-dir-separately", "C23", ("util/walk_files.py", "            idx = len(dirnames) - 1\n            while idx >= 0:", "            idx = len(dirnames) - 1\n            while idx >= (dirpath != root and len(dirnames) > 2):"),
     "an ignored directory that is listed first of three or more in a subdirectory", "files in an ignored directory are listed",
     TREE + r"""
put(*(f"x/{d}{i}/a.ftl" for d in "bc" for i in range(9)))
open(os.path.join(tmp, ".l10n-ignore"), "w").write("b*\n")
assert len(list(walk_files(tmp))) == 9
""")

MIG = TREE + r"""
import logging
logging.disable(logging.CRITICAL)
from moz.l10n.migrate import *
from moz.l10n.migrate import Migrate, copy, entry
from moz.l10n.model import *
from moz.l10n.resource import parse_resource
def write(**files):
    for f, s in files.items():
        f = f.replace("__", "/").replace("_", ".")
        put(f)
        with open(os.path.join(tmp, f), "wb") as file:
            file.write(s.encode() if isinstance(s, str) else s)
def text(f):
    with open(os.path.join(tmp, f)) as file:
        return file.read()
"""
seed("p25-prev-ids", "C25", ("migrate/utils.py", "        if self.target_id:\n            self._prev_ids.append(self.target_id)", "        if self.target_id:\n            self._prev_ids = [self.target_id]"),
     "an entry not added directly before, with one added earlier", "entries are added at the end rather than after the preceding one",
     MIG + r"""
write(en__a_ftl="a = A\nz = Z\n", fr__a_ftl="a = A\nz = Z\n")
Migrate({"a.ftl": {"b": copy(None, "a"), "c": lambda r, c: None, "d": entry("D")}}, tmp).apply()
assert parse_resource(os.path.join(tmp, "fr/a.ftl")).sections[0].entries[2].id == ("d",), text("fr/a.ftl")
""")
seed("p25-partial", "C25", ("migrate/__init__.py", "            if not allow_partial and value is not None:", "            if not allow_partial and value is not None and not properties:"),
     "an entry with properties, whose value is missing", "an entry with only some of its parts is added",
     MIG + r"""
write(en__a_ftl="a = A\nb = B\n", fr__a_ftl="a = A\n")
Migrate({"a.ftl": {"c": entry(copy(None, "b"), {"x": copy(None, "a")})}}, tmp).apply()
assert text("fr/a.ftl") == "a = A\n", text("fr/a.ftl")
""")
seed("p26-migrate-parse-error", "C26", ("migrate/utils.py", "        except Exception:\n            log.debug(f\"Parse error: {tgt_path}\", exc_info=True)\n            res = None", "        except Exception:\n            log.debug(f\"Parse error: {tgt_path}\", exc_info=True)\n            from moz.l10n.formats import detect_format\n\n            res = Resource(detect_format(tgt_path), [Section((), [])])"),
     "a target file which cannot be parsed", "a target file that cannot be parsed is overwritten",
     MIG + r"""
write(en__a_ftl="a = A\n", fr__a_ftl="a = { A\n")
try:
    Migrate({"a.ftl": {"c": entry("C")}}, tmp).apply()
except Exception:
    pass
assert text("fr/a.ftl") == "a = { A\n", text("fr/a.ftl")
""")
seed("p27-extra-attr", "C27", ("bin/build.py", "                        for name in set(lk).difference(sk):\n                            del l10n_entry.properties[name]\n", "                        for name in list(set(lk).difference(sk))[:1]:\n                            del l10n_entry.properties[name]\n"),
     "a translation with two more attributes than the reference", "attributes unknown to the reference are included in built files",
     MIG + r"""
from moz.l10n.bin.build import write_target_file
write(en_ftl="a = A\n", fr_ftl="a = A\n    .x = X\n    .y = Y\n")
write_target_file("n", parse_resource(tmp + "/en.ftl"), tmp + "/fr.ftl", tmp + "/o.ftl")
assert text("o.ftl") == "a = A\n", text("o.ftl")
""")

seed("p25-shared-copy", "C25", ("migrate/__init__.py", "            pattern = deepcopy(pattern)\n", "            pattern = list(pattern)\n"),
     "a copy of one variant with placeholders changed in place", "the source entry of a copy is changed as well",
     MIG + r"""
src = "a =\n    { $n ->\n       *[other] A { $x }\n    }\n"
write(en__a_ftl=src, fr__a_ftl=src)
def repl(ph):
    if isinstance(ph, Expression):
        ph.arg = VariableRef("y")
Migrate({"a.ftl": {"c": copy(None, "a", variant="one", replace=repl)}}, tmp).apply()
assert "A { $x }\n" in text("fr/a.ftl"), text("fr/a.ftl")
""")
seed("p26-fix-in-place", "C26", ("bin/fix.py", "            next = bytearray()\n            for line in serialize_resource(res):\n                next.extend(line.encode(\"utf-8\"))\n            if next == prev:", "            next = bytearray()\n            for line in serialize_resource(res):\n                next.extend(line.encode(\"utf-8\"))\n                if not prev.startswith(next):\n                    file.seek(0)\n                    file.truncate()\n                    file.write(next)\n            if next == prev:"),
     "an entry which cannot be written, after one whose formatting changes", "a file is partly overwritten when fixing it fails",
     MIG + r"""
from moz.l10n.bin.fix import fix
src = "a=x\nb=\\ud800\n"
write(j_properties=src)
fix([os.path.join(tmp, "j.properties")])
assert text("j.properties") == src, text("j.properties")
""")
seed("p27-section-meta", "C27", ("bin/build.py", "        l10n_res.sections = []\n", "        l10n_res.sections = [s for s in l10n_res.sections if s.id and not s.entries]\n"),
     "an empty section in a localization file", "sections unknown to the reference are included, or doubled",
     MIG + r"""
from moz.l10n.bin.build import write_target_file
write(en_ini="[S]\na=A\n", fr_ini="[X]\n[S]\na=B\n")
write_target_file("n", parse_resource(tmp + "/en.ini"), tmp + "/fr.ini", tmp + "/o.ini")
assert "X" not in text("o.ini"), text("o.ini")
""")
seed("p27-fallback-order", "C27", ("bin/build.py", "        msg_delta += 1\n        missing_ids.append(missing_id(id))\n        return source_entry\n", "        msg_delta += 1\n        missing_ids.append(missing_id(id))\n        return None if source_entry.value.is_empty() else source_entry\n"),
     "a missing translation of a reference entry that is empty", "entries without a value are left out of built files",
     MIG + r"""
from moz.l10n.bin.build import write_target_file
write(en_properties="a=\nb=B\n", fr_properties="b=C\n")
write_target_file("n", parse_resource(tmp + "/en.properties"), tmp + "/fr.properties", tmp + "/o.properties")
assert "a =" in text("o.properties"), text("o.properties")
""")

seed("p28-section-ids", "C28", ("bin/compare.py", "        \".\".join(section.id + entry.id)\n", "        \".\".join(entry.id)\n"),
     "the same key in two sections, translated in only one of them", "a message missing from one section is not reported if another has it",
     MIG + r"""
from click.testing import CliRunner
from moz.l10n.bin.compare import cli
write(en__a_ini="[S]\na=A\n[T]\na=B\n", fr__a_ini="[S]\na=A\n")
r = CliRunner().invoke(cli, ["--source", tmp + "/en", tmp + "/fr"])
assert "fr: -1" in r.output, r.output
""")
seed("p28-unsupported-target", "C28", ("bin/compare.py", "        except FileNotFoundError:\n", "        except (FileNotFoundError, UnsupportedFormat):\n"),
     "a JSON target file which is broken", "its messages are reported as missing rather than its error",
     MIG + r"""
from click.testing import CliRunner
from moz.l10n.bin.compare import cli
write(en__a_json='{"a": "A"}', fr__a_json='{"a": "A"')
r = CliRunner().invoke(cli, ["--source", tmp + "/en", tmp + "/fr"])
assert "fr: 0" in r.output and "a.json" in r.output, r.output
""")
seed("p28-ext", "C28", ("bin/compare.py", "        excluded = ext_exclude and any(path.endswith(ext) for ext in ext_exclude)\n", "        excluded = ext_exclude and any(ext in path for ext in ext_exclude)\n"),
     "an excluded extension which is part of the name of another file", "files with other extensions are left out of the comparison",
     MIG + r"""
from click.testing import CliRunner
from moz.l10n.bin.compare import cli
write(en__ini__a_ftl="a = A\n", en__a_ini_ftl="a = A\n", fr__b_ftl="b = B\n")
r = CliRunner().invoke(cli, ["--ext", "!ini", "--source", tmp + "/en", tmp + "/fr"])
assert "fr: -2" in r.output, r.output
""")
seed("p29-decode", "C29", ("bin/fix.py", "            res = parse_resource(path, prev)\n", "            res = parse_resource(path, prev.decode(\"utf-8\", \"replace\"))\n"),
     "a file which is not in UTF-8", "a file that cannot be parsed is overwritten with replacement characters",
     MIG + r"""
from moz.l10n.bin.fix import fix
p = os.path.join(tmp, "a.ini")
src = b"[S]\na = \xff\n"
with open(p, "wb") as f:
    f.write(src)
fix([p])
with open(p, "rb") as f:
    assert f.read() == src
""")
seed("p29-comment-indent", "C29", ("formats/properties/serialize.py", "            for line in comment.strip(\"\\n\").split(\"\\n\"):\n", "            for line in comment.strip().split(\"\\n\"):\n"),
     "a comment whose first line is indented", "the indentation of comments is lost when fixing",
     MIG + r"""
from moz.l10n.bin.fix import fix
write(a_properties="#   x\n#   y\na=A\n")
fix([os.path.join(tmp, "a.properties")])
assert text("a.properties") == "#   x\n#   y\na = A\n", text("a.properties")
""")
seed("p29-fail-stop", "C29", ("bin/fix.py", "            if not continue_on_error:\n                break\n", "            if not continue_on_error and not fixed:\n                break\n"),
     "a broken file between others, of which the first needs fixing", "files after one that failed are still fixed",
     MIG + r"""
from moz.l10n.bin.fix import fix
src = "[S]\na  =  A\n"
write(a_ini=src, b_xml="<resources>", c_ini=src)
fix([os.path.join(tmp, f) for f in ("a.ini", "b.xml", "c.ini")])
one = text("a.ini")
assert one != src
assert text("c.ini") == src, text("c.ini")
""")
seed("p30-encoding", "C30", ("bin/lint.py", "    except (UnsupportedFormat, UnicodeDecodeError):\n        log.warning(f\"unsupported {log_path}\")\n        return Result.UNSUPPORTED\n", "    except (UnsupportedFormat, UnicodeDecodeError) as error:\n        log.warning(f\"unsupported {log_path}\")\n        if skip_unknown and isinstance(error, UnicodeDecodeError):\n            return Result.SKIP\n        return Result.UNSUPPORTED\n"),
     "a localization file in another encoding, while skipping unknown files", "linting succeeds with a file that cannot be read",
     MIG + r"""
from moz.l10n.bin.lint import lint
p = os.path.join(tmp, "a.ini")
with open(p, "wb") as f:
    f.write(b"[S]\na = \xff\n")
assert lint([p], skip_unknown=True) == 1
""")
seed("p30-skip", "C30", ("bin/lint.py", "    if skip_unknown and splitext(path)[1] not in l10n_extensions:\n", "    if skip_unknown and splitext(log_path)[1] not in (*l10n_extensions, \"\"):\n"),
     "a file without an extension", "unknown files without an extension are not skipped",
     MIG + r"""
from moz.l10n.bin.lint import lint
write(LICENSE="a = A\n")
assert lint([tmp + "/LICENSE"], skip_unknown=True) == 0
""")
seed("p31-empty-message", "C31", ("formats/__init__.py", "    has_message = False\n", "    has_message = not obj\n"),
     "a JSON object which holds only empty objects", "plain JSON is taken for WebExtension messages, which cannot be parsed",
     RT + r"""
from moz.l10n.formats import Format, detect_format
src = '{"a": {}}'
assert detect_format("a.json", src) == Format.plain_json
parse_resource("a.json", src)
""")
seed("p31-xml-root", "C31", ("formats/__init__.py", "        return Format.android if xml_root.tag == \"resources\" else None\n", "        return Format.android if xml_root.tag.endswith(\"resources\") else None\n"),
     "XML with another root whose name ends in the same word", "other XML is recognized as Android strings, and cannot be parsed",
     RT + r"""
from moz.l10n.formats import detect_format
for root in ("x:resources xmlns:x='urn:x'", "my-resources"):
    assert detect_format("a.xml", f"<{root}><string name='a'>x</string></{root.split()[0]}>") is None
""")
seed("p31-json-comment", "C31", ("util/loads.py", "bytes_comment = compile(rb'^((?:[^\"\\n]|\"(?:[^\"\\\\\\n]|\\\\.)*\")*?)//.*', MULTILINE)", "bytes_comment = compile(rb'^((?:[^\"\\n]|\"(?:[^\"\\\\\\n]|\\\\.)*\")*)//.*', MULTILINE)"),
     "a line comment with another // in it, in bytes", "the first part of the comment is left, and the file is not valid JSON",
     RT + r"""
from moz.l10n.formats import Format, detect_format
src = '{"a": {"message": "x"}\n// see https://x.org // y\n}'
assert detect_format("messages.json", src) == Format.webext
assert detect_format("messages.json", src.encode()) == Format.webext
""")
seed("p32-percent-width", "C32", ("util/printf.py", "            yield Expression(\"%\", attributes={\"source\": source})\n", "            yield Expression(\"%\", attributes={\"source\": \"%%\"})\n"),
     "an escaped percent sign with flags or a width", "the flags and width are dropped",
     RT + r"""
from moz.l10n.formats import Format
from moz.l10n.message import parse_message, serialize_message
src = "a %5% b"
m = parse_message(Format.gettext, src, printf_placeholders=True)
assert serialize_message(Format.gettext, m) == src, m
""")
seed("p32-declarations", "C32", ("message/serialize.py", "    elif not isinstance(msg, PatternMessage) or msg.declarations:\n", "    elif not isinstance(msg, PatternMessage):\n"),
     "a message with declarations in a format that has none", "the declarations are dropped silently",
     RT + r"""
from moz.l10n.formats import Format
from moz.l10n.message import parse_message, serialize_message
m = parse_message(Format.mf2, ".local $x = {1 :number}\n{{a}}")
try:
    s = serialize_message(Format.gettext, m)
except ValueError:
    pass
else:
    raise AssertionError(s)
""")
seed("p33-cr-continuation", "C33", ("formats/properties/parse.py", "                        self.line_pos += 1\n                        end = start + idx - 1\n                        lines.append(self.source[line_start:end])\n                        at_cr = ch == \"\\r\"\n", "                        end = start + idx - 1\n                        lines.append(self.source[line_start:end])\n                        at_cr = ch == \"\\r\"\n                        if not at_cr:\n                            self.line_pos += 1\n"),
     "a value continued over CRLF lines, and an entry after it", "the positions of all later entries are too small",
     RT + r"""
from moz.l10n.formats import Format
for nl in ("\n", "\r\n", "\r"):
    res = parse_resource(Format.properties, "a = A\\\n  B\nb = C\n".replace("\n", nl))
    assert res.sections[0].entries[1].linepos.key == 3, nl
""")
seed("p33-comment-end", "C33", ("formats/properties/parse.py", "                    comment_linepos.end = line + 1\n", "                    comment_linepos.end = max(comment_linepos.key + 1, line)\n"),
     "a standalone comment of more than two lines", "the end of the comment is one line too early",
     RT + r"""
from moz.l10n.formats import Format
res = parse_resource(Format.properties, "a = A\n\n# 1\n# 2\n# 3\n\nb = B\n")
assert res.sections[0].entries[1].linepos.end == 6
""")
seed("p34-placeholders-lower", "C34", ("formats/webext/parse.py", "    ph_data = (\n        {k.lower(): v for k, v in placeholders.items()}\n        if placeholders is not None\n        else {}\n    )\n", "    ph_data = placeholders if placeholders is not None else {}\n    for k in list(ph_data):\n        ph_data[k.lower()] = ph_data.pop(k)\n"),
     "placeholders with capitals in their names", "the placeholders that are given to a parser are renamed",
     RT + r"""
from moz.l10n.message import parse_message
phs = {"Foo": {"content": "$1"}}
parse_message(Format.webext, "a $foo$", webext_placeholders=phs)
assert list(phs) == ["Foo"], phs
""")
seed("p34-shared-options", "C34", [("formats/mf2/from_json.py", "        options = {}\n    if arg is None and", "        options = _no_options\n    if arg is None and"), ("formats/mf2/from_json.py", "def _expression(json: dict[str, Any]) -> Expression:\n", "_no_options: dict[str, str | VariableRef] = {}\n\n\ndef _expression(json: dict[str, Any]) -> Expression:\n")],
     "setting an option of an expression without a function, and reading another message", "messages share their options",
     RT + r"""
from moz.l10n.formats.mf2 import mf2_from_json, mf2_parse_message, mf2_to_json
json = mf2_to_json(mf2_parse_message("{$x}"))
a = mf2_from_json(json)
a.pattern[0].function = "number"
a.pattern[0].options["style"] = "percent"
assert mf2_from_json(json).pattern[0].options == {}
""")
seed("p34-add-section", "C34", ("resource/add_entries.py", "            cur_tgt_section = replace(src_section, entries=new_entries)\n", "            cur_tgt_section = src_section\n            cur_tgt_section.entries = new_entries\n"),
     "adding a section of which some entries are there already, or which has comments", "the source resource loses entries and comments",
     RT + r"""
from moz.l10n.resource import add_entries
src = parse_resource(Format.ini, "[S]\na = A\n\n# c\n\nb = B\n")
tgt = parse_resource(Format.ini, "[T]\na = A\n")
n = len(src.sections[0].entries)
add_entries(tgt, src)
assert len(src.sections[0].entries) == n, src
""")
seed("p35-has-empty", "C35", ("model.py", "            m.key == key and (value is None or m.value == value) for m in self.meta\n", "            m.key == key and (not value or m.value == value) for m in self.meta\n"),
     "testing for an item with an empty value", "items with other values are found",
     RT + r"""
e = Entry(("a",), "", meta=[Metadata("k", "x")])
assert not e.has_meta("k", "")
""")
seed("p35-set-replace", "C35", ("model.py", "        if prev is None:\n            self.meta.append(Metadata(key, value))\n", "        if not prev or not prev.value:\n            self.meta.append(Metadata(key, value))\n"),
     "setting an item that is there with an empty value", "a second item is added and getting the key still gives an empty value",
     RT + r"""
e = Entry(("a",), "", meta=[Metadata("k", "")])
e.set_meta("k", "y")
assert e.get_meta("k") == "y"
""")
seed("p36-properties-prefix", "C36", ("formats/properties/serialize.py", """        id_prefix = ".".join(section.id) + "." if section.id else ""
""", """        id_prefix = ".".join(section.id[:2]) + "." if section.id else ""
"""),
     "a resource with sections of three identifier parts, written as .properties", "the third part of the identifiers is left out of the keys",
     RT + r"""
res = parse_resource(Format.xliff, '<xliff version="1.2" xmlns="urn:oasis:names:tc:xliff:document:1.2"><file original="f"><body><group id="g"><group id="h"><trans-unit id="a"><source>A</source></trans-unit></group></group></body></file></xliff>', xliff_source_entries=True)
out = "".join(serialize_resource(Resource(Format.properties, [Section(("f", "g", "h"), [Entry(("a",), PatternMessage(["A"]))])]), Format.properties))
assert [e.id for s in parse_resource(Format.properties, out).sections for e in s.entries] == [("f.g.h.a",)], out
""")
seed("p36-gettext-id", "C36", ("formats/gettext/serialize.py", "                if len(entry.id) not in (1, 2):\n", "                if len(entry.id) == 0:\n"),
     "an entry with an identifier of three parts, written as .po", "the third part is dropped rather than refused",
     RT + r"""
res = Resource(Format.gettext, [Section((), [Entry(("a", "b", "c"), PatternMessage(["A"]))])])
try:
    out = "".join(serialize_resource(res, Format.gettext))
except ValueError:
    raise SystemExit(0)
assert False, out
""")
seed("p36-gettext-context", "C36", ("formats/gettext/serialize.py", "                context = entry.id[1] if len(entry.id) == 2 else None\n", "                context = (entry.id[1] or None) if len(entry.id) == 2 else None\n"),
     "an entry with an empty second identifier part, written as .po", "the empty context is lost, so that two entries get the same identifier",
     RT + r"""
res = Resource(Format.gettext, [Section((), [Entry(("a", ""), PatternMessage(["A"])), Entry(("a",), PatternMessage(["B"]))])])
out = "".join(serialize_resource(res, Format.gettext))
assert [e.id for s in parse_resource(Format.gettext, out).sections for e in s.entries] == [("a", ""), ("a",)], out
""")
seed("p36-inc-empty", "C36", ("formats/inc/serialize.py", "            if isinstance(entry, Entry):\n", "            if isinstance(entry, Entry) and entry.value == \"\":\n                pass\n            elif isinstance(entry, Entry):\n"),
     "a string resource with an empty value, written as .inc", "the entry is left out",
     RT + r"""
res = Resource(Format.inc, [Section((), [Entry(("a",), ""), Entry(("b",), "B")])])
out = "".join(serialize_resource(res, Format.inc))
assert [e.id for s in parse_resource(Format.inc, out).sections for e in s.entries] == [("a",), ("b",)], out
""")
REFUSED = RT + r"""
def refused(format, src):
    try:
        res = parse_resource(format, src)
    except ValueError:
        return
    assert False, res
"""
seed("p37-fluent-args", "C37", ("formats/fluent/parse.py", "        if len(exp.arguments.positional) > 1:\n", "        if len(exp.arguments.positional) > 1 and all(isinstance(x, ftl.Placeable) for x in exp.arguments.positional[1:]):\n"),
     "a Fluent function with a second positional argument", "it is silently dropped",
     REFUSED + r"""
refused(Format.fluent, "a = { FUN($x, $y) }\n")
refused(Format.fluent, "a = { FUN(1, 2, k: 3) }\n")
""")
seed("p37-xliff-tail", "C37", ("formats/xliff/parse.py", "                if unit.tail and not unit.tail.isspace():\n                    raise ValueError(f\"Unexpected text in <body>: {unit.tail}\")\n", "                if unit.text and not unit.text.isspace() and unit.tag is not etree.Comment:\n                    raise ValueError(f\"Unexpected text in <body>: {unit.text}\")\n"),
     "text between the units of an XLIFF file", "it is silently dropped",
     REFUSED + r"""
refused(Format.xliff, '<xliff version="1.2"><file original="f"><body><trans-unit id="a"><source>A</source></trans-unit>text</body></file></xliff>')
""")
seed("p37-plural-quantity", "C37", ("formats/android/parse.py", "            if key not in plural_categories:\n", "            if not key:\n                continue\n            if key not in plural_categories:\n"),
     "a plurals item without a quantity", "its text is silently dropped",
     REFUSED + r"""
refused(Format.android, '<resources><plurals name="a"><item>A</item><item quantity="other">B</item></plurals></resources>')
refused(Format.android, '<resources><plurals name="a"><item quantity="">A</item><item quantity="other">B</item></plurals></resources>')
""")
seed("p37-dtd-rest", "C37", ("formats/dtd/parse.py", "        if rest and not rest.isspace():\n", "        if rest and not rest.isspace() and not pos:\n"),
     "a DTD file with unsupported content after a reference to another", "the content is silently dropped",
     REFUSED + r"""
refused(Format.dtd, '<!ENTITY % brand SYSTEM "chrome://b">\n%brand;\n<!ENTITY a>\n<!ENTITY b "B">\n')
""")
seed("p03-directive-comment", "C03", ("formats/inc/parse.py", "            elif line.startswith(\"#\"):\n                if comment:\n", "            elif line.startswith(\"#\"):\n                if comment and len(entries) > 1:\n"),
     "a comment near the start of an .inc file, right before a directive", "the comment is attached to a later entry, or lost",
     REFUSED + r"""
res = parse_resource(Format.inc, "# x\n\n# one\n#filter emptyLines\n\n#define a A\n#unfilter emptyLines\n")
assert [e.comment for e in res.sections[0].entries if isinstance(e, Comment)] == ["x", "one", "#filter emptyLines", "#unfilter emptyLines"], res
""")
MJ = r"""
from moz.l10n.formats.mf2.from_json import mf2_from_json
from moz.l10n.formats.mf2.validate import MF2ValidationError
from moz.l10n.message import entry_from_json, message_from_json
from moz.l10n.model import *

def refused(doc):
    try:
        msg = mf2_from_json(doc)
    except MF2ValidationError:
        return
    raise AssertionError(f"{doc} read as {msg}")
"""
seed("p38-attribute-types", "C38", ("formats/mf2/from_json.py", "        name: True if json_value is True else _literal(json_value)\n", "        name: _literal(json_value) if isinstance(json_value, dict) else True\n"),
     "an attribute whose value is neither true nor an object", "such an attribute is read as one with no value rather than refused",
     MJ + r"""
for v in ("x", False, None, 1, []):
    refused({"type": "message", "declarations": [], "pattern": [{"type": "markup", "kind": "open", "name": "m", "attributes": {"a": v}}]})
""")
seed("p38-markup-kind", "C38", ("formats/mf2/from_json.py", "    if kind not in {\"open\", \"standalone\", \"close\"}:\n", "    if kind not in \"open|standalone|close\":\n"),
     "a markup kind that is a part of a valid one", "markup with an unknown or empty kind is accepted",
     MJ + r"""
for v in ("", "alone", "stand", "|"):
    refused({"type": "message", "declarations": [], "pattern": [{"type": "markup", "kind": v, "name": "m"}]})
""")
seed("p38-input-operand", "C38", ("formats/mf2/from_json.py", "                    not isinstance(decl_expr.arg, VariableRef)\n                    or decl_expr.arg.name != decl_name\n", "                    isinstance(decl_expr.arg, VariableRef)\n                    and decl_expr.arg.name != decl_name\n"),
     "an .input declaration with a literal operand, or none", "it is accepted, though it declares no variable",
     MJ + r"""
for x in ({"arg": {"type": "literal", "value": "v"}}, {"function": {"type": "function", "name": "f"}}):
    refused({"type": "message", "declarations": [{"type": "input", "name": "v", "value": {"type": "expression", **x}}], "pattern": []})
""")
seed("p38-compact-empty-option", "C38", ("message/from_json.py", "    function = json.get(\"fn\", None)\n    options = _options(json[\"opt\"]) if function is not None and \"opt\" in json else {}\n", "    function = json.get(\"fn\", None)\n    options = {}\n    if function is not None:\n        options = _options({k: v for k, v in json.get(\"opt\", {}).items() if v})\n"),
     "an option with an empty string as its value", "the option is dropped when an expression is read",
     MJ + r"""
assert message_from_json([{"_": "x", "fn": "f", "opt": {"o": ""}}]) == PatternMessage([Expression("x", "f", {"o": ""})])
""")
LK = """
from moz.l10n.formats import Format
from moz.l10n.migrate.utils import get_entry, get_pattern, insert_entry_after, plural_message
from moz.l10n.model import *
from moz.l10n.message import parse_message
"""
seed("p39-split-section", "C39", ("migrate/utils.py", "        if entry is not None:\n            return entry\n    return None\n", "        if entry is not None or (section.id and eid):\n            return entry\n    return None\n"),
     "two sections with the same identifier, the entry being in the second one", "the entry isn't found",
     LK + r"""
a, b = (Section(("s",), [Entry((k,), PatternMessage([k]))]) for k in "ab")
assert get_entry(Resource(Format.ini, [a, b]), "s", "b") is b.entries[0]
""")
seed("p39-empty-plural", "C39", ("migrate/utils.py", "            (key,): pattern for key, pattern in raw_variants if pattern is not None\n", "            (key,): pattern for key, pattern in raw_variants if pattern\n"),
     "an empty pattern for a plural category", "its variant is left out, so that the category's text becomes that of the fallback",
     LK + r"""
assert plural_message("n", one=[], other=["x"]).variants == {("one",): [], (CatchallKey("other"),): ["x"]}
assert plural_message("n", other=[]).variants == {(CatchallKey("other"),): []}
""")
seed("p39-insert-first", "C39", ("migrate/utils.py", "        for e_rev_idx, e in enumerate(reversed(section.entries)):\n            if isinstance(e, Entry) and e.id in eid_set:\n                section.entries.insert(len(section.entries) - e_rev_idx, entry)\n", "        msgs = [e for e in section.entries if isinstance(e, Entry)]\n        for e in reversed(msgs):\n            if e.id in eid_set:\n                section.entries.insert(section.entries.index(e) + 1, entry)\n"),
     "equal entries in the section", "the new entry is added after the first rather than the last of them",
     LK + r"""
def e(k):
    return Entry((k,), PatternMessage([k]))
res = Resource(Format.fluent, [Section((), [e("a"), Comment("c"), e("a")])])
insert_entry_after(res, e("n"), "a")
assert [getattr(x, "id", None) for x in res.sections[0].entries] == [("a",), None, ("a",), ("n",)]
""")
seed("p40-remove-while-walking", "C40", ("util/walk_files.py", "            idx = len(dirnames) - 1\n            while idx >= 0:\n                rp = relpath(join(dirpath, dirnames[idx]), start=root)\n                if sep != \"/\":\n                    rp = rp.replace(sep, \"/\")\n                if check_match(ignore, rp, is_dir=True):\n                    del dirnames[idx]\n                idx -= 1\n",
     "            for dn in dirnames:\n                rp = relpath(join(dirpath, dn), start=root)\n                if sep != \"/\":\n                    rp = rp.replace(sep, \"/\")\n                if check_match(ignore, rp, is_dir=True):\n                    dirnames.remove(dn)\n"),
     "two ignored directories that are listed next to each other", "the second one is walked, so that what is found depends on the order of the listing",
     r"""
import os, tempfile
from moz.l10n.util.walk_files import walk_files
real = os.scandir
class Listing:
    def __init__(self, path, rev):
        with real(path) as it:
            self.it = iter(sorted(it, key=lambda e: e.name, reverse=rev))
    def __iter__(self): return self
    def __next__(self): return next(self.it)
    def __enter__(self): return self
    def __exit__(self, *_): pass
    def close(self): pass
with tempfile.TemporaryDirectory() as root:
    for d in (".a", ".b", "c"):
        os.mkdir(f"{root}/{d}")
        open(f"{root}/{d}/f", "w").close()
    found = []
    for rev in (False, True):
        os.scandir = lambda path=".": Listing(path, rev)
        found.append(sorted(walk_files(root)))
        os.scandir = real
assert found == [[f"{root}/c/f"]] * 2, found
""")
seed("p40-coverage-order", "C40", ("bin/build.py", "                json.dump(file_coverage, f, indent=2, sort_keys=True)\n", "                json.dump(file_coverage, f, indent=2)\n"),
     "several files in a directory matched by a wildcard", "coverage.json lists its files in the order in which the directory was listed",
     r"""
import os, tempfile
from click.testing import CliRunner
from moz.l10n.bin.build import cli
real = os.scandir
class Listing:
    def __init__(self, path, rev):
        with real(path) as it:
            self.it = iter(sorted(it, key=lambda e: e.name, reverse=rev))
    def __iter__(self): return self
    def __next__(self): return next(self.it)
    def __enter__(self): return self
    def __exit__(self, *_): pass
    def close(self): pass
with tempfile.TemporaryDirectory() as root:
    os.makedirs(f"{root}/en"); os.makedirs(f"{root}/de")
    for n in "abc":
        with open(f"{root}/en/{n}.ftl", "w") as f:
            f.write("k = v\n")
    with open(f"{root}/l10n.toml", "w") as f:
        f.write('[[paths]]\nreference = "en/*.ftl"\nl10n = "{locale}/*.ftl"\n')
    found = []
    for rev in (False, True):
        os.scandir = lambda path=".": Listing(path, rev)
        r = CliRunner().invoke(cli, ["--config", f"{root}/l10n.toml", "--base", root, "--target", f"{root}/out{rev}", "--locales", "de", "--coverage"])
        os.scandir = real
        assert r.exit_code == 0, r
        with open(f"{root}/out{rev}/de/coverage.json", "rb") as f:
            found.append(f.read())
assert found[0] == found[1], found
""")

seed("p41-entry-escape", "C41", ("formats/fluent/serialize.py", "    ftl_entry = fluent_astify_entry(\n        entry, comment_str=comment_str, escape_syntax=escape_syntax\n    )\n", "    ftl_entry = fluent_astify_entry(entry, comment_str=comment_str)\n"),
     "an entry with a brace, serialized on its own without escapes", "fluent_serialize_entry() escapes its syntax in spite of escape_syntax=False, unlike serialize_resource()",
     RT + r"""
from moz.l10n.formats.fluent import fluent_serialize_entry
entry = Entry(("k",), PatternMessage(["a { b }"]))
one = fluent_serialize_entry(entry, escape_syntax=False)
all = "".join(serialize_resource(Resource(Format.fluent, [Section((), [entry])]), fluent_escape_syntax=False))
assert one == all, (one, all)
""")
seed("p41-path-plurals", "C41", ("resource/parse_resource.py", "        source_ = cast(str, input) if input_is_file else source\n        return gettext_parse(\n            source_, plurals=gettext_plurals, skip_obsolete=gettext_skip_obsolete\n        )\n",
                                 "        if input_is_file:\n            return gettext_parse(\n                cast(str, input), skip_obsolete=gettext_skip_obsolete\n            )\n        return gettext_parse(\n            source, plurals=gettext_plurals, skip_obsolete=gettext_skip_obsolete\n        )\n"),
     "a .po file with plurals read from its path, with the names of its plural categories", "the categories are used for contents that are given, but not for those read from a path",
     RT + r"""
import os, tempfile
src = 'msgid ""\nmsgstr ""\n"Plural-Forms: nplurals=2; plural=(n != 1);\\n"\n\nmsgid "a"\nmsgid_plural "b"\nmsgstr[0] "c"\nmsgstr[1] "d"\n'
with tempfile.TemporaryDirectory() as dir:
    path = os.path.join(dir, "x.po")
    with open(path, "w") as f:
        f.write(src)
    a = parse_resource(path, gettext_plurals=["one", "other"])
    b = parse_resource(path, src, gettext_plurals=["one", "other"])
assert a == b, (a, b)
""")
seed("p41-bytes-mark", "C41", ("formats/inc/parse.py", '        source = str(source, "utf8")\n', '        source = str(source, "utf-8-sig")\n'),
     "an .inc file that starts with a byte order mark", "the mark is a part of the text that is given as a string, but is left out of the same text in bytes",
     RT + r"""
src = "\ufeff#define a b\n"
def read(src):
    try:
        return parse_resource(Format.inc, src)
    except ValueError:
        return None
a, b = read(src), read(src.encode())
assert a == b, (a, b)
""")
seed("p41-tree-info", "C41", ("formats/fluent/parse.py", "        fluent_body = fluent_body[1:]\n", "        fluent_body.pop(0)\n"),
     "a Fluent syntax tree that starts with a comment, read twice", "reading a syntax tree takes its first comment from it, and so it is not found when reading it again",
     RT + r"""
from fluent.syntax import FluentParser
from moz.l10n.formats.fluent import fluent_parse
src = "# info\n\nk = v\n"
tree = FluentParser().parse(src)
a, b, c = fluent_parse(tree), fluent_parse(tree), fluent_parse(src)
assert a.meta == b.meta == c.meta, (a.meta, b.meta, c.meta)
""")

LOST = RT + r"""
def kept(format, msg, *words):
    res = Resource(format, [Section((), [Entry(("k",), msg)])])
    try:
        out = "".join(serialize_resource(res))
    except ValueError:
        return
    assert all(word in out for word in words), out
"""
seed("p42-string-options", "C42", ("formats/fluent/serialize.py", "        if named:\n            raise ValueError(\"Options on :string are not supported\")\n", ""),
     "a :string function with an option", "the option is left out of the Fluent message without an error",
     LOST + r"""
kept(Format.fluent, PatternMessage([Expression(VariableRef("x"), "string", {"foo": "bar"})]), "foo", "bar")
""")
seed("p42-reference-options", "C42", ("formats/fluent/serialize.py", "        elif named:\n            raise ValueError(\"Options on message references are not supported\")\n", ""),
     "a reference to a message, rather than to a term, with an option", "the option is left out of the Fluent message without an error",
     LOST + r"""
kept(Format.fluent, PatternMessage([Expression("msg", "message", {"foo": "bar"})]), "foo", "bar")
kept(Format.fluent, PatternMessage([Expression("-term", "message", {"foo": "bar"})]), "foo", "bar")
""")
seed("p42-declared-function", "C42", ("formats/webext/serialize.py", "                if local.function:\n                    raise ValueError(f\"Unsupported annotation for {ph_name}: {local}\")\n", ""),
     "a declaration of a placeholder with a function", "the function and its options are left out of the placeholder without an error",
     LOST + r"""
kept(Format.webext, PatternMessage([Expression(VariableRef("x"))], {"x": Expression("text", "number", {"foo": "bar"})}), "foo", "bar")
""")
seed("p42-plural-functions", "C42", ("formats/android/serialize.py", "\n    if len(msg.declarations) != 1 or not sel or sel.function != \"number\"", "\n    if len(msg.declarations) != 1 or not sel or not sel.function"),
     "a select message of a function other than :number", "it is written as <plurals>, without an error, and read as a :number",
     LOST + r"""
for fn in ("string", "func"):
    msg = SelectMessage({"n": Expression(VariableRef("n"), fn)}, (VariableRef("n"),), {("one",): ["a"], (CatchallKey(),): ["b"]})
    kept(Format.android, msg, fn)
kept(Format.android, SelectMessage({"n": Expression(VariableRef("n"), "number")}, (VariableRef("n"),), {("one",): ["a"], (CatchallKey(),): ["b"]}), "one", "other")
""")

# The JavaScript package: Node runs the TypeScript of these modules as it is.
JS = r"""
import json, os, subprocess, tempfile
def js(module, code, bundle=False):
    src = os.path.join(os.getcwd(), "js", "src", module)
    with tempfile.TemporaryDirectory() as tmp:
        if bundle:
            out = os.path.join(tmp, "bundle.mjs")
            subprocess.run(["/opt/veriftools/node/node_modules/.bin/esbuild", src, "--bundle", "--format=esm",
                            "--log-level=error", "--outfile=" + out], check=True)
            src = out
        main = os.path.join(tmp, "main.mjs")
        with open(main, "w") as f:
            f.write(f"import * as M from {json.dumps(src)}\nconsole.log(JSON.stringify({code}))\n")
        r = subprocess.run(["node", "--experimental-strip-types", main], capture_output=True, text=True, check=True)
        return json.loads(r.stdout)
"""
seed("p43-normalize-option-only", "C43", ("/js/src/model-utils.ts",
     "        if (typeof el.$ === 'string') varRefs.add(el.$)\n        if (el.opt) {",
     "        if (typeof el.$ === 'string') varRefs.add(el.$)\n        else if (el.opt) {"),
     "a declaration used only as the value of an option of an expression which also has a variable argument",
     "normalizeMessage drops a declaration which the message still refers to",
     JS + r"""
msg = {"decl": {"a": {"$": "a", "fn": "number"}, "b": {"$": "b", "fn": "number"}},
       "msg": [{"$": "a", "fn": "number", "opt": {"x": {"$": "b"}}}]}
res = js("model-utils.ts", f"M.normalizeMessage({json.dumps(msg)})")
assert sorted(res["decl"]) == ["a", "b"], res
""")
seed("p43-equal-more-options", "C43", ("/js/src/model-utils.ts",
     "    const bol = b.opt ? Object.keys(b.opt).length : 0\n    if (ao.length !== bol) return false\n",
     "    const bol = b.opt ? Object.keys(b.opt).length : 0\n    if (ao.length > bol) return false\n"),
     "two otherwise equal placeholders, the second of which has more options",
     "messagesEqual is true for different messages, and depends on the order of its arguments",
     JS + r"""
a, b = [{"$": "a", "fn": "number"}], [{"$": "a", "fn": "number", "opt": {"x": "1"}}]
res = js("model-utils.ts", f"[M.messagesEqual({json.dumps(a)}, {json.dumps(b)}), M.messagesEqual({json.dumps(b)}, {json.dumps(a)})]")
assert res == [False, False], res
""")
seed("p43-equal-fewer-declarations", "C43", ("/js/src/model-utils.ts",
     "  if (ad.length !== Object.keys(b.decl).length) return false\n", ""),
     "two messages with the same body, the second of which has more declarations",
     "messagesEqual is true for different messages",
     JS + r"""
a = {"decl": {"a": {"$": "a", "fn": "number"}}, "msg": [{"$": "a"}]}
b = {"decl": {"a": {"$": "a", "fn": "number"}, "b": {"$": "b", "fn": "string"}}, "msg": [{"$": "a"}]}
res = js("model-utils.ts", f"[M.messagesEqual({json.dumps(a)}, {json.dumps(b)}), M.messagesEqual({json.dumps(b)}, {json.dumps(a)})]")
assert res == [False, False], res
""")
seed("p43-normalize-chain", "C43", ("/js/src/model-utils.ts",
     "    if (typeof decl.$ === 'string' && decl.$ !== name) refs.add(decl.$)\n    if (decl.opt) {",
     "    if (typeof decl.$ === 'string' && decl.$ !== name) refs.add(decl.$)\n    if (decl.opt && decl.fn && !refs.size) {"),
     "a declaration used only as the value of an option of another declaration which has a different variable as its argument",
     "normalizeMessage drops a declaration which the message still refers to",
     JS + r"""
msg = {"decl": {"a": {"$": "a", "fn": "number"}, "b": {"$": "b", "fn": "number"},
                "c": {"$": "a", "fn": "number", "opt": {"x": {"$": "b"}}}},
       "msg": [{"$": "c"}]}
res = js("model-utils.ts", f"M.normalizeMessage({json.dumps(msg)})")
assert sorted(res["decl"]) == ["a", "b", "c"], res
""")
seed("p44-properties-escape-hex", "C44", ("/js/src/properties-serialize.ts",
     ".toString(16).padStart(4, '0')}`", ".toString(16).padStart(3, '0')}`"),
     "a control character right before a hexadecimal digit",
     "an escaped control character takes the following digit as a part of it",
     JS + r"""
import sys
src = js("properties-serialize.ts", 'M.propertiesSerializePattern(["\\u0001c"])')
from moz.l10n.formats import Format
from moz.l10n.message import parse_message
assert parse_message(Format.properties, src).pattern == ["\x01c"], src
""")
seed("p44-properties-trailing-space", "C44", ("/js/src/properties-serialize.ts",
     "  if (str.endsWith(' ') && !str.endsWith('\\\\ ')) {", "  if (str.endsWith(' ') && !str.endsWith('\\\\ ') && !str.endsWith('\\\\u0020')) {".replace("'\\\\u0020'", "'  '")),
     "a value which ends with two or more spaces",
     "trailing spaces aren't escaped",
     JS + r"""
src = js("properties-serialize.ts", 'M.propertiesSerializePattern(["a  "])')
assert src == "a \\u0020", [src]
""")
seed("p44-webext-digit-name", "C44", ("/js/src/webext-parse.ts",
     ".replace(/^(?=[0-9])/, '_')", ".replace(/^(?=[1-9])/, '_')"),
     "a named placeholder whose name starts with 0",
     "the placeholder isn't found among the message's declarations",
     JS + r"""
msg = {"decl": {"_0a": {"$": "arg1", "attr": {"source": "$1"}}}, "msg": []}
res = js("webext-parse.ts", f"M.webextParsePattern({json.dumps(msg)}, 'x $0a$', () => {{}})", bundle=True)
assert res == ["x ", {"$": "_0a", "attr": {"source": "$0a$"}}], res
""")
seed("p44-webext-dollars", "C44", ("/js/src/webext-serialize.ts",
     "str += part.replace(/\\$+/g, '$$$&')", "str += part.replace(/\\$+(?=.)/g, '$$$&')"),
     "text which ends with a dollar sign, or has one before a newline",
     "a literal dollar sign isn't escaped, and is lost or becomes part of a placeholder",
     JS + r"""
src = js("webext-serialize.ts", 'M.webextSerializePattern(["$", {"$": "arg1", "attr": {"source": "$1"}}])', bundle=True)
assert src == "$$$1", [src]
""")
seed("p44-mf2-attribute-markup", "C44", ("/js/src/mf2-serialize.ts",
     "  str += options(markup.opt) + attributes(markup.attr)\n",
     "  if (!markup.close) str += options(markup.opt)\n  str += attributes(markup.attr)\n"),
     "closing markup with options",
     "the options of closing markup are dropped",
     JS + r"""
res = js("mf2-serialize.ts", 'M.mf2SerializePattern([{"close": "b", "opt": {"x": "1"}}], false)', bundle=True)
assert res == "{/b x=1}", res
""")
seed("p44-mf2-local-input", "C44", ("/js/src/mf2-serialize.ts",
     "    res += expr.$ === name ? '.input ' : `.local $${name} = `\n",
     "    res += expr.$ ? '.input ' : `.local $${name} = `\n"),
     "a local declaration with a differently named variable as its argument",
     "a local declaration is serialized as an input declaration of another name",
     JS + r"""
msg = {"decl": {"a": {"$": "b", "fn": "number"}}, "msg": [{"$": "a"}]}
res = js("mf2-serialize.ts", f"M.mf2SerializeMessage({json.dumps(msg)})", bundle=True)
assert res == ".local $a = {$b :number}\n{{{$a}}}", res
""")
seed("p44-fluent-number-key", "C44", ("/js/src/fluent-serialize.ts",
     "  const keys = msg.alt.flatMap((v) =>\n    v.keys.map((k) => (typeof k === 'string' ? k : k['*']))\n  )\n",
     "  const keys = msg.alt.flatMap((v) =>\n    v.keys.slice(0, 1).map((k) => (typeof k === 'string' ? k : k['*']))\n  )\n"),
     "a message with two selectors, where `other` is a key of the second one only and its default isn't named",
     "two variants of a select expression have the same key",
     JS + r"""
msg = {"decl": {"a": {"$": "a", "fn": "number"}, "b": {"$": "b", "fn": "number"}}, "sel": ["a", "b"],
       "alt": [{"keys": [{"*": ""}, "other"], "pat": ["x"]}, {"keys": [{"*": ""}, {"*": ""}], "pat": ["y"]}]}
res = js("fluent-serialize.ts", f"M.fluentSerializeMessage({json.dumps(msg)})", bundle=True)
assert "*[other1]" in res, res
""")

seed("p10-file-comments", "C10", ("formats/xliff/parse.py", "                section.comment = comment_str(comment)\n", "                section.comment = comment_str(comment[-1])\n"),
     "more than one comment before a file element", "all but the last comment before a file are lost",
     RT + r"""
src = '<xliff version="1.2"><!-- one --><!-- two --><file original="f"><body><trans-unit id="a"><source>s</source></trans-unit></body></file></xliff>'
res = parse_resource(Format.xliff, src)
out = "".join(serialize_resource(res))
assert "one" in out and "two" in out, out
""")
seed("p10-third-note", "C10", ("formats/xliff/parse.py", "            meta += element_as_metadata(unit, unit_base, True)\n            seen[name] = idx\n", "            meta += element_as_metadata(unit, unit_base, True)\n            seen[name] = 1\n"),
     "a group with at least three notes", "the later notes of a group are merged into one",
     RT + r"""
src = '<xliff version="1.2"><file original="f"><body><group id="g"><note>a</note><note>b</note><note>c</note></group></body></file></xliff>'
res = parse_resource(Format.xliff, src)
out = "".join(serialize_resource(res))
assert all(f"<note>{x}</note>" in out for x in "abc"), out
""")
seed("p27-coverage-empty", "C27", ("bin/build_file.py", "            if exists(coverage_path):\n", "            if total_count and exists(coverage_path):\n"),
     "a reference file with no entries, built after other files", "coverage of the other files is lost",
     MIG + r"""
import json
from moz.l10n.bin.build_file import cli
write(en_ftl="# only a comment\n", fr_ftl="a = A\n")
json.dump({"x": {"total": 1, "missing": []}}, open(tmp + "/coverage.json", "w"))
cli.main(["--source", tmp + "/en.ftl", "--l10n", tmp + "/fr.ftl", "--target", tmp + "/o.ftl", "--coverage-base", tmp], standalone_mode=False)
got = json.load(open(tmp + "/coverage.json"))
assert set(got) == {"x", "o.ftl"}, got
""")
