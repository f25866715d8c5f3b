"""Small localization files of every format, built from the same items."""

from __future__ import annotations

XLIFF = '<xliff version="1.2" xmlns="urn:oasis:names:tc:xliff:document:1.2">'

# name -> head, entry, comment, section, tail
KINDS = {
    "f.ftl": ("", "{k} = {v}\n", "\n# {v}\n\n", "\n## {k}\n\n", ""),
    "p.properties": ("", "{k} = {v}\n", "\n# {v}\n\n", None, ""),
    "d.dtd": ("", '<!ENTITY {k} "{v}">\n', "\n<!-- {v} -->\n\n", None, ""),
    "i.inc": ("", "#define {k} {v}\n", "\n# {v}\n\n", None, ""),
    "n.ini": ("[S]\n", "{k}={v}\n", "\n# {v}\n\n", "[{k}]\n", ""),
    "o.po": ('msgid ""\nmsgstr ""\n"X-Head: {lc}\\n"\n\n', 'msgid "{k}"\nmsgstr "{v}"\n\n', "#. {v}\n", None, ""),
    "x.xml": ("<resources>", '<string name="{k}">{v}</string>\n', "\n<!-- {v} -->\n\n", None, "</resources>"),
    "j.json": ("{{", '"{k}": "{v}"', None, None, "}}"),
    "w.json": ("{{", '"{k}": {{"message": "{v}"}}', None, None, "}}"),
    "l.xliff": (
        XLIFF + '<file original="S" source-language="en" target-language="{lc}" datatype="x"><body>\n',
        '<trans-unit id="{k}"><source>src {k}</source><target>{v}</target></trans-unit>\n',
        "<!-- {v} -->\n",
        '</body></file><file original="{k}" source-language="en" target-language="{lc}" datatype="y"><body>\n',
        "</body></file></xliff>",
    ),
}
SECTIONED = ("n.ini", "l.xliff")

# Files that cannot be parsed as their format, or, with lone surrogates, can be but not written
BROKEN = {
    "f.ftl": ["a = { \n", b"a = \xff\n"],
    "p.properties": [b"a = \xff\n"],
    "n.ini": ["[S\na=b\n", b"[S]\na=\xff\n"],
    "x.xml": ["<resources>", "<resources><string/></resources>", b"<resources><string name='a'>\xff</string></resources>"],
    "o.po": ['msgid "a"\n\nmsgid "c"\nmsgstr "d"\n', 'msgid "a"\nmsgstr "b"\nfoo\n'],
    "j.json": ['{"a": "b"', '{"a": {"b": 1}}', '{"a": "\\ud800"}'],
    "w.json": ['{"a": {"message": "b"}', '{"a": {"message": "\\ud800"}}'],
    "l.xliff": ["<xliff>", '<xliff version="1.2"><file/></xliff>'],
    "d.dtd": ["<!ENTITY a >\n", b'<!ENTITY a "\xff">'],
    "i.inc": ["foo\n", b"#define a \xff\n"],
}


def make(name: str, items, lc: str = "en") -> str:
    """
    The source of a file.  The items are (id, value), ("#", comment), or ("[]", section).
    """
    head, ent, com, sec, tail = KINDS[name]
    out = []
    for k, v in items:
        if k == "#":
            if com:
                out.append(com.format(v=v))
        elif k == "[]":
            if sec:
                out.append(sec.format(k=v, lc=lc))
        else:
            out.append(ent.format(k=k, v=v))
    return head.format(lc=lc) + (",\n" if name.endswith("json") else "").join(out) + tail.format()
