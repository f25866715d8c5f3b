"""What an XLIFF file says, for comparing files."""

from __future__ import annotations

import re

from lxml import etree

XLIFF = {f"{{urn:oasis:names:tc:xliff:document:1.{n}}}" for n in "012"}
XML = "http://www.w3.org/XML/1998/namespace"
CONTENT = ("source", "target", "seg-source")


def local(tag: str) -> str:
    for ns in XLIFF:
        if tag.startswith(ns):
            return tag[len(ns):]
    return tag


def lines(text) -> str:
    if re.fullmatch(r" .+(\n   - .*)+ ", text or ""):
        # Dashes aligned with the start of a comment are not a part of it
        text = text.replace("\n   - ", "\n")
    return "\n".join(line.strip() for line in (text or "").split("\n")).strip("\n")


def tree(el, content: bool = False, msg: str = "", in_msg: bool = False):
    """Everything but whitespace between elements outside the content, and the order of things which are in separate lists of a resource."""
    if isinstance(el, etree._Comment):
        return ("#", el.text or "")
    if isinstance(el, etree._ProcessingInstruction):
        return ("?", el.target, el.text)
    name = local(el.tag)
    parent = el.getparent()
    # Comments and processing instructions within messages are not a part of them
    in_msg = in_msg or (name == msg and parent is not None and local(parent.tag) == "trans-unit")
    content = content or name in CONTENT
    kids: list = []

    def text(s) -> None:
        if s and (content or s.strip()):
            if kids and isinstance(kids[-1], str):
                kids[-1] += s
            else:
                kids.append(s)

    text(el.text)
    for child in el:
        if not in_msg or isinstance(child.tag, str):
            kids.append(tree(child, content, msg, in_msg))
        text(child.tail)

    def tag(k) -> str:
        return k[0] if isinstance(k, tuple) else ""

    if name in ("trans-unit", "bin-unit"):
        kids.sort(key=lambda k: (0, "") if tag(k) == "source" else (1, "") if tag(k) == "target" else (2, tag(k)))
    elif name in ("body", "group"):
        # Sections have metadata and entries, and are followed by their subsections
        kids.sort(key=lambda k: 2 if tag(k) == "group" else 1 if tag(k) in ("trans-unit", "bin-unit", "#") else 0)
        kids = [("#", lines(k[1])) if tag(k) == "#" else k for k in kids if tag(k) != "#" or k[1].strip()]
    elif name == "file":
        # Comments are entries
        coms = [("#", lines(k[1])) for k in kids if tag(k) == "#" and k[1].strip()]
        kids = [(k[0], k[1], (*coms, *k[2])) if tag(k) == "body" else k for k in kids if tag(k) != "#"]
        kids.sort(key=lambda k: tag(k) == "body")
    elif name == "xliff":
        kids = [("#", lines(k[1])) if tag(k) == "#" else k for k in kids if tag(k) != "#" or k[1].strip()]
        # Comments before the same file are joined
        joined: list = []
        for k in kids:
            if tag(k) == "#" and joined and tag(joined[-1]) == "#":
                joined[-1] = ("#", joined[-1][1] + "\n\n" + k[1])
            else:
                joined.append(k)
        kids = joined
    attrs = dict(el.attrib)
    if name == "group":
        attrs.setdefault("id", "")
    return (name, tuple(sorted(attrs.items())), tuple(kids))


def document(src, msg: str = "") -> tuple:
    """`msg` is the name of elements which contain messages, rather than metadata."""
    root = etree.fromstring(src.encode() if isinstance(src, str) else src)
    coms = [c.text for c in root.itersiblings(etree.Comment, preceding=True)][::-1]
    lists = list(root.iter("{*}body", "{*}group"))
    last = []
    while len(root) and isinstance(root[-1], etree._Comment):
        last.insert(0, root[-1].text)
        root.remove(root[-1])
    if lists:
        text = "\n\n".join(c for c in map(lines, last) if c)
        lists[-1].append(etree.Comment(text))
    else:
        coms += last
    return ("\n\n".join(c for c in map(lines, coms) if c), sorted((k or "", v) for k, v in root.nsmap.items()), tree(root, msg=msg))


def text(el) -> str:
    return "".join(el.itertext(tag=etree.Element)) if el is not None else ""


def valid(src: str, source_entries: bool) -> bool:
    """Is this a document that has to be supported?"""
    root = etree.fromstring(src.encode())

    def blank(el) -> bool:
        return not (el.text or "").strip() and all(not (k.tail or "").strip() for k in el)

    if root.xpath("//processing-instruction()") or not blank(root):
        return False

    def unit_ok(u) -> bool:
        names = [local(k.tag) for k in u if isinstance(k.tag, str)]
        return u.get("id") is not None and blank(u) and names.count("source") < 2 and names.count("target") < 2

    def list_ok(el, group: bool) -> bool:
        if not blank(el):
            return False
        for k in el:
            if isinstance(k, etree._Comment):
                continue
            n = local(k.tag)
            if n in ("trans-unit", "bin-unit"):
                if not unit_ok(k):
                    return False
            elif n == "group":
                if not list_ok(k, True):
                    return False
            elif not group:
                return False
        return True

    for f in root:
        if isinstance(f, etree._Comment):
            continue
        if local(f.tag) != "file" or f.get("original") is None or not blank(f):
            return False
        kids = [local(k.tag) for k in f if isinstance(k.tag, str)]
        if [k for k in kids if k != "header"] != ["body"] or kids.count("header") > 1:
            return False
        if not all(list_ok(k, False) for k in f if local(str(k.tag)) == "body"):
            return False
    return True


def sections(root) -> list:
    """Paths of files and groups."""
    out = []

    def walk(el, path) -> None:
        for k in el:
            if isinstance(k.tag, str) and local(k.tag) == "group":
                p = (*path, k.get("id", ""))
                out.append(p)
                walk(k, p)

    for f in root:
        if isinstance(f.tag, str):
            out.append((f.get("original"),))
            for b in f:
                walk(b, (f.get("original"),))
    return out
