"""Localization files to start from, and edits of them."""

from __future__ import annotations

from pathlib import Path
from typing import Any

from hypothesis import strategies as st

from lib import gen

ROOT = Path(__file__).resolve().parent.parent / "corpus"

# extension -> texts that matter for the format
TOKENS: dict[str, list[str]] = {
    "properties": ["=", ":", "#", "!", "\\", "\\u00e9", "\\u", "\\\n  ", "\n", "\r\n", "\r", " ", "\t", "\f", "key", "# c\n", "\n\n", "a=b\n", "\\n", "é", "%S", "%1$S", "\\:", "\x85"],
    "dtd": ["<!ENTITY ", "<!--", "-->", ">", '"', "'", "%", "&", "&amp;", "&#37;", ";", "SYSTEM", "\n", " ", '<!ENTITY a "b">\n', "<!-- c -->\n", "é", "<", "&quot;", "%foo;\n", '<!ENTITY % f SYSTEM "x">\n%f;\n', "--", "\r\n"],
    "inc": ["#define ", "# ", "#", "#filter emptyLines\n", "#unfilter emptyLines\n", "\n", "\n\n", " ", "x y\n", "#define a b\n", "# c\n", "\r\n", "é", "\t", "# #define MOZ_LANGPACK_CONTRIBUTORS x\n"],
    "ini": ["[", "]", "=", ":", "#", ";", "\n", " ", "\n\n", "[S]\n", "a=b\n", "# c\n", "; c\n", "\t", "\r\n", "é", "%(x)s", "\n  more"],
    "json": ['"', "{", "}", "[", "]", ",", ":", "\\n", "\\u00e9", "\\", "null", "1", "true", '"a"', '"message": "x"', '"description": "x"', "$", "$1", "$X$", "$$", "//c\n", "/*c*/", " ", "\n", "é", '"placeholders": {}', '"example": "x"', '"content": "$1"', "\u2028", "1.50"],
    "po": ['"', "\\n", "\\", "\n", "#", "#: a\n", "#, fuzzy\n", "#. c\n", "# c\n", "#~ ", "#| ", "msgid ", "msgstr ", "msgctxt ", "msgid_plural ", "msgstr[0] ", "msgstr[1] ", '"a"\n', "é", " ", "\n\n", 'msgid "a"\nmsgstr "b"\n', "\\t", "\r\n", "%s", '\\"'],
    "ftl": ["{", "}", "{ $x }", "{ -t }", "{ m.a }", '{ "\\u00e9" }', "{ 1.0 }", "{ NUMBER($x, a: 1) }", "{ $x ->\n [a] b\n *[c] d\n }", "\n", "\n    ", "    .a = b\n", "key = ", "-t = x\n", "# c\n", "## c\n", "### c\n", "\n\n", "*", "[", "]", "->", ".", "=", " ", "\t", "é", "\r\n", "\\", '"', "#"],
    "xml": ["<", ">", "&", "&amp;", "&#10;", "&lt;", "</", "/>", "<!--", "-->", "<![CDATA[", "]]>", '"', "'", "\\n", "\\", "\\'", "\\u00e9", "\\u", "@", "?", "%", "%1$s", "%s", "%%", "\n", " ", "<b>", "</b>", "<xliff:g>", "</xliff:g>", "<xliff:g id=\"x\">", '<string name="a">b</string>', '<plurals name="p"><item quantity="other">x</item></plurals>', "<item>", "</item>", '<string-array name="r"><item>x</item></string-array>', "<!-- c -->", "\n\n", "é", " translatable=\"false\"", "<br/>", "\u00a0", "&foo;", "\u200b"],
    "xliff": ["<", ">", "&", "&amp;", "&#10;", "&lt;", "</", "/>", "<!--", "-->", "<![CDATA[", "]]>", '"', "\n", " ", "<x id=\"1\"/>", "<g id=\"2\">", "</g>", "<note>n</note>", "<source>", "</source>", "<target>", "</target>", "<target/>", "<seg-source>", "<mrk mtype=\"seg\">", "</mrk>", "<trans-unit id=\"a\">", "</trans-unit>", "<group id=\"g\">", "</group>", "<body>", "</body>", "<!-- c -->", "é", "%@", "%d", "%#@a@", " state=\"x\"", "<bpt id=\"1\">", "</bpt>", "<sub>", "</sub>"],
}

SNIPPETS: dict[str, list[str]] = {
    "ini": ["[Strings]\na=b\n", "# top\n\n# for section\n[Strings]\n# for a\na = b\nc: d\n\n# standalone\n\ne=f\n  more\n[Other]\n; x\ng=\n"],
    "inc": ["# top\n\n#define a b\n#define c\n\n# note\n#define d  e f \n"],
    "dtd": ['<!ENTITY a "b">\n<!-- c -->\n<!ENTITY d \'e "f" &amp; &#37;\'>\n'],
    "properties": ["a=b\nc : d\n! e\nf g\n\nh\\ i = \\u00e9\\t\\\n   j\nk\n"],
    "po": ['msgid "a"\nmsgstr "b"\n', '# c\n#. d\n#: e:1\n#, fuzzy, c-format\n#| msgid "old"\nmsgctxt "ctx"\nmsgid "a"\n"more\\n"\nmsgstr ""\n"b\\n"\n\nmsgid "n"\nmsgid_plural "ns"\nmsgstr[0] "x"\nmsgstr[1] "y"\n\n#~ msgid "o"\n#~ msgstr "p"\n'],
    "ftl": ['### r\n\n## g\n\n# c\nk = v { $x }\n    .a = { "b" }\n\n-t = T { $y ->\n    [one] 1\n   *[other] { -t(a: "b") }\n }\n    .gender = f\n', "a =\n    first\n      indented\n\n    last { k.a } { NUMBER($n, minimumFractionDigits: 2) }\n"],
    "json": ['{"a": {"message": "b $1 $X$ $$", "description": "c", "placeholders": {"x": {"content": "$2", "example": "e"}}}}', '{"a": "b", "c": {"d": "e", "f": {"g": ""}}}', "{}"],
    "xml": [
        '<resources>\n  <!-- c -->\n  <string name="a">b \\n \\"c  d\\" \\\'e\\\' &lt; %1$s</string>\n  <plurals name="p">\n    <item quantity="one">%d x</item>\n    <item quantity="other">%d xs</item>\n  </plurals>\n  <string-array name="r"><item>1</item><item>2</item></string-array>\n</resources>\n',
    ],
    "xliff": [
        '<xliff version="1.2" xmlns="urn:oasis:names:tc:xliff:document:1.2">\n<file original="f" source-language="en" target-language="fr" datatype="plaintext">\n<body>\n<trans-unit id="a"><source>A <x id="1"/> b</source><target>B <g id="2">c</g></target><note>n</note></trans-unit>\n<group id="g"><trans-unit id="b"><source>C</source></trans-unit></group>\n</body></file></xliff>\n'
    ],
}


def documents() -> dict[str, list[tuple[str, str]]]:
    """extension -> (file name, text)"""
    out: dict[str, list[tuple[str, str]]] = {ext: [] for ext in TOKENS}
    for path in sorted(ROOT.iterdir()):
        ext = path.suffix[1:]
        out[ext].append((path.name, path.read_bytes().decode("utf-8")))
    for ext, texts in SNIPPETS.items():
        for i, text in enumerate(texts):
            out[ext] += [(f"s{i}.{ext}", text)] * 2
    return out


def apply_edits(text: str, edits: list[tuple[Any, ...]]) -> str:
    for e in edits:
        n = len(text)
        at = e[1] * n >> 16
        if e[0] == "ins":
            text = text[:at] + e[2] + text[at:]
        elif e[0] == "del":
            text = text[:at] + text[at + e[2] :]
        elif e[0] == "dup":
            to = e[3] * n >> 16
            text = text[:to] + text[at : at + e[2]] + text[to:]
        elif e[0] == "put":
            text = text[:at] + e[2] + text[at + len(e[2]) :]
        elif e[0] == "line":
            # remove, repeat or move a line
            lines = text.splitlines(keepends=True)
            if lines:
                i = at * len(lines) // max(n, 1) % len(lines)
                line = lines[i]
                if e[2] == "del":
                    del lines[i]
                elif e[2] == "dup":
                    lines.insert(e[3] * len(lines) >> 16, line)
                else:
                    del lines[i]
                    lines.insert(e[3] * len(lines) >> 16, line)
            text = "".join(lines)
        elif e[0] == "cut":
            text = text[at:] if e[2] else text[:at]
    return text


pos = st.integers(0, 0xFFFF)
length = st.one_of(st.integers(1, 4), st.integers(1, 60))


def edits(ext: str, max_size: int = 6) -> Any:
    tok = st.one_of(st.sampled_from(TOKENS[ext]), st.sampled_from(TOKENS[ext]), st.text(max_size=2).filter(lambda t: t.encode("utf-8", "replace").decode() == t))
    edit = gen.weighted(
        (6, st.tuples(st.just("ins"), pos, tok)),
        (3, st.tuples(st.just("del"), pos, length)),
        (2, st.tuples(st.just("put"), pos, tok)),
        (2, st.tuples(st.just("dup"), pos, length, pos)),
        (4, st.tuples(st.just("line"), pos, st.sampled_from(["del", "dup", "move"]), pos)),
        (1, st.tuples(st.just("cut"), pos, st.booleans())),
    )
    few = st.lists(edit, max_size=1), st.lists(edit, max_size=2), st.lists(edit, max_size=max_size)
    return gen.weighted((4, few[0]), (3, few[1]), (3, few[2]))


def sources(ext: str, max_size: int = 6) -> Any:
    """(file name, text) of edited documents"""
    docs = DOCUMENTS[ext]

    def build(doc: tuple[str, str], ed: list[Any]) -> tuple[str, str]:
        return doc[0], apply_edits(doc[1], ed)

    return st.builds(build, st.sampled_from(docs), edits(ext, max_size))


DOCUMENTS = documents()
