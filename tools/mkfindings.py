#!/usr/bin/env python3
"""Writes known_findings.json from the table below. For repaired defects whose property is
decided against a model (TREE) the expected tree of the input is recorded as well; it was
read and checked by hand when the entry was added."""
import json, subprocess, sys, tempfile, os
TREE = {"P04", "P05", "P06", "P07", "P08", "P09"}
# (property, commit, what failed, inputs)
FIXED = [
 ("P04", "c2c7fe2", "a title, template, placeholder or indented quote of a single character was not parsed", ["%title x\n", "    x\n"]),
 ("P02", "e8d9d20", "text after tags within the same word was dropped", ["*a :t:b c* d\n", "a :t:b c\n"]),
 ("P08", "e8d9d20", "text after tags within the same word was dropped", ["*a :t: b* c\n"]),
 ("P02", "5a05a95", "contents of decorated text after code, math or tags were dropped", ["*a `c` b* d\n", "_x $m$ y_\n"]),
 ("P08", "5a05a95", "contents of decorated text after code, math or tags were dropped", ["*a `c` b* d\n"]),
 ("P06", "1639428", "table cells whose content starts like a span or alignment lost it or broke the table", ["|>a|b|\n|--c|d|\n", "|\\/b|\n"]),
 ("P05", "ad0f690", "C. was not read as an uppercase roman numeral and E. was", ["C. x\n", "E. x\n"]),
 ("P05", "10d12f6", "alphabetic markers starting with roman letters were not read as list items", ["xa. x\n", "IVY) x\n"]),
 ("P09", "b063082", "a described transclusion used as a link description was cut at its first |", ["[[u|{{i.png|alt|style=\"s\"}}]]\n"]),
 ("P09", "f45a886", "properties of interwiki links were dropped", ["[[wiki1:a|d|k=\"v\"]]\n", "[[wn.W:a|d|k=\"v\"]]\n"]),
 ("P01", "646eb21", "diary anchors that are not valid in a URI panicked", ["[[diary:2020-01-01#a b]]\n"]),
 ("P09", "646eb21", "diary anchors that are not valid in a URI panicked", ["[[diary:2020-01-01#a b]]\n"]),
 ("P04", "5b19249", "characters other than blanks were cut by de-indenting code and math lines", ["  {{{\n\u3000x\n  }}}\n"]),
 ("P01", "5b19249", "de-indenting multi-byte lines of code and math panicked", ["  {{{\n\u3000x\n  }}}\n"]),
 ("P03", "70c8f75", "a raw link was located before the text preceding it", []),
 ("P01", "70c8f75", "a raw link located before its text underflowed", []),
 ("P03", "b201751", "regions of terms and bundles of definitions did not cover their contents", ["term:: a\n:: b\n"]),
 ("P04", "8236081", "an arrow by itself ended a quote", ["> a\n>\n> b\n"]),
 ("P01", "0669668", "formatting a table made of alignment cells or with missing cells panicked", []),
 ("P09", "b7eebd2", "properties of diary links were dropped", ["[[diary:2020-01-01|d|k=\"v\"]]\n"]),
 ("P09", "bcdc1cd", "a stray percent sign made a link text, an encoded pound sign became an anchor", ["[[100%]]\n"]),
 ("P05", "d56711e", "items of a list with mixed markers had a suffix their style cannot carry", ["- a\n1. b\n", "1. a\n- b\n"]),
 ("P10", "5741eb6", "formatting a table with a missing cell in the first column dropped the rest", []),
 ("P10", "4bbeada", "trimming a line also cut the end of what was written before", []),
 ("P10", "11144f0", "properties of links and encoded characters of targets were not written back", ["[[a b|d|k=\"v\"]]\n", "[[a%25b]]\n"]),
 ("P10", "6add90f", "two lists next to each other in one item became one", ["- alpha\n  - alpha\n - alpha\n"]),
 ("P05", "13947f8", "indentation of a fence that begins on the line of a list item was not removed from its lines", ["- {{{\n    x\n  }}}\n"]),
 ("P10", "13947f8", "indentation of a fence that begins on the line of a list item grew with every formatting", ["- {{{\n    x\n  }}}\n"]),
 ("P11", "13947f8", "indentation of a fence that begins on the line of a list item grew with every formatting", ["- {{{\n    x\n  }}}\n"]),
 ("P10", "0986448", "without separation of elements neighbours merged into one element", ["a\n\nb\n\u0001{\"page\":{\"separate_block_elements\":false}}"]),
 ("P10", "0986448", "indented quotes inside lists became paragraphs", ["- a\n  > q\n\u0001{\"blockquote\":{\"prefer_indented_blockquote\":true}}"]),
 ("P11", "c1b6739", "the trailing empty line of an unpadded comment vanished on the next formatting", ["%%+\n\n+%%\n\u0001{\"comment\":{\"no_padding\":true,\"trim_content\":false}}"]),
 ("P10", "b37a6d4", "no-break spaces were trimmed and the text after them became a list", ["\u00a0w. x\n"]),
 ("P16", "9d89f02", "attributes of code blocks and links were written in a random order", ["{{{x a=\"1\" b=\"2\" c=\"3\" d=\"4\" e=\"5\"\n}}}\n", "[[u|d|a=\"1\" b=\"2\" c=\"3\" d=\"4\" e=\"5\"]]\n"]),
 ("P13", "94069dc", "languages, metadata, properties and environments of math were not escaped", ["{{{a<b\n}}}\n", "{{$%a<b%\nx\n}}$\n", "[[u|d|a=\"<\"]]\n"]),
 ("P13", "c1a6503", "a comment with --> in it ended the HTML comment it was written into", ["%% a --> <b>\n\u0001{\"wikis\":[],\"comment\":{\"include\":true}}"]),
 ("P31", "c1a6503", "a comment with --> in it ended the HTML comment it was written into", ["%% a --> <b>\n\u0001{\"wikis\":[],\"comment\":{\"include\":true}}"]),
 ("P12", "783bdb0", "tags were shown in lower case and with dashes", [":Mixed:\n"]),
 ("P17", "d04bea0", "values put into a template were searched for variables", ["%title %content%\n\u0001%title%|\u0001%content%|"]),
 ("P17", "d9fcfd0", "templates named without extension were not found", ["%template file\n\u0001x\u0001F:&lt;i&gt;"]),
 ("P17", "b25fb3b", "titles of pages were not escaped", ["%title <b>\n\u0001%title%\u0001&lt;b&gt;"]),
 ("P15", "8075931", "paths with characters that have a meaning in addresses were not encoded", ["[[q&a]]\u0001page.wiki\u0001q%26a.html"]),
 ("P15", "e65db77", "a directory of another wiki did not lead to its index page", ["[[wiki1:dir/]]\u0001page.wiki\u0001../b%20c/dir/index.html"]),
 ("P15", "57473cc", "links to files with an extension of their own led to a page", ["[[doc.pdf]]\u0001page.wiki\u0001doc.pdf"]),
 ("P15", "bacd7eb", "anchors did not lead to the identifiers of headers", ["[[#A b#C]]\u0001page.wiki\u0001#a-b-c", "[[x#A b]]\u0001page.wiki\u0001x.html#a-b"]),
 ("P15", "bbdb4a3", "the fragment of local transclusions was dropped", ["{{a.svg#x}}\u0001page.wiki\u0001a.svg#x"]),
 ("P15", "e94a247", "a link to an anchor of the index of the wiki became a local anchor", ["[[/#a]]\u0001d/page.wiki\u0001../index.html#a"]),
 ("P14", "399c5b0", "identifiers of headers contained deeper headers that had ended", []),
 ("P16", "531c89a", "pages with definition lists could not be serialised", ["a::\n:: b\n"]),
 ("P13", "6ebec24", "names that cannot be attributes and attributes given twice were written into tags", ["[[u|d|a b=\"c\"]]\n", "{{{rust class=\"x\"\n}}}\n", "{{i.png|alt|alt=\"x\" SRC=\"y\"}}\n"]),
 ("P18", "531c89a", "pages with definition lists could not be serialised", ["a::\n:: b\n"]),
 ("P20", "69399b4", "markers of high positions were missing or panicked", ["LowercaseRoman 32767", "LowercaseAlphabet 4294967296"]),
 ("P18", "a10b960", "links to absolute and relative paths were equal", ["[[/page]]\n\u0001[[page]]\n"]),
 ("P26", "d290813", "converting only some wikis shifted the indices of links and of the selection, so that nothing or the wrong wiki was converted", []),
 ("P28", "d290813", "inspecting only some wikis gave wikis without files", []),
 ("P27", "db1e1ca", "cache entries were written when told not to use the cache", []),
 ("P26", "296826e", "a stylesheet was asked for in a wiki without pages and the command failed", []),
 ("P29", "cc5c658", "regions made by macros had no depth", []),
 ("P29", "babcf66", "escapes in literals given to macros were not decoded", []),
 ("P29", "d28890a", "literals with blank lines kept their indentation; whitespace of several bytes failed", []),
 ("P30", "32003c7", "dates of placeholders and diary links were off by a month, diary links failed in January", []),
 ("P33", "1e1d4e6", "the extension of vim's wikis starts with a period, so none of their pages was found", []),
 ("P30", "cab5b85", "text, code, math and tags could not be converted to JavaScript", []),
 ("P38", "28b29b8", "lists were parsed twice per level of nesting, so that every level doubled the time", ["- a\n - a\n  - a\n   - a\n    - a\n     - a\n      - a\n       - a\n        - a\n         - a\n          - a\n           - a\n            - a\n             - a\n              - a\n               - a\n                - a\n                 - a\n                  - a\n                   - a\n                    - a\n                     - a\n                      - a\n                       - a\n                        - a\n                         - a\n"]),
 ("P40", "868b701", "convert and format panicked when nothing could be printed", []),
 ("P40", "c244d62", "inspect ended with success when the end of its output was lost", []),
 ("P40", "f3a6019", "formatting in place emptied or cut a page when the disk was full or the program was killed", []),
 ("P41", "740a173", "commands run at once mixed their writes of a cache entry, which gave later commands pages with cells missing", []),
]
KNOWN = []
ENV = {**os.environ}
def tree(s):
    with tempfile.NamedTemporaryFile("w", suffix=".wiki", newline="") as f:
        f.write(s); f.flush()
        return subprocess.run(["/verif/target/debug/vh", "tree", f.name, "plain"], capture_output=True, text=True).stdout.rstrip()
def main():
    fixed = []
    for prop, commit, what, inputs in FIXED:
        if not inputs:
            fixed.append({"property": prop, "commit": commit, "what": what, "line": f"fixed: property={prop} {commit} {what}"})
        for i in inputs:
            e = {"property": prop, "commit": commit, "what": what, "input": i, "line": f"fixed: property={prop} {commit} {what}"}
            if prop in TREE:
                e["expect"] = tree(i)
            fixed.append(e)
    known = [{"property": p, "what": w, "input": i} for p, w, ins in KNOWN for i in ins]
    json.dump({"known": known, "fixed": fixed}, open("/verif/known_findings.json", "w"), indent=1, ensure_ascii=True)
if __name__ == "__main__":
    main()
