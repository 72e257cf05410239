#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as a table so that it stays reviewable)."""
import json, os
C='vimwiki-core/src/lang/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("P01","Parsing is total, panic-free and deterministic",
 "Parsing any UTF-8 text as a vimwiki page yields a page: it never fails, never panics, and gives strictly equal results every time. Parsing the same text as any single element type either succeeds or reports an error, never panics, and formatting or rendering the resulting page to vimwiki or HTML with default settings never panics. Text declared as markdown or mediawiki is always reported as unsupported.",
 ["inputs"],"every UTF-8 string, including malformed markup, unusual Unicode whitespace, multi-byte characters at every markup boundary and CRLF endings",
 "Unit tests parse a few hundred hand-written snippets; nothing exercises arbitrary interleavings of markup fragments with multi-byte text, where slicing and offset arithmetic goes wrong.",
 [C+"mod.rs",C+"parsers/",C+"output/"],[("page parser with paragraph fallback",C+"parsers/vimwiki/mod.rs"),("span offset arithmetic",C+"parsers/span.rs"),("text backtracking",C+"parsers/vimwiki/blocks/inline/typefaces.rs"),("de-indentation of code and math lines",C+"parsers/vimwiki/blocks/code.rs")],
 ["Language::from_vimwiki_str(..).parse::<T>()","to_vimwiki_string","to_html_string"])
p("P02","No text is lost or invented by the parser",
 "Every non-whitespace character of a document lies inside exactly one top-level element of the parsed page, and everything between top-level elements is blank. Inside inline content, the children of a line tile it completely, and every word of the source survives in the element that covers it, so nothing a user typed silently disappears. (Inside links, surplus separators and stray closing brackets are part of the link's markup and are not text.)",
 ["inputs"],"every document: grammar-derived documents with nested inline markup, and arbitrary mixtures of markup fragments",
 "Tests compare chosen snippets with chosen trees; a parser that stops early and drops the remainder of a span (for instance inside decorated text) is only visible on inputs nobody wrote down.",
 [C+"parsers/vimwiki/blocks/",C+"parsers/vimwiki/blocks/inline/"],[("many1 over inline elements inside map_parser",C+"parsers/vimwiki/blocks/inline/typefaces.rs"),("top-level block dispatch",C+"parsers/vimwiki/blocks/mod.rs")],
 ["Page::elements and their regions"])
p("P03","Element regions are accurate source positions",
 "Every located element reports a byte range that lies within the source, falls on character boundaries, and contains the element's own markup; an element's range contains the ranges of its children, siblings appear in increasing order without overlap, and depth increases with nesting. Re-reading the source at a leaf element's range yields exactly that element's markup, for multi-byte text as well.",
 ["inputs"],"every document and every element of its tree at any nesting depth",
 "Region tests cover single elements in isolation and one nesting test; regions are computed by many independent captures with sub-spans and must agree for every combination.",
 [C+"elements/utils/region.rs",C+"elements/utils/mod.rs",C+"parsers/span.rs",C+"parsers/span.rs",C+"parsers/utils/convert.rs"],[("capture/locate/deeper combinators",C+"parsers/utils/convert.rs"),("span to region conversion",C+"elements/utils/region.rs"),("definition bundle regions",C+"parsers/vimwiki/blocks/definitions.rs")],
 ["Located::region() over the page tree"])
p("P04","Documents parse to exactly the blocks that were written",
 "A document assembled from headers, paragraphs, dividers, placeholders, blockquotes, code blocks and math blocks, in any order and with any legal spacing, parses to exactly that sequence of blocks with their levels, centering, languages, metadata, environments and text lines intact. Indentation of fenced blocks is removed relative to the fence and never more.",
 ["inputs"],"every sequence of block elements with arbitrary content, fence indentation, header levels and spacing between blocks",
 "Each block kind has isolated examples; which block claims a line depends on what precedes and follows it, so the combinations are what matter.",
 [C+"parsers/vimwiki/blocks/headers.rs",C+"parsers/vimwiki/blocks/paragraphs.rs",C+"parsers/vimwiki/blocks/dividers.rs",C+"parsers/vimwiki/blocks/placeholders.rs",C+"parsers/vimwiki/blocks/blockquotes.rs",C+"parsers/vimwiki/blocks/code.rs",C+"parsers/vimwiki/blocks/math.rs"],[("ordered alternatives of block parsers",C+"parsers/vimwiki/blocks/mod.rs"),("paragraph termination",C+"parsers/vimwiki/blocks/paragraphs.rs")],
 ["parsed Page compared with an independent model"])
p("P05","Lists keep nesting, numbering style, positions and todo state",
 "A list written with any mix of bullet, number, letter, roman and pound markers, nested to any depth by indentation and with multi-line item content, parses to the same nesting: every item sits in the list its indentation puts it in, carries its marker style, suffix, zero-based position and todo status, and its content blocks in order. The list's style follows its first item, and a letter list is only read as roman when its first marker is a roman numeral.",
 ["inputs"],"every list tree: marker styles, indentation widths, depth, todo states, multi-line items and nested tables, code, quotes and definition lists",
 "The list tests use a handful of fixed lists; nesting is decided by comparing indentation levels across arbitrarily many lines.",
 [C+"parsers/vimwiki/blocks/lists.rs",C+"elements/blocks/lists/mod.rs",C+"elements/blocks/lists/item.rs"],[("indentation-level comparison and recursion",C+"parsers/vimwiki/blocks/lists.rs"),("style normalisation",C+"elements/blocks/lists/mod.rs")],
 ["parsed List compared with an independent model"])
p("P06","Tables keep every cell at its row and column",
 "A table parses to exactly the cells that were written, each at its row and column, as content, left-span, above-span or column alignment, with the centered flag set exactly for an indented top-level table. Cell content keeps its inline markup, for tables of any size and rows of differing length.",
 ["inputs"],"every table: size, ragged rows, empty-looking cells, spans, alignment rows at any position, inline markup in cells, nesting in list items",
 "Table tests use small rectangular examples.",
 [C+"parsers/vimwiki/blocks/tables.rs",C+"elements/blocks/tables.rs"],[("row/cell parser and position assignment",C+"parsers/vimwiki/blocks/tables.rs")],
 ["parsed Table compared with an independent model"])
p("P07","Definition lists bind definitions to the right term",
 "A definition list parses to its terms in order, each carrying exactly its own definitions in order, whether the first definition shares the term's line or follows on its own line. Looking a term up by its text yields the bundle of the first entry with that text.",
 ["inputs"],"every sequence of terms with zero or one inline definition and any number of following definitions, with inline markup in both",
 "The tests list a few term/definition pairs; binding depends on arbitrary sequences of lines.",
 [C+"parsers/vimwiki/blocks/definitions.rs",C+"elements/blocks/definitions.rs"],[("term and definition line parser",C+"parsers/vimwiki/blocks/definitions.rs"),("lookup by term",C+"elements/blocks/definitions.rs")],
 ["parsed DefinitionList, DefinitionList::get"])
p("P08","Inline markup is recognised exactly where it is written",
 "A line assembled from plain text, bold, italic, strikeout, superscript and subscript (nested in one another), inline code, inline math, tags, keywords and comments parses to exactly those elements in order with exactly their text. Comments take priority over all other markup, and markup never reaches across the end of its line.",
 ["inputs"],"every sequence and nesting of inline elements, adjacent or separated by text, in paragraphs, headers, table cells, list items and definitions",
 "Inline tests check one element next to plain text; adjacency, nesting and containers multiply.",
 [C+"parsers/vimwiki/blocks/inline/"],[("ordered alternatives and text scanning",C+"parsers/vimwiki/blocks/inline/mod.rs"),("decorated text contents",C+"parsers/vimwiki/blocks/inline/typefaces.rs")],
 ["parsed inline containers compared with an independent model"])
p("P09","Links keep their target, anchor, description and properties",
 "A wiki, diary, numbered or named interwiki, raw or transclusion link written with any target, anchor, text or image description and properties parses to a link of that kind that yields back the same percent-decoded target, the same anchor components, date, wiki index or name, description and property values. Link accessors agree with one another on scheme, locality, directory-ness and being a local anchor.",
 ["inputs"],"every link kind with arbitrary path segments (spaces, Unicode, dots, trailing slash), stacked anchors, descriptions and properties",
 "Link tests use one or two ASCII targets per kind; percent-encoding and anchor splitting depend on arbitrary characters.",
 [C+"parsers/vimwiki/blocks/inline/links/",C+"elements/blocks/inline/links/"],[("URI encoding and link kinds",C+"parsers/vimwiki/blocks/inline/links/mod.rs"),("link data accessors",C+"elements/blocks/inline/links/data.rs")],
 ["Link and LinkData accessors"])
p("P10","Formatting preserves the document",
 "Writing a parsed page back as vimwiki text under any format configuration and parsing the result yields a page with the same elements and content, up to the normalisations the configuration asks for (spacing, indentation, marker renumbering, trimming). Nothing the user wrote is lost, and no element turns into a different kind of element. (Indentation must be at least one blank; neighbouring blockquotes may be joined; settings that turn off trimming while also adding padding around the same text are excluded.)",
 ["inputs","configurations"],"every document and every format configuration (indentation string, spacing counts, trimming, padding, blockquote style)",
 "Format tests print single hand-built elements under one configuration and never parse the result back.",
 [C+"output/vimwiki/mod.rs",C+"output/vimwiki/config.rs",C+"output/vimwiki/formatter.rs"],[("per-element vimwiki writers",C+"output/vimwiki/mod.rs"),("formatter indentation stack",C+"output/vimwiki/formatter.rs")],
 ["ToVimwikiString then parse"])
p("P11","Formatting is a fixed point",
 "Formatting an already formatted document with the same configuration changes nothing: the second output is byte-identical to the first. Formatting is deterministic and independent of the order in which table cells, metadata or properties happen to be stored. (Same exclusions of settings as for P10.)",
 ["inputs","configurations"],"every document and every format configuration",
 "No test formats its own output.",
 [C+"output/vimwiki/mod.rs",C+"output/vimwiki/formatter.rs"],[("per-element vimwiki writers",C+"output/vimwiki/mod.rs"),("metadata and property ordering",C+"output/vimwiki/mod.rs")],
 ["to_vimwiki_string applied twice"])
p("P12","HTML mirrors the document structure",
 "The HTML of a page contains, in order, exactly the elements of the page in their prescribed form: headers with their level, paragraphs and their lines, nested lists with item order and todo classes, tables with header, body and spans, definition lists, quotes, code, math, decorations, tags, keywords and links, with all their text. Configuration switches (line breaks, table of header links, ids, comments) change only what they name. A link into a wiki that is not configured is reported as an error. (Column alignments and centering are not shown in this HTML.)",
 ["inputs","configurations"],"every document and HTML configuration",
 "HTML tests check the output of single elements against literal strings.",
 [C+"output/html/mod.rs",C+"output/html/config.rs",C+"output/html/formatter.rs"],[("per-element HTML writers",C+"output/html/mod.rs")],
 ["to_html_string parsed back to a DOM and compared with a reference DOM"])
p("P13","HTML output is well formed and text is escaped",
 "For any document the generated HTML is a well-formed fragment: every opened tag is closed in order, attributes are properly quoted, and no text, code, formula, language name, metadata, link target, link property, identifier, title or comment typed by the user can open a tag, close one, or leave an attribute value. Un-escaping the text of the HTML gives back the text of the document. Addresses are written as they are (a bare & may occur in them), and metadata or properties whose names cannot be attribute names are left out; no tag has an attribute twice.",
 ["inputs"],"every document, with markup-significant characters (< > & \" ') in every position where user text can appear",
 "Escaping is tested for a few elements with one sample string each.",
 [C+"output/html/mod.rs",C+"output/html/utils.rs"],[("escape_html calls in each writer",C+"output/html/mod.rs"),("escape_html",C+"output/html/utils.rs")],
 ["to_html_string, to_html_page"])
p("P14","Generated HTML identifiers are unique and headers link to themselves",
 "Within one rendered page every identifier generated for headers, decorated text and tags is unique, however often the same text occurs (texts that themselves end in a hyphen and digits, such as a-1, are excluded: their numbering is fixed by existing tests). Every header's own link points at that header's identifier, and identifiers do not depend on anything but the page and configuration.",
 ["inputs","histories"],"every sequence of headers and other identified elements with repeated and colliding texts",
 "Tests cover one repeated header; collisions between generated and literal identifiers need particular sequences.",
 [C+"output/html/formatter.rs",C+"output/html/mod.rs"],[("ensure_unique_id cache",C+"output/html/formatter.rs")],
 ["id and href attributes in to_html_string"])
p("P15","Links in HTML lead to the output file of their target",
 "For every page and wiki configuration, the address written for a wiki, interwiki or diary link, resolved by a browser against the page's own output location, is exactly the output location of the linked page plus its anchor. Directory links lead to that directory's index page, links with a file extension of their own lead to that file, local anchors stay on the page, and remote addresses are kept unchanged. (Excluded: targets that leave the wiki, contain ?, end in a dot, . or .. segment, have a colon in their first segment, or name a directory the page itself is in; file: and local: links are considered for relative targets only.)",
 ["inputs","configurations"],"every combination of wiki roots, output roots, diary folders, page depth, link kind, relative and absolute targets, parent-directory segments and anchors",
 "Tests resolve a fixed list of links in one or two configurations.",
 [C+"output/html/utils.rs",C+"output/html/config.rs"],[("resolve_link",C+"output/html/utils.rs"),("output path computation",C+"output/html/config.rs")],
 ["href/src in to_html_string with a configured HtmlConfig"])
p("P16","HTML output is reproducible",
 "Rendering the same document with the same configuration always produces byte-identical HTML: across repeated parses, clones, serialised copies and processes. No part of the output depends on hash ordering or on anything rendered before.",
 ["inputs","histories"],"every document, in particular code blocks with several metadata entries and links with several properties",
 "Tests render once and use at most one property, so an order that varies between runs is invisible.",
 [C+"output/html/mod.rs",C+"output/html/formatter.rs"],[("iteration over metadata and properties",C+"output/html/mod.rs")],
 ["to_html_string repeated"])
p("P17","Page templates are filled in exactly once",
 "A full HTML page is its template with each known variable (title, date, root path, wiki path, stylesheet, encoding, content) replaced by its value and everything else left alone. Page content and values are inserted verbatim (the title as escaped text) and are never themselves searched for variables; page-level placeholders choose the title, date and template, and otherwise the configured defaults apply.",
 ["inputs","configurations"],"every template text, page content, title and date, including ones that contain variable names",
 "Tests fill in one template with harmless values.",
 [C+"output/html/mod.rs",C+"output/html/config.rs"],[("template substitution",C+"output/html/mod.rs")],
 ["ToHtmlPage::to_html_page"])
p("P18","Copies and serialised trees are the same document",
 "Borrowing, cloning and taking ownership of any element, and writing a page as JSON and reading it back, all yield a strictly equal tree with the same regions, which formats and renders identically. Strict equality implies equality, equality ignores only positions, and both are equivalence relations. (Terms and definitions compare by their text; addresses compare in normalised form.)",
 ["inputs"],"every parsed document and every element in it",
 "Conversions are only tested for a few elements; each element type has hand-written conversion code.",
 [C+"elements/"],[("to_borrowed/into_owned per element",C+"elements/blocks/mod.rs"),("serde attributes per element",C+"elements/")],
 ["to_borrowed, into_owned, StrictEq, serde_json"])
p("P19","Table queries agree with the grid",
 "For any table, walking its rows, columns, cells, header rows or body rows visits exactly the cells of the grid in order with their true positions, consuming and borrowing walks agree, and row span, column span, column alignment, divider row and size queries all agree with the grid. Cells behind missing positions are not skipped. (Column alignment is read from rows whose first cell is an alignment.)",
 ["inputs"],"every grid: any size, ragged and sparse cells, spans and alignment rows anywhere",
 "Tests use small complete grids.",
 [C+"elements/blocks/tables.rs"],[("iterators and span computation",C+"elements/blocks/tables.rs")],
 ["Table public API"])
p("P20","List numbering and todo progress are computed correctly",
 "The marker printed for the n-th item of a list is the n-th marker of its style (1, 2, 3; a..z, aa, ab; i, ii, iii), distinct positions in letter and number lists give distinct markers, and each marker parses back to the same style. An item's progress is the average over those of its sub-items that have a progress, recursively, or its own state when there are none; a rejected item and an item without any todo state have no progress.",
 ["inputs"],"every position and style, and every tree of items with any todo states",
 "Tests check the first few positions and a few fixed trees.",
 [C+"elements/blocks/lists/item.rs"],[("pos_to_alphabet and roman conversion",C+"elements/blocks/lists/item.rs"),("compute_todo_progress",C+"elements/blocks/lists/item.rs")],
 ["ListItem::to_prefix, ListItem::compute_todo_progress"])
p("P21","Line endings do not change the document",
 "A document with Windows line endings parses to the same page as the same document with Unix line endings, and a missing or extra final line ending, or additional blank lines around the document, do not change its elements. (Carriage returns occur only as part of line endings.)",
 ["inputs"],"every document, with every line ending style and any surrounding blank lines",
 "There is one Windows-ending test file with fixed snippets.",
 [C+"parsers/utils/line.rs",C+"parsers/utils/bytes.rs",C+"parsers/vimwiki/"],[("line-ending handling in each parser",C+"parsers/utils/bytes.rs")],
 ["parse of CRLF and LF variants"])
p("P22","Blocks separated by a blank line are independent",
 "Parsing two documents joined by a blank line and a block that ends any open element gives the elements of the first followed by the elements of the second, with the second's positions shifted by the length of what precedes it. Editing one part of a document never changes how the other part is read. (The first document leaves no code block, math block or comment open.)",
 ["inputs"],"every pair of documents",
 "No test concatenates documents.",
 [C+"parsers/vimwiki/mod.rs",C+"parsers/span.rs"],[("page loop over blank lines and blocks",C+"parsers/vimwiki/mod.rs")],
 ["parse of A, B and A+B"])
p("P23","Wiki lookup and output paths are consistent",
 "A wiki configuration finds the wiki of a page by index, name or path: the wiki returned for a path is the configured wiki that contains it, lookups agree with each other, and each source page maps to its own output file under that wiki's output root with the relative path preserved and the extension replaced. Walking from any output page along its path to the root arrives at the output root.",
 ["inputs","configurations"],"every set of wikis (nested or disjoint roots, names, extensions) and every page path, normalised or not",
 "Tests use a fixed configuration per function.",
 [C+"output/html/config.rs"],[("find_wiki_by_*, make_output_path, path_to_root, normalize_path",C+"output/html/config.rs")],
 ["HtmlConfig and HtmlWikiConfig API"])
p("P24","Partial configuration files mean defaults for the rest",
 "Any subset of the documented settings of the HTML or format configuration can be given in a configuration file: the given settings take the given values, all others keep their documented defaults, and writing a configuration out and reading it back gives the same configuration.",
 ["configurations"],"every subset of settings of the HTML and format configurations with arbitrary values",
 "Tests deserialise no partial configuration.",
 [C+"output/html/config.rs",C+"output/vimwiki/config.rs"],[("serde defaults",C+"output/html/config.rs"),("serde defaults",C+"output/vimwiki/config.rs")],
 ["toml/json round trip of HtmlConfig and VimwikiConfig"])
p("P25","The format command rewrites only what it should",
 "Formatting files or directories from the command line in place replaces exactly the files given, and the files below given directories with a selected extension, by their formatted text, and leaves every other file untouched; without the in-place option nothing on disk changes and the formatted text is printed. Running it twice changes nothing the second time, except that neighbouring quotes may become one only then.",
 ["histories","inputs"],"every directory tree of wiki and other files, every list of paths and extensions, repeated runs",
 "The command line has no tests of its subcommands.",
 ["vimwiki-cli/src/subcommand/format.rs","vimwiki-cli/src/utils.rs"],[("path walk and in-place write","vimwiki-cli/src/subcommand/format.rs")],
 ["file tree before and after running the binary, stdout"])
p("P26","The convert command renders every page of the selected wikis",
 "Converting from the command line writes, for each page of each selected wiki, exactly one HTML file at that page's output path whose content is the library's rendering of the current file with that wiki's configuration, plus the stylesheet when asked for, and changes no source file. Selecting wikis by index or by name converts exactly those wikis, and printing to standard output writes no file.",
 ["histories","configurations","inputs"],"every set of wikis with nested pages, selections by index or name, and option combinations",
 "The command line has no tests of its subcommands.",
 ["vimwiki-cli/src/subcommand/convert.rs","vimwiki-cli/src/lib.rs","vimwiki-cli/src/utils.rs"],[("page walk and output path","vimwiki-cli/src/subcommand/convert.rs"),("wiki selection","vimwiki-cli/src/utils.rs")],
 ["file tree after running the binary, stdout"])
p("P27","The parse cache never changes a result",
 "Whatever sequence of edits, deletions, conversions with and without the cache, pruning, and damage that leaves cache files unreadable has happened before, a command produces exactly the result it would produce with no cache at all. After a run that prunes, the cache directory holds entries only for current content; a run without the cache leaves the cache directory as it was.",
 ["histories","fault_sequences"],"every history of edits, runs and cache corruption (truncated, emptied, garbage, foreign entries)",
 "Cache tests only load one file without a cache.",
 ["vimwiki-cli/src/ast.rs"],[("checksum keyed cache and pruning","vimwiki-cli/src/ast.rs")],
 ["outputs of the binary with a cache directory versus --no-cache"])
p("P28","Inspection reports the parsed pages of the selected wikis",
 "Inspecting with a JSON path reports values selected from the tree of selected wikis, whose files are exactly the wikis' pages with their path, content checksum and parsed page, in any order. The result is the same on standard output and in an output file, and reflects the files as they are now.",
 ["inputs","configurations"],"every set of wikis and selections",
 "The command line has no tests of its subcommands.",
 ["vimwiki-cli/src/subcommand/inspect.rs","vimwiki-cli/src/ast.rs"],[("tree load and JSON path selection","vimwiki-cli/src/subcommand/inspect.rs")],
 ["stdout and output file of the binary"])
p("P29","Compile-time macros build what the parser builds",
 "A vimwiki document embedded with the macros yields, at run time, strictly the same tree (positions included) as parsing the same text at run time; the trimming macros equal parsing the text with outer blank lines and common indentation removed, and the formatting macros equal parsing text with the arguments in place.",
 ["programs"],"every program that embeds a document through the macros, for documents of every element kind",
 "Macro tests contain a few fixed snippets and ignore positions.",
 ["vimwiki_macros/src/"],[("tokenisation of each element","vimwiki_macros/src/tokens/"),("argument substitution","vimwiki_macros/src/formatter.rs")],
 ["generated programs compiled against vimwiki_macros"])
p("P30","The WebAssembly wrappers expose the same document",
 "Walking a page through the WebAssembly wrapper objects reports the same elements, counts, kinds, positions, texts, levels, flags, cells, links and HTML as walking it through the library; exactly one kind test is true for every element, and the matching cast succeeds exactly then. Converting any wrapper to a JavaScript value gives the library's serialised form, and constructors make the elements that their arguments describe.",
 ["inputs"],"every document, every element of it, and every list of arguments of a constructor",
 "The wrappers have no tests.",
 ["vimwiki-wasm/src/elements.rs","vimwiki-wasm/src/lib.rs"],[("wrapper accessors","vimwiki-wasm/src/elements.rs")],
 ["wrapper methods called natively"])
p("P31","Comments never reach readers unless asked for",
 "With default settings nothing written in a line or block comment in running text appears in the generated HTML, wherever the comment is placed, and markup inside a comment has no effect on the rest of the document. With comments enabled they appear only as HTML comments that they cannot escape from.",
 ["inputs","configurations"],"every placement and content of comments in paragraphs, headers, lists, tables, definitions and link-like text",
 "Comment tests cover a single comment in a paragraph.",
 [C+"parsers/vimwiki/blocks/inline/comments.rs",C+"output/html/mod.rs"],[("comment priority in inline parsing",C+"parsers/vimwiki/blocks/inline/mod.rs"),("comment writers",C+"output/html/mod.rs")],
 ["to_html_string"])
p("P32","Every part of a document can be reached, taken apart and told apart",
 "Taking an element apart into its children yields the same children that borrowing it shows, in the same order and with the same regions, at every level. For every element of any kind exactly one kind test is true and the matching conversions succeed exactly then and give back the same element. Convenience accessors (line groups, non-blank lines, terms and definitions, sub-lists, todo predicates, plain-text display) agree with the data of the element.",
 ["inputs"],"every document and every element in it",
 "Conversions and accessors are tested for a few hand-built elements; each element type has its own code.",
 [C+"elements/"],[("children and conversions per element",C+"elements/blocks/mod.rs"),("inline conversions",C+"elements/blocks/inline/mod.rs"),("accessors",C+"elements/blocks/lists/item.rs")],
 ["into_children, is_*/as_*/into_*, accessors"])
p("P33","Wikis come from vim, the configuration and paths as the options say",
 "The wikis a command works on are those of vim's vimwiki_list (with the documented defaults and path expansion) followed by those of the configuration file when merging, those of the configuration file when it has any, and those of vim otherwise; then comes one temporary wiki for each standalone path given. An editor that is missing, fails or prints something else adds no wikis. Links by index and selections by index or name refer to this list. Converting with standalone paths converts exactly the pages in these, otherwise every page of the selected wikis is converted or reported exactly once.",
 ["inputs","configurations","fault_sequences"],"every combination of vim lists, configuration files, standalone paths, selections and failing editors",
 "No test runs the command line with an editor or with extra paths.",
 ["vimwiki-cli/src/lib.rs","vimwiki-cli/src/utils.rs","vimwiki-cli/src/subcommand/convert.rs"],[("vim list and merging","vimwiki-cli/src/lib.rs"),("temporary wikis and walking","vimwiki-cli/src/utils.rs")],
 ["file tree, stdout and exit status of the binary"])
p("P34","Elements built in code are those the parser makes",
 "A page built in code from constructors, conversions and collecting (from borrowed or owned text, in any of the equivalent ways the interface offers) equals the page parsed from text with that content, compares, hashes and serialises the same, and is formatted and rendered to the same text and HTML.",
 ["inputs"],"every document, every equivalent way to construct each of its elements",
 "Tests build a few elements in one way and do not compare them with parsed ones through formatting and rendering.",
 [C+"elements/"],[("constructors and conversions per element",C+"elements/blocks/mod.rs"),("tables from cells",C+"elements/blocks/tables.rs"),("list numbering after construction",C+"elements/blocks/lists/mod.rs")],
 ["public constructors, PartialEq/StrictEq/Hash, serde, to_vimwiki_string, to_html_string"])
p("P35","Elements can be edited in place and helper values convert both ways",
 "Editing through any mutable access (fields, iterators, indexing, mutable casts, cells) changes exactly what was edited and everything read, formatted or rendered afterwards shows the new value. Regions, located values, anchors, link addresses and their encoding, cell positions and code languages convert to their other forms and back without loss, their predicates and positions agree with each other, and links keep description, properties and anchor when taken apart.",
 ["inputs","histories"],"every document and edit; every value of the helper types",
 "Tests cover few values of each helper and no mutable access.",
 [C+"elements/utils/",C+"elements/blocks/inline/links/"],[("regions and located values",C+"elements/utils/"),("link data",C+"elements/blocks/inline/links/data.rs"),("anchors",C+"elements/blocks/inline/links/anchor.rs"),("mutable access",C+"elements/blocks/mod.rs")],
 ["mutable accessors, conversions, Display/FromStr"])
p("P36","An element read on its own is the element the page has",
 "The source text of an element, cut out of its document by its region, is read by that element's own type (and by the general block, inline or document types) as the same element, with the positions inside it relative to its start. Text that is not of that kind is refused, and the whole text has to be used.",
 ["inputs"],"every document and every element of every kind in it",
 "Tests of the parsers start from text written for them, not from elements inside documents.",
 [C+"mod.rs",C+"parsers/"],[("languages and their parsers",C+"mod.rs"),("parsing by type",C+"parsers/vimwiki/mod.rs")],
 ["Language::parse::<T>, ParsableElement"])
p("P37","Pages built in code render completely, whatever texts they hold",
 "Any page that can be built with the public constructors, with arbitrary texts (markup, HTML, control characters, empty parts) that no document text could stand for, is rendered to well-formed HTML that mirrors its structure and texts, is written as vimwiki text without failing and without dropping any of its words, and survives serialisation unchanged.",
 ["inputs","configurations"],"every page of constructed elements with arbitrary strings, with every rendering setting",
 "The output tests build a few elements with plain texts.",
 [C+"output/html/mod.rs",C+"output/vimwiki/"],[("HTML writers",C+"output/html/mod.rs"),("text writers",C+"output/vimwiki/mod.rs")],
 ["to_html_string, to_vimwiki_string, serde_json"])
p("P38","The time a page takes stays in proportion to its size",
 "Parsing, formatting and rendering a page ends after a time in proportion to a low power of its size: no page of a thousand bytes, however its elements are nested, repeated, left open or indented, takes more than a few seconds of processor time, and none overflows the stack of a program's main thread.",
 ["inputs"],"every way to grow a page: repeated, nested, left open, indented further line by line, waves of indentation",
 "A few small pages cannot show how time grows; doubling with every level is invisible at two levels.",
 [C+"lang/parsers/vimwiki/blocks/",C+"parsers/utils/"],[("parsers",C+"lang/parsers/vimwiki/mod.rs"),("writers",C+"output/")],
 ["Language::parse, to_vimwiki_string, to_html_string"])
p("P39","Logging and measuring change nothing and report what happened",
 "However a command is watched (any verbosity, quiet, timestamps, the program built to measure parsing and asked to do so or not), it ends as it would otherwise, prints the same (followed by the report) and leaves the same files; a quiet run prints no messages, a failing one that is not quiet does, and at verbosity two each file written is named. Reports list each parser once, with a number of calls that is the sum over what was parsed while measuring was on since the last clearing, in however many threads, with consistent totals and averages, in order of the average; a page parsed counts as one page.",
 ["inputs","configurations","histories","schedules"],"every history of switching, parsing in threads, reporting and clearing; every command with every way to watch it",
 "There are no tests of logging or measuring; the counts depend on the history and on threads.",
 ["vimwiki-core/src/timekeeper.rs","vimwiki-cli/src/main.rs","vimwiki-cli/src/lib.rs"],[("timekeeper","vimwiki-core/src/timekeeper.rs"),("program","vimwiki-cli/src/lib.rs")],
 ["vimwiki -v -q -t --timekeeper; vimwiki::timekeeper"])
p("P40","A command that fails says so by its status and harms nothing",
 "A command that cannot do all of its work (configuration or arguments missing or wrong, a path or page that cannot be read, a link to an unknown wiki, an output or cache path that is taken, standard output that takes nothing, a full disk) never panics; it ends with the status of the stage that failed (1 configuration and arguments, 2 loading, 3 the command itself) and a message, and a failure before the command starts prints and writes no result. However it ends, even killed at any point, the pages of the wikis and everything that is not its output stay as they were (a page formatted in place has its old or its new content, never a part), each output is as it was, complete, or, on a full disk or killed, the beginning of what it should be, and once the cause is removed the same command gives the normal result, whatever was left in the cache.",
 ["inputs","configurations","fault_sequences","crash_points"],"every command and options, every kind of failure alone or together, every size limit and moment of being killed",
 "Tests run commands in good conditions and check success only.",
 ["vimwiki-cli/src/subcommand/","vimwiki-cli/src/ast.rs","vimwiki-cli/src/lib.rs"],[("exit codes","vimwiki-cli/src/lib.rs"),("formatting in place","vimwiki-cli/src/subcommand/format.rs"),("cache","vimwiki-cli/src/ast.rs")],
 ["vimwiki convert, inspect, format, serve"])
p("P41","Commands run at the same time do not disturb each other",
 "Any number of commands that convert or inspect the same wikis at the same time, sharing a cache that is empty, filled, damaged or full of old entries, each end with the status, the printed result and the files they would give alone, in every interleaving and also when some of them are killed. The cache they leave behind gives every later command the right result.",
 ["schedules","crash_points","inputs"],"every set of commands, every interleaving of their reading, writing and removing of cache entries and outputs, every moment of being killed",
 "Tests run one loader at a time in its own cache directory.",
 ["vimwiki-cli/src/ast.rs","vimwiki-cli/src/subcommand/convert.rs"],[("reading, writing and pruning of the cache","vimwiki-cli/src/ast.rs")],
 ["vimwiki convert, inspect with --cache"])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
