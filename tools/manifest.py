#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one source for both)."""
import json, os
os.chdir(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
F = "src/formatter.rs"
props = []
def P(id, title, statement, text, why, files, mech, over=("inputs",), observe=None, tech="", note=""):
    assert len(title) <= 80, title
    props.append(dict(d=dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe or ["rewrite_markdown", "rewrite_markdown_with_builder"], hook_needed=None)),
        tech=tech, note=note))

EX = "property-based testing: generated document trees, sloppy spelling in, exact canonical spelling out (reference printer), with shrinking"
NX = "Exploration: holds on every generated case. Trusts the harness's canonical printer and pulldown-cmark; inputs outside the generator's domain (DESIGN.md) are only covered by the totality, meaning and idempotence arms."
TESTS = "The existing tests are fixed examples (CommonMark, GFM and parser spec examples and about fifty hand-written files); each shows one spelling of one combination of constructs."

P("C01", "Formatting never panics, never errors and always returns",
  "For every UTF-8 text and every configuration of maximum width and reflow, formatting returns formatted text: it does not panic, return an error, fail an internal assertion or run forever. The only inputs excepted are those that make the Markdown parser underneath panic on its own.",
  "every string, every max_width (including 0) and reflow setting", "Panics come from byte offsets, indentation stacks and empty buffers in combinations no fixed example has. " + TESTS,
  [F, "src/links.rs", "src/header.rs", "src/paragraph.rs", "src/table.rs", "src/escape.rs", "src/list.rs", "src/html.rs"],
  [("main event loop", F + " FormatState::format"), ("link definition recovery by offsets", "src/links.rs"), ("debug assertions on the context stacks", F)],
  over=("inputs", "configurations"),
  tech="property-based fuzzing: token, character and line soups, mutated documents, repository examples and deep repetitions; oracle: returns, with debug assertions and overflow checks on; shrinking",
  note="Exploration of random inputs with debug assertions and overflow checks enabled; a case that takes longer than a minute counts as a violation.")
P("C02", "Formatting is idempotent",
  "Formatting already formatted text with the same configuration changes nothing. In particular a document that is in canonical form is left exactly as it is.",
  "every document, every max_width and reflow setting", "The tests format each expected output again, but only for their examples. " + TESTS,
  [F, "src/paragraph.rs", "src/escape.rs", "src/table.rs"], [("escaping of text that would become syntax", "src/escape.rs, " + F), ("newline bookkeeping", F + " write_newlines, count_newlines")],
  over=("inputs", "configurations"),
  tech="property-based testing: format twice and compare, over generated documents, line soups, tables and random widths; canonical documents as fixed points; shrinking",
  note="Exploration. The line soups avoid a short list of spellings that are recorded as findings or are parser oddities (DESIGN.md).")
P("C03", "Formatting preserves what the document means",
  "The formatted text parses to the same document as the input: the same blocks and nesting, tightness of lists, text, emphasis, code, links with the same destinations and titles, images, footnotes, tables, task markers, headings with the same attributes and HTML. Only line breaks inside paragraphs may differ, and only if a maximum width is set.",
  "every document, every max_width and reflow setting", "Tests compare text with text, never meaning with meaning; an output that means something else passes if it was recorded as expected. " + TESTS,
  [F, "src/escape.rs", "src/links.rs", "src/header.rs", "src/list.rs", "src/table.rs", "src/paragraph.rs"], [("rewriting of every parser event", F), ("escaping", "src/escape.rs")],
  over=("inputs", "configurations"),
  tech="property-based metamorphic testing: normalised parser event streams of input and output are compared, over generated documents, line soups, tables and random widths; shrinking",
  note="Exploration. Trusts pulldown-cmark as the judge of meaning, with insignificant white space normalised.")
P("C04", "Link reference definitions survive",
  "Every link reference definition of the input, wherever it stands (between blocks, in block quotes, list items or footnotes, used or unused), is in the output at the same place with the same label, destination and title. It is written on one line as label, destination, title with single spaces, and nothing else is added or lost around it.",
  "every document with link reference definitions", "The parser drops definitions from its events, so they are recovered from gaps between events; the combinations of neighbours and containers are unbounded. " + TESTS,
  ["src/links.rs", F], [("definition scanner", "src/links.rs parse_link_reference_definitions"), ("recovery between events", F + " rewrite_reference_link_definitions")],
  tech=EX + "; differential comparison of the parser's definition tables", note=NX)
P("C05", "Code is reproduced verbatim",
  "The code of a fenced or indented code block, in any container, is the same after formatting, line by line, including indentation and interior blank lines; the info string is kept, and the fence keeps its character and is never shorter than it was. No line of code can become a closing fence, and only blank lines and white space at the very end of a block go.",
  "every code block content, fence and container", "Code may contain any text, including Markdown syntax, fences and container prefixes. " + TESTS,
  [F, "src/list.rs"], [("code block buffer and indentation", F + " write_fenced_code_block, join_with_indentation"), ("separation of lists from indented code", F + " TagEnd::List")],
  tech=EX + "; comparison of the code blocks the parser sees before and after", note=NX)
P("C06", "The code block formatter is called once per block with the right arguments",
  "A custom code block formatter is called exactly once for each fenced code block that is not Markdown, in document order, with the info string, the unindented code, the columns that the containers take and the configured width; it is never called for indented code. What it returns, line by line and without trailing white space at the end, is the new content of the block, indented for its containers.",
  "every document, every behaviour of the code block formatter", "Few tests install a code block formatter, and those use one or two blocks. " + TESTS,
  ["src/builder.rs", F, "src/config.rs"], [("call of the formatter and its context", F + " format_code_buffer"), ("CodeBlockContext", "src/builder.rs")],
  over=("inputs", "configurations"),
  tech="property-based testing against a model: calls and output for ten code block formatters are computed from the generated document tree; shrinking", note=NX)
P("C07", "A maximum width wraps paragraphs and nothing else",
  "With a maximum width, a line of a paragraph is broken at the last single space that keeps it, with the prefix of its containers, within the width, or at the next place it can be broken at if there is none (several spaces in a row may be what a code span holds); words, links, code, headings, tables and code blocks are never split or changed. Breaking never changes what the document means, and a width that no line reaches, or reflow without a width, changes nothing.",
  "every document, every max_width", "Tests use a handful of widths on a handful of paragraphs. " + TESTS,
  ["src/paragraph.rs", F, "src/builder.rs"], [("wrapping", "src/paragraph.rs"), ("width left by the containers", F + " indentation_len")],
  over=("inputs", "configurations"),
  tech="property-based testing: exact output against a first-fit wrapping model; width bound, word preservation and no-effect relations over line soups; shrinking", note=NX)
P("C08", "Reflow makes a paragraph independent of where its lines broke",
  "With a maximum width and reflow, the lines of a paragraph are joined and wrapped anew, so two documents that differ only in soft line breaks of paragraphs come out identical. Hard line breaks stay, and reflow without a maximum width has no effect.",
  "every document, every max_width, every way to break its paragraphs into lines", "Needs pairs of documents; the tests have single examples. " + TESTS,
  ["src/paragraph.rs", F], [("soft breaks under reflow", F + " Event::SoftBreak"), ("wrapping", "src/paragraph.rs")],
  over=("inputs", "configurations"),
  tech="property-based testing: exact output against the wrapping model, and a metamorphic relation between two line breakings of one document; shrinking", note=NX)
P("C09", "Tables are aligned and keep their cells",
  "A formatted table has one line per row and each column is as wide as its widest cell in display columns (at least what the delimiter row needs), cells padded according to the column's alignment, one space beside each bar, outer bars always present. The number of rows, the alignments and the content of each cell stay, with missing cells added and surplus ones dropped as the parser does.",
  "every table: cell contents with wide characters, code, escapes, links; alignments; containers", "Widths depend on Unicode and on nested inline constructs; the tests have about twenty tables. " + TESTS,
  ["src/table.rs", F], [("column widths and padding", "src/table.rs"), ("cell collection", F)],
  tech=EX + "; alignment invariant over table soups", note=NX)
P("C10", "List markers, numbering and nesting are normalised consistently",
  "Each list keeps its marker character or delimiter, its numbers' written form per item, its tightness and its nesting; content is indented by exactly the marker's width plus one space, and blank lines between and inside items stay. Task markers become '[ ]' or '[x]' with one space after, and empty items stay empty items.",
  "every nesting, marker, indentation and spacing of lists", "Nesting times spacing times marker width is unbounded. " + TESTS,
  ["src/list.rs", F, "src/adapters/loose_list.rs", "src/adapters/end_list_at_last_item.rs"], [("marker normalisation", "src/list.rs"), ("indentation stack", F)],
  tech=EX, note=NX)
P("C11", "Line endings do not matter and the end of the file is normal",
  "LF, CRLF or mixed line endings give the same output, which has LF line endings only. The output ends with one newline exactly if the input ends with one, and has no blank lines at its start or end.",
  "every document and every mix of LF and CRLF", "Almost all tests use LF and inputs of one form. " + TESTS,
  [F, "src/lib.rs"], [("line ending normalisation and final newline", F + ", src/lib.rs")],
  tech=EX + "; metamorphic relation between line endings over line soups", note=NX)
P("C12", "Blank lines between blocks are neither added, removed nor given spaces",
  "The number of blank lines between two blocks, at the top level and inside every container, stays the same, except before the first and after the last block. Blank lines carry no trailing white space beyond the container prefix without its trailing space.",
  "every sequence of blocks, gaps and containers", "The newline count is derived from source offsets of neighbouring events, for every pair of block kinds and container. " + TESTS,
  [F], [("newline bookkeeping", F + " count_newlines, write_newlines_inner"), ("indentation of blank lines", F + " write_indentation")],
  tech=EX, note=NX)
P("C13", "Headings keep level, style, text and attributes",
  "An ATX heading is written with its number of '#', one space and its text without closing '#'s; a setext heading keeps its style, its underline's length and its lines. Attributes (id, classes, keys) stay, in a normalised block at the end of the heading.",
  "every heading text, level, style, attribute list and container", "The combinations of attributes, closing sequences and content are unbounded. " + TESTS,
  ["src/header.rs", F], [("heading writer and attributes", "src/header.rs")],
  tech=EX, note=NX)
P("C14", "Incidental spelling does not show in the output",
  "Two texts that spell the same document with different incidental white space (indentation of up to three spaces, tabs, spaces after markers, lazy continuation lines, trailing white space, padding in tables, links and headings) come out as the same text, namely the canonical spelling.",
  "every document and every incidental spelling of it", "Needs many spellings of one document; a test has one. " + TESTS,
  [F, "src/paragraph.rs", "src/list.rs", "src/table.rs", "src/header.rs"], [("rewriting of every parser event", F)],
  tech=EX + "; metamorphic relation between two spellings with random width and reflow", note=NX)
P("C15", "Inline constructs keep their spelling",
  "Emphasis and strong markers, code spans, autolinks, inline HTML, entities, backslash escapes, strikethrough, hard breaks, images and literal punctuation come out as they were written, in paragraphs, headings, tables and containers. Lines of a paragraph lose surrounding white space only, and code spans, tags and links that span lines pick up no container prefixes.",
  "every sequence and nesting of inline constructs", "Adjacency and nesting of inline constructs is unbounded. " + TESTS,
  [F, "src/paragraph.rs", "src/links.rs", "src/escape.rs"], [("text, code, HTML and break events", F), ("unescaping and escaping", "src/escape.rs")],
  tech=EX, note=NX)
P("C16", "A formatter has no memory and its settings are independent",
  "Formatting a text gives the same result whatever the same formatter formatted before, however nested its Markdown code blocks were, and whichever entry point is used. Builder settings apply in any order, the last one of each kind counts, and each affects only what it is for.",
  "every sequence of documents through one formatter, every sequence of builder calls", "The tests build a new formatter for each example. " + TESTS,
  ["src/builder.rs", "src/config.rs", "src/lib.rs", F], [("interior mutability of the configuration", F + " set_config"), ("builder", "src/builder.rs")],
  over=("histories", "configurations"), observe=["MarkdownFormatter::format", "FormatBuilder"],
  tech="stateful property-based testing: histories of documents and of builder calls against fresh formatters; shrinking",
  note="Exploration of random histories.")
P("C17", "The command line tool writes the formatted file or changes nothing",
  "The command line tool replaces the content of the named file by its formatted text (or prints exactly that text to standard output with --stdout and leaves the file alone), honouring --max-width and --reflow-text in every spelling and order of arguments. If an argument is invalid or the file is missing, is a directory or is not UTF-8, it exits with a failure, explains on standard error and changes nothing; no other file is touched in any case.",
  "every sequence of invocations, arguments and file contents", "No test runs the command line tool.",
  ["src/main.rs"], [("argument handling and output", "src/main.rs")],
  over=("histories", "inputs", "configurations"), observe=["the markdown-fmt executable: exit status, standard output and error, files"],
  tech="stateful property-based testing: sequences of invocations over a scratch directory against a model of the file system; shrinking",
  note="Exploration of random sessions. The expected text comes from the library, which the other properties judge.")
P("C18", "Footnotes keep labels, bodies and place",
  "A footnote definition is written as its label on a line of its own and its body below, indented by four columns within its containers, with its blocks formatted like any others and blank lines kept. References and definitions stay where they are, and what follows a definition never becomes a part of it.",
  "every body, neighbour and container of footnote definitions", "Bodies hold any blocks, containers any depth. " + TESTS,
  ["src/footnote.rs", F], [("footnote buffer and indentation", "src/footnote.rs, " + F + " TagEnd::FootnoteDefinition")],
  tech=EX, note=NX)
P("C19", "Links and images keep kind, destination, title and text",
  "Inline, reference, collapsed and shortcut links and images, autolinks and references without a definition keep their kind, label, destination spelling and title. An inline link is written on one line with no padding and one space before its title, and titles keep their content and their quotes.",
  "every link text, destination, title, quoting and place", "Destinations, titles and labels are found by scanning the source; escapes, brackets and parentheses nest. " + TESTS,
  ["src/links.rs", F], [("link writer and source scanning", "src/links.rs, " + F + " TagEnd::Link")],
  tech=EX, note=NX)
P("C20", "HTML and metadata blocks are reproduced",
  "HTML blocks come out with the same lines, indentation inside and position, indented for their containers, and inline HTML comes out unchanged. Metadata blocks at the start keep their delimiters and lines, and blank lines after either stay.",
  "every HTML or metadata block, neighbour and container", "HTML blocks end by seven different rules and sit in containers with prefixes. " + TESTS,
  ["src/html.rs", F], [("HTML block events", F + " Tag::HtmlBlock"), ("metadata", F + " Tag::MetadataBlock")],
  tech=EX, note=NX)
P("C21", "Block quotes keep depth and content",
  "Each line of a block quote is written with '>' and one space ('>' alone for a blank line, '>>' with nothing between for a quote directly inside another), and lazy continuation lines get their marker. Depth and content of nested quotes, lists in quotes and quotes in lists stay.",
  "every nesting, laziness and spacing of block quotes", "Depth times laziness times content is unbounded. " + TESTS,
  [F], [("block quote prefixes", F + " Tag::BlockQuote")],
  tech=EX, note=NX)
P("C22", "Formatting is compositional",
  "Formatting two documents separated by a heading gives the two formatted documents separated by that heading. Formatting a document inside a block quote or a list item gives the formatted document inside it, with a maximum width reduced by the prefix.",
  "every pair of documents, every document in a quote or list item, every width", "A relation between runs on different inputs; the tests compare single runs with literals. " + TESTS,
  [F], [("indentation stack", F), ("width left by the containers", F)],
  over=("inputs", "configurations"),
  tech="property-based metamorphic testing: format of the whole against the composition of the formatted parts; shrinking",
  note="Exploration. Documents whose parts interact (metadata, footnotes across parts, a nested quote's narrower prefix) are left out, see DESIGN.md.")
P("C23", "Literal text never turns into syntax when it moves to a line start",
  "Text that is literal only because of its indentation on a continuation line (list markers, '#', '>', fences, rules, setext underlines, table rows, HTML tags, definitions) stays literal after the indentation is removed: it gets a backslash escape where one is needed and none where it is not.",
  "every continuation line of every paragraph in every container", "Each kind of block start needs its own escape, in each container and after each kind of line break. " + TESTS,
  ["src/escape.rs", F], [("escape decision", "src/escape.rs"), ("start of a line", F + " needs_escape")],
  tech=EX, note=NX)
P("C24", "Markdown inside fenced code blocks is formatted like a document of its own",
  "The content of a fenced code block whose info string contains 'markdown' is formatted recursively with the same settings and a maximum width reduced by its containers' columns; after it the outer document continues with the outer width. Code blocks inside it reach the code block formatter in document order.",
  "every nesting of Markdown code blocks, width and reflow setting", "Nesting changes and restores the shared configuration; the tests have a few examples. " + TESTS,
  [F, "src/builder.rs"], [("recursive call with narrowed width", F + " format_code_buffer")],
  over=("inputs", "configurations"),
  tech=EX + "; with widths, reflow and code block formatters modelled through the nesting", note=NX)
P("C25", "Thematic breaks keep their spelling and separate what they separated",
  "A thematic break is written with its own characters and interior spacing, at the indentation of its containers, in every container and next to every block. It never becomes a setext underline, a list item or metadata, and never merges with its neighbours.",
  "every spelling, neighbour and container of thematic breaks", "A break's meaning depends on the lines around it. " + TESTS,
  [F], [("rule event", F + " Event::Rule")],
  tech=EX, note=NX)

with open("properties.jsonl", "w") as f:
    for p in props:
        f.write(json.dumps(p["d"], ensure_ascii=False) + "\n")
json.dump(dict(version=1, setup_cmd="./run.sh setup",
    checks=[dict(property=p["d"]["id"], quick_cmd=f"./run.sh {p['d']['id']} quick", thorough_cmd=f"./run.sh {p['d']['id']} thorough",
        evidence_file=f"evidence/{p['d']['id']}.json", technique=p["tech"], level="exploration", level_note=p["note"]) for p in props],
    not_applicable=[], notes="No hooks: every check uses the public API and the command line tool only. See DESIGN.md."),
    open("MANIFEST.json", "w"), indent=1, ensure_ascii=False)
open("MANIFEST.json", "a").write("\n")
