//! The properties: which generators drive them and which oracles decide them.

use crate::checks::*;
use crate::engine::*;
use crate::gens::*;
use crate::soup;

const PARSER: &str = "pulldown-cmark, the parser that the formatter is built on, reads Markdown correctly and is itself outside the property; inputs that make the parser alone panic are skipped";
const CANON: &str = "the canonical printer of the harness states what formatted Markdown looks like; it was derived from the README, the documentation and the expectations of the existing tests and shares no code with the formatter";
const DOMAIN: &str = "exact output is expected only for documents of the generator, which avoids spellings listed in DESIGN.md (parser oddities and recorded findings)";

const MEANING: &str = "what a document means is its pulldown-cmark event stream without source positions and insignificant white space";
const CLI: &str = "what the tool should write is computed with the library, whose own output the other properties judge";


const R_EXACT: &str = "documents are generated as trees and typed with random incidental spelling; the output must equal the canonical spelling of the tree; non-trivial: the input was not already canonical";
const R_FIXED: &str = "documents in canonical spelling must come out unchanged; non-trivial: there is more than plain text";
const R_TAME: &str = "random lines of Markdown constructs in random containers; non-trivial: formatting changed the input";
const R_FOCUS: &str = "one construct in all the spellings that are nearly it, between and inside others; meaning, definitions and second pass; non-trivial: formatting changed the input";

fn arm(name: &'static str, gen: GenFn, check: CheckFn, quick: u64, rule: &'static str) -> Arm {
    Arm { name, gen, check, quick, rule }
}

pub fn all() -> Vec<Prop> {
    let exact_as = &[CANON, PARSER, DOMAIN];
    let meaning_as = &[MEANING, PARSER, DOMAIN];
    vec![
        Prop {
            id: "C01",
            arms: vec![
                arm("tokens", soup_tokens, total, 600_000, "token soup with a random configuration; non-trivial: the parser finds a construct other than plain text"),
                arm("chars", soup_chars, total, 600_000, "random characters, biased to Markdown's; non-trivial as above"),
                arm("lines", soup_lines, total, 600_000, "random lines; non-trivial as above"),
                arm("repetition", soup_repetition, total, 150_000, "a few things, some of them repeated up to hundreds of times; non-trivial as above"),
                arm("examples", soup_examples, total, 1_000_000, "examples of the repository's tests, in part, in sequence, in containers and edited; non-trivial as above"),
                arm("mutants", mutants, total, 400_000, "a generated document with characters deleted, doubled, replaced or moved; non-trivial as above"),
                arm("documents", full_cfg, total, 300_000, "generated documents with random width and reflow; non-trivial as above"),
            ],
            assumptions: &[PARSER],
        },
        Prop {
            id: "C02",
            arms: vec![
                arm("documents", full_cfg, idempotent, 300_000, "generated documents with random width and reflow, formatted twice; non-trivial: the first pass changed the input"),
                arm("canonical", docs::<FULL, NONE>, fixpoint, 200_000, R_FIXED),
                arm("lines", tame, idempotent, 400_000, R_TAME),
                arm("wrapped", tame_wrapped, idempotent, 400_000, R_TAME),
                arm("tables", table_soup, idempotent, 200_000, "random tables; non-trivial: formatting changed the input"),
                arm("separators", wide_markers, idempotent, 100_000, "lists with wide markers above code; non-trivial: formatting changed the input"),
            ],
            assumptions: exact_as,
        },
        Prop {
            id: "C03",
            arms: vec![
                arm("documents", full_cfg, same_meaning, 300_000, "generated documents with random width and reflow; non-trivial: formatting changed the input"),
                arm("lines", tame, same_meaning, 400_000, R_TAME),
                arm("wrapped", tame_wrapped, same_meaning, 400_000, R_TAME),
                arm("tables", table_soup, same_meaning, 200_000, "random tables; non-trivial: formatting changed the input"),
                arm("near", focus_pair, faithful, 400_000, R_FOCUS),
                arm("separators", wide_markers, same_meaning, 100_000, "lists with wide markers above code; non-trivial: formatting changed the input"),
            ],
            assumptions: meaning_as,
        },
        Prop {
            id: "C04",
            arms: vec![
                arm("exact", docs::<DEFS, ALL>, exact, 400_000, R_EXACT),
                arm("documents", full_cfg, same_definitions, 200_000, "definitions known to the parser before and after; non-trivial: there are some"),
                arm("lines", tame, same_definitions, 400_000, "definitions known to the parser before and after; non-trivial: there are some"),
                arm("near", focus::<{ soup::DEFINITION }>, faithful, 200_000, R_FOCUS),
            ],
            assumptions: exact_as,
        },
        Prop {
            id: "C05",
            arms: vec![
                arm("exact", docs::<CODE, ALL>, exact, 400_000, R_EXACT),
                arm("documents", full_cfg, same_code, 200_000, "code blocks known to the parser before and after; non-trivial: there are some"),
                arm("separators", wide_markers, same_code, 100_000, "lists with wide markers above code; non-trivial: there are code blocks"),
                arm("near", focus::<{ soup::FENCE }>, faithful, 200_000, R_FOCUS),
            ],
            assumptions: exact_as,
        },
        Prop {
            id: "C06",
            arms: vec![
                arm("code", callbacks::<CODE>, callback_contract, 300_000, "the calls and the output for one of ten code block formatters are computed from the document tree; non-trivial: there are calls"),
                arm("documents", callbacks::<FULL>, callback_contract, 200_000, "same, over all constructs"),
            ],
            assumptions: exact_as,
        },
        Prop {
            id: "C07",
            arms: vec![
                arm("exact", wrapped::<WRAP, ALL, 0>, exact, 300_000, R_EXACT),
                arm("spans", wrapped::<SPANS, ALL, 0>, exact, 200_000, R_EXACT),
                arm("lines", tame_wrapped, width_respected, 300_000, "every line of a paragraph that is too wide has no place to break; non-trivial: wrapping changed the output or a line stays too wide"),
                arm("documents", wrapped::<WRAP, ALL, 1>, width_respected, 150_000, "same, over generated documents"),
                arm("words", tame_wrapped, words_kept, 300_000, "output with and without a width mean the same but for line breaks; non-trivial: they differ"),
                arm("words-documents", wrapped::<WRAP, ALL, 1>, words_kept, 100_000, "same, over generated documents"),
                arm("near", focus_wrapped, faithful, 200_000, R_FOCUS),
                arm("huge", wide, huge_width, 150_000, "a width that nothing reaches changes nothing; non-trivial: formatting changed the input"),
            ],
            assumptions: exact_as,
        },
        Prop {
            id: "C08",
            arms: vec![
                arm("exact", wrapped::<WRAP, ALL, 1>, exact, 300_000, R_EXACT),
                arm("spans", wrapped::<SPANS, ALL, 1>, exact, 200_000, R_EXACT),
                arm("alone", reflow_only::<WRAP>, exact, 200_000, "reflow without a width: the canonical spelling is as without reflow; non-trivial: the input was not already canonical"),
                arm("rebroken", two_breakings, rebroken, 300_000, "one document with its paragraphs broken into lines in two ways; non-trivial: the two differ"),
            ],
            assumptions: exact_as,
        },
        Prop {
            id: "C09",
            arms: vec![
                arm("exact", docs::<TABLES, ALL>, exact, 300_000, R_EXACT),
                arm("shape", table_soup, table_shape, 300_000, "random tables; non-trivial: formatting changed the input and it holds a table"),
            ],
            assumptions: exact_as,
        },
        Prop {
            id: "C10",
            arms: vec![
                arm("exact", docs::<LISTS, ALL>, exact, 400_000, R_EXACT),
                arm("near", focus::<{ soup::LIST }>, faithful, 200_000, R_FOCUS),
            ],
            assumptions: exact_as,
        },
        Prop {
            id: "C11",
            arms: vec![
                arm("exact", line_endings::<FULL>, exact, 300_000, R_EXACT),
                arm("lines", lf_lines, line_ends, 300_000, "random lines with LF, CRLF and mixed line endings; non-trivial: more than one line, and formatting changed them"),
            ],
            assumptions: exact_as,
        },
        Prop {
            id: "C12",
            arms: vec![
                arm("exact", docs::<BLANKS, ALL>, exact, 400_000, R_EXACT),
            ],
            assumptions: exact_as,
        },
        Prop {
            id: "C13",
            arms: vec![
                arm("exact", docs::<HEADS, ALL>, exact, 400_000, R_EXACT),
                arm("near", focus::<{ soup::HEADING }>, faithful, 200_000, R_FOCUS),
            ],
            assumptions: exact_as,
        },
        Prop {
            id: "C14",
            arms: vec![
                arm("exact", docs::<FULL, ALL>, exact, 400_000, R_EXACT),
                arm("tabs", docs::<FULL, TABS>, exact, 300_000, R_EXACT),
                arm("twins", two_spellings::<FULL>, twins, 200_000, "two spellings of one document with random width and reflow; non-trivial: they differ"),
            ],
            assumptions: exact_as,
        },
        Prop {
            id: "C15",
            arms: vec![
                arm("exact", docs::<INLINE, ALL>, exact, 400_000, R_EXACT),
                arm("spans", docs::<SPANS, ALL>, exact, 300_000, R_EXACT),
                arm("near", focus::<{ soup::EMPHASIS }>, faithful, 200_000, R_FOCUS),
                arm("near-spans", focus::<{ soup::SPAN }>, faithful, 200_000, R_FOCUS),
            ],
            assumptions: exact_as,
        },
        Prop {
            id: "C16",
            arms: vec![
                arm("history", histories, no_memory, 40_000, "one formatter for a sequence of documents, against a new one for each; non-trivial: more than one document"),
                arm("settings", settings, builder_ops, 100_000, "a sequence of builder calls, against the last setting of each kind; non-trivial: the settings have an effect"),
            ],
            assumptions: &[PARSER],
        },
        Prop {
            id: "C17",
            arms: vec![
                arm("session", crate::cli::sessions, crate::cli::session, 800, "a sequence of invocations of the command line tool over a scratch directory, against a model; non-trivial: a file changed"),
            ],
            assumptions: &[CLI],
        },
        Prop {
            id: "C18",
            arms: vec![
                arm("exact", docs::<FOOT, ALL>, exact, 400_000, R_EXACT),
                arm("near", focus::<{ soup::NOTE }>, faithful, 200_000, R_FOCUS),
            ],
            assumptions: exact_as,
        },
        Prop {
            id: "C19",
            arms: vec![
                arm("exact", docs::<LINKS, ALL>, exact, 400_000, R_EXACT),
                arm("near", focus::<{ soup::LINK }>, faithful, 200_000, R_FOCUS),
            ],
            assumptions: exact_as,
        },
        Prop {
            id: "C20",
            arms: vec![
                arm("exact", docs::<HTML, ALL>, exact, 400_000, R_EXACT),
                arm("near", focus::<{ soup::HTML }>, faithful, 200_000, R_FOCUS),
            ],
            assumptions: exact_as,
        },
        Prop {
            id: "C21",
            arms: vec![
                arm("exact", docs::<QUOTES, ALL>, exact, 300_000, R_EXACT),
            ],
            assumptions: exact_as,
        },
        Prop {
            id: "C22",
            arms: vec![
                arm("below", two_parts, concatenated, 200_000, "two documents with a heading between them; non-trivial: formatting changed them"),
                arm("quote", in_quote, quoted, 200_000, "a document in a block quote; non-trivial: formatting changed it"),
                arm("item", in_item, itemed, 200_000, "a document in a list item; non-trivial: formatting changed it"),
            ],
            assumptions: meaning_as,
        },
        Prop {
            id: "C23",
            arms: vec![
                arm("exact", docs::<DEEP, ALL>, exact, 500_000, R_EXACT),
            ],
            assumptions: exact_as,
        },
        Prop {
            id: "C24",
            arms: vec![
                arm("exact", docs::<NEST, ALL>, exact, 150_000, R_EXACT),
                arm("wrapped", wrapped::<NEST, ALL, 1>, exact, 150_000, R_EXACT),
                arm("callback", nested, callback_contract, 150_000, "the calls and the output for one of ten code block formatters are computed from the document tree; non-trivial: there are calls"),
            ],
            assumptions: exact_as,
        },
        Prop {
            id: "C25",
            arms: vec![
                arm("exact", docs::<RULES, ALL>, exact, 400_000, R_EXACT),
                arm("near", focus::<{ soup::RULE }>, faithful, 200_000, R_FOCUS),
            ],
            assumptions: exact_as,
        },
    ]
}
