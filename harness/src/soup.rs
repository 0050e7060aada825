//! Unstructured inputs: soups of Markdown tokens and lines.

use crate::gen::many;
use crate::tape::Tape;

pub const TOKENS: &[&str] = &[
    "a", "b c", "foo", "é", "漢", "🎉", " ", "  ", "\n", "\n\n", "\n", "\n", "* ", "- ", "+ ", "1. ", "2) ", "10. ", "> ", ">", "# ", "## ", "#", "    ",
    "\t", "```", "~~~", "```rust\n", "`", "``", "*", "**", "_", "__", "~~", "~", "[", "]", "](", ")", "(", "![", "[a]", "[a]: /u", "[a][]", "[b][a]",
    "[^1]", "[^1]: ", "<", ">", "<div>", "</div>", "<b>", "<!--", "-->", "<https://x.y>", "&amp;", "&", "\\", "\\\n", "  \n", "|", "| a | b |\n",
    "|---|:-:|\n", "---", "---\n", "===\n", "***", "+++\n", "[ ] ", "[x] ", "{#id}", "{.c}", "\"t\"", "'", "=", "-", "+", ":", ".", "1", "!", "\r\n", "   ",
];

pub fn tokens(t: &mut Tape, max: usize) -> String {
    many(t, 1, max, |t, _| *t.pick(TOKENS)).concat()
}

/// Arbitrary characters, with a bias to the ones that mean something.
pub fn chars(t: &mut Tape, max: usize) -> String {
    many(t, 0, max, |t, _| match t.below(6) {
            0..=2 => *t.pick(b"\n \n\t>*-+#`~_[]()!<&|\\:=1.0\r{}^\"'") as char,
            3 => (b'a' + t.below(26) as u8) as char,
            4 => (t.below(128) as u8) as char,
            _ => char::from_u32(t.below(0x11_0000)).unwrap_or('\u{fffd}'),
        })
        .into_iter()
        .collect()
}

const STARTS: &[&str] = &[
    "", "", "", "> ", ">", "> > ", "* ", "- ", "+ ", "1. ", "2. ", "3) ", "  ", "   ", "    ", "      ", "* * ", "> * ", "* > ", "1. > ", "[^1]: ",
];
const BLOCKS: &[&str] = &[
    "", "", "", "", "# ", "### ", "```", "~~~", "```rust", "---", "***", "===", "[foo]: /url", "[bar]: <x> 'y'", "<div>", "</div>", "<!-- c -->",
    "| a | b |", "|---|---|", "[ ] ", "[x] ", "[^n]: ",
];
const INLINE: &[&str] = &[
    "alpha", "beta", "gamma", "*em*", "**st**", "`co de`", "[foo]", "[foo](/x)", "[t](/u \"v\")", "![i](/p)", "[^1]", "<b>", "</b>", "\\*", "&amp;", "~~x~~",
    "-", "+", "#", "1.", ">", "|", "é", "漢字", "<https://a.b>", "\\", "`", "*", "_", "[", "]", "end.", "foo-bar", "==", "!",
];

/// Lines that look like something a person types.
pub fn lines(t: &mut Tape, max: usize) -> String {
    many(t, 1, max, |t, _| {
        if t.chance(1, 6) {
            return "\n".to_string();
        }
        let mut l = String::new();
        l.push_str(t.pick(STARTS));
        l.push_str(t.pick(BLOCKS));
        let k = t.below(5);
        for j in 0..k {
            if j > 0 {
                l.push(' ');
            }
            l.push_str(t.pick(INLINE));
        }
        if t.chance(1, 12) {
            l.push_str("  ");
        }
        if l.trim().is_empty() {
            l.clear();
        }
        l.push('\n');
        l
    })
    .concat()
}

/// Same, from the tamer part of the vocabulary: no unbalanced delimiters, no block syntax as text.
const TAME_STARTS: &[&str] = &["", "", "", "> ", "> > ", "* ", "- ", "+ ", "1. ", "2. ", "  ", "   ", "* * ", "> * ", "* > ", "1. > "];
const TAME_BLOCKS: &[&str] = &["", "", "", "", "# ", "### ", "***", "[foo]: /url", "[bar]: <x> 'y'", "| a | b |", "[ ] ", "[x] "];
const TAME_INLINE: &[&str] = &[
    "alpha", "beta", "gamma", "*em*", "**st**", "`co de`", "[foo]", "[foo](/x)", "[t](/u \"v\")", "![i](/p)", "<b>", "</b>", "\\*", "&amp;", "~~x~~", "é",
    "漢字", "<https://a.b>", "end.",
];

pub fn tame_lines(t: &mut Tape, max: usize) -> String {
    many(t, 1, max, |t, _| {
        if t.chance(1, 5) {
            return "\n".to_string();
        }
        let mut s = String::new();
        s.push_str(t.pick(TAME_STARTS));
        let b = *t.pick(TAME_BLOCKS);
        s.push_str(b);
        // these are lines of their own
        let alone = b.starts_with("***") || b.starts_with("[foo]:") || b.starts_with("[bar]:") || b.starts_with('|');
        let k = if alone { 0 } else { t.range(1, 4) };
        for j in 0..k {
            if j > 0 {
                s.push(' ');
            }
            s.push_str(t.pick(TAME_INLINE));
        }
        if t.chance(1, 12) {
            s.push_str("  ");
        }
        s.push('\n');
        s
    })
    .concat()
}

/// What gets repeated; `@` stands for the place where the rest goes.
const REPEATED: &[&str] = &[
    "> ", ">", "* ", "- ", "1. ", "10) ", "  ", "    ", "\t", "[", "]", "![", "](", ")", "(", "*", "**", "_", "*a ", "**a", "a*", "`", "``", "` ", "~~", "~",
    "<", "<b>", "<!--", "-->", "\\", "&", "&amp;", "[^1]: ", "[^1]", "[a]: /u ", "[a][", "[a]", "|", "| a ", "|-", "| a | b |\n", "-", "=", "#", "# ", "\n", "\n\n",
    "a\n", "a ", "a  \n", "a\\\n", "> \n", ">\n", "* \n", "* a\n", "* a\n\n", "1. a\n", "> a\n", "```\n", "    a\n", "<div>\n", "[a]: /u\n", "[^1]: a\n", "***\n", "---\n",
    "a\n===\n", "# a\n", "\"", "'", "{", "{#a}", "{.a}", "é", "漢", "* [ ] ", "[ ] ", "+++\n", "\r\n", "\r",
];

/// What comes before and after.
const AROUND: &[(&str, &str)] = &[
    ("`", "`"), ("a `", "\nb`"), ("<b c=\"", "\">"), ("a <b c=\"", "\nd\">"), ("[", "](/u)"), ("[a](", ")"), ("[a](<", ">)"), ("[a](/u \"", "\")"), ("[", "]: /u"), ("[a]: ", ""), ("[a]: /u '", "'"),
    ("|", "|\n|-|"), ("|a|\n|", "|"), ("|a|\n|-|\n|", "|"), ("```\n", "\n```"), ("``` ", "\na"), ("# ", " #"), ("", "\n==="), ("# a {", "}"), ("<!-- ", " -->"), ("<div ", ">"), ("*", "*"), ("a\\", ""), ("[^", "]: a"), ("* ", "a"), ("> ", "a"),
    ("1", ". a"), ("---\n", "\n---"), ("    ", "a"),
];

/// A few things, some of them repeated very often.
pub fn repetition(t: &mut Tape) -> String {
    if t.chance(1, 2) {
        let (a, b) = *t.pick(AROUND);
        let inner = repetitions(t, 3);
        let (more, last) = (tokens(t, 2), *t.pick(&["", "\n", "a"]));
        return if t.chance(1, 2) { format!("{a}{inner}{b}{more}") } else { format!("{a}{more}{inner}{last}{b}") };
    }
    repetitions(t, 5)
}

fn repetitions(t: &mut Tape, most: usize) -> String {
    let mut budget = 1500usize;
    many(t, 1, most, |t, _| {
        let s = if t.chance(1, 3) { tokens(t, 3) } else { t.pick(REPEATED).to_string() };
        let n = match t.below(4) {
            0 => 1,
            1 => t.range(2, 12),
            2 => t.range(13, 80),
            _ => t.range(81, 400),
        };
        let n = n.min(budget / s.len().max(1));
        budget -= n * s.len();
        s.repeat(n)
    })
    .concat()
}

/// The examples of the repository's own tests.
pub fn corpus() -> &'static [String] {
    static CORPUS: std::sync::OnceLock<Vec<String>> = std::sync::OnceLock::new();
    CORPUS.get_or_init(|| {
        let mut files = vec![];
        let mut dirs = vec![std::path::PathBuf::from("/repo/tests")];
        while let Some(d) = dirs.pop() {
            for e in std::fs::read_dir(d).into_iter().flatten().flatten() {
                let p = e.path();
                if p.is_dir() {
                    dirs.push(p);
                } else if matches!(p.extension().and_then(|e| e.to_str()), Some("json" | "md")) {
                    files.push(p);
                }
            }
        }
        files.sort();
        let mut out: Vec<String> = vec![];
        for f in files {
            let Ok(s) = std::fs::read_to_string(&f) else { continue };
            match serde_json::from_str::<Vec<serde_json::Value>>(&s) {
                Ok(examples) => out.extend(examples.iter().filter_map(|e| e["markdown"].as_str()).map(String::from)),
                Err(_) => out.push(s),
            }
        }
        out.retain(|s| s.len() < 6000);
        out.sort();
        out.dedup();
        if out.is_empty() {
            out.extend(TOKENS.iter().map(|s| s.to_string()));
        }
        out
    })
}

/// Examples one after another, in containers, with pieces missing or inserted.
pub fn examples(t: &mut Tape) -> String {
    let mut s = many(t, 1, 3, |t, _| {
        let e = t.pick(corpus());
        let lines: Vec<&str> = e.split_inclusive('\n').collect();
        if t.chance(1, 2) || lines.is_empty() {
            return e.clone();
        }
        let a = t.range(0, lines.len() - 1);
        let b = t.range(a + 1, lines.len());
        lines[a..b].concat()
    })
    .join(*t.pick(&["", "\n", "\n\n", " "]));
    for _ in 0..t.below(3) {
        let (first, rest) = *t.pick(&[("> ", "> "), (">", ">"), ("* ", "  "), ("1. ", "   "), ("10) ", "    "), ("[^1]: ", "    "), ("> ", ""), ("* ", ""), ("-\t", "\t"), ("    ", "    ")]);
        s = s.split_inclusive('\n').enumerate().map(|(i, l)| format!("{}{l}", if i == 0 { first } else { rest })).collect();
    }
    for _ in 0..t.below(3) {
        let mut at = t.below(s.len() as u32 + 1) as usize;
        while !s.is_char_boundary(at) {
            at -= 1;
        }
        if t.chance(1, 2) {
            s.insert_str(at, t.pick(TOKENS));
        } else {
            let mut to = (at + t.range(1, 6)).min(s.len());
            while !s.is_char_boundary(to) {
                to += 1;
            }
            s.replace_range(at..to, "");
        }
    }
    s
}

pub const HEADING: usize = 0;
pub const LINK: usize = 1;
pub const DEFINITION: usize = 2;
pub const EMPHASIS: usize = 3;
pub const SPAN: usize = 4;
pub const LIST: usize = 5;
pub const FENCE: usize = 6;
pub const HTML: usize = 7;
pub const RULE: usize = 8;
pub const NOTE: usize = 9;

fn cat(t: &mut Tape, max: usize, from: &[&'static str]) -> String {
    many(t, 0, max, |t, _| *t.pick(from)).concat()
}

const IN_TEXT: &[&str] = &["a", "b", "é", " ", " ", "*", "_", "`", "\\", "[", "]", "!", "<", ">", "&", "~", "#", "foo", ".", "-", "1"];
const IN_ENDS: &[&str] = &[" ", "#", "##", "#######", "{ }", "{", "}", "{.x}", "{#i}", "{}", "a", "{k=v}", "=", "-"];
const IN_DEST: &[&str] = &["/u", "a", "&amp;", "%20", "\\", ":", ".", "é", "#", "(", ")", "<", ">", "[", "]", "\\(", "\\)", "\"", "'", "*", "_", "`", "!"];
const IN_TITLE: &[&str] = &["t", " ", "\"", "'", "(", ")", "\\", "\\\"", "\\'", "&quot;", "é", "*", "`", "[", "]", "<", ">", "\n"];
const IN_LABEL: &[&str] = &["a", "B", " ", "é", "*", "`", "\\]", "\\[", "!", "^", "-", ".", "_", "  ", "\n", "\\"];
const WS: &[&str] = &["", " ", " ", "  ", "\t", "\n", " \n "];
const IN_EM: &[&str] = &["*", "*", "**", "_", "_", "__", "***", "~~", "~", "a", "b", " ", " ", "\n", "é", ".", "(", "\\*", "\\_", "1", "`c`", "[x](/u)", "\\\n", "  \n"];
const IN_SPAN: &[&str] = &["`", "``", "```", "a", " ", "  ", "\n", "<b>", "<a href=\"x\">", "<!-- c -->", "</b>", "<", ">", "\\", "\\`", "*", "&lt;", "<https://a.b>", "<a@b.c>", "<?x?>", "<b\nc>", "-", "!"];
const LIST_BITS: &[&str] = &["* ", "- ", "+ ", "1. ", "2) ", "10. ", "0. ", "*", "-", "1.", "a", "b", "\n", "\n", "\n", "\n\n", "  ", "   ", "    ", "> ", "```\n", "# h\n", "[ ] ", "[x] ", "***\n"];
const FENCE_BITS: &[&str] = &["```", "~~~", "````", "`", "~", " ", "rust", "a", "\n", "\n", "\n", "\n\n", "    ", "  ", "* ", "\\", "&amp;", "{", "é"];
const HTML_BITS: &[&str] = &[
    "<div>", "</div>", "<pre>", "</pre>", "<script>", "</script>", "<!--", "-->", "<?", "?>", "<!X a>", "<![CDATA[", "]]>", ">", "<b>", "<x y>", "<hr/>", "<DIV", "a", " ", "\n", "\n", "\n", "\n\n", "  ",
    "    ", "*a*", "* ", "> ", "# ", "```\n",
];
const RULE_BITS: &[&str] = &["+++", "   ---\n", "***", "---", "___", "* * *", "- - -", "_ _", "*", "-", "_", "=", "===", "a", " ", "\n", "\n", "\n", "\n\n", "   ", "    ", "> ", "* ", "+ ", "# "];
const NOTE_BITS: &[&str] = &["[^1]: ", "[^a]: ", "[^1]", "[^a]", "[^1]:", "a", "b", " ", "\n", "\n", "\n", "\n\n", "    ", "  ", "* ", "> ", "```\n", "\n[a]: /u", "\\", "|"];

fn heading(t: &mut Tape) -> String {
    if t.chance(2, 3) {
        let n = t.range(1, 7);
        let sep = *t.pick(&["", " ", " ", " ", "  ", "\t"]);
        let s = format!("{}{sep}{}{}", "#".repeat(n), cat(t, 4, IN_TEXT), cat(t, 4, IN_ENDS));
        let s = s.replace('\n', " ");
        let end = if t.chance(1, 12) { "\\ {.x}" } else { "" };
        // what the closing sequence keeps from being attributes becomes attributes, as the tests want
        match s.trim_end().trim_end_matches('#').trim_end() {
            text if s.trim_end().ends_with('#') && text.ends_with('}') => text.to_string(),
            _ => s + end,
        }
    } else {
        let a = tight_brackets(cat(t, 5, IN_TEXT));
        let b = cat(t, 3, IN_ENDS);
        // a line of attributes that aren't any
        let a = if !a.contains(char::is_alphanumeric) && b.contains('{') && !matches!(b.trim(), "{.x}" | "{#i}" | "{k=v}") { a + "a" } else { a };
        let a = if b.ends_with(['#', ' ']) { a.trim_start_matches([' ', '#']).to_string() } else { a };
        let more = if t.chance(1, 3) && !b.contains('{') { format!("\na{}{}", cat(t, 3, IN_TEXT), cat(t, 3, IN_ENDS)) } else { String::new() };
        format!("{a}{b}{more}\n{}", t.pick(&["=", "-", "===", "---", "  ==  ", "--- "]))
    }
}

/// White space next to brackets goes, whether they are a link's or not.
fn tight_brackets(s: String) -> String {
    let mut out = String::new();
    for c in s.chars() {
        if c.is_ascii_whitespace() && out.ends_with('[') {
            continue;
        }
        if c == ']' {
            out.truncate(out.trim_end_matches([' ', '\t', '\n']).len());
        }
        out.push(c);
    }
    out
}

/// What could be a link in the destination of another is text for the spaces at its end.
fn tight_parentheses(mut s: String) -> String {
    if s.matches("](").count() > 1 {
        for space in [' ', '\t', '\n'] {
            s = s.replace(&format!("{space})"), ")").replace(&format!("{space})"), ")");
        }
    }
    s
}

/// One construct, typed in all the ways that are nearly it.
fn construct(t: &mut Tape, kind: usize) -> String {
    match kind {
        // hard breaks in what could be a link go, and so do spaces between what could be its parentheses
        LINK | DEFINITION => tight_parentheses(tight_brackets(near(t, kind).replace("\\\n", "\n").replace("\t ", " ").replace("  \n", "\n").replace("  \n", "\n")).replace("]\\[]]", "]]").replace("<![", "<[").replace("\\\n", "\n").replace("](](", "](").replace("]][", "][").replace("[][", "[").replace("<[", "<")),
        // a note on the line that starts another, and what only a space at the end of the input makes a task
        // no note in another, and no white space after a definition, which the parser finds hard breaks in
        NOTE => {
            let s = tight_brackets(near(t, kind));
            let one_a_line = |l: &str| {
                let l = if l.trim().is_empty() || l.contains("]:") { l.trim_start() } else { l };
                l.split_once("]:").map_or(l.to_string(), |(label, text)| format!("{label}]:{}", text.replace("]:", "]")))
            };
            let s = s.trim_end_matches(' ').split('\n').map(one_a_line).collect::<Vec<_>>().join("\n");
            s.split("]:").enumerate().map(|(i, part)| if i > 0 && part.trim_start().starts_with("[^") { format!(" a{part}") } else { part.to_string() }).collect::<Vec<_>>().join("]:")
        }
        LIST => near(t, kind).trim_end_matches(' ').split('\n').map(|l| if l.trim_end().ends_with(']') { format!("{l}a") } else { l.into() }).collect::<Vec<_>>().join("\n"),
        _ => near(t, kind),
    }
}

fn near(t: &mut Tape, kind: usize) -> String {
    match kind {
        HEADING => heading(t)
            .replace("{}\t", "{}")
            .replace("\t\n", "\n")
            .replace("  \n", " \n")
            .replace("  \n", " \n")
            .replace(" \t", " ")
            .replace("\\\n", "\n")
            .replace("{-}", "{}")
            .replace(" {}\n", " a\n")
            .replace(">\t", ">")
            .replace("{a}", "{.a}")
            // how the parser looks past the end of the text
            .replace("]\t", "]")
            .replace("<!", "<")
            .replace("<!", "<")
            .replace(">{", ">a{")
            .replace("> {", ">a {")
            .replace("_{", "_ {")
            .replace("*{", "* {")
            .replace("~{", "~ {"),
        LINK => {
            let n = t.range(1, 2);
            // what has to be next to each other to be a link is when the spaces in the other one go
            let (ws, in_dest) = if n == 1 { (WS, IN_DEST) } else { (&[""][..], &IN_DEST[..4]) };
            (0..n)
                .map(|_| {
                    let bang = *t.pick(&["", "", "!"]);
                    let text = cat(t, 3, IN_TEXT);
                    let end = if t.chance(3, 4) {
                        let open = *t.pick(&["", "", "<"]);
                        let dest = cat(t, 3, in_dest).replace("](", "]");
                        let title = if t.chance(1, 2) && (n == 1 || !dest.is_empty()) {
                            let (o, c) = *t.pick(&[("\"", "\""), ("'", "'"), ("(", ")")]);
                            let title = cat(t, 3, IN_TITLE);
                            // the parser doesn't see that what starts a line of the title is escaped
                            let title = if title.contains('\\') { title.replace('\n', " ") } else { title };
                            // nor is it clear what is a title when the brackets of two links nest
                            let title = if n == 1 { title } else { title.replace(['[', ']', '\\', '"', '\'', '(', ')', '<', '>', '`'], "") };
                            format!("{}{o}{title}{c}", t.pick(if n == 1 { WS } else { &[" "] }))
                        } else {
                            String::new()
                        };
                        let (before, after) = if dest.is_empty() && title.is_empty() { ("", "") } else { (*t.pick(ws), *t.pick(ws)) };
                        format!("({before}{open}{dest}{}{title}{after})", if open.is_empty() { "" } else { ">" })
                    } else {
                        t.pick(&["[]", "[a]", "", "[ A ]", "(/u)[a]"]).to_string()
                    };
                    format!("{}{bang}[{text}]{end}{}", t.pick(&["", "a ", "\\", "[", "!"]), t.pick(&["", " b", "]", ")"]))
                })
                .collect::<String>()
                + t.pick(&["", "", "\n\n[a]: /u"])
        }
        DEFINITION => {
            let label = cat(t, 3, IN_LABEL);
            let open = *t.pick(&["", "", "<"]);
            let dest = cat(t, 3, IN_DEST);
            let title = if t.chance(2, 3) {
                let (o, c) = *t.pick(&[("\"", "\""), ("'", "'"), ("(", ")")]);
                format!("{}{o}{}{c}", t.pick(WS), cat(t, 4, IN_TITLE))
            } else {
                String::new()
            };
            let close = if open.is_empty() { "" } else { ">" };
            let after = *t.pick(&["", "", " ", " b", "\nb", "\n\nb", "\n[b]: /v", "\n* c", "\n> c", "\n# d", "\n    e"]);
            let used = if t.chance(1, 2) { format!("\n\n[{label}] [x][{label}]") } else { String::new() };
            format!("{}[{label}]:{}{open}{dest}{close}{title}{after}{used}", t.pick(&["", "", " ", "a\n", "a\n\n"]), t.pick(WS))
        }
        EMPHASIS => cat(t, 12, IN_EM),
        SPAN => cat(t, 10, IN_SPAN),
        LIST => cat(t, 12, LIST_BITS),
        FENCE => cat(t, 12, FENCE_BITS),
        HTML => cat(t, 10, HTML_BITS),
        RULE => cat(t, 10, RULE_BITS),
        _ => cat(t, 10, NOTE_BITS),
    }
}

/// Two constructs, in a container or none.
pub fn pair(t: &mut Tape, a: usize, b: usize) -> String {
    let s = format!("{}{}{}", construct(t, a), t.pick(&["\n", "\n\n", "\n\n\n"]), construct(t, b));
    // the parser finds a hard break in white space below a definition, text below it can be a block elsewhere, and
    // links get to be the destination of a definition when the spaces in them go
    let s = s.replace("    \n", "\n").replace("]:\n", "]: ").replace("    <!", "<!").replace("1. \n", "1.\n").replace("    - - -", "- - -").replace("    * * *", "* * *").replace("]: [](", "]: [a](").replace("]:[](", "]: [a](").replace("/u[](", "/u [](");
    let s = s.replace("{ }", "{}").replace("]( ", "](").replace(" )", ")").replace("\t]", "]").replace(":  \n", ":\n").replace("\n    ```", "\n```").replace("    \n", "\n");
    let rule = a == RULE || b == RULE;
    contained(t, s, rule)
}

/// A construct and its neighbours, in a container or none.
pub fn focus(t: &mut Tape, kind: usize) -> String {
    let before = *t.pick(&["", "", "", "", "p\n", "p\n\n", "* i\n", "> q\n", "# h\n"]);
    let after = *t.pick(&["", "", "", "\n", "\np", "\n\np", "\n* i", "\n\n> q", "\n***"]);
    let s = format!("{before}{}{after}", construct(t, kind));
    contained(t, s, kind == RULE)
}

fn contained(t: &mut Tape, mut s: String, rule: bool) -> String {
    let (first, rest) = *t.pick(&[("", ""), ("", ""), ("", ""), ("> ", "> "), ("* ", "  "), ("1. ", "   "), ("> * ", ">   "), ("* > ", "  > "), ("[^n]: ", "    ")]);
    if rule && (!first.is_empty() || s.starts_with(['*', '>']) || ["* ", "+ ", "- ", "> "].iter().any(|m| s.contains(m))) {
        // the parser finds metadata that ends outside of the container it starts in
        s = s.replace("   ---", "***").replace("---", "- - -").replace("+++", "___");
    }
    let mut out = String::new();
    for (i, l) in s.split('\n').enumerate() {
        if i > 0 {
            out.push('\n');
        }
        if i == 0 {
            out.push_str(first);
        } else if !l.is_empty() || rest.contains('>') {
            out.push_str(if l.is_empty() { rest.trim_end() } else { rest });
        }
        out.push_str(l);
    }
    out
}
