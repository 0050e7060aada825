//! Case generators: profiles of the document generator, and soups.

use crate::doc::*;
use crate::engine::*;
use crate::gen::*;
use crate::soup;
use crate::tape::Tape;
use serde_json::json;

const Z: Weights = Weights::ZERO;

pub const FULL: usize = 0;
pub const DEFS: usize = 1;
pub const CODE: usize = 2;
pub const WRAP: usize = 3;
pub const TABLES: usize = 4;
pub const LISTS: usize = 5;
pub const BLANKS: usize = 6;
pub const HEADS: usize = 7;
pub const INLINE: usize = 8;
pub const FOOT: usize = 9;
pub const LINKS: usize = 10;
pub const HTML: usize = 11;
pub const QUOTES: usize = 12;
pub const DEEP: usize = 13;
pub const SPANS: usize = 14;
pub const RULES: usize = 15;
pub const NEST: usize = 16;

const LINK_KIT: Kit = Kit { links: true, multiline_links: true, unicode: true, spans: true, ..Kit::PLAIN };

pub static PROFILES: [Opt; 17] = [
    Opt::FULL,
    Opt { w: Weights { def: 12, para: 6, quote: 4, list: 4, atx: 2, fence: 1, html: 1, foot: 2, table: 1, ..Z }, kit: LINK_KIT, ..Opt::FULL },
    Opt { w: Weights { fence: 10, indented: 6, para: 4, quote: 4, list: 5, foot: 2, atx: 1, html: 1, ..Z }, kit: Kit::PLAIN, ..Opt::FULL },
    Opt {
        w: Weights { para: 14, quote: 4, list: 5, foot: 3, atx: 1, setext: 1, table: 1, fence: 1, html: 1, def: 1, indented: 1, ..Z },
        kit: Kit { max_atoms: 12, ..Kit::RICH },
        blocks: 4,
        ..Opt::FULL
    },
    Opt { w: Weights { table: 12, para: 3, quote: 3, list: 3, atx: 1, foot: 1, ..Z }, depth: 2, ..Opt::FULL },
    Opt {
        w: Weights { list: 12, para: 8, quote: 3, fence: 2, atx: 1, indented: 2, table: 1, rule: 1, ..Z },
        kit: Kit { escapes: true, ..Kit::PLAIN },
        max_items: 5,
        depth: 4,
        ..Opt::FULL
    },
    Opt { kit: Kit::PLAIN, max_gap: 6, blocks: 7, ..Opt::FULL },
    Opt { w: Weights { atx: 8, setext: 8, para: 3, quote: 3, list: 3, foot: 1, ..Z }, ..Opt::FULL },
    Opt {
        w: Weights { para: 10, atx: 2, setext: 3, quote: 2, list: 2, table: 1, ..Z },
        kit: Kit { max_atoms: 8, max_lines: 5, ..Kit::RICH },
        depth: 2,
        ..Opt::FULL
    },
    Opt {
        w: Weights { foot: 10, para: 6, list: 3, quote: 2, fence: 2, atx: 1, table: 1, indented: 1, ..Z },
        kit: Kit { footref: true, spans: true, ..Kit::PLAIN },
        ..Opt::FULL
    },
    Opt { w: Weights { para: 10, atx: 2, setext: 2, quote: 2, list: 3, table: 2, def: 2, ..Z }, kit: LINK_KIT, depth: 2, ..Opt::FULL },
    Opt {
        w: Weights { html: 10, meta: 6, para: 4, quote: 3, list: 4, fence: 1, foot: 1, rule: 2, ..Z },
        kit: Kit { html: true, ..Kit::PLAIN },
        ..Opt::FULL
    },
    Opt { w: Weights { quote: 14, ..Weights::ALL }, depth: 4, ..Opt::FULL },
    Opt {
        w: Weights { para: 10, quote: 3, list: 4, foot: 1, ..Z },
        kit: Kit { deep: 5, max_lines: 5, hard: true, punct: true, escapes: true, ..Kit::PLAIN },
        ..Opt::FULL
    },
    Opt {
        w: Weights { para: 10, ..Z },
        kit: Kit { code_spanning: true, max_lines: 5, deep: 0, ..Kit::RICH },
        depth: 2,
        ..Opt::FULL
    },
    Opt { w: Weights { rule: 10, para: 4, list: 4, quote: 4, setext: 3, atx: 1, ..Z }, kit: Kit::PLAIN, ..Opt::FULL },
    Opt { w: Weights { fence: 8, para: 5, quote: 3, list: 4, foot: 1, atx: 1, ..Z }, kit: Kit { max_atoms: 10, spans: true, hard: true, ..Kit::PLAIN }, nested: 5, ..Opt::FULL },
];

pub const ALL: usize = 0;
pub const NONE: usize = 1;
pub const TABS: usize = 3;

pub const NOTRAIL: usize = 4;

static STYLES: [Style; 5] = [
    Style::ALL,
    Style::NONE,
    Style { indent: false, marker_space: false, lazy: false, ..Style::ALL },
    Style { tabs: true, ..Style::ALL },
    Style { trailing: false, ..Style::ALL },
];

fn finish(mut s: String, nl: bool) -> String {
    if nl {
        s.push('\n');
    }
    s
}

/// A document of profile `P`, typed in style `S`, with its canonical spelling as the expectation.
pub fn docs<const P: usize, const S: usize>(t: &mut Tape) -> Case {
    let d = doc(t, &PROFILES[P]);
    let (input, nl) = sloppy(&d, t, STYLES[S]);
    Case { input, expect: Some(finish(canon(&d), nl)), ..Default::default() }
}

pub fn pick_width(t: &mut Tape) -> usize {
    match t.below(5) {
        0 => t.range(10, 40),
        1 => t.range(0, 12),
        2 => t.range(20, 60),
        3 => t.range(30, 120),
        _ => *t.pick(&[50usize, 80, 100]),
    }
}

/// Same, formatted with a maximum width; `R`: 0 no reflow, 1 reflow.
pub fn wrapped<const P: usize, const S: usize, const R: usize>(t: &mut Tape) -> Case {
    let w = pick_width(t);
    let reflow = R == 1;
    let d = doc(t, &PROFILES[P]);
    let (input, nl) = sloppy(&d, t, STYLES[S]);
    let e = canon_cx(&d, &Cx { max_width: Some(w), reflow, ..Default::default() });
    Case { input, expect: Some(finish(e, nl)), max_width: Some(w), reflow, ..Default::default() }
}

/// Reflow without a maximum width has no effect.
pub fn reflow_only<const P: usize>(t: &mut Tape) -> Case {
    Case { reflow: true, ..docs::<P, ALL>(t) }
}

fn some_cfg(t: &mut Tape, mut c: Case) -> Case {
    match t.below(3) {
        0 => {}
        1 => c.max_width = Some(pick_width(t)),
        _ => {
            c.max_width = Some(pick_width(t));
            c.reflow = true;
        }
    }
    c
}

pub fn full_cfg(t: &mut Tape) -> Case {
    let mut c = docs::<FULL, TABS>(t);
    c.expect = None;
    some_cfg(t, c)
}

pub fn soup_tokens(t: &mut Tape) -> Case {
    let c = Case::text(soup::tokens(t, 30));
    some_cfg(t, c)
}
pub fn soup_chars(t: &mut Tape) -> Case {
    let c = Case::text(soup::chars(t, 60));
    some_cfg(t, c)
}
pub fn soup_lines(t: &mut Tape) -> Case {
    let c = Case::text(soup::lines(t, 8));
    some_cfg(t, c)
}
pub fn soup_repetition(t: &mut Tape) -> Case {
    let c = Case::text(soup::repetition(t));
    some_cfg(t, c)
}
pub fn soup_examples(t: &mut Tape) -> Case {
    let c = Case::text(soup::examples(t));
    some_cfg(t, c)
}
pub fn tame(t: &mut Tape) -> Case {
    Case::text(soup::tame_lines(t, 8))
}
pub fn tame_wrapped(t: &mut Tape) -> Case {
    let w = pick_width(t);
    let reflow = t.chance(1, 2);
    Case { max_width: Some(w), reflow, ..Case::text(soup::tame_lines(t, 8)) }
}

/// A generated document with a few characters changed.
pub fn mutants(t: &mut Tape) -> Case {
    let c = docs::<FULL, TABS>(t);
    let mut v: Vec<char> = c.input.chars().collect();
    for _ in 0..t.range(1, 6) {
        if v.is_empty() {
            break;
        }
        let i = t.below(v.len() as u32) as usize;
        match t.below(6) {
            0 => {
                v.remove(i);
            }
            1 => v.insert(i, v[i]),
            2 => v[i] = *t.pick(&['\n', ' ', '\t', '>', '*', '`', '[', ']', '|', '\\', '-', '#', '\r', 'é', '<', ':']),
            3 => v.insert(i, *t.pick(&['\n', ' ', '\t', '>', '*', '`', '[', ']', '|', '\\', '-', '#', '\r', '🎉', '<', ':'])),
            4 => {
                let j = (i + t.range(1, 20)).min(v.len());
                v.drain(i..j);
            }
            _ => {
                let j = (i + t.range(1, 20)).min(v.len());
                let k = t.below(v.len() as u32) as usize;
                let part: Vec<char> = v[i..j].to_vec();
                for (n, ch) in part.into_iter().enumerate() {
                    v.insert(k + n, ch);
                }
            }
        }
    }
    some_cfg(t, Case::text(v.into_iter().collect::<String>()))
}

/// Line endings other than LF.
pub fn line_endings<const P: usize>(t: &mut Tape) -> Case {
    let c = docs::<P, ALL>(t);
    let mode = t.below(2);
    let mut s = String::new();
    for ch in c.input.chars() {
        if ch != '\n' {
            s.push(ch);
            continue;
        }
        match mode {
            0 => s.push_str("\r\n"),
            _ => s.push_str(if t.chance(1, 2) { "\r\n" } else { "\n" }),
        }
    }
    Case { input: s, ..c }
}

// ---------------------------------------------------------------------------------------------
// Code blocks and the code block formatter
// ---------------------------------------------------------------------------------------------

/// What the code block formatters of the harness do to code.
pub fn rewrite_code(kind: u64, indentation: usize, max_width: Option<usize>, info: &str, code: &str) -> String {
    match kind {
        0 => code.to_string(),
        1 => code.to_ascii_uppercase(),
        2 => code.lines().map(|l| format!("> {l}\n")).collect(),
        3 => format!("first\n\n    # {info}\nlast"),
        4 => format!("{code}\n\n\n"),
        5 => String::new(),
        6 => format!("{indentation} {max_width:?} {info}\n{code}"),
        7 => format!("\n\n{code}"),
        8 => format!("```\n{code}\n  ~~~~\nend"),
        _ => code.lines().rev().map(|l| format!("{l}\n")).collect(),
    }
}

pub const REWRITES: u32 = 10;

/// Documents with code blocks, a code block formatter, and the calls it must receive.
pub fn callbacks<const P: usize>(t: &mut Tape) -> Case {
    let kind = t.below(REWRITES) as u64;
    let max_width = if t.chance(1, 2) { Some(pick_width(t)) } else { None };
    let mut d = doc(t, &PROFILES[P]);
    each_block(&mut d.blocks, &mut |b| {
        // how much of a line of white space is code depends on how it is indented
        if let Block::Fence { body, .. } = b {
            body.iter_mut().filter(|l| ws(&l).is_empty()).for_each(String::clear);
        }
    });
    let (input, nl) = sloppy(&d, t, STYLES[NOTRAIL]);
    let calls = std::cell::RefCell::new(vec![]);
    let f = |cx: &Cx, info: &str, body: &[String]| -> Vec<String> {
        if info.contains("markdown") {
            return body.to_vec();
        }
        let code: String = body.iter().map(|l| format!("{l}\n")).collect();
        calls.borrow_mut().push(json!([cx.indent, cx.max_width, info, code]));
        rewrite_code(kind, cx.indent, cx.max_width, info, &code).lines().map(|s| s.to_string()).collect()
    };
    let e = canon_cx(&d, &Cx { max_width, code: Some(&f), ..Default::default() });
    Case { input, expect: Some(finish(e, nl)), max_width, reflow: false, aux: json!({"rewrite": kind, "calls": calls.into_inner()}) }
}

/// Documents that hold documents in fenced code blocks, with widths, reflow, and a code block
/// formatter that must get the code of the inner documents too.
pub fn nested(t: &mut Tape) -> Case {
    let mut c = callbacks::<NEST>(t);
    if c.max_width.is_some() && t.chance(1, 2) {
        // reflow changes no code
        c.aux["nested"] = json!(true);
    }
    c
}

/// Two spellings of one document.
pub fn two_spellings<const P: usize>(t: &mut Tape) -> Case {
    let d = doc(t, &PROFILES[P]);
    let (a, nl) = sloppy(&d, t, STYLES[ALL]);
    let st = STYLES[if t.chance(1, 3) { NONE } else { TABS }];
    let (b, nl2) = sloppy(&d, t, st);
    let b = if nl == nl2 { b } else { finish(b.trim_end_matches(['\n', ' ']).to_string(), nl) };
    some_cfg(t, Case { input: a, aux: json!({"other": b}), ..Default::default() })
}

/// A document whose paragraphs are broken into lines in two ways.
pub fn two_breakings(t: &mut Tape) -> Case {
    let o = Opt { kit: Kit { deep: 0, hard: false, multiline_links: false, spanning: false, punct: false, ..Kit::RICH }, ..PROFILES[WRAP] };
    let d = doc(t, &o);
    let mut e = d.clone();
    each_block(&mut e.blocks, &mut |b| {
        let Block::Para(i) = b else { return };
        let mut lines: Vec<Vec<Atom>> = vec![vec![]];
        for a in i.lines.drain(..).flatten() {
            if !lines.last().unwrap().is_empty() && can_start_line(&a) && t.chance(1, 4) {
                lines.push(vec![]);
            }
            lines.last_mut().unwrap().push(a);
        }
        i.brks = vec![Brk::Soft; lines.len() - 1];
        i.lines = lines;
    });
    let (a, _) = sloppy(&d, t, STYLES[NONE]);
    let (b, _) = sloppy(&e, t, STYLES[NONE]);
    let trim = |s: String| finish(s.trim_end_matches('\n').to_string(), true);
    Case { input: trim(a), max_width: Some(pick_width(t)), reflow: true, aux: json!({"other": trim(b)}), ..Default::default() }
}

fn can_start_line(a: &Atom) -> bool {
    a.canon.chars().next().is_some_and(|c| c.is_alphabetic())
}

pub fn wide(t: &mut Tape) -> Case {
    let mut c = if t.chance(1, 2) { docs::<FULL, TABS>(t) } else { Case::text(soup::lines(t, 8)) };
    c.expect = None;
    c.aux = json!({"width": t.pick(&[5_000usize, 100_000, usize::MAX]).to_owned()});
    c
}

pub fn lf_lines(t: &mut Tape) -> Case {
    let mut s = if t.chance(1, 2) { soup::tame_lines(t, 8) } else { soup::lines(t, 8) };
    if t.chance(1, 3) {
        s.truncate(s.trim_end_matches('\n').len());
    }
    some_cfg(t, Case::text(s))
}

fn no_final_newline(mut s: String) -> String {
    s.truncate(ws_end(&s).len());
    s
}

pub fn two_parts(t: &mut Tape) -> Case {
    let o = Opt { w: Weights { meta: 0, rule: 0, ..Weights::ALL }, ..Opt::FULL };
    let part = |t: &mut Tape| {
        if t.chance(1, 2) {
            soup::tame_lines(t, 6)
        } else {
            let d = doc(t, &o);
            sloppy(&d, t, STYLES[ALL]).0
        }
    };
    let mut a = no_final_newline(part(t));
    if a.is_empty() {
        a.push('a');
    }
    let b = part(t);
    let mut b = b.trim_start_matches('\n').to_string();
    if ws(&b).is_empty() {
        b = "b\n".into();
    }
    let gap = "\n".repeat(t.range(2, 3));
    let sep = format!("{gap}# sep{gap}");
    let c = Case { input: format!("{a}{sep}{b}"), aux: json!({"a": a, "b": b, "sep": sep}), ..Default::default() };
    some_cfg(t, c)
}

pub fn in_quote(t: &mut Tape) -> Case {
    let o = Opt { w: Weights { meta: 0, foot: 0, rule: 0, ..Weights::ALL }, in_quote: true, ..Opt::FULL };
    let inner = if t.chance(1, 2) { soup::tame_lines(t, 6) } else { let d = doc(t, &o); sloppy(&d, t, STYLES[ALL]).0 };
    let inner = no_final_newline(inner.trim_start_matches('\n').to_string());
    let c = Case { input: crate::checks::quote(&inner), aux: json!({"inner": inner}), ..Default::default() };
    // the markers of nested quotes take less room
    if inner.contains('>') { c } else { some_cfg(t, c) }
}

pub fn in_item(t: &mut Tape) -> Case {
    let o = Opt { w: Weights { meta: 0, foot: 0, rule: 0, indented: 0, ..Weights::ALL }, in_item: true, ..Opt::FULL };
    let inner = if t.chance(1, 2) { soup::tame_lines(t, 6) } else { let d = doc(t, &o); sloppy(&d, t, STYLES[ALL]).0 };
    let mut inner = no_final_newline(inner.trim_start_matches('\n').to_string());
    if inner.is_empty() || inner.starts_with(['*', '-', ' ']) {
        // the marker could become a part of a thematic break
        inner.insert_str(0, "# a\n\n");
    }
    let marker = *t.pick(&["*", "-", "1.", "12)"]);
    let c = Case { input: crate::checks::into_item(marker, &inner), aux: json!({"inner": inner, "marker": marker}), ..Default::default() };
    some_cfg(t, c)
}

pub fn histories(t: &mut Tape) -> Case {
    let docs: Vec<String> = many(t, 1, 5, |t, _| match t.below(4) {
        0 | 1 => docs::<NEST, ALL>(t).input,
        2 => docs::<FULL, ALL>(t).input,
        _ => soup::tame_lines(t, 6),
    });
    let c = Case { aux: json!({"docs": docs, "rewrite": t.below(REWRITES)}), ..Default::default() };
    some_cfg(t, c)
}

pub fn settings(t: &mut Tape) -> Case {
    let ops = many(t, 0, 6, |t, _| match t.below(4) {
        0 => json!(["width", if t.chance(2, 3) { Some(pick_width(t)) } else { None }]),
        1 => json!(["reflow", t.chance(1, 2)]),
        2 => json!(["code", t.below(REWRITES)]),
        _ => json!(["new", t.below(REWRITES)]),
    });
    Case { input: docs::<NEST, ALL>(t).input, aux: json!({"ops": ops}), ..Default::default() }
}

/// Tame lines with tables.
pub fn table_soup(t: &mut Tape) -> Case {
    let n = t.range(1, 4);
    let cell = |t: &mut Tape| -> String {
        let k = t.below(3);
        (0..k).map(|_| *t.pick(&["a", "bb", "漢字", "é", "`x`", "`a\\|b`", "*em*", "[l](/u)", "\\|", "", "🎉", "<b>", "1", "long text"])).collect::<Vec<_>>().join(" ")
    };
    let outer = t.chance(2, 3);
    let prefix = *t.pick(&["", "> ", "* ", "1. ", "> * "]);
    let row = |cells: Vec<String>| if outer || cells.len() < 2 { format!("|{}|", cells.join("|")) } else { cells.join("|") };
    let mut lines = vec![row((0..n).map(|i| if i == 0 { format!("h{}", cell(t)) } else { cell(t) }).collect())];
    lines.push(row((0..n).map(|_| t.pick(&["---", ":--", "--:", ":-:", "-", " --- ", ":------:"]).to_string()).collect()));
    lines.extend(many(t, 0, 4, |t, _| {
        let m = if t.chance(1, 4) { t.range(1, n + 1) } else { n };
        row((0..m).map(|i| if i == 0 { format!("r{}", cell(t)) } else { cell(t) }).collect())
    }));
    let mut s = String::new();
    for (i, l) in lines.iter().enumerate() {
        let p = if i == 0 { prefix.to_string() } else { prefix.chars().map(|c| if c == '>' { '>' } else { ' ' }).collect() };
        s.push_str(&format!("{p}{l}\n"));
    }
    some_cfg(t, Case::text(s))
}

/// A list whose content starts far to the right, and what could be taken for a part of it.
pub fn wide_markers(t: &mut Tape) -> Case {
    let q = *t.pick(&["", "", "> ", "* ", "1. "]);
    let cont: String = q.chars().map(|c| if c == '>' { '>' } else { ' ' }).collect();
    let n = t.range(1, 3);
    let digits = t.range(1, 6);
    let mut s = String::new();
    for i in 0..n {
        let d = format!("{}{}", "1".repeat(digits - 1), i + 1);
        s.push_str(&format!("{}{}{d}. {}\n", if i == 0 { q } else { &cont }, " ".repeat(t.below(3) as usize), t.pick(&["alpha", "*em* b", "`c`"])));
    }
    for _ in 0..t.range(1, 2) {
        s.push_str(&format!("{}\n", cont.trim_end()));
    }
    for _ in 0..t.range(1, 3) {
        s.push_str(&format!("{cont}{}{}\n", " ".repeat(t.range(0, 9)), t.pick(&["code", "x = 1", "# h", "text *em*", "> q", "`x` y"])));
    }
    if t.chance(1, 2) {
        s.push_str(&format!("{}\n{cont}end\n", cont.trim_end()));
    }
    Case { aux: json!("separators"), ..Case::text(s) }
}

/// A construct typed in all the ways that are nearly it.
pub fn focus<const K: usize>(t: &mut Tape) -> Case {
    Case { input: soup::focus(t, K), ..Default::default() }
}

/// Same, of any kind, with a width.
pub fn focus_wrapped(t: &mut Tape) -> Case {
    let kind = t.below(10) as usize;
    // the parser doesn't see that what starts a line of the title is escaped, nor where `<!` ends
    let s = soup::focus(t, kind).replace("\\\"", "\"").replace("\\'", "'").replace("\\)", ")").replace("<!a", "<a").replace("<!b", "<b").replace("<!f", "<f").replace("[^ ", "[^").replace("[^\\", "[");
    Case { max_width: Some(pick_width(t)), reflow: t.chance(1, 2), ..Case::text(s) }
}

/// Two constructs of any kind, one after the other.
pub fn focus_pair(t: &mut Tape) -> Case {
    let (a, b) = (t.below(10) as usize, t.below(10) as usize);
    Case::text(soup::pair(t, a, b))
}
