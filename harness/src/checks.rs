//! Oracles.

use crate::doc::ws_end;
use crate::engine::*;
use crate::gens::*;
use crate::oracle::*;
use serde_json::{json, Value};
use std::cell::RefCell;
use std::rc::Rc;

pub fn format_with(s: &str, max_width: Option<usize>, reflow: bool) -> String {
    let mut b = markdown_fmt::FormatBuilder::default();
    b.max_width(max_width).reflow_text(reflow);
    markdown_fmt::rewrite_markdown_with_builder(s, b).expect("formatting never fails")
}

pub fn format_case(c: &Case) -> String {
    if c.max_width.is_none() && !c.reflow {
        return markdown_fmt::rewrite_markdown(&c.input).expect("formatting never fails");
    }
    format_with(&c.input, c.max_width, c.reflow)
}

/// The output is the expected one.
pub fn exact(c: &Case) -> Verdict {
    let out = format_case(c);
    let want = c.expect.as_ref().unwrap();
    if out != *want {
        return Verdict::Fail(format!("output differs: got\n{out}\n--- expected\n{want}"));
    }
    ok(out != c.input)
}

/// What is canonical comes out unchanged.
pub fn fixpoint(c: &Case) -> Verdict {
    match exact(c) {
        Verdict::Ok(..) => ok(has_construct(&c.input)),
        v => v,
    }
}

pub fn total(c: &Case) -> Verdict {
    if !parser_ok(&c.input) {
        return Verdict::Skip("parser panics");
    }
    let _ = format_case(c);
    ok(has_construct(&c.input))
}

pub fn idempotent(c: &Case) -> Verdict {
    if !parser_ok(&c.input) {
        return Verdict::Skip("parser panics");
    }
    let a = format_case(c);
    if !parser_ok(&a) {
        return Verdict::Skip("parser panics");
    }
    let b = format_case(&Case { input: a.clone(), ..c.clone() });
    if a != b {
        return Verdict::Fail(format!("not idempotent: once\n{a}\n--- twice\n{b}"));
    }
    ok(a != c.input)
}

pub fn same_meaning(c: &Case) -> Verdict {
    meaning_kept(c, false)
}

/// `loose_brackets`: white space next to the brackets of what could be a reference is no content.
fn meaning_kept(c: &Case, loose_brackets: bool) -> Verdict {
    if !parser_ok(&c.input) {
        return Verdict::Skip("parser panics");
    }
    let a = format_case(c);
    if !parser_ok(&a) {
        return Verdict::Skip("parser panics");
    }
    let breaks = if c.max_width.is_some() { Breaks::Fold } else { Breaks::Keep };
    // what the formatter puts between a list and indented code is no content
    let meaning = |s: &str| {
        let mut m = meaning(s, Breaks::Fold);
        if c.aux == "separators" || !c.input.contains("<!-- Don't") {
            m.retain(|e| e != "html \"<!-- Don't absorb code block into list -->\"" && e != "html \"<!-- Consider a fenced code block instead -->\"");
        }
        if loose_brackets {
            m.iter_mut().for_each(|e| *e = e.replace("[ ", "[").replace(" ]", "]"));
        }
        m
    };
    if let Some(d) = first_difference(&meaning(&c.input), &meaning(&a)) {
        return Verdict::Fail(format!("meaning changed: {d}\n--- output\n{a}"));
    }
    if c.aux == "separators" || a.contains("<!-- Consider a fenced") || loose_brackets {
        return ok(a != c.input);
    }
    if let Some(d) = first_difference(&meaning_with_recovery(&c.input, breaks), &meaning_with_recovery(&a, breaks)) {
        return Verdict::Fail(format!("meaning changed: {d}\n--- output\n{a}"));
    }
    ok(a != c.input)
}

/// The output means what the input means, the definitions are the same, and formatting it again changes nothing.
pub fn faithful(c: &Case) -> Verdict {
    if !parser_ok(&c.input) {
        return Verdict::Skip("parser panics");
    }
    if open_fence(&c.input) {
        return Verdict::Skip("the blank lines after an open fence are code");
    }
    for check in [|c: &Case| meaning_kept(c, c.input.contains("[ ") || c.input.contains("[\n") || c.input.contains(" ]") || c.input.contains("\n]")), same_definitions] {
        match check(c) {
            Verdict::Ok(..) => {}
            v => return v,
        }
    }
    idempotent(c)
}

/// The definitions of the input are those of the output.
pub fn same_definitions(c: &Case) -> Verdict {
    if !parser_ok(&c.input) {
        return Verdict::Skip("parser panics");
    }
    let a = format_case(c);
    let (x, y) = (definitions(&c.input), definitions(&a));
    if x != y {
        return Verdict::Fail(format!("definitions differ: input {x:?}\noutput {y:?}\n--- output\n{a}"));
    }
    ok(!x.is_empty())
}

/// The code blocks of the input are those of the output.
pub fn same_code(c: &Case) -> Verdict {
    if !parser_ok(&c.input) {
        return Verdict::Skip("parser panics");
    }
    let a = format_case(c);
    let (x, y) = (code_blocks(&c.input), code_blocks(&a));
    if x != y {
        return Verdict::Fail(format!("code blocks differ: input {x:?}\noutput {y:?}\n--- output\n{a}"));
    }
    ok(!x.is_empty())
}

/// Every table of the output is a rectangle: its lines are equally wide, its bars below each other,
/// and its cells padded with one space at least.
pub fn table_shape(c: &Case) -> Verdict {
    if !parser_ok(&c.input) {
        return Verdict::Skip("parser panics");
    }
    let a = format_case(c);
    let tables = ranges(&a, |t| matches!(t, pulldown_cmark::Tag::Table(_)));
    let before = ranges(&c.input, |t| matches!(t, pulldown_cmark::Tag::Table(_))).len();
    if tables.len() != before {
        return Verdict::Fail(format!("tables lost: {before} in the input, {} in the output\n--- output\n{a}", tables.len()));
    }
    for r in &tables {
        let start = a[..r.start].rfind('\n').map(|p| p + 1).unwrap_or(0);
        let lines: Vec<&str> = a[start..r.end].lines().collect();
        // display columns of the bars; the first line has the marker of an item where others are indented
        let bars = |l: &str, cut: usize| -> Vec<usize> {
            let mut col = 0;
            let mut v = vec![];
            let mut esc = false;
            for (i, ch) in l.char_indices() {
                if i >= cut && ch == '|' && !esc {
                    v.push(col);
                }
                esc = ch == '\\' && !esc;
                col += unicode_width::UnicodeWidthChar::width(ch).unwrap_or(0);
            }
            v.push(unicode_width::UnicodeWidthStr::width(l));
            v
        };
        let want = bars(lines[0], r.start - start);
        for l in &lines[1..] {
            let got = bars(l, r.start - start);
            if got != want {
                return Verdict::Fail(format!("table not aligned: bars of {l:?} at {got:?}, those of the header at {want:?}\n--- output\n{a}"));
            }
        }
    }
    ok(!tables.is_empty() && a != c.input)
}

/// Lines of paragraphs are only wider than the maximum where there is no space to break at.
pub fn width_respected(c: &Case) -> Verdict {
    if !parser_ok(&c.input) {
        return Verdict::Skip("parser panics");
    }
    let a = format_case(c);
    let max = c.max_width.unwrap();
    let mut long = false;
    for r in ranges(&a, |t| matches!(t, pulldown_cmark::Tag::Paragraph)) {
        let mut at = r.start;
        for l in a[r.clone()].split_inclusive('\n') {
            let start = a[..at].rfind('\n').map(|p| p + 1).unwrap_or(0);
            let line = ws_end(&a[start..at + l.len()]);
            at += l.len();
            let w = crate::doc::width(line);
            if w <= max {
                continue;
            }
            long = true;
            // the containers of the paragraph come before its text
            let text = line.trim_start_matches([' ', '>', '*', '-', '+', '.', ')', '0', '1', '2', '3', '4', '5', '6', '7', '8', '9']);
            let room = max.saturating_sub(w - crate::doc::width(text));
            let together = crate::doc::kept_together(text, at - l.len() == r.start);
            if crate::doc::wrap_line_from(text, room, together).len() > 1 {
                return Verdict::Fail(format!("line too wide: {w} columns: {line:?}\n--- output\n{a}"));
            }
        }
    }
    ok(long || a != format_with(&c.input, None, false))
}

/// Text does not change but for the white space it is wrapped at.
pub fn words_kept(c: &Case) -> Verdict {
    if !parser_ok(&c.input) {
        return Verdict::Skip("parser panics");
    }
    let a = format_case(c);
    let plain = format_with(&c.input, None, false);
    let (x, y) = (meaning(&plain, Breaks::Fold), meaning(&a, Breaks::Fold));
    if let Some(d) = first_difference(&x, &y) {
        return Verdict::Fail(format!("words changed: {d}\n--- without a maximum width\n{plain}\n--- output\n{a}"));
    }
    ok(a != plain)
}

/// A width that nothing reaches has no effect.
pub fn huge_width(c: &Case) -> Verdict {
    if !parser_ok(&c.input) {
        return Verdict::Skip("parser panics");
    }
    let w = c.aux["width"].as_u64().unwrap() as usize;
    let a = format_with(&c.input, Some(w), false);
    let b = format_with(&c.input, None, false);
    if a != b {
        return Verdict::Fail(format!("a maximum width of {w} has an effect: with\n{a}\n--- without\n{b}"));
    }
    let r = format_with(&c.input, None, true);
    if r != b {
        return Verdict::Fail(format!("reflow without a maximum width has an effect: with\n{r}\n--- without\n{b}"));
    }
    ok(b != c.input)
}

/// Where lines break does not matter to reflowed text.
pub fn rebroken(c: &Case) -> Verdict {
    let other = c.aux["other"].as_str().unwrap();
    let a = format_case(c);
    let b = format_case(&Case { input: other.to_string(), ..c.clone() });
    if a != b {
        return Verdict::Fail(format!("reflow depends on line breaks: one\n{a}\n--- other\n{b}"));
    }
    ok(other != c.input)
}

/// Two spellings of one document have one formatted form.
pub fn twins(c: &Case) -> Verdict {
    let other = c.aux["other"].as_str().unwrap();
    let a = format_case(c);
    let b = format_case(&Case { input: other.to_string(), ..c.clone() });
    if a != b {
        return Verdict::Fail(format!("spellings differ: one\n{a}\n--- other\n{b}"));
    }
    ok(other != c.input)
}

/// LF, CRLF: same output; a final line ending exactly when the input has one; no CR.
pub fn line_ends(c: &Case) -> Verdict {
    let lf = c.input.clone();
    let crlf = lf.replace('\n', "\r\n");
    let mut mixed = String::new();
    for (i, l) in lf.split_inclusive('\n').enumerate() {
        mixed.push_str(&if i % 2 == 0 { l.replace('\n', "\r\n") } else { l.to_string() });
    }
    if ![&lf, &crlf, &mixed].into_iter().all(|s| parser_ok(s)) {
        return Verdict::Skip("parser panics");
    }
    let a = format_case(c);
    for other in [crlf, mixed] {
        let b = format_case(&Case { input: other.clone(), ..c.clone() });
        if a != b {
            return Verdict::Fail(format!("line endings matter: LF\n{a:?}\n--- {other:?}\n{b:?}"));
        }
    }
    if a.contains('\r') {
        return Verdict::Fail(format!("CR in the output: {a:?}"));
    }
    if !a.is_empty() && a.ends_with('\n') != lf.ends_with('\n') {
        return Verdict::Fail(format!("final line ending: input {:?}, output {:?}", lf.ends_with('\n'), a));
    }
    if a.starts_with('\n') {
        return Verdict::Fail(format!("blank line at the start: {a:?}"));
    }
    if a.ends_with("\n\n") {
        return Verdict::Fail(format!("blank line at the end: {a:?}"));
    }
    ok(lf.contains('\n') && a != lf)
}

/// Formatting two documents one below the other is formatting each.
pub fn concatenated(c: &Case) -> Verdict {
    let (a, b) = (c.aux["a"].as_str().unwrap(), c.aux["b"].as_str().unwrap());
    let f = |s: &str| format_case(&Case { input: s.to_string(), ..c.clone() });
    if ![a, b, &c.input].into_iter().all(parser_ok) {
        return Verdict::Skip("parser panics");
    }
    let whole = f(&c.input);
    let want = format!("{}{}{}", f(a), c.aux["sep"].as_str().unwrap(), f(b));
    if whole != want {
        return Verdict::Fail(format!("not the parts: got\n{whole}\n--- the parts\n{want}"));
    }
    ok(whole != c.input)
}

pub fn quote(s: &str) -> String {
    s.split('\n').map(|l| if l.is_empty() { ">".to_string() } else { format!("> {l}") }).collect::<Vec<_>>().join("\n")
}

pub fn quote_formatted(s: &str) -> String {
    // nothing is between the markers of nested quotes
    let nested = ranges(s, |t| matches!(t, pulldown_cmark::Tag::BlockQuote(_)));
    let mut at = 0;
    s.split('\n')
        .map(|l| {
            let start = at;
            at += l.len() + 1;
            match l {
                "" => ">".to_string(),
                _ if l.starts_with('>') && nested.iter().any(|r| r.contains(&start)) => format!(">{l}"),
                _ => format!("> {l}"),
            }
        })
        .collect::<Vec<_>>()
        .join("\n")
}

/// Formatting a quoted document is quoting the formatted document.
pub fn quoted(c: &Case) -> Verdict {
    let inner = c.aux["inner"].as_str().unwrap();
    if !parser_ok(inner) || !parser_ok(&c.input) {
        return Verdict::Skip("parser panics");
    }
    let w = c.max_width.map(|w| w.saturating_sub(2));
    let want = quote_formatted(&format_with(inner, w, c.reflow));
    let got = format_case(c);
    if got != want {
        return Verdict::Fail(format!("not the quoted document: got\n{got}\n--- expected\n{want}"));
    }
    ok(got != c.input)
}

pub fn into_item(marker: &str, s: &str) -> String {
    let pad = " ".repeat(marker.len() + 1);
    s.split('\n')
        .enumerate()
        .map(|(i, l)| if i == 0 { format!("{marker} {l}") } else if l.is_empty() { String::new() } else { format!("{pad}{l}") })
        .collect::<Vec<_>>()
        .join("\n")
}

/// Formatting a document in a list item is putting the formatted document there.
pub fn itemed(c: &Case) -> Verdict {
    let inner = c.aux["inner"].as_str().unwrap();
    let marker = c.aux["marker"].as_str().unwrap();
    if !parser_ok(inner) || !parser_ok(&c.input) {
        return Verdict::Skip("parser panics");
    }
    let w = c.max_width.map(|w| w.saturating_sub(marker.len() + 1));
    let want = into_item(marker, &format_with(inner, w, c.reflow));
    let got = format_case(c);
    if got != want {
        return Verdict::Fail(format!("not the document in an item: got\n{got}\n--- expected\n{want}"));
    }
    ok(got != c.input)
}

fn strings(v: &Value) -> Vec<String> {
    v.as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect()
}

/// A formatter has no memory: each document comes out as from a new formatter.
pub fn no_memory(c: &Case) -> Verdict {
    let docs = strings(&c.aux["docs"]);
    let kind = c.aux["rewrite"].as_u64().unwrap();
    let build = || {
        let mut b = markdown_fmt::FormatBuilder::with_code_block_formatter(move |ctx, info, code| {
            rewrite_code(kind, ctx.indentation(), ctx.max_width(), info, &code)
        });
        b.max_width(c.max_width).reflow_text(c.reflow);
        b
    };
    let one = build().build();
    for (i, d) in docs.iter().enumerate() {
        let a = one.format(d).expect("formatting never fails");
        let b = build().build().format(d).expect("formatting never fails");
        if a != b {
            return Verdict::Fail(format!("document {i} depends on the ones before: got\n{a}\n--- alone\n{b}"));
        }
        let f = markdown_fmt::rewrite_markdown_with_builder(d, build()).expect("formatting never fails");
        if f != b {
            return Verdict::Fail(format!("document {i} depends on the entry point: got\n{f}\n--- from the formatter\n{b}"));
        }
    }
    ok(docs.len() > 1)
}

/// The last setting of each kind counts, in whatever order they are made.
pub fn builder_ops(c: &Case) -> Verdict {
    let mut b = markdown_fmt::FormatBuilder::default();
    let (mut width, mut reflow, mut kind) = (None, false, 0u64);
    let set = |b: &mut markdown_fmt::FormatBuilder, kind: u64| {
        b.code_block_formatter(move |ctx, info, code| rewrite_code(kind, ctx.indentation(), ctx.max_width(), info, &code));
    };
    let ops = c.aux["ops"].as_array().unwrap();
    for op in ops {
        let v = &op[1];
        match op[0].as_str().unwrap() {
            "width" => {
                width = v.as_u64().map(|w| w as usize);
                b.max_width(width);
            }
            "reflow" => {
                reflow = v.as_bool().unwrap();
                b.reflow_text(reflow);
            }
            "code" => {
                kind = v.as_u64().unwrap();
                set(&mut b, kind);
            }
            _ => {
                kind = v.as_u64().unwrap();
                let k = kind;
                (width, reflow) = (None, false);
                b = markdown_fmt::FormatBuilder::with_code_block_formatter(move |ctx, info, code| {
                    rewrite_code(k, ctx.indentation(), ctx.max_width(), info, &code)
                });
            }
        }
    }
    let got = b.build().format(&c.input).expect("formatting never fails");
    let mut fresh = markdown_fmt::FormatBuilder::default();
    set(&mut fresh, kind);
    fresh.max_width(width);
    fresh.reflow_text(reflow);
    let want = fresh.build().format(&c.input).expect("formatting never fails");
    if got != want {
        return Verdict::Fail(format!("settings differ: got\n{got}\n--- with the last settings\n{want}"));
    }
    // and each setting has its effect
    if kind == 0 {
        let lib = format_with(&c.input, width, reflow);
        if lib != want {
            return Verdict::Fail(format!("entry points differ: got\n{want}\n--- without a code block formatter\n{lib}"));
        }
    }
    if let Some(e) = &c.expect {
        if *e != got {
            return Verdict::Fail(format!("output differs: got\n{got}\n--- expected\n{e}"));
        }
    }
    ok(ops.len() > 1)
}

/// The code block formatter is called for the right code, in order, and its results are used.
pub fn callback_contract(c: &Case) -> Verdict {
    let kind = c.aux["rewrite"].as_u64().unwrap_or(0);
    let calls: Rc<RefCell<Vec<Value>>> = Rc::default();
    let seen = calls.clone();
    let mut b = markdown_fmt::FormatBuilder::with_code_block_formatter(move |ctx, info, code| {
        seen.borrow_mut().push(json!([ctx.indentation(), ctx.max_width(), info, code]));
        rewrite_code(kind, ctx.indentation(), ctx.max_width(), info, &code)
    });
    b.max_width(c.max_width).reflow_text(c.reflow);
    let out = markdown_fmt::rewrite_markdown_with_builder(&c.input, b).expect("formatting never fails");
    let got = Value::Array(calls.borrow().clone());
    if got != c.aux["calls"] {
        return Verdict::Fail(format!("calls differ: got\n{got:#}\n--- expected\n{:#}", c.aux["calls"]));
    }
    let want = c.expect.as_ref().unwrap();
    if out != *want {
        return Verdict::Fail(format!("output differs: got\n{out}\n--- expected\n{want}"));
    }
    let any = !calls.borrow().is_empty();
    ok(any)
}
