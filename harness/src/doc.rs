//! Document model, its generator, and its two printers.
//!
//! * `canon` prints a document in the canonical style (one space after markers, no stray
//!   indentation, tables aligned, ...).  It is an independent statement of what formatted output
//!   looks like; it shares no code with the formatter.
//! * `sloppy` prints the same document with incidental spelling (indentation, spacing, lazy
//!   continuation, unaligned tables, closing hashes, CRLF, ...) drawn from the tape.

use crate::gen::upto;
use crate::tape::Tape;
use unicode_width::UnicodeWidthStr;

/// A piece of inline content without line breaks: how it must come out, and how it was typed.
#[derive(Clone, Debug, PartialEq)]
pub struct Atom {
    pub canon: String,
    pub sloppy: String,
    /// only literal text because of an indentation of four columns or more
    pub deep: bool,
}

impl Atom {
    pub fn same(s: impl Into<String>) -> Atom {
        let s = s.into();
        Atom { canon: s.clone(), sloppy: s, deep: false }
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Brk {
    Soft,
    HardSp,
    HardBs,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Inl {
    pub lines: Vec<Vec<Atom>>,
    /// `brks[i]` separates `lines[i]` and `lines[i + 1]`
    pub brks: Vec<Brk>,
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Attrs {
    pub id: Option<String>,
    pub classes: Vec<String>,
    pub kvs: Vec<(String, Option<String>)>,
    /// order in which they are typed
    pub seed: u32,
    /// on a line of their own, before the underline
    pub own_line: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Align {
    None,
    Left,
    Center,
    Right,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Marker {
    Bullet(char),
    Ordered(char),
}

#[derive(Clone, Debug, PartialEq)]
pub struct Item {
    pub gap: usize,
    /// digits as typed, for ordered lists
    pub digits: String,
    pub task: Option<bool>,
    pub body: Vec<Gapped>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Gapped {
    /// Blank lines before this block.  For the first block of a quote: blank lines at the start of
    /// the quote; for the first block of a list item: 1 puts the block on the line below the marker;
    /// ignored for the first block of other containers.
    pub gap: usize,
    pub block: Block,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Block {
    Para(Inl),
    Atx { level: usize, text: Vec<Atom>, attrs: Attrs },
    Setext { ch: char, len: usize, text: Inl, attrs: Attrs },
    Rule(String),
    Fence { ch: char, len: usize, info: String, space: bool, body: Vec<String> },
    Indented(Vec<String>),
    /// the gap of the first block counts; `trail`: blank lines at the end
    Quote { body: Vec<Gapped>, trail: usize },
    List { marker: Marker, items: Vec<Item> },
    Table { aligns: Vec<Align>, rows: Vec<Vec<Vec<Atom>>> },
    Html(Vec<String>),
    Def { label: String, dest: String, title: Option<(char, String)> },
    Foot { label: String, body: Vec<Gapped> },
    Meta { ch: char, lines: Vec<String> },
    /// a fenced code block that holds a Markdown document
    Nested { ch: char, len: usize, info: String, doc: Doc },
}

#[derive(Clone, Debug, PartialEq)]
pub struct Doc {
    pub blocks: Vec<Gapped>,
}

/// All blocks, outermost first.
pub fn each_block(bs: &mut [Gapped], f: &mut impl FnMut(&mut Block)) {
    for g in bs {
        f(&mut g.block);
        match &mut g.block {
            Block::Quote { body, .. } | Block::Foot { body, .. } => each_block(body, f),
            Block::List { items, .. } => items.iter_mut().for_each(|i| each_block(&mut i.body, f)),
            Block::Nested { doc, .. } => each_block(&mut doc.blocks, f),
            _ => {}
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Canonical printer
// ---------------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq)]
pub struct CLine {
    pub text: String,
    /// the line starts with the marker of a block quote that is a direct child
    pub quote: bool,
}

/// Without the white space that means nothing around a line: spaces, tabs and line endings, but not
/// the other white space of Unicode.
pub fn ws(s: &str) -> &str {
    s.trim_matches([' ', '\t', '\n', '\r'])
}

pub fn ws_end(s: &str) -> &str {
    s.trim_end_matches([' ', '\t', '\n', '\r'])
}

fn cl(text: impl Into<String>) -> CLine {
    CLine { text: text.into(), quote: false }
}

pub fn atoms_canon(a: &[Atom]) -> String {
    a.iter().map(|a| a.canon.as_str()).collect::<Vec<_>>().join(" ")
}

pub fn atoms_sloppy(a: &[Atom]) -> String {
    a.iter().map(|a| a.sloppy.as_str()).collect::<Vec<_>>().join(" ")
}

pub fn inl_canon(i: &Inl) -> Vec<String> {
    let mut out = vec![];
    for (n, l) in i.lines.iter().enumerate() {
        let mut s = atoms_canon(l);
        match i.brks.get(n) {
            Some(Brk::HardSp) => s.push_str("  "),
            Some(Brk::HardBs) => s.push('\\'),
            _ => {}
        }
        out.push(s);
    }
    out
}

pub fn attrs_canon(a: &Attrs) -> String {
    let mut parts = vec![];
    if let Some(id) = &a.id {
        parts.push(format!("#{id}"));
    }
    for c in &a.classes {
        parts.push(format!(".{c}"));
    }
    for (k, v) in &a.kvs {
        match v {
            Some(v) => parts.push(format!("{k}={v}")),
            None => parts.push(k.clone()),
        }
    }
    if parts.is_empty() {
        String::new()
    } else {
        format!(" {{{}}}", parts.join(" "))
    }
}

pub fn width(s: &str) -> usize {
    s.width()
}

pub fn table_widths(rows: &[Vec<Vec<Atom>>], ncol: usize) -> Vec<usize> {
    let mut w = vec![3usize; ncol];
    for r in rows {
        for (i, c) in r.iter().enumerate() {
            w[i] = w[i].max(width(&atoms_canon(c)));
        }
    }
    w
}

fn canon_table(aligns: &[Align], rows: &[Vec<Vec<Atom>>]) -> Vec<CLine> {
    let w = table_widths(rows, aligns.len());
    let mut out = vec![];
    let row_line = |r: &Vec<Vec<Atom>>| {
        let mut s = String::from("|");
        for (i, wi) in w.iter().enumerate() {
            let c = r.get(i).map(|c| atoms_canon(c)).unwrap_or_default();
            s.push(' ');
            s.push_str(&c);
            s.push_str(&" ".repeat(wi - width(&c)));
            s.push_str(" |");
        }
        s
    };
    out.push(cl(row_line(&rows[0])));
    let mut s = String::from("|");
    for (a, wi) in aligns.iter().zip(&w) {
        let bar = match a {
            Align::None => "-".repeat(*wi),
            Align::Left => format!(":{}", "-".repeat(wi - 1)),
            Align::Right => format!("{}:", "-".repeat(wi - 1)),
            Align::Center => format!(":{}:", "-".repeat(wi - 2)),
        };
        s.push_str(&format!(" {bar} |"));
    }
    out.push(cl(s));
    for r in &rows[1..] {
        out.push(cl(row_line(r)));
    }
    out
}

/// What the canonical printer needs to know about the configuration and the surroundings.
#[derive(Clone, Copy, Default)]
pub struct Cx<'a> {
    /// columns taken by the containers of the block
    pub indent: usize,
    pub max_width: Option<usize>,
    pub reflow: bool,
    /// rewrites the code of fenced code blocks: (context, info string, lines as typed) -> lines
    pub code: Option<&'a CodeFn<'a>>,
}

pub type CodeFn<'a> = dyn Fn(&Cx, &str, &[String]) -> Vec<String> + 'a;

impl<'a> Cx<'a> {
    fn deeper(&self, n: usize) -> Cx<'a> {
        Cx { indent: self.indent + n, ..*self }
    }
}

/// Words that must not come first on a line, because the line would then be something else than
/// the continuation of a paragraph (a list, a heading, ...).
pub fn starts_block(w: &str) -> bool {
    // there are no breaks at tabs, but a marker could come before one
    let w = w.split('\t').next().unwrap();
    let all = |c: char| !w.is_empty() && w.chars().all(|x| x == c);
    let digits = w.len() > 1 && w.ends_with(['.', ')']) && w[..w.len() - 1].bytes().all(|b| b.is_ascii_digit());
    all('#') || all('=') || all('+') || all('*') || all('_')
        || (!w.is_empty() && w.chars().all(|c| matches!(c, '-' | ':' | '|')))
        || digits
        || w.starts_with('>')
        || w.starts_with('|')
        || w.starts_with("```")
        || w.starts_with("~~~")
        || w.starts_with("<!")
        || w.starts_with("<?")
        || (w.starts_with("[^") && (w.contains("]:") || !w.contains(']')))
        || BLOCK_TAGS.iter().any(|t| {
            let r = w.strip_prefix('<').unwrap_or("");
            let r = if *t == "pre" { r } else { r.strip_prefix('/').unwrap_or(r) };
            w.starts_with('<') && r.starts_with(t) && !r[t.len()..].starts_with(|c: char| c.is_ascii_alphanumeric() || c == '-' || c == ':')
        })
}

/// The block level tags that the generators use.
const BLOCK_TAGS: &[&str] = &["div", "p", "details", "table", "hr", "pre", "summary", "tr", "td"];

/// Length of the line if it could close a code block fenced with `ch`.
/// Whether the text has a `>` that is not escaped.
fn ends_dest(s: &str) -> bool {
    let b = s.as_bytes();
    (0..b.len()).any(|i| b[i] == b'>' && (i - s[..i].trim_end_matches('\\').len()) % 2 == 0)
}

pub fn closing(line: &str, ch: char) -> Option<usize> {
    let l = line.trim_start_matches(' ');
    let t = l.trim_end_matches([' ', '\t']);
    (line.len() - l.len() < 4 && !t.is_empty() && t.chars().all(|c| c == ch)).then_some(t.len())
}

/// How much of a line must stay together, because it would be a block of its own if it were alone.
pub fn kept_together(line: &str, first: bool) -> usize {
    let spaces = |i: usize| {
        let n = line[i..].len() - line[i..].trim_start_matches(' ').len();
        if n == 0 || i + n == line.len() { 0 } else { i + n }
    };
    // the words at the start that have none but these characters
    let run = |set: &str, most: usize| {
        let words = split_words(line);
        let n = words.iter().take(most).take_while(|(w, _)| !w.is_empty() && w.chars().all(|c| set.contains(c))).count();
        words[..n].iter().map(|(w, sp)| w.len() + sp.len()).sum::<usize>()
    };
    // rules, and after the first line also underlines of headings and delimiter rows of tables
    for c in ['*', '-', '_'] {
        let n = run(&format!("{c}\t"), usize::MAX);
        if line.starts_with(c) && line[..n].matches(c).count() >= 3 {
            return n;
        }
    }
    if !first {
        let under = run("=", 1);
        let row = run("-:|\t", usize::MAX);
        if under > 0 || line[..row].contains('-') {
            return under.max(row);
        }
    }
    if line.starts_with('<') && !first {
        return 0;
    }
    if let Some(r) = line.strip_prefix('<') {
        let name = r.strip_prefix('/').unwrap_or(r);
        let n = name.find(|c: char| !(c.is_ascii_alphanumeric() || c == '-')).unwrap_or(name.len());
        let known = name.starts_with(|c: char| c.is_ascii_alphabetic()) && (name[n..].starts_with(['>', ' ']) || name[n..].starts_with("/>"));
        return match r.find(['<', '>']) {
            Some(e) if known && r[e..].starts_with('>') => spaces(e + 2),
            _ => 0,
        };
    }
    if line.starts_with("```") {
        let after = line.len() - line.trim_start_matches('`').len();
        return match line[after..].find('`') {
            Some(e) if e > 0 => {
                let e = after + e + 1;
                let w = e + line[e..].find(' ').unwrap_or(line.len() - e);
                if w == line.len() { w } else { spaces(w) }
            }
            _ => 0,
        };
    }
    if !first {
        return 0;
    }
    if ["[ ] ", "[x] ", "[X] "].iter().any(|m| line.starts_with(m)) {
        return spaces(3);
    }
    if let Some(r) = line.strip_prefix('[') {
        let Some(e) = r.find(']') else { return 0 };
        let after = e + 2;
        if e == 0 || !line[after..].starts_with(':') {
            return 0;
        }
        let d = after + 1 + line[after + 1..].len() - line[after + 1..].trim_start_matches(' ').len();
        if d == line.len() {
            return 0;
        }
        let end = match line[d..].strip_prefix('<').and_then(|r| r.find('>')) {
            Some(e) if line[d + e + 2..].starts_with(' ') => d + e + 2,
            _ => d + line[d..].find(' ').unwrap_or(line.len() - d),
        };
        return spaces(end);
    }
    0
}

pub fn wrap_line_from(line: &str, width: usize, together: usize) -> Vec<String> {
    let mut at = 0;
    // words with the spaces that follow them
    let mut words: Vec<(String, String)> = vec![];
    let mut dest = false;
    let mut glue = false;
    for piece in split_words(line) {
        let (w, sp) = piece;
        let task = words.last().is_some_and(|(lw, _)| lw.ends_with('[')) && w.starts_with(']');
        // several spaces could be the content of a code span
        let several = words.last().is_some_and(|(_, lsp)| lsp.len() > 1);
        let can_break = !glue && !task && !several && !starts_block(&w) && at > together;
        at += w.len() + sp.len();
        let backslashes = w.chars().rev().take_while(|c| *c == '\\').count();
        dest = match w.rfind("](<") {
            Some(i) => !ends_dest(&w[i..]),
            None => dest && !ends_dest(&w),
        };
        glue = dest || backslashes % 2 == 1;
        match words.last_mut() {
            Some((lw, lsp)) if !can_break => {
                lw.push_str(lsp);
                lw.push_str(&w);
                *lsp = sp;
            }
            _ => words.push((w, sp)),
        }
    }
    let mut out = vec![];
    let mut cur = String::new();
    let mut pending = String::new();
    for (w, sp) in words {
        if !cur.is_empty() && self::width(&cur) + pending.len() + self::width(&w) > width {
            out.push(std::mem::take(&mut cur));
            pending.clear();
        }
        cur.push_str(&pending);
        cur.push_str(&w);
        pending = sp;
    }
    out.push(cur);
    out
}

fn split_words(line: &str) -> Vec<(String, String)> {
    let mut out: Vec<(String, String)> = vec![];
    for c in line.chars() {
        match out.last_mut() {
            Some((_, sp)) if c == ' ' => sp.push(' '),
            Some((w, sp)) if sp.is_empty() => w.push(c),
            _ => out.push((c.to_string(), String::new())),
        }
    }
    out
}

/// Whether the text could be the delimiter row of a table.
pub fn is_row(s: &str) -> bool {
    s.contains('|') && s.contains('-') && s.chars().all(|c| matches!(c, '|' | '-' | ':'))
}

/// The lines of a paragraph under the configuration.
fn para_canon(i: &Inl, cx: &Cx) -> Vec<String> {
    let Some(max) = cx.max_width else { return inl_canon(i) };
    let short;
    let i = if cx.reflow {
        // a few characters are only escaped where they come first on a line, as are
        // colons after references to footnotes; delimiter rows only
        // there and below what could be the header of a table
        let mut j = i.clone();
        let mut bar = false;
        for (n, l) in j.lines.iter_mut().enumerate() {
            let joined = n > 0 && i.brks[n - 1] == Brk::Soft;
            let own = l.len() == 1 && l[0].deep;
            let row = own && is_row(&l[0].sloppy);
            if joined && (own && (row || l[0].sloppy.len() <= 2 && !l[0].sloppy.starts_with('>')) || l[0].deep && ["[^1]:", "- ["].iter().any(|p| l[0].sloppy.starts_with(p))) {
                l[0].canon = l[0].sloppy.clone();
            } else if row && bar {
                l[0].canon = format!("\\{}", l[0].sloppy);
            }
            bar = joined && bar || atoms_canon(l).contains('|');
        }
        short = j;
        &short
    } else {
        i
    };
    let lines = inl_canon(i);
    let width = max.saturating_sub(cx.indent);
    let mut logical: Vec<String> = vec![];
    let mut join = false;
    for (n, l) in lines.into_iter().enumerate() {
        // an atom may hold a line break of its own
        if join {
            let last = logical.last_mut().unwrap();
            last.push(' ');
            last.push_str(&l);
        } else {
            logical.push(l);
        }
        join = cx.reflow && i.brks.get(n) == Some(&Brk::Soft);
    }
    let mut out = vec![];
    for (n, l) in logical.into_iter().enumerate() {
        // a hard break, or what is in a code span or a tag
        let (l, end) = l.split_at(l.trim_end_matches(' ').len());
        let mut ls = wrap_line_from(l, width, kept_together(l, n == 0));
        ls.last_mut().unwrap().push_str(end);
        out.extend(ls);
    }
    out
}

pub fn canon_block(b: &Block, cx: &Cx) -> Vec<CLine> {
    match b {
        Block::Para(i) => para_canon(i, cx).into_iter().map(cl).collect(),
        Block::Atx { level, text, attrs } => {
            let t = atoms_canon(text);
            let a = attrs_canon(attrs);
            let hashes = "#".repeat(*level);
            if t.is_empty() && a.is_empty() {
                vec![cl(hashes)]
            } else if t.is_empty() {
                vec![cl(format!("{hashes}{a}"))]
            } else {
                vec![cl(format!("{hashes} {t}{a}"))]
            }
        }
        Block::Setext { ch, len, text, attrs } => {
            let mut ls = inl_canon(text);
            if attrs.own_line {
                ls.push(attrs_canon(attrs).trim_start().to_string());
            } else {
                ls.last_mut().unwrap().push_str(&attrs_canon(attrs));
            }
            ls.push(ch.to_string().repeat(*len));
            ls.into_iter().map(cl).collect()
        }
        Block::Rule(s) => vec![cl(s.clone())],
        Block::Fence { ch, len, info, space, body } => {
            let rewritten;
            let body = match cx.code {
                Some(f) => {
                    // formatters see the info string as parsed
                    rewritten = f(cx, &info.replace("\\*", "*").replace("&amp;", "&"), body);
                    &rewritten
                }
                _ => body,
            };
            // the fence is longer than what would close it in the code
            let f = ch.to_string().repeat(body.iter().filter_map(|l| closing(l, *ch)).map(|n| n + 1).fold(*len, std::cmp::max));
            let mut out = vec![cl(if info.is_empty() {
                f.clone()
            } else {
                format!("{f}{}{info}", if *space { " " } else { "" })
            })];
            // blank lines at the end of a code block carry no code
            let n = body.iter().rposition(|l| !ws(&l).is_empty()).map(|p| p + 1).unwrap_or(0);
            for (k, l) in body[..n].iter().enumerate() {
                // ... nor does white space at its very end
                let l = if k + 1 == n { ws_end(l) } else { l.as_str() };
                out.push(cl(if ws(&l).is_empty() { "" } else { l }));
            }
            out.push(cl(f));
            out
        }
        Block::Indented(body) => body
            .iter()
            .map(|l| if ws(&l).is_empty() { cl("") } else { cl(format!("    {l}")) })
            .collect(),
        Block::Quote { body, trail } => {
            let mut out = vec![];
            let mut inner: Vec<CLine> = (0..body.first().map(|g| g.gap).unwrap_or(0)).map(|_| cl("")).collect();
            inner.extend(canon_seq_in(body, &cx.deeper(2), true));
            inner.extend((0..*trail).map(|_| cl("")));
            for l in inner {
                let text = if l.text.is_empty() {
                    ">".to_string()
                } else if l.quote {
                    format!(">{}", l.text)
                } else {
                    format!("> {}", l.text)
                };
                out.push(CLine { text, quote: true });
            }
            if out.is_empty() {
                out.push(CLine { text: ">".into(), quote: true });
            }
            out
        }
        Block::List { marker, items } => {
            let mut out = vec![];
            for (n, it) in items.iter().enumerate() {
                if n > 0 {
                    for _ in 0..it.gap {
                        out.push(cl(""));
                    }
                }
                let m = match marker {
                    Marker::Bullet(c) => c.to_string(),
                    Marker::Ordered(d) => format!("{}{d}", it.digits),
                };
                let pad = " ".repeat(m.len() + 1);
                let task = match it.task {
                    Some(true) => "[x] ",
                    Some(false) => "[ ] ",
                    None => "",
                };
                let with_task;
                let content = match (it.task, it.body.first()) {
                    (Some(_), Some(Gapped { gap, block: Block::Para(i) })) => {
                        // the marker is wrapped together with the paragraph
                        let mut i = i.clone();
                        i.lines[0].insert(0, Atom::same(task.trim_end()));
                        let mut b = it.body.clone();
                        b[0] = Gapped { gap: *gap, block: Block::Para(i) };
                        with_task = b;
                        &with_task
                    }
                    _ => &it.body,
                };
                let task = if std::ptr::eq(content, &it.body) { task } else { "" };
                let body = canon_seq(content, &cx.deeper(pad.len()));
                if body.is_empty() {
                    out.push(cl(m));
                    continue;
                }
                let below = it.body[0].gap > 0;
                if below {
                    out.push(cl(m.clone()));
                }
                for (k, l) in body.into_iter().enumerate() {
                    if k == 0 && !below {
                        out.push(cl(format!("{m} {task}{}", l.text)));
                    } else if l.text.is_empty() {
                        out.push(cl(""));
                    } else {
                        out.push(cl(format!("{pad}{}", l.text)));
                    }
                }
            }
            out
        }
        Block::Table { aligns, rows } => canon_table(aligns, rows),
        Block::Html(ls) => ls.iter().map(cl_ref).collect(),
        Block::Def { label, dest, title } => {
            let mut s = format!("[{label}]: {dest}");
            if let Some((q, t)) = title {
                let close = if *q == '(' { ')' } else { *q };
                s.push_str(&format!(" {q}{t}{close}"));
            }
            vec![cl(s)]
        }
        Block::Foot { label, body } => {
            let mut out = vec![cl(format!("[^{label}]:"))];
            for l in canon_seq(body, &cx.deeper(4)) {
                out.push(cl(if l.text.is_empty() { String::new() } else { format!("    {}", l.text) }));
            }
            out
        }
        Block::Nested { ch, len, info, doc } => {
            let f = ch.to_string().repeat(*len);
            let inner = Cx { indent: 0, max_width: cx.max_width.map(|w| w.saturating_sub(cx.indent)), ..*cx };
            let mut out = vec![cl(format!("{f}{info}"))];
            let text = canon_cx(doc, &inner);
            let lines: Vec<&str> = ws_end(&text).lines().collect();
            out.extend(lines.into_iter().map(cl));
            out.push(cl(f));
            out
        }
        Block::Meta { ch, lines } => {
            let f = ch.to_string().repeat(3);
            let mut out = vec![cl(f.clone())];
            out.extend(lines.iter().map(cl_ref));
            out.push(cl(f));
            out
        }
    }
}

fn cl_ref(s: &String) -> CLine {
    cl(s.clone())
}

pub fn canon_seq(bs: &[Gapped], cx: &Cx) -> Vec<CLine> {
    canon_seq_in(bs, cx, false)
}

fn canon_seq_in(bs: &[Gapped], cx: &Cx, in_quote: bool) -> Vec<CLine> {
    let mut out = vec![];
    for (i, g) in bs.iter().enumerate() {
        if i > 0 {
            for _ in 0..g.gap {
                out.push(cl(""));
            }
        }
        // a quote directly inside a quote is written without the space in between
        let inner = if in_quote && matches!(g.block, Block::Quote { .. }) { Cx { indent: cx.indent - 1, ..*cx } } else { *cx };
        out.extend(canon_block(&g.block, &inner));
    }
    out
}

/// Canonical text without a final newline.
pub fn canon(d: &Doc) -> String {
    canon_cx(d, &Cx::default())
}

pub fn canon_cx(d: &Doc, cx: &Cx) -> String {
    canon_seq(&d.blocks, cx).into_iter().map(|l| l.text).collect::<Vec<_>>().join("\n")
}

// ---------------------------------------------------------------------------------------------
// Sloppy printer
// ---------------------------------------------------------------------------------------------

/// Which kinds of incidental spelling the sloppy printer may use.
#[derive(Clone, Copy)]
pub struct Style {
    /// extra indentation of blocks and continuation lines
    pub indent: bool,
    /// spaces after list markers, optional space after `>`
    pub marker_space: bool,
    pub lazy: bool,
    /// whitespace on blank lines and at line ends
    pub trailing: bool,
    /// table / heading / definition spacing
    pub inner: bool,
    /// tabs instead of spaces, where they mean the same
    pub tabs: bool,
    /// tables without the outer bars
    pub bare: bool,
}

impl Style {
    pub const ALL: Style = Style { indent: true, marker_space: true, lazy: true, trailing: true, inner: true, tabs: false, bare: true };
    pub const NONE: Style = Style { indent: false, marker_space: false, lazy: false, trailing: false, inner: false, tabs: false, bare: false };
}

#[derive(Clone, Debug)]
pub struct SLine {
    pub text: String,
    /// a paragraph continuation line: container markers may be omitted
    pub lazy: bool,
    /// how many of the spaces at the start of the line are content
    pub content: usize,
}

fn sl(text: impl Into<String>) -> SLine {
    SLine { text: text.into(), lazy: false, content: 0 }
}

fn verbatim(text: impl Into<String>) -> SLine {
    SLine { text: text.into(), lazy: false, content: usize::MAX }
}

/// Tabs for the spaces at the start of a line and after the list marker there.
fn with_tabs(line: &str, content: usize, t: &mut Tape) -> String {
    let lead = (line.len() - line.trim_start_matches(' ').len()).saturating_sub(content);
    let rest = &line[lead..];
    let mut s = String::new();
    let mut col = 0;
    while col + 4 <= lead && t.chance(3, 4) {
        s.push('\t');
        col += 4;
    }
    s.push_str(&" ".repeat(lead - col));
    let digits = rest.bytes().take_while(|b| b.is_ascii_digit()).count();
    let marker = match rest.as_bytes().get(digits) {
        Some(b'.' | b')') if digits > 0 => digits + 1,
        Some(b'-' | b'+' | b'*') if digits == 0 => 1,
        _ => 0,
    };
    if marker > 0 {
        // a tab before a marker can make the parser report a list that starts elsewhere
        s = " ".repeat(lead);
    }
    let k = rest[marker..].len() - rest[marker..].trim_start_matches(' ').len();
    let rule = rest.bytes().all(|b| b == b' ' || b == b'\t' || b == rest.as_bytes()[0]);
    if marker > 0 && !rule && lead < 4 && (1..=4).contains(&k) && (lead + marker + k) % 4 == 0 && t.chance(1, 2) {
        s.push_str(&rest[..marker]);
        s.push('\t');
        s.push_str(&rest[marker + k..]);
    } else {
        s.push_str(rest);
    }
    s
}

fn spaces(t: &mut Tape, on: bool, max: usize) -> String {
    if on && t.chance(1, 3) {
        " ".repeat(t.range(0, max))
    } else {
        String::new()
    }
}

fn opens_code(l: &[Atom]) -> bool {
    l.last().map(|a| a.canon.starts_with('`') && !a.canon[1..].ends_with('`') || a.canon.starts_with("<b id=\"")).unwrap_or(false)
}

fn sloppy_inl(i: &Inl, t: &mut Tape, st: Style, first_indent: usize) -> Vec<SLine> {
    let mut out = vec![];
    for (n, l) in i.lines.iter().enumerate() {
        let deep = l[0].deep;
        let in_code = n > 0 && opens_code(&i.lines[n - 1]);
        let mut s = if in_code {
            String::new()
        } else if deep {
            " ".repeat(4 + t.below(4) as usize)
        } else if n == 0 {
            spaces(t, st.indent, first_indent)
        } else {
            spaces(t, st.indent, 7)
        };
        s.push_str(&atoms_sloppy(l));
        match i.brks.get(n) {
            Some(Brk::HardSp) => s.push_str("  "),
            Some(Brk::HardBs) => s.push('\\'),
            Some(Brk::Soft) => {
                if st.trailing && !opens_code(l) && t.chance(1, 8) {
                    s.push(' ');
                }
            }
            None => {
                if st.trailing && t.chance(1, 8) {
                    s.push_str(&" ".repeat(upto(t, 1, 3, 90)));
                }
            }
        }
        for (k, piece) in s.split('\n').enumerate() {
            out.push(SLine { text: piece.to_string(), lazy: (n > 0 || k > 0) && !deep, content: if in_code || k > 0 || deep && is_row(&l[0].sloppy) { usize::MAX } else { 0 } });
        }
    }
    out
}

fn sloppy_attrs(a: &Attrs, t: &mut Tape, st: Style) -> String {
    if !st.inner || a == &Attrs::default() {
        return attrs_canon(a);
    }
    let c = attrs_canon(a);
    let inner = &c[2..c.len() - 1];
    let mut s = String::from(" {");
    s.push_str(&spaces(t, true, 2));
    let mut parts: Vec<&str> = inner.split(' ').collect();
    // classes and keys keep their order among themselves, as does the id that counts
    let (mut by_kind, mut n): ([Vec<&str>; 3], usize) = Default::default();
    for p in parts.drain(..) {
        by_kind[if p.starts_with('#') { 0 } else if p.starts_with('.') { 1 } else { 2 }].push(p);
    }
    by_kind.iter_mut().for_each(|k| k.reverse());
    while by_kind.iter().any(|k| !k.is_empty()) {
        let k = ((a.seed as usize >> n) + n) % 3;
        n += 1;
        if let Some(p) = by_kind[k].pop() {
            parts.push(p);
        }
    }
    for (i, p) in parts.into_iter().enumerate() {
        if i > 0 {
            s.push_str(&" ".repeat(upto(t, 1, 3, 90)));
        }
        s.push_str(p);
    }
    s.push_str(&spaces(t, true, 2));
    s.push('}');
    s
}

/// `room`: how many columns of extra indentation the first line may take.
pub fn sloppy_block(b: &Block, t: &mut Tape, st: Style, room: usize) -> Vec<SLine> {
    match b {
        Block::Para(i) => sloppy_inl(i, t, st, room),
        Block::Atx { level, text, attrs } => {
            let mut s = spaces(t, st.indent, room);
            s.push_str(&"#".repeat(*level));
            let body = atoms_sloppy(text);
            if !body.is_empty() {
                s.push(' ');
                s.push_str(&spaces(t, st.inner, 3));
                s.push_str(&body);
            }
            let at = sloppy_attrs(attrs, t, st);
            s.push_str(&at);
            if at.is_empty() && !body.is_empty() && st.inner && t.chance(1, 4) {
                s.push(' ');
                s.push_str(&"#".repeat(t.range(1, 7)));
            }
            if st.trailing && t.chance(1, 6) {
                s.push_str(&" ".repeat(upto(t, 1, 3, 90)));
            }
            vec![sl(s)]
        }
        Block::Setext { ch, len, text, attrs } => {
            let mut ls = sloppy_inl(text, t, st, room);
            for l in &mut ls {
                l.lazy = false;
            }
            let at = sloppy_attrs(attrs, t, st);
            if attrs.own_line {
                // here two spaces are a hard break
                let last = ls.last_mut().unwrap();
                last.text.truncate(ws_end(&last.text).len());
                // with indentation, the parser may panic
                ls.push(sl(at.trim_start()));
            }
            let last = ls.last_mut().unwrap();
            let at = if attrs.own_line { String::new() } else { at };
            last.text = format!("{}{}", ws_end(&last.text), at);
            let mut s = spaces(t, st.indent, 3);
            s.push_str(&ch.to_string().repeat(*len));
            if st.trailing && t.chance(1, 6) {
                s.push_str(&" ".repeat(upto(t, 1, 3, 90)));
            }
            ls.push(sl(s));
            ls
        }
        Block::Rule(r) => {
            let mut s = spaces(t, st.indent, room);
            s.push_str(r);
            if st.trailing && t.chance(1, 6) {
                s.push_str(&" ".repeat(upto(t, 1, 3, 90)));
            }
            vec![sl(s)]
        }
        Block::Fence { ch, len, info, space, body } => {
            let mut ind = spaces(t, st.indent, room);
            if ind.is_empty() && body.iter().any(|l| closing(l, *ch).is_some_and(|n| n >= *len)) {
                // further to the right, the line closes nothing
                ind.push(' ');
            }
            let f = ch.to_string().repeat(*len);
            let mut open = format!("{ind}{f}");
            if !info.is_empty() {
                if *space {
                    open.push(' ');
                    open.push_str(&spaces(t, st.inner, 2));
                }
                open.push_str(info);
            }
            if st.trailing && t.chance(1, 6) {
                open.push_str(&" ".repeat(upto(t, 1, 3, 90)));
            }
            let mut out = vec![sl(open)];
            for l in body {
                out.push(verbatim(if ws(&l).is_empty() { l.clone() } else { format!("{ind}{l}") }));
            }
            let mut close = spaces(t, st.indent, 3.min(room.max(ind.len())));
            close.push_str(&f);
            if st.inner && t.chance(1, 5) {
                close.push_str(&ch.to_string().repeat(t.range(1, 2)));
            }
            out.push(sl(close));
            out
        }
        Block::Indented(body) => body
            .iter()
            .map(|l| {
                if ws(&l).is_empty() {
                    sl("")
                } else {
                    SLine { text: format!("    {l}"), lazy: false, content: l.len() - l.trim_start_matches(' ').len() }
                }
            })
            .collect(),
        Block::Quote { body, trail } => {
            let mut inner: Vec<SLine> = (0..body.first().map(|g| g.gap).unwrap_or(0)).map(|_| sl("")).collect();
            inner.extend(sloppy_seq(body, t, st, 3, false));
            inner.extend((0..*trail).map(|_| sl("")));
            let mut out = vec![];
            for l in inner {
                if l.lazy && st.lazy && t.chance(1, 6) {
                    out.push(l);
                    continue;
                }
                let mut s = spaces(t, st.indent, room);
                s.push('>');
                let tight = st.marker_space && !l.text.starts_with([' ', '\t']) && t.chance(1, 4);
                if l.text.is_empty() {
                    if st.trailing && t.chance(1, 4) {
                        s.push_str(&" ".repeat(t.range(1, 2)));
                    }
                } else if tight {
                    s.push_str(&l.text);
                } else {
                    s.push(' ');
                    s.push_str(&l.text);
                }
                out.push(SLine { text: s, lazy: false, content: l.content });
            }
            if out.is_empty() {
                out.push(sl(">"));
            }
            out
        }
        Block::List { marker, items } => {
            let base = if st.indent { t.range(0, room.min(3)) } else { 0 };
            let jitter = st.indent && base == 0 && room > 0 && t.chance(1, 6);
            let mut out: Vec<SLine> = vec![];
            for (n, it) in items.iter().enumerate() {
                if n > 0 {
                    for _ in 0..it.gap {
                        out.push(blank(t, st));
                    }
                }
                let ind = if jitter && n > 0 { t.range(0, 1) } else { base };
                let m = match marker {
                    Marker::Bullet(c) => c.to_string(),
                    Marker::Ordered(d) => format!("{}{d}", it.digits),
                };
                let k = match it.body.first().map(|g| &g.block) {
                    _ if it.task.is_some() => if st.marker_space { t.range(1, 4) } else { 1 },
                    Some(Block::Indented(_)) => 1,
                    Some(_) => {
                        if st.marker_space && t.chance(1, 2) {
                            t.range(1, 4)
                        } else {
                            1
                        }
                    }
                    None => 0,
                };
                let task = match it.task {
                    Some(true) => if st.inner && t.chance(1, 3) { "[X] " } else { "[x] " },
                    Some(false) => "[ ] ",
                    None => "",
                };
                let below = it.body.first().map(|g| g.gap > 0).unwrap_or(false);
                let k = if below { 0 } else { k };
                let off = ind + m.len() + k.max(1);
                let body = sloppy_seq(&it.body, t, st, 3, true);
                if body.is_empty() {
                    out.push(sl(format!("{}{m}", " ".repeat(ind))));
                    continue;
                }
                if below {
                    let tail = if st.trailing && t.chance(1, 6) { " " } else { "" };
                    out.push(sl(format!("{}{m}{tail}", " ".repeat(ind))));
                }
                for (j, l) in body.into_iter().enumerate() {
                    if j == 0 && !below {
                        out.push(sl(format!("{}{m}{}{task}{}", " ".repeat(ind), " ".repeat(k), l.text)));
                    } else if ws(&l.text).is_empty() {
                        out.push(l);
                    } else if l.lazy && st.lazy && t.chance(1, 6) {
                        out.push(l);
                    } else {
                        out.push(SLine { text: format!("{}{}", " ".repeat(off), l.text), lazy: l.lazy, content: l.content });
                    }
                }
            }
            out
        }
        Block::Table { aligns, rows } => {
            let edge_empty = rows.iter().any(|r| r[0].is_empty() || r[r.len() - 1].is_empty());
            let outer = !(st.inner && st.bare && aligns.len() >= 2 && !edge_empty && t.chance(1, 3));
            let mut out = vec![];
            let ind = if st.indent { t.range(0, room.min(3)) } else { 0 };
            let cell = |t: &mut Tape, s: &str| -> String {
                if st.inner {
                    format!("{}{s}{}", " ".repeat(t.range(0, 2)), " ".repeat(t.range(0, 2)))
                } else {
                    format!(" {s} ")
                }
            };
            let join = |cells: Vec<String>| -> String {
                let body = cells.join("|");
                let s = if outer { format!("|{body}|") } else { body.trim_start_matches(' ').to_string() };
                format!("{}{s}", " ".repeat(ind))
            };
            let mut lines = vec![];
            let header: Vec<String> = rows[0].iter().map(|c| cell(t, &atoms_sloppy(c))).collect();
            lines.push(join(header));
            let bars: Vec<String> = aligns
                .iter()
                .map(|a| {
                    let n = if st.inner { t.range(1, 4) } else { 3 };
                    let d = "-".repeat(n);
                    let s = match a {
                        Align::None => d,
                        Align::Left => format!(":{d}"),
                        Align::Right => format!("{d}:"),
                        Align::Center => format!(":{d}:"),
                    };
                    cell(t, &s)
                })
                .collect();
            let mut bar_line = join(bars);
            if !outer && !bar_line.trim_start_matches(' ').starts_with(':') && bar_line.trim_start_matches(' ').starts_with("- ") {
                // would read as a list item
                bar_line = format!("{}--{}", " ".repeat(ind), bar_line.trim_start_matches(' ').trim_start_matches('-'));
            }
            lines.push(bar_line);
            for r in &rows[1..] {
                let mut cells: Vec<String> = r.iter().map(|c| cell(t, &atoms_sloppy(c))).collect();
                // a row may leave out empty cells at its end
                if st.inner && cells.len() > 1 && outer {
                    while cells.len() > 1 && r[cells.len() - 1].is_empty() && t.chance(1, 2) {
                        cells.pop();
                    }
                }
                lines.push(join(cells));
            }
            for l in lines {
                out.push(sl(l));
            }
            out
        }
        Block::Html(ls) => ls.iter().map(|s| verbatim(s.clone())).collect(),
        Block::Def { label, dest, title } => {
            let mut s = spaces(t, st.indent, room);
            let mut out = vec![];
            let lazy = |text: String| SLine { lazy: !text.starts_with("    "), text, content: 0 };
            // labels and titles may go on on the next line
            let broken = |s: &mut String, out: &mut Vec<SLine>, text: &str, t: &mut Tape| {
                for (i, w) in text.split(' ').enumerate() {
                    let plain = w.starts_with(|c: char| c.is_ascii_alphabetic());
                    // what looks like the start of a block has to be indented
                    let deep = ["-", "#", "1.", ">"].contains(&w);
                    if i > 0 && (plain && st.inner && t.chance(1, 8) || deep && st.inner && t.chance(1, 2)) {
                        s.push_str(&spaces(t, st.trailing, 2));
                        out.push(lazy(std::mem::take(s)));
                        s.push_str(&if deep { " ".repeat(t.range(4, 6)) } else { spaces(t, st.indent, 3) });
                    } else if i > 0 {
                        s.push(' ');
                    }
                    s.push_str(w);
                }
            };
            s.push('[');
            broken(&mut s, &mut out, label, t);
            s.push_str("]:");
            if st.inner && t.chance(1, 8) {
                s.push_str(&spaces(t, st.trailing, 2));
                out.push(lazy(std::mem::take(&mut s)));
                s.push_str(&spaces(t, st.indent, 5));
            } else {
                s.push_str(&" ".repeat(if st.inner { t.range(0, 3) } else { 1 }));
            }
            s.push_str(dest);
            if let Some((q, ti)) = title {
                let close = if *q == '(' { ')' } else { *q };
                if st.inner && t.chance(1, 8) {
                    s.push_str(&spaces(t, st.trailing, 2));
                    out.push(lazy(std::mem::take(&mut s)));
                    s.push_str(&spaces(t, st.indent, 5));
                } else {
                    s.push_str(&" ".repeat(if st.inner { t.range(1, 3) } else { 1 }));
                }
                s.push(*q);
                broken(&mut s, &mut out, ti, t);
                s.push(close);
            }
            s.push_str(&spaces(t, st.trailing, 2));
            out.push(lazy(s));
            out[0].lazy = false;
            out
        }
        Block::Foot { label, body } => {
            let mut out = vec![];
            let lead = spaces(t, st.indent, room);
            let inner = sloppy_seq(body, t, st, 3, true);
            for (j, l) in inner.into_iter().enumerate() {
                if j == 0 && st.inner && t.chance(1, 4) {
                    out.push(sl(format!("{lead}[^{label}]:")));
                    out.push(SLine { text: format!("    {}", l.text), lazy: false, content: l.content });
                } else if j == 0 {
                    out.push(sl(format!("{lead}[^{label}]: {}", l.text)));
                } else if ws(&l.text).is_empty() {
                    out.push(sl(""));
                } else {
                    out.push(SLine { text: format!("    {}", l.text), lazy: false, content: l.content });
                }
            }
            if out.is_empty() {
                out.push(sl(format!("{lead}[^{label}]:")));
            }
            out
        }
        Block::Nested { ch, len, info, doc } => {
            let f = ch.to_string().repeat(*len);
            let mut out = vec![sl(format!("{f}{info}"))];
            let (text, _) = sloppy(doc, t, Style { tabs: false, ..st });
            out.extend(text.lines().map(|l| verbatim(if ws(&l).is_empty() { String::new() } else { l.to_string() })));
            out.push(sl(f));
            out
        }
        Block::Meta { ch, lines } => {
            let f = ch.to_string().repeat(3);
            let mut out = vec![sl(f.clone())];
            out.extend(lines.iter().map(|s| verbatim(s.clone())));
            out.push(sl(f));
            out
        }
    }
}

fn blank(t: &mut Tape, st: Style) -> SLine {
    if st.trailing && t.chance(1, 8) {
        sl(" ".repeat(t.range(1, 3)))
    } else {
        sl("")
    }
}

pub fn sloppy_seq(bs: &[Gapped], t: &mut Tape, st: Style, room: usize, item: bool) -> Vec<SLine> {
    let mut out = vec![];
    for (i, g) in bs.iter().enumerate() {
        if i > 0 {
            for _ in 0..g.gap {
                out.push(blank(t, st));
            }
        }
        let mut r = room;
        if i == 0 && item {
            // indentation of the first block of an item belongs to the marker
            r = 0;
        }
        if i > 0 && matches!(bs[i - 1].block, Block::List { .. }) {
            // must not be absorbed by the list
            r = 0;
        }
        // directly after text only a bar shows that the line isn't more of it
        let st = Style { bare: i == 0 || g.gap > 0, ..st };
        out.extend(sloppy_block(&g.block, t, st, r));
    }
    out
}

/// Sloppy text; `newline` tells whether it ends in a line ending.
pub fn sloppy(d: &Doc, t: &mut Tape, st: Style) -> (String, bool) {
    let mut s = String::new();
    let meta_first = matches!(d.blocks.first(), Some(Gapped { block: Block::Meta { .. }, .. }));
    if !meta_first && st.trailing && t.chance(1, 8) {
        for _ in 0..t.range(1, 3) {
            s.push('\n');
        }
    }
    let lines = sloppy_seq(&d.blocks, t, st, 3, false);
    let texts = lines.into_iter().map(|l| if st.tabs { with_tabs(&l.text, l.content, t) } else { l.text });
    s.push_str(&texts.collect::<Vec<_>>().join("\n"));
    let newline = !t.chance(1, 6);
    if newline {
        s.push('\n');
        if st.trailing && t.chance(1, 6) {
            for _ in 0..t.range(1, 3) {
                s.push_str(if t.chance(1, 4) { "  \n" } else { "\n" });
            }
        }
    }
    (s, newline)
}
