//! Generator of document ASTs (see `doc.rs`).
//!
//! Everything is drawn from the tape.  The generator is *sound by construction*: it only builds
//! documents whose canonical and sloppy spellings denote that same document under CommonMark plus
//! the extensions the formatter enables, so no filtering against the code under test is needed.

use crate::doc::*;
use crate::tape::Tape;

#[derive(Clone, Copy, Debug)]
pub struct Kit {
    pub unicode: bool,
    pub spans: bool,
    pub links: bool,
    pub html: bool,
    pub escapes: bool,
    pub punct: bool,
    pub hard: bool,
    pub footref: bool,
    /// runs of spaces in code spans
    pub double: bool,
    /// how often (in eighths of the lines) literal text that would be block syntax at the start of a
    /// line is typed with a deep indent
    pub deep: u32,
    /// links / images whose text spans lines (joined by the formatter)
    pub multiline_links: bool,
    /// emphasis that spans lines
    pub spanning: bool,
    /// code spans and inline html that span lines
    pub code_spanning: bool,
    pub max_lines: usize,
    pub max_atoms: usize,
}

impl Kit {
    pub const PLAIN: Kit = Kit {
        unicode: false,
        spans: false,
        links: false,
        html: false,
        escapes: false,
        punct: false,
        hard: false,
        footref: false,
        double: true,
        deep: 0,
        multiline_links: false,
        spanning: false,
        code_spanning: false,
        max_lines: 3,
        max_atoms: 4,
    };
    pub const RICH: Kit = Kit {
        unicode: true,
        spans: true,
        links: true,
        html: true,
        escapes: true,
        punct: true,
        hard: true,
        footref: true,
        double: true,
        deep: 1,
        multiline_links: true,
        spanning: true,
        code_spanning: false,
        max_lines: 4,
        max_atoms: 5,
    };
}

#[derive(Clone, Copy, Debug)]
pub struct Weights {
    pub para: u32,
    pub atx: u32,
    pub setext: u32,
    pub rule: u32,
    pub fence: u32,
    pub indented: u32,
    pub quote: u32,
    pub list: u32,
    pub table: u32,
    pub html: u32,
    pub def: u32,
    pub foot: u32,
    pub meta: u32,
}

impl Weights {
    pub const ZERO: Weights = Weights {
        para: 0,
        atx: 0,
        setext: 0,
        rule: 0,
        fence: 0,
        indented: 0,
        quote: 0,
        list: 0,
        table: 0,
        html: 0,
        def: 0,
        foot: 0,
        meta: 0,
    };
    pub const ALL: Weights = Weights {
        para: 10,
        atx: 4,
        setext: 3,
        rule: 2,
        fence: 4,
        indented: 2,
        quote: 5,
        list: 7,
        table: 3,
        html: 2,
        def: 3,
        foot: 2,
        meta: 1,
    };
}

#[derive(Clone, Copy, Debug)]
pub struct Opt {
    pub w: Weights,
    pub kit: Kit,
    pub depth: usize,
    pub blocks: usize,
    pub max_gap: usize,
    /// allow blank lines between list items / blocks inside items
    pub loose: bool,
    pub attrs: bool,
    pub max_items: usize,
    /// how often (in eighths) fenced code blocks hold a document
    pub nested: u32,
    /// set while descending
    pub in_quote: bool,
    pub in_item: bool,
}

impl Opt {
    pub const FULL: Opt = Opt {
        w: Weights::ALL,
        kit: Kit::RICH,
        depth: 3,
        blocks: 5,
        max_gap: 3,
        loose: true,
        attrs: true,
        max_items: 4,
        nested: 0,
        in_quote: false,
        in_item: false,
    };
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Place {
    Top,
    Quote,
    Item(char),
    Foot,
}

const WORDS: &[&str] = &[
    "alpha", "beta", "gamma", "delta", "lorem", "ipsum", "dolor", "sit", "amet", "a", "of", "the", "Rust", "word",
    "x1", "foo_bar", "it's", "end.", "really?", "yes!", "e.g.", "one,", "two;", "50%", "$5", "a/b", "C:", "@me",
];
const UWORDS: &[&str] = &["café", "naïve", "漢字", "日本語", "Ωmega", "🎉", "ß", "élan", "한국어", "“quoted”", "…", "—", "e\u{301}te\u{301}", "a\u{200b}b", "ｆｕｌｌ"];
/// Words with white space of Unicode that is not white space to Markdown.
const SWORDS: &[&str] = &["a\u{a0}b", "\u{3000}x", "x\u{a0}", "\u{2003}", "y\u{3000}z\u{2028}"];
const ODD: &[&str] = &["\u{a0}", "\u{3000}", "&nbsp;", "\u{200b}", "!", "]", "}", "^", "%", "\\*", "é", "🎉", "\u{2028}"];
const TOKENS: &[&str] = &["-", "+", "#", "=", "1.", "2)", ">", "##", "--", "==", "&", "!", ":", "\"", "'", "~", "|", "<", "***", "_", "===", "- -", "-\tx", "#\tx", "1.\tx", "_\t_\t_", "*\t*\t*", "+\tx", "~~~", "[^9]:", "-|-", ":-:"];
const ESCAPES: &[&str] = &[
    "\\*", "\\#", "\\_", "\\[x\\]", "\\`", "\\>", "\\|", "\\\\", "\\-", "\\+", "1\\.", "\\<b\\>", "\\!", "&amp;", "&copy;",
    "&#35;", "&lt;tag&gt;", "\\\"", "\\$", "\\%", "\\'", "\\(", "\\)", "\\,", "\\.", "\\/", "\\:", "\\;", "\\=", "\\?", "\\@", "\\{",
    "\\}", "\\^", "\\~", "\\&amp;", "&#x22;", "&nbsp;", "&nope;", "\\a", "\\é", "\\1", "&;", "\\\\\\*", "\\&", "{\\#a}", "\\[", "\\]", "\\<", "x\\_y\\_z",
];

pub fn word(t: &mut Tape, k: &Kit) -> String {
    if k.unicode && t.chance(1, 6) {
        t.pick(UWORDS).to_string()
    } else {
        t.pick(WORDS).to_string()
    }
}

/// Between `lo` and `hi`, sometimes up to `far`: limits and buffers that only show with larger numbers.
pub fn upto(t: &mut Tape, lo: usize, hi: usize, far: usize) -> usize {
    if t.chance(1, 24) { t.range(hi + 1, far) } else { t.range(lo, hi) }
}

/// `max`, sometimes more.
fn most(t: &mut Tape, max: usize, far: usize) -> usize {
    if max > 1 && t.chance(1, 40) { far } else { max }
}

/// Between `min` and `max` elements, each a span of its own for the shrinker.
pub fn many<T>(t: &mut Tape, min: usize, max: usize, mut f: impl FnMut(&mut Tape, usize) -> T) -> Vec<T> {
    let mut out = vec![];
    loop {
        let m = t.mark();
        if !t.more(out.len(), min, max) {
            return out;
        }
        let x = f(t, out.len());
        out.push(x);
        t.span(m);
    }
}

/// A word of plain text.
fn text_word(t: &mut Tape, k: &Kit) -> String {
    if k.unicode && t.chance(1, 30) {
        t.pick(SWORDS).to_string()
    } else if t.chance(1, 400) {
        // far longer than any width, and than any buffer someone might think large enough
        let (w, n) = (t.pick(&["x", "é", "漢", "Ab1"]), upto(t, 20, 80, 300));
        w.repeat(n)
    } else {
        word(t, k)
    }
}

fn words(t: &mut Tape, k: &Kit, max: usize) -> String {
    many(t, 1, max, |t, _| word(t, k)).join(" ")
}

fn code_span(t: &mut Tape, k: &Kit) -> String {
    match t.below(if k.double { 10 } else { 9 }) {
        0 => format!("`{}`", word(t, k)),
        1 => format!("`{} {}`", word(t, k), word(t, k)),
        2 => format!("`` {} ` {} ``", word(t, k), word(t, k)),
        3 => "`a*b*c`".to_string(),
        // `?>` could end what an earlier line starts
        4 => format!("`<{}>`", word(t, k).replace('?', "")),
        5 => format!("`` `{}` ``", word(t, k)),
        6 => t.pick(&["`[x]`", "`` ``` ``", "`[a]: /u`", "`\\`", "`**`", "`&amp;`", "`# x`", "`_a_`"]).to_string(),
        7 => format!("` {} `", word(t, k)),
        8 => format!("`{}`", text_word(t, k)),
        _ => format!("`\\{}  {}`", word(t, k), word(t, k)),
    }
}

fn span(t: &mut Tape, k: &Kit) -> String {
    let w = words(t, k, 2);
    let w = w.trim_end_matches(|c: char| c == '\\').to_string();
    match t.below(15) {
        9 => format!("{}*{}*{}", t.pick(&["foo", "x", "é"]), t.pick(&["bar", "1"]), t.pick(&["baz", "漢"])),
        10 => format!("**{}**{}", t.pick(&["a", "b c"]), t.pick(&["x", "1"])),
        11 => format!("~{w}~"),
        12 => format!("*{} **{}***", word(t, k), word(t, k)),
        13 => format!("_{} __{}__ {}_", word(t, k), word(t, k), word(t, k)),
        14 => t.pick(&["a * b", "2 \\* 3", "snake_case_name", "__init\\_\\_", "a* *", "~~ x", "***a** b*", "**a *b***", "*a*b*"]).to_string(),
        0 => format!("*{w}*"),
        1 => format!("_{w}_"),
        2 => format!("**{w}**"),
        3 => format!("__{w}__"),
        4 => format!("~~{w}~~"),
        5 => format!("***{w}***"),
        6 => format!("**{w} *{}* {}**", word(t, k), word(t, k)),
        7 => format!("*{w} `{}` {}*", word(t, k), word(t, k)),
        _ => format!("~~{w} **{}**~~", word(t, k)),
    }
}

const DESTS: &[&str] = &[
    "/url", "https://example.com/a?b=c&d=e#frag", "#frag", "a/b.md", "/é", "mailto:a@b.c", "/p(a)q", "/x\\)y", "./z%20z", "/x\\(y", "/q'", "/q\"", "a\\>", "\\<a",
    "/a\\b", "'q'", "/a&amp;b", "/a*b*c", "/_x_", "?a=`b`", "/a_(b)_c", "/ä?ö=ü", "tel:+1-2", "//h", "&copy;", "\\\\", "a\\\\b", "/[x]", "[", "]", "!", "*", "js:x('y')", "a((b)(c))d", "",
];
const BDESTS: &[&str] = &["a b", "my url.md", "x (y", "x) y", "a\tb", "a b\\>", "a\\> b", " a ", "\\<a b", "\"a\" b", "a 'b'", "a (b)", "(", "/x)", "\ta"];

/// Destination as typed and as it must come out.
fn inline_dest(t: &mut Tape, has_title: bool) -> (String, String) {
    if t.chance(1, 5) {
        let d = *t.pick(BDESTS);
        return (format!("<{d}>"), format!("<{d}>"));
    }
    if has_title && t.chance(1, 20) {
        return ("<>".into(), "<>".into());
    }
    let n = if has_title { DESTS.len() - 1 } else { DESTS.len() };
    let d = DESTS[t.below(n as u32) as usize];
    if !d.is_empty() && !has_title && t.chance(1, 6) {
        // needless angle brackets are dropped
        return (d.to_string(), format!("<{d}>"));
    }
    (d.to_string(), d.to_string())
}

fn title(t: &mut Tape, k: &Kit) -> (char, String) {
    let q = *t.pick(&['"', '\'', '(']);
    let mut s = words(t, k, 3).replace(['\'', '"', '(', ')'], "");
    if t.chance(1, 5) {
        s.push_str(match q {
            '"' if t.chance(1, 2) => " x\\\"n\\\" (x)",
            '\'' if t.chance(1, 2) => " x\\'n \\\\ &quot;",
            '(' if t.chance(1, 2) => " x\\(n\\) 'x'",
            '"' => " 'n'",
            '\'' => " \"n\"",
            _ => " \"n'",
        });
    }
    (q, s)
}

fn quote_title(q: char, s: &str) -> String {
    let c = if q == '(' { ')' } else { q };
    format!("{q}{s}{c}")
}

fn link(t: &mut Tape, k: &Kit) -> Atom {
    let image = t.chance(1, 4);
    let bang = if image { "!" } else { "" };
    let text = match t.below(8) {
        5 if !image => format!("![{}](/i.png)", word(t, k)),
        5 => format!("![{}](/i \"t\")", word(t, k)),
        6 => format!("{} \\[{}", word(t, k), word(t, k)),
        7 => t.pick(&["", "**a** b", "`]` x", "a\\]", "<b>x</b>", "a ![b][ref] c", "&amp;", "\\^a", "``a`b``", "~~s~~", "&#42;", "a \\\\", "!", "x!", "\\!", "a\\*"]).to_string(),
        0 | 1 => words(t, k, 2),
        2 => format!("*{}*", word(t, k)),
        3 => format!("`{}`", word(t, k)),
        _ => format!("{} \\[z\\]", word(t, k)),
    };
    let stext = if k.multiline_links && t.chance(1, 6) && text.contains(' ') { text.replacen(' ', "\n", 1) } else { text.clone() };
    match t.below(7) {
        0..=3 => {
            let has_title = t.chance(1, 2);
            let (cd, sd) = inline_dest(t, has_title);
            if has_title {
                let (q, mut ti) = title(t, k);
                match t.below(40) {
                    1 => ti.clear(),
                    2..=4 => ti.insert(0, ' '),
                    5..=7 => ti.push(' '),
                    8 => ti.insert_str(0, "  "),
                    _ => {}
                }
                let ti = quote_title(q, &ti);
                let (p1, p2, p3) = (t.below(3), t.range(1, 3), t.below(3));
                Atom {
                    deep: false,
                    canon: format!("{bang}[{text}]({cd} {ti})"),
                    sloppy: format!(
                        "{bang}[{stext}]({}{sd}{}{ti}{})",
                        " ".repeat(p1 as usize),
                        " ".repeat(p2),
                        " ".repeat(p3 as usize)
                    ),
                }
            } else {
                let (p1, p3) = (t.below(2), t.below(2));
                Atom {
                    deep: false,
                    canon: format!("{bang}[{text}]({cd})"),
                    sloppy: format!("{bang}[{stext}]({}{sd}{})", " ".repeat(p1 as usize), " ".repeat(p3 as usize)),
                }
            }
        }
        4 => {
            let l = label(t);
            Atom { deep: false, canon: format!("{bang}[{text}][{l}]"), sloppy: format!("{bang}[{stext}][{l}]") }
        }
        5 => {
            let l = label(t);
            Atom::same(format!("{bang}[{l}][]"))
        }
        _ => {
            let l = label(t);
            Atom::same(format!("{bang}[{l}]"))
        }
    }
}

pub const LABELS: &[&str] = &["ref", "Ref two", "foo", "a-b", "é", "x.y", "a\\]", "ÄÖ four five", "1", "(p)", "a: b", "&amp;", "\\[b\\]", "x!y", "#h", "a\"b"];
pub const FLABELS: &[&str] = &["1", "note", "x-y", "é", "A.b", "x:y", "漢_1"];

fn label(t: &mut Tape) -> String {
    t.pick(LABELS).to_string()
}

fn inline_html(t: &mut Tape, k: &Kit) -> String {
    match t.below(9) {
        5..=7 => t.pick(&["<a href=\"x\" b=1 c>", "</b>", "<x-y/>", "<!-- a *b* -->", "<i title=\"*b* \\[c\">", "<A B='>'>", "<b c = 'd'  e>", "<s/>", "<i\u{a0}>"]).to_string(),
        8 => t.pick(&["<!DOCTYPE>", "<![CDATA[x y]]>", "<!-- -->", "<!A-b>"]).to_string(),
        0 => "<br/>".to_string(),
        1 => format!("<b>{}</b>", word(t, k)),
        2 => format!("<span class=\"x y\">{}</span>", word(t, k)),
        3 => "<!-- note -->".to_string(),
        _ => "<a href='q'>".to_string(),
    }
}

fn auto(t: &mut Tape) -> String {
    t.pick(&[
        "<https://example.com>", "<mailto:x@y.zz>", "<me@example.com>", "<ftp://a.b/c_d?e=*f*>", "<^a@b.c>", "<a+b.c@d-e.f>", "<http://a\\b>",
        "<http://a/\\>", "<x-y.z+1:q>", "<http://a/[b](c)>", "<HTTP://É.x/`>", "<ab:\"'&amp;>", "<_a_@b.c>",
    ])
    .to_string()
}

/// An atom that may stand anywhere in a line but (if `first`) must not look like block syntax.
fn atom(t: &mut Tape, k: &Kit, first: bool, cell: bool) -> Atom {
    let w = [
        12,
        if k.spans { 4 } else { 0 },
        if k.spans { 3 } else { 0 },
        if k.links { 4 } else { 0 },
        if k.html { 2 } else { 0 },
        if k.links { 1 } else { 0 },
        if k.escapes { 2 } else { 0 },
        if k.punct && !first && !cell { 2 } else { 0 },
        if k.footref { 1 } else { 0 },
    ];
    match t.weighted(&w) {
        0 => Atom::same(text_word(t, k)),
        1 => Atom::same(span(t, k)),
        2 => Atom::same(code_span(t, k)),
        3 => link(t, k),
        // what could start an HTML block isn't for the start of a line
        4 if first => Atom::same(if t.chance(1, 2) { format!("<b>{}</b>", word(t, k)) } else { format!("<span class=\"x y\">{}</span>", word(t, k)) }),
        4 => Atom::same(inline_html(t, k)),
        5 => Atom::same(auto(t)),
        6 => {
            let e = *t.pick(ESCAPES);
            // before a `|` the parser reads `\\\\` as an escaped pipe
            Atom::same(if cell && e == "\\\\" { "\\*" } else { e })
        }
        7 => Atom::same(*t.pick(TOKENS)),
        _ if t.chance(1, 4) => Atom::same(format!("[^{}]", t.pick(FLABELS))),
        _ => Atom::same(format!("{}[^{}]", word(t, k), t.pick(FLABELS))),
    }
}

/// Literal line starts: canonical (escaped) and as typed after a deep indent.
const DEEP: &[(&str, &str)] = &[
    ("\\# ", "# "),
    ("\\## ", "## "),
    ("\\> ", "> "),
    ("\\- ", "- "),
    ("\\+ ", "+ "),
    ("\\* ", "* "),
    ("\\###### ", "###### "),
    ("1\\. ", "1. "),
    ("01\\) ", "01) "),
    ("2. ", "2. "),
    ("####### ", "####### "),
    ("#", "#"),
    ("-", "-"),
    ("=", "="),
    ("\\>", ">"),
    ("\\>> ", ">> "),
    ("\\-\t", "-\t"),
    ("\\#\t", "#\t"),
    ("1\\.\t", "1.\t"),
    ("001\\. ", "001. "),
    ("\\- [ ] ", "- [ ] "),
    ("10. ", "10. "),
    ("123456789. ", "123456789. "),
    ("000000001\\. ", "000000001. "),
    ("0000000001. ", "0000000001. "),
    ("00000001\\)\t", "00000001)\t"),
    ("\\<?", "<?"),
    ("\\<pre \"", "<pre \""),
    ("\\</div \"", "</div \""),
    ("\\<DIV \"", "<DIV \""),
    ("[^1]\\: ", "[^1]: "),
    ("[a]: /", "[a]: /"),
    (": ", ": "),
    ("|", "|"),
    ("\\~\\~\\~ ", "~~~ "),
    ("\\~\\~\\~", "~~~"),
    ("*** ", "*** "),
    ("=== ", "=== "),
];

/// Tags that would start an HTML block, likewise.
const DEEP_TAG: &[(&str, &str)] = &[
    ("\\</address \"", "</address \""),
    ("\\<article \"", "<article \""),
    ("\\<aside \"", "<aside \""),
    ("\\</base \"", "</base \""),
    ("\\<basefont \"", "<basefont \""),
    ("\\<blockquote \"", "<blockquote \""),
    ("\\</body \"", "</body \""),
    ("\\<caption \"", "<caption \""),
    ("\\<center \"", "<center \""),
    ("\\</col \"", "</col \""),
    ("\\<colgroup \"", "<colgroup \""),
    ("\\<dd \"", "<dd \""),
    ("\\</details \"", "</details \""),
    ("\\<dialog \"", "<dialog \""),
    ("\\<dir \"", "<dir \""),
    ("\\</div \"", "</div \""),
    ("\\<dl \"", "<dl \""),
    ("\\<dt \"", "<dt \""),
    ("\\</fieldset \"", "</fieldset \""),
    ("\\<figcaption \"", "<figcaption \""),
    ("\\<figure \"", "<figure \""),
    ("\\</footer \"", "</footer \""),
    ("\\<form \"", "<form \""),
    ("\\<frame \"", "<frame \""),
    ("\\</frameset \"", "</frameset \""),
    ("\\<h1 \"", "<h1 \""),
    ("\\<h2 \"", "<h2 \""),
    ("\\</h3 \"", "</h3 \""),
    ("\\<h4 \"", "<h4 \""),
    ("\\<h5 \"", "<h5 \""),
    ("\\</h6 \"", "</h6 \""),
    ("\\<head \"", "<head \""),
    ("\\<header \"", "<header \""),
    ("\\</hr \"", "</hr \""),
    ("\\<html \"", "<html \""),
    ("\\<iframe \"", "<iframe \""),
    ("\\</legend \"", "</legend \""),
    ("\\<li \"", "<li \""),
    ("\\<link \"", "<link \""),
    ("\\</main \"", "</main \""),
    ("\\<menu \"", "<menu \""),
    ("\\<menuitem \"", "<menuitem \""),
    ("\\</nav \"", "</nav \""),
    ("\\<noframes \"", "<noframes \""),
    ("\\<ol \"", "<ol \""),
    ("\\</optgroup \"", "</optgroup \""),
    ("\\<option \"", "<option \""),
    ("\\<p \"", "<p \""),
    ("\\</param \"", "</param \""),
    ("\\<section \"", "<section \""),
    ("\\<summary \"", "<summary \""),
    ("\\</table \"", "</table \""),
    ("\\<tbody \"", "<tbody \""),
    ("\\<td \"", "<td \""),
    ("\\</tfoot \"", "</tfoot \""),
    ("\\<th \"", "<th \""),
    ("\\<thead \"", "<thead \""),
    ("\\</title \"", "</title \""),
    ("\\<tr \"", "<tr \""),
    ("\\<track \"", "<track \""),
    ("\\</ul \"", "</ul \""),
    ("\\<script \"", "<script \""),
    ("\\<style \"", "<style \""),
    ("\\<textarea \"", "<textarea \""),
];

/// Lines that would be a block of their own, likewise.
const DEEP_LINE: &[(&str, &str)] = &[
    ("\\*\\*\\*", "***"),
    ("\\- \\- \\-", "- - -"),
    ("\\_ \\_ \\_", "_ _ _"),
    ("\\===", "==="),
    ("\\=", "="),
    ("\\-\\-\\-", "---"),
    ("\\-", "-"),
    ("\\--", "--"),
    ("\\~\\~\\~", "~~~"),
    ("\\-\t\\-\t\\-", "-\t-\t-"),
    ("\\_\t\\_\t\\_", "_\t_\t_"),
    ("\\*\t\\*\t\\*", "*\t*\t*"),
    ("\\* \\*\\*\\*", "* ***"),
    ("\\-\\-\\- \\-", "--- -"),
    ("\\-\\- \\-", "-- -"),
    ("\\- -", "- -"),
    ("\\#", "#"),
    ("\\###", "###"),
    ("|a|b|", "|a|b|"),
    ("+++", "+++"),
    ("2)", "2)"),
    ("[^1]\\:", "[^1]:"),
];

pub fn inl(t: &mut Tape, k: &Kit, max_lines: usize) -> Inl {
    let mut brks = vec![];
    let max_lines = most(t, max_lines, 16);
    let max_atoms = most(t, k.max_atoms, 30);
    let lines = many(t, 1, max_lines, |t, i| {
        if i > 0 {
            brks.push(if k.hard && t.chance(1, 4) {
                if t.chance(1, 2) { Brk::HardBs } else { Brk::HardSp }
            } else {
                Brk::Soft
            });
        }
        let deep = i > 0 && t.chance(k.deep, 8);
        if deep && t.chance(1, 3) {
            if t.chance(1, 4) {
                // a delimiter row, if the line before it could be the header of a table
                let s = *t.pick(&["-|-", ":-|-:", "|-|-|", "|:-|-", "--|:-:", ":-|"]);
                return vec![Atom { canon: s.into(), sloppy: s.into(), deep: true }];
            }
            let (c, s) = *t.pick(DEEP_LINE);
            return vec![Atom { canon: c.into(), sloppy: s.into(), deep: true }];
        }
        let mut line = many(t, 1, max_atoms, |t, j| {
            if j == 0 && deep {
                let literals = if t.chance(1, 8) { DEEP_TAG } else { DEEP };
                let (c, s) = *t.pick(literals);
                let w = word(t, k);
                return Atom { canon: format!("{c}{w}"), sloppy: format!("{s}{w}"), deep: true };
            }
            atom(t, k, j == 0, false)
        });
        if deep && line[0].sloppy.starts_with("~~~") {
            // other tildes of what could be an info string are escaped too
            let first = line.remove(0);
            line.retain(|a| !a.canon.contains('~'));
            line.insert(0, first);
        }
        fix_line_end(&mut line);
        line
    });
    let mut lines = lines;
    for i in 1..lines.len() {
        let row = &lines[i][0];
        if lines[i].len() == 1 && row.deep && is_row(&row.sloppy) {
            if t.chance(1, 2) {
                fix_line_end(&mut lines[i - 1]);
                let end = *t.pick(&["a|b", "| x", "x |", "`|`"]);
                if !(lines[i - 1][0].deep && lines[i - 1].len() == 1) {
                    lines[i - 1].push(Atom::same(end));
                }
            }
            // escaped where it could be the delimiter row of a table
            if atoms_canon(&lines[i - 1]).contains('|') {
                let row = &mut lines[i][0];
                row.canon = format!("\\{}", row.sloppy);
            }
        }
    }
    for i in 0..brks.len() {
        // with a backslash at its end the line would be something else
        if lines[i][0].deep && lines[i].len() == 1 && brks[i] == Brk::HardBs {
            brks[i] = Brk::HardSp;
        }
    }
    if k.spanning {
        for i in 0..brks.len() {
            let literal = lines[i + 1][0].deep || lines[i][0].deep && lines[i].len() == 1;
            if brks[i] == Brk::Soft && !literal && t.chance(1, 8) {
                let (a, b) = if k.code_spanning && t.chance(1, 2) {
                    *t.pick(&[("`", "`"), ("``", "``"), ("<b id=\"", "\">")])
                } else {
                    *t.pick(&[("**", "**"), ("_", "_"), ("~~", "~~")])
                };
                let w1 = word(t, &Kit::PLAIN);
                let w2 = word(t, &Kit::PLAIN);
                let end = if matches!(a, "`" | "``" | "<b id=\"") && t.chance(1, 3) {
                    // these spaces are code, or a part of the tag
                    " ".repeat(if t.chance(1, 6) { t.range(60, 90) } else { t.range(1, 3) })
                } else {
                    String::new()
                };
                lines[i].push(Atom::same(format!("{a}{w1}{end}")));
                lines[i + 1].insert(0, Atom::same(format!("{w2}{b}")));
            }
        }
    }
    Inl { lines, brks }
}

/// A line must not end in something that changes meaning at a line end.
fn fix_line_end(line: &mut Vec<Atom>) {
    let last = line.last().unwrap().canon.clone();
    if last.ends_with('\\') || TOKENS.contains(&last.as_str()) {
        line.push(Atom::same("end"));
    }
}

fn single_line(t: &mut Tape, k: &Kit) -> Vec<Atom> {
    let mut k = *k;
    k.multiline_links = false;
    let max = most(t, k.max_atoms, 30);
    let mut line = many(t, 1, max, |t, j| atom(t, &k, j == 0, false));
    fix_line_end(&mut line);
    line
}

fn attrs(t: &mut Tape, o: &Opt) -> Attrs {
    let mut a = Attrs::default();
    if !o.attrs || !t.chance(1, 3) {
        return a;
    }
    if t.chance(1, 2) {
        a.id = Some(t.pick(&["id1", "my-id", "x_y", "é", "1", "a:b", "x.y", "a*b*", "A"]).to_string());
    }
    for _ in 0..upto(t, 0, 2, 9) {
        a.classes.push(t.pick(&["c1", "big", "a-b", "x:y", "漢", "c1", "1", "a#b", "_x_", "Big"]).to_string());
    }
    for i in 0..t.below(3) {
        let k = ["key", "data-x", "attr"][(i as usize + t.below(2) as usize) % 3].to_string();
        let v = if t.chance(3, 4) { Some(t.pick(&["1", "v-w", "y.z", "", "é", "a#b", "a=b", "*x*", "[b]", "(c)", "/u?d"]).to_string()) } else { None };
        if a.kvs.iter().all(|(kk, _)| *kk != k) {
            a.kvs.push((k, v));
        }
    }
    if a != Attrs::default() {
        a.seed = t.below(64);
    }
    a
}

const CODE: &[&str] = &[
    "fn main() {}",
    "    let x = 1;",
    "  indented",
    "",
    "# not a heading",
    "- not a list",
    "> not a quote",
    "| not | a table |",
    "[not]: /a-def",
    "trailing  ",
    "a * b _ c ` d",
    "\\escaped &amp; <tag>",
    "日本語 é",
    "x\ty",
    "***",
    "1. one",
    "===",
    "   ",
    "[^1]: not a footnote",
    "foo\\",
    "\u{3000}wide",
    "\u{a0}",
    "end\u{a0}",
    "\t\ttabs",
    "        eight",
    ">",
    "  - x",
    "<div>",
    "{#id}",
    "~",
    "``",
    "+++",
    "[x] ",
    "\\",
    "`",
    "--",
    "> - 1. x",
    "</pre>",
    "<!-- x -->",
    "\u{feff}x",
    "|-|",
    ": x",
    "&nbsp; ",
    "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789",
];

const INFOS: &[&str] = &["", "rust", "python", "js,ignore", "rust no_run", "c++", "{.rust #id}", "text title=\"a b\"", "日本", "{r}", "a\\*b", "a&amp;b", "sh $ x  y", "_x_", "<b>", "1.", "[a]", "#", "| |", "a\u{a0}b", "Markdown", "MARKDOWN rust", "md", "mark down"];

fn fence(t: &mut Tape) -> Block {
    let ch = if t.chance(1, 3) { '~' } else { '`' };
    let len = if t.chance(1, 4) { upto(t, 4, 6, 30) } else { 3 };
    let info = t.pick(INFOS).to_string();
    let space = !info.is_empty() && t.chance(1, 4);
    let nline = most(t, 5, 40);
    let mut body = many(t, 0, nline, |t, _| t.pick(CODE).to_string());
    if t.chance(1, 8) {
        // a fence of the other kind, or a shorter one, is just code
        let other = if ch == '`' { "~~~" } else { "```" };
        body.push(other.to_string());
    }
    if len > 3 && t.chance(1, 4) {
        body.push(ch.to_string().repeat(len - 1));
    }
    if t.chance(1, 12) {
        let end = *t.pick(&["", "", "  ", "\t", "\u{a0}"]);
        body.push(format!("   {}{end}", ch.to_string().repeat(t.range(len, len + 2))));
    }
    Block::Fence { ch, len, info, space, body }
}

fn indented(t: &mut Tape) -> Block {
    let nline = most(t, 4, 40);
    let mut body = many(t, 1, nline, |t, _| ws_end(t.pick(CODE)).to_string());
    for _ in 0..2 {
        if ws(&body.first().unwrap()).is_empty() {
            body[0] = "code".into();
        }
    }
    if ws(&body.last().unwrap()).is_empty() {
        body.push("end".into());
    }
    Block::Indented(body)
}

const HTMLS: &[&[&str]] = &[
    &["<div>", "  text *not em*", "</div>"],
    &["<!-- comment -->"],
    &["<!-- multi", "line -->"],
    &["<details>", "<summary>S</summary>", "</details>"],
    &["<table><tr>", "    <td>x</td>", "</tr></table>"],
    &["<p align=\"center\">", "\tx", "</p>"],
    &["<hr/>"],
    &["<pre>", "  keep", "</pre>"],
    &["<?php echo 1; ?>"],
];

/// Lines that mean nothing inside an HTML block.
const HTML_LINES: &[&str] = &[
    "text", "  *not em*", "\ttab", "    four", "# a", "* b", "- c", "```", "~~~", "> q", "[a]: /u", "| a |", "---", "===", "1. x",
    "[^1]: y", "{#id}", "&amp; \\*", "end\\", "<b>x</b>", "é 漢", "a  b", "+++", "`co", "</div>", "     five",
];

fn html_lines(t: &mut Tape, blanks: bool, out: &mut Vec<String>) {
    let ls = many(t, 0, 5, |t, _| {
        if blanks && t.chance(1, 4) { String::new() } else { t.pick(HTML_LINES).to_string() }
    });
    out.extend(ls);
}

/// Names that start an HTML block of the sixth kind.
const HTML_NAMES: &[&str] = &[
    "address", "article", "aside", "base", "basefont", "blockquote", "body", "caption", "center", "col", "colgroup", "dd",
    "details", "dialog", "dir", "div", "dl", "dt", "fieldset", "figcaption", "figure", "footer", "form", "frame",
    "frameset", "h1", "h2", "h3", "h4", "h5", "h6", "head", "header", "hr", "html", "iframe",
    "legend", "li", "link", "main", "menu", "menuitem", "nav", "noframes", "ol", "optgroup", "option", "p",
    "param", "search", "section", "summary", "table", "tbody", "td", "tfoot", "th", "thead", "title", "tr",
    "track", "ul",
];

/// An HTML block of one of the seven kinds.
fn html(t: &mut Tape) -> Block {
    let mut ls = vec![];
    match t.weighted(&[4, 4, 2, 3, 3, 1, 1, 1]) {
        0 => return Block::Html(t.pick(HTMLS).iter().map(|s| s.to_string()).collect()),
        1 => {
            let open = ["<div>", "<div class=\"a\">", "</section>", "<p>text", "<TABLE>", "<hr/>", "<details open>", "<li>", "<h1>x</h1>", "<td"];
            ls.push(if t.chance(1, 3) {
                let n = t.pick(HTML_NAMES);
                let n = if t.chance(1, 6) { n.to_uppercase() } else { n.to_string() };
                format!("{}{n}{}", t.pick(&["<", "</"]), t.pick(&[">", " x", "/>", "", ">text", " a=\"*b*\">"]))
            } else {
                t.pick(&open).to_string()
            });
            html_lines(t, false, &mut ls);
        }
        2 => {
            ls.push(t.pick(&["<custom-tag attr=\"v\">", "</x-y>", "<a href='/u'>", "<span>", "<br />", "<b x=y>"]).to_string());
            html_lines(t, false, &mut ls);
        }
        3 => {
            let (o, c) = *t.pick(&[("<pre>", "</pre>"), ("<script>", "</script>"), ("<style type=\"t\">", "</style>"), ("<textarea", "</textarea>"), ("<PRE>x", "</pre>")]);
            ls.push(o.into());
            html_lines(t, true, &mut ls);
            ls.push(format!("{}{c}{}", t.pick(&["", "  ", "x"]), t.pick(&["", " y"])));
        }
        4 => {
            ls.push(t.pick(&["<!--", "<!-- a", "<!--- b"]).to_string());
            html_lines(t, true, &mut ls);
            ls.push(t.pick(&["-->", "b -->", "  --> c"]).to_string());
        }
        5 => {
            ls.push(t.pick(&["<?", "<?php"]).to_string());
            html_lines(t, true, &mut ls);
            ls.push("?>".into());
        }
        6 => ls.push(t.pick(&["<!DOCTYPE html>", "<!X y>"]).to_string()),
        _ => {
            ls.push("<![CDATA[".into());
            html_lines(t, true, &mut ls);
            ls.push("]]>".into());
        }
    }
    Block::Html(ls)
}

/// HTML blocks that end on a line of their own, not at a blank line.
fn html_ends(ls: &[String]) -> bool {
    let l = ls[0].to_ascii_lowercase();
    ["<pre", "<script", "<style", "<textarea", "<!", "<?"].iter().any(|p| l.starts_with(p))
}

/// HTML blocks that can interrupt a paragraph.
fn html_interrupts(ls: &[String]) -> bool {
    let l = ls[0].to_ascii_lowercase();
    let name: String = l.trim_start_matches(['<', '/']).chars().take_while(|c| c.is_ascii_alphanumeric() || *c == '-').collect();
    html_ends(ls) || HTML_NAMES.contains(&name.as_str())
}

const TASK_CELL: &[&str] = &["a \\| b", "`c\\|d`", "x"];

fn table(t: &mut Tape, k: &Kit) -> Block {
    let ncol = upto(t, 1, 4, 16);
    let (nrow, natom) = (if ncol < 5 { most(t, 4, 24) } else { 4 }, most(t, 3, 12));
    let aligns: Vec<Align> =
        (0..ncol).map(|_| *t.pick(&[Align::None, Align::Left, Align::Center, Align::Right])).collect();
    let mut kit = *k;
    kit.multiline_links = false;
    let rows = many(t, 1, nrow, |t, _| {
        (0..ncol)
            .map(|c| {
                if t.chance(1, 6) && !(c == 0 && ncol == 1) {
                    return vec![];
                }
                let mut cell = many(t, 1, natom, |t, _| atom(t, &kit, true, true));
                if t.chance(1, 8) {
                    cell.push(Atom::same(*t.pick(TASK_CELL)));
                }
                cell
            })
            .collect()
    });
    Block::Table { aligns, rows }
}

const DEF_DESTS: &[&str] = &["/url", "https://example.com/a?b=c", "<a b>", "#x", "<>", "?", "&amp;", "/_x_*y*", "`c`", "a(b(c)d)", "[x]", "<[x]>", "<a\tb>", "\\#x", "!", "/x:y", "/é/漢", "a/(b)", "/p\\*q", "<x>", "<a\\>b>", "/a\\(b", "a%20b", "<a(b>", "\"x\"", "/u\"x\"", "/a<b", "<é  b>", "x"];

fn def(t: &mut Tape, k: &Kit) -> Block {
    let label = t.pick(LABELS).to_string();
    let dest = t.pick(DEF_DESTS).to_string();
    let mut title = if t.chance(1, 2) { Some(title(t, k)) } else { None };
    if let Some((_, title)) = title.as_mut().filter(|_| t.chance(1, 6)) {
        title.push_str(t.pick(&[" > x", " - x", " # x", " 1. x > y"]));
    }
    Block::Def { label, dest, title }
}

const RULES: &[&str] = &["*\t*\t*", "_ _\t_", "-\t--", "* **", "-  -  -  -", "*********", "__\t \t_", "---", "***", "___", "* * *", "- - -", "_ _ _", "----------------------------------------------------------------------------------------------------", "*                                  *                                                *", "-----", "**  * **", "____"];

fn ordered_digits(t: &mut Tape, first: bool) -> String {
    if first {
        t.pick(&["1", "1", "0", "01", "3", "10", "007", "00", "123456789", "99", "000001", "00000010", "000000000", "12345"]).to_string()
    } else {
        t.pick(&["1", "2", "3", "9", "10", "02", "000", "5", "100", "0000007", "999999999"]).to_string()
    }
}

fn list(t: &mut Tape, o: &Opt, depth: usize, avoid: Option<&Marker>, interrupt: bool) -> Block {
    let mut marker = if t.chance(2, 5) {
        Marker::Ordered(*t.pick(&['.', ')']))
    } else {
        Marker::Bullet(*t.pick(&['*', '-', '+']))
    };
    if avoid == Some(&marker) {
        marker = match marker {
            Marker::Bullet('*') => Marker::Bullet('-'),
            Marker::Bullet(_) => Marker::Bullet('*'),
            Marker::Ordered('.') => Marker::Ordered(')'),
            Marker::Ordered(_) => Marker::Ordered('.'),
        };
    }
    if interrupt && marker == Marker::Bullet('-') {
        marker = Marker::Bullet('+');
        if avoid == Some(&marker) {
            marker = Marker::Bullet('*');
        }
    }
    let mch = match marker {
        Marker::Bullet(c) => c,
        Marker::Ordered(_) => '1',
    };
    let max_items = if depth <= 1 { most(t, o.max_items, 24) } else { o.max_items };
    let items = many(t, 1, max_items, |t, i| {
        let digits = match marker {
            Marker::Bullet(_) => String::new(),
            Marker::Ordered(_) => {
                if i == 0 && interrupt {
                    "1".to_string()
                } else {
                    ordered_digits(t, i == 0)
                }
            }
        };
        let gap = if o.loose && t.chance(1, 3) { upto(t, 1, 2, 12) } else { 0 };
        // The parser gives an empty item that is the last thing of nested containers, one of them a
        // quote, a range or an end that is not its own: not a place to expect exact output.
        let empty = t.chance(1, 14) && !(i == 0 && interrupt) && !(o.in_quote && o.in_item)
            // `* * *` is a thematic break
            && !(i == 0 && o.in_item);
        let task = if !empty && t.chance(1, 7) { Some(t.chance(1, 2)) } else { None };
        let body = if empty {
            vec![]
        } else if task.is_some() {
            vec![Gapped { gap: 0, block: Block::Para(inl(t, &o.kit, o.kit.max_lines)) }]
        } else {
            let nb = if t.chance(1, 3) { 3 } else { 1 };
            let mut b = seq(t, &Opt { in_item: true, ..*o }, depth - 1, Place::Item(mch), nb);
            if !(i == 0 && (interrupt || o.in_item)) && t.chance(1, 14) {
                b[0].gap = 1;
            }
            b
        };
        Item { gap, digits, task, body }
    });
    Block::List { marker, items }
}

fn last_leaf_is_para(b: &Block) -> bool {
    match b {
        Block::Para(_) => true,
        Block::Quote { body: bs, .. } | Block::Foot { body: bs, .. } => bs.last().map(|g| last_leaf_is_para(&g.block)).unwrap_or(false),
        Block::List { items, .. } => {
            items.last().and_then(|i| i.body.last()).map(|g| last_leaf_is_para(&g.block)).unwrap_or(false)
        }
        _ => false,
    }
}

fn ends_in_empty_item(bs: &[Gapped]) -> bool {
    match bs.last().map(|g| &g.block) {
        Some(Block::List { items, .. }) => {
            let i = items.last().unwrap();
            i.body.is_empty() || ends_in_empty_item(&i.body)
        }
        _ => false,
    }
}

/// Whether a list can interrupt a paragraph.
fn interrupts(marker: &Marker, items: &[Item]) -> bool {
    let ok = match marker {
        Marker::Bullet(c) => *c != '-',
        Marker::Ordered(_) => items[0].digits == "1",
    };
    ok && items[0].body.first().map(|g| g.gap == 0 && !matches!(g.block, Block::Indented(_))).unwrap_or(false)
}

/// Smallest number of blank lines that keeps `next` a block of its own after `prev`;
/// `None`: `next` cannot follow `prev` at all.
pub fn min_gap(prev: &Block, next: &Block) -> Option<usize> {
    use Block::*;
    let after_para_like = matches!(prev, Para(_)) || last_leaf_is_para(prev);
    match (prev, next) {
        (Foot { .. }, Indented(_)) => None,
        (Foot { body, .. }, Para(_) | Atx { .. } | Fence { .. } | Quote { .. }) if matches!(body.last().map(|g| &g.block), Some(Atx { .. } | Setext { .. } | Fence { .. } | Rule(_))) => Some(0),
        (Foot { .. } | Meta { .. }, _) | (_, Foot { .. }) => Some(1),
        (Html(a), _) if !html_ends(a) => Some(1),
        (Para(_) | Atx { .. } | Setext { .. } | Fence { .. } | Quote { .. } | List { .. } | Html(_), Html(b)) if html_interrupts(b) => Some(0),
        (_, Html(_)) => Some(1),
        (Html(_), Para(_) | Atx { .. } | Fence { .. } | Quote { .. }) => Some(0),
        (Html(_), _) => Some(1),
        (Def { .. }, Def { .. }) => Some(0),
        (Def { .. }, Rule(r)) if r.starts_with('-') => Some(1),
        (Def { .. }, List { marker, items }) => Some(if interrupts(marker, items) { 0 } else { 1 }),
        (Def { .. }, Para(_) | Atx { .. } | Setext { .. } | Rule(_) | Fence { .. } | Quote { .. } | Table { .. }) => Some(0),
        (Rule(r), _) if r == "---" => Some(1),
        (Atx { .. } | Setext { .. } | Rule(_) | Fence { .. }, Def { .. }) => Some(0),
        (Def { .. }, _) | (_, Def { .. }) => Some(1),
        // could open a metadata block
        (Rule(r), _) if r == "---" => Some(1),
        (Table { .. }, Atx { .. } | Fence { .. } | Rule(_) | Quote { .. }) => Some(0),
        (Para(_) | Atx { .. } | Setext { .. } | Fence { .. } | Rule(_), Table { .. }) => Some(0),
        (Table { .. }, _) | (_, Table { .. }) => Some(1),
        (Quote { .. }, Quote { .. }) => Some(1),
        (List { marker: a, .. }, List { marker: b, .. }) if a == b => None,
        (List { .. }, Indented(_)) => None,
        (Indented(_), Indented(_)) => None,
        (Para(_), Rule(r)) if r.starts_with('-') => Some(1),
        (Para(_), List { marker, items }) => Some(if interrupts(marker, items) { 0 } else { 1 }),
        (_, Para(_) | Setext { .. } | Indented(_)) if after_para_like || matches!(prev, List { .. } | Quote { .. }) => Some(1),
        (_, List { .. }) if after_para_like => Some(1),
        _ => Some(0),
    }
}

fn block(t: &mut Tape, o: &Opt, depth: usize, place: Place, first: bool, prev: Option<&Block>) -> Block {
    let w = &o.w;
    let nest = depth > 0;
    let in_item_first = first && matches!(place, Place::Item(_));
    let ws = [
        w.para,
        w.atx,
        w.setext,
        w.rule,
        w.fence,
        if in_item_first || (first && place == Place::Foot) { 0 } else { w.indented },
        if nest { w.quote } else { 0 },
        if nest { w.list } else { 0 },
        w.table,
        w.html,
        w.def,
        match place {
            Place::Top => w.foot,
            Place::Foot => 0,
            _ => w.foot.div_ceil(2),
        },
        if first && place == Place::Top { w.meta } else { 0 },
    ];
    match t.weighted(&ws) {
        // all of the text is one character, or even white space to Unicode
        0 if t.chance(1, 60) => Block::Para(Inl { lines: vec![vec![Atom::same(*t.pick(ODD))]], brks: vec![] }),
        0 => Block::Para(inl(t, &o.kit, o.kit.max_lines)),
        1 => {
            let text = if t.chance(1, 14) { vec![] } else { single_line(t, &o.kit) };
            let attrs = attrs(t, o);
            Block::Atx { level: t.range(1, 6), text, attrs }
        }
        2 => {
            let text = inl(t, &o.kit, 3);
            let mut attrs = attrs(t, o);
            attrs.own_line = attrs != Attrs::default() && t.chance(1, 3);
            Block::Setext { ch: if t.chance(1, 2) { '-' } else { '=' }, len: upto(t, 1, 6, 60), text, attrs }
        }
        3 => {
            let mut r = t.pick(RULES).to_string();
            if let (true, Place::Item(c)) = (first, place) {
                if r.starts_with(c) {
                    r = "___".into();
                }
            }
            if first && place == Place::Top && r.starts_with("---") {
                // could open a metadata block
                r = "***".into();
            }
            Block::Rule(r)
        }
        4 if depth > 0 && t.chance(o.nested, 8) => {
            let d = doc(t, &Opt { depth: depth - 1, blocks: 3, in_quote: false, in_item: false, ..*o });
            let ch = if t.chance(1, 3) { '~' } else { '`' };
            let info = t.pick(&["markdown", "markdown,ignore", "rmarkdown"]).to_string();
            let mut d = d;
            let mut len = 7 + 3 * depth;
            crate::doc::each_block(&mut d.blocks, &mut |b| {
                if let Block::Fence { len: l, .. } | Block::Nested { len: l, .. } = b {
                    len = len.max(*l + 4);
                }
            });
            Block::Nested { ch, len, info, doc: d }
        }
        4 => fence(t),
        5 => indented(t),
        // many containers that hold nothing but the next one
        6 if t.chance(1, 40) => {
            let plain = Opt { in_quote: true, in_item: true, ..*o };
            let mut body = seq(t, &plain, (depth - 1).min(1), Place::Quote, 2);
            for _ in 0..upto(t, 1, 6, 20) {
                let block = if t.chance(1, 3) {
                    let item = Item { gap: 0, digits: String::new(), task: None, body };
                    let list = Block::List { marker: Marker::Bullet('+'), items: vec![item] };
                    Block::Quote { body: vec![Gapped { gap: 0, block: list }], trail: 0 }
                } else {
                    Block::Quote { body, trail: 0 }
                };
                body = vec![Gapped { gap: 0, block }];
            }
            body.remove(0).block
        }
        6 => {
            let mut body = seq(t, &Opt { in_quote: true, ..*o }, depth - 1, Place::Quote, 3);
            if t.chance(1, 10) {
                body[0].gap = if o.max_gap > 2 { upto(t, 1, 2, 12) } else { 1 };
            }
            let trail = if t.chance(1, 10) && !ends_in_empty_item(&body) { upto(t, 1, 2, 20) } else { 0 };
            Block::Quote { body, trail }
        }
        7 => {
            let avoid = match prev {
                Some(Block::List { marker, .. }) => Some(marker.clone()),
                _ => None,
            };
            let interrupt = matches!(prev, Some(Block::Para(_))) && t.chance(1, 3);
            list(t, o, depth, avoid.as_ref(), interrupt)
        }
        8 => table(t, &o.kit),
        9 => html(t),
        10 => def(t, &o.kit),
        11 => {
            let mut body = seq(t, o, depth.min(1), Place::Foot, 3);
            // The same goes for an empty item at the end of a nested footnote.
            while (o.in_item || o.in_quote) && ends_in_empty_item(&body) {
                body.pop();
            }
            if body.is_empty() {
                body.push(Gapped { gap: 0, block: Block::Para(inl(t, &Kit::PLAIN, 1)) });
            }
            Block::Foot { label: String::new(), body }
        }
        _ => {
            let n = upto(t, 1, 3, 12);
            let lines = (0..n).map(|_| t.pick(&["title: x", "tags: [a, b]", "- item", "  nested: 1", "# c"]).to_string()).collect();
            Block::Meta { ch: if t.chance(1, 3) { '+' } else { '-' }, lines }
        }
    }
}

/// A sequence of one to `max` blocks.
pub fn seq(t: &mut Tape, o: &Opt, depth: usize, place: Place, max: usize) -> Vec<Gapped> {
    let mut out: Vec<Gapped> = vec![];
    many(t, 1, max, |t, i| {
        let b = block(t, o, depth, place, i == 0, out.last().map(|g| &g.block));
        if matches!(b, Block::Indented(_)) {
            // Definitions do not separate a list from indented code as far as the formatter goes.
            let before = out.iter().rev().find(|g| !matches!(g.block, Block::Def { .. }));
            if matches!(before, Some(Gapped { block: Block::List { .. } | Block::Foot { .. }, .. })) {
                return;
            }
        }
        let gap = match out.last() {
            None => 0,
            Some(p) => match min_gap(&p.block, &b) {
                None => return,
                Some(m) => {
                    let extra = [0, 0, 1, 1, 1, 2, 3, 4, 6];
                    let e = (*t.pick(&extra)).min(o.max_gap);
                    m.max(if e > 2 { upto(t, e, e, 40) } else { e })
                }
            },
        };
        out.push(Gapped { gap, block: b });
    });
    out
}

/// A whole document.  Footnote labels are made unique, and every label used by a reference is
/// defined when the options ask for footnotes.
pub fn doc(t: &mut Tape, o: &Opt) -> Doc {
    let blocks = if t.chance(1, 250) { upto(t, o.blocks, 40, 120) } else { o.blocks };
    let mut blocks = seq(t, o, o.depth, Place::Top, blocks);
    let mut next = 0usize;
    let mut out: Vec<Gapped> = vec![];
    each_block(&mut blocks, &mut |b| {
        if let Block::Foot { label, .. } = b {
            *label = if next < FLABELS.len() { FLABELS[next].to_string() } else { format!("n{next}") };
            next += 1;
        }
    });
    out.append(&mut blocks);
    if o.kit.footref {
        let text = canon(&Doc { blocks: out.clone() });
        while next < FLABELS.len() {
            if !text.contains(&format!("[^{}]", FLABELS[next])) {
                next += 1;
                continue;
            }
            let gap = if out.is_empty() { 0 } else { 1 };
            let body = vec![Gapped { gap: 0, block: Block::Para(inl(t, &Kit::PLAIN, 1)) }];
            out.push(Gapped { gap, block: Block::Foot { label: FLABELS[next].into(), body } });
            next += 1;
        }
    }
    let mut d = Doc { blocks: out };
    // Space before a fence that starts an item or a footnote is space after the marker.
    each_block(&mut d.blocks, &mut |b| {
        let firsts: Vec<&mut Gapped> = match b {
            Block::List { items, .. } => items.iter_mut().filter_map(|i| i.body.first_mut()).collect(),
            Block::Foot { body, .. } => body.first_mut().into_iter().collect(),
            _ => vec![],
        };
        for g in firsts {
            if let Block::Fence { body, ch, .. } = &mut g.block {
                body.retain(|l| closing(l, *ch).is_none());
            }
        }
    });
    // The parser reads a nested `---` as the start of a metadata block when any later line of the
    // document, in whatever container, could close it.
    let dashes = canon(&d).lines().filter(|l| l.trim_end().ends_with("---")).count();
    if dashes > 1 {
        for g in &mut d.blocks {
            undash(&mut g.block, true);
        }
    }
    d
}

fn undash(b: &mut Block, top: bool) {
    match b {
        Block::Rule(r) if !top && r == "---" => *r = "___".into(),
        Block::Quote { body: bs, .. } | Block::Foot { body: bs, .. } => bs.iter_mut().for_each(|g| undash(&mut g.block, false)),
        Block::List { items, .. } => {
            items.iter_mut().flat_map(|i| i.body.iter_mut()).for_each(|g| undash(&mut g.block, false))
        }
        _ => {}
    }
}
