//! Independent oracles: what a document means to a Markdown parser (without the recovery of
//! undefined references that the formatter asks for), and helpers to compare meanings.

use crate::doc::{ws, ws_end};
use pulldown_cmark::{CodeBlockKind, Event, Parser, Tag, TagEnd};
use std::collections::BTreeMap;

pub fn parser_ok(src: &str) -> bool {
    // What the formatter is built on must be able to read the input in the first place.
    crate::engine::guarded(|| {
        let mut cb = |_: pulldown_cmark::BrokenLink| Some(("".into(), "".into()));
        let p = Parser::new_with_broken_link_callback(src, markdown_fmt::pulldown_cmark_options!(), Some(&mut cb));
        for _ in p.into_offset_iter() {}
        for _ in Parser::new_ext(src, markdown_fmt::pulldown_cmark_options!()) {}
    })
    .is_ok()
}

#[derive(Clone, Copy, PartialEq)]
pub enum Breaks {
    /// line breaks inside paragraphs are part of the result
    Keep,
    /// line breaks and runs of white space count as one space
    Fold,
}

fn flush(out: &mut Vec<String>, text: &mut String, breaks: Breaks, in_code: bool) {
    if text.is_empty() {
        return;
    }
    let t = std::mem::take(text);
    if in_code {
        let lines: Vec<&str> = t.lines().map(|l| if ws(&l).is_empty() { "" } else { l }).collect();
        let n = lines.iter().rposition(|l| !l.is_empty()).map(|p| p + 1).unwrap_or(0);
        let mut s = lines[..n].join("\n");
        s.truncate(ws_end(&s).len());
        if !s.is_empty() {
            out.push(format!("code {s:?}"));
        }
        return;
    }
    let s = match breaks {
        Breaks::Keep => t.trim_end_matches('\n').split('\n').map(|l| l.trim_matches([' ', '\t'])).collect::<Vec<_>>().join("\n"),
        Breaks::Fold => t.split([' ', '\t', '\n']).filter(|w| !w.is_empty()).collect::<Vec<_>>().join(" "),
    };
    out.push(format!("text {s:?}"));
}

fn fold_ws(s: &str) -> String {
    s.split_ascii_whitespace().collect::<Vec<_>>().join(" ")
}

/// The meaning of a document: its event stream without source positions, with adjacent text
/// merged, insignificant white space removed and links resolved.
pub fn meaning(src: &str, breaks: Breaks) -> Vec<String> {
    events_meaning(Parser::new_ext(src, markdown_fmt::pulldown_cmark_options!()), breaks)
}

/// The same, with references to labels that are not defined taken for links.
pub fn meaning_with_recovery(src: &str, breaks: Breaks) -> Vec<String> {
    let mut cb = |_: pulldown_cmark::BrokenLink| Some(("".into(), "".into()));
    events_meaning(Parser::new_with_broken_link_callback(src, markdown_fmt::pulldown_cmark_options!(), Some(&mut cb)), breaks)
}

fn events_meaning<'a>(events: impl Iterator<Item = Event<'a>>, breaks: Breaks) -> Vec<String> {
    let mut out = vec![];
    let mut text = String::new();
    let mut html = String::new();
    let mut in_code = false;
    let mut in_html = false;
    let mut in_meta = false;
    let mut link_depth = 0;
    for e in events {
        match &e {
            Event::Text(s) if in_html => {
                html.push_str(s);
                continue;
            }
            Event::Text(s) => {
                text.push_str(s);
                continue;
            }
            Event::Html(s) => {
                html.push_str(s);
                continue;
            }
            Event::SoftBreak => {
                text.push_str(if breaks == Breaks::Keep && link_depth == 0 { "\n" } else { " " });
                continue;
            }
            _ => {}
        }
        flush(&mut out, &mut text, breaks, in_code || in_meta);
        if !html.is_empty() && !matches!(e, Event::Html(_)) {
            // indentation and trailing white space of the lines of an HTML block are not content
            let h = html.lines().map(ws).collect::<Vec<_>>().join("\n");
            out.push(format!("html {:?}", ws(&h)));
            html.clear();
        }
        match e {
            Event::Start(tag) => match tag {
                Tag::CodeBlock(k) => {
                    in_code = true;
                    out.push(match k {
                        CodeBlockKind::Fenced(i) => format!("+fenced {:?}", ws(&i)),
                        CodeBlockKind::Indented => "+indented".into(),
                    });
                }
                Tag::HtmlBlock => in_html = true,
                Tag::MetadataBlock(k) => {
                    in_meta = true;
                    out.push(format!("+meta {k:?}"));
                }
                Tag::Heading { level, id, classes, attrs } => out.push(format!(
                    "+heading {level} id={:?} classes={:?} attrs={:?}",
                    id.as_deref(),
                    classes.iter().map(|s| s.to_string()).collect::<Vec<_>>(),
                    attrs.iter().map(|(k, v)| format!("{k}={:?}", v.as_deref())).collect::<Vec<_>>()
                )),
                Tag::Link { link_type, dest_url, title, .. } => {
                    link_depth += 1;
                    out.push(format!("+link {link_type:?} {:?} {:?}", &*dest_url, fold_ws(&title)))
                }
                Tag::Image { link_type, dest_url, title, .. } => {
                    link_depth += 1;
                    out.push(format!("+image {link_type:?} {:?} {:?}", &*dest_url, fold_ws(&title)))
                }
                Tag::FootnoteDefinition(label) => out.push(format!("+footnote {:?}", fold_ws(&label))),
                t => out.push(format!("+{t:?}")),
            },
            Event::End(tag) => match tag {
                TagEnd::CodeBlock => {
                    in_code = false;
                    out.push("-code".into());
                }
                TagEnd::HtmlBlock => in_html = false,
                TagEnd::MetadataBlock(_) => {
                    in_meta = false;
                    out.push("-meta".into());
                }
                TagEnd::Link | TagEnd::Image => {
                    link_depth -= 1;
                    out.push(format!("-{tag:?}"));
                }
                t => out.push(format!("-{t:?}")),
            },
            Event::Code(s) => out.push(format!("span {:?}", fold_ws(&s))),
            Event::InlineHtml(s) => {
                // the parser leaves the markers of block quotes in comments that span lines
                let s = s.split('\n').enumerate().map(|(i, l)| if i == 0 { l } else { l.trim_start_matches([' ', '>']) }).collect::<Vec<_>>();
                out.push(format!("inline-html {:?}", fold_ws(&s.join("\n"))))
            }
            Event::FootnoteReference(label) => out.push(format!("footnote {:?}", fold_ws(&label))),
            e => out.push(format!("{e:?}")),
        }
    }
    flush(&mut out, &mut text, breaks, in_code || in_meta);
    if !html.is_empty() {
        out.push(format!("html {:?}", ws(&html)));
    }
    // the parser makes paragraphs of the white space after definitions
    while let Some(i) = out.windows(2).position(|w| w == ["+Paragraph", "-Paragraph"]) {
        out.drain(i..i + 2);
    }
    out
}

/// Link reference definitions, as the parser knows them.
pub fn definitions(src: &str) -> BTreeMap<String, (String, Option<String>)> {
    let p = Parser::new_ext(src, markdown_fmt::pulldown_cmark_options!());
    p.reference_definitions()
        .iter()
        // the formatter escapes the `^` of a label, there and where it's used
        .map(|(l, d)| (fold_ws(&l.strip_prefix('\\').filter(|r| r.starts_with('^')).unwrap_or(l).to_lowercase()), (d.dest.to_string(), d.title.as_ref().map(|t| fold_ws(t)))))
        .collect()
}

/// First place where two meanings part.
pub fn first_difference(a: &[String], b: &[String]) -> Option<String> {
    let n = a.iter().zip(b).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
    if n == a.len() && n == b.len() {
        return None;
    }
    let ctx = |v: &[String]| v[n.saturating_sub(2)..(n + 3).min(v.len())].join(" | ");
    Some(format!("event {n}\n  input:  {}\n  output: {}", ctx(a), ctx(b)))
}

/// Is there anything in the input that is more than plain text in paragraphs?
pub fn has_construct(src: &str) -> bool {
    Parser::new_ext(src, markdown_fmt::pulldown_cmark_options!()).any(|e| {
        !matches!(e, Event::Start(Tag::Paragraph) | Event::End(TagEnd::Paragraph) | Event::Text(_) | Event::SoftBreak)
    })
}

/// Code blocks: how they are marked, and the code without white space at line ends that is not code.
pub fn code_blocks(src: &str) -> Vec<(String, String)> {
    let mut out = vec![];
    let mut cur: Option<(String, String)> = None;
    for e in Parser::new_ext(src, markdown_fmt::pulldown_cmark_options!()) {
        match e {
            Event::Start(Tag::CodeBlock(CodeBlockKind::Fenced(i))) => cur = Some((format!("fenced {}", ws(&i)), String::new())),
            Event::Start(Tag::CodeBlock(CodeBlockKind::Indented)) => cur = Some(("indented".into(), String::new())),
            Event::Text(s) => {
                if let Some((_, c)) = &mut cur {
                    c.push_str(&s);
                }
            }
            Event::End(TagEnd::CodeBlock) => {
                let (k, c) = cur.take().unwrap();
                let ls: Vec<&str> = c.lines().map(|l| if ws(&l).is_empty() { "" } else { l }).collect();
                out.push((k, ws_end(&ls.join("\n")).to_string()));
            }
            _ => {}
        }
    }
    out
}

/// The source ranges of the constructs that `want` picks.
pub fn ranges(src: &str, want: impl Fn(&Tag) -> bool) -> Vec<std::ops::Range<usize>> {
    Parser::new_ext(src, markdown_fmt::pulldown_cmark_options!())
        .into_offset_iter()
        .filter_map(|(e, r)| match e {
            Event::Start(t) if want(&t) => Some(r),
            _ => None,
        })
        .collect()
}

/// Is there a fenced code block that something other than its fence closes?
pub fn open_fence(src: &str) -> bool {
    ranges(src, |t| matches!(t, Tag::CodeBlock(CodeBlockKind::Fenced(_)))).into_iter().any(|r| {
        let code = &src[r.clone()];
        let mark = code.as_bytes()[0] as char;
        let opening = code.len() - code.trim_start_matches(mark).len();
        let last = code.trim_end().rsplit('\n').next().unwrap_or("").trim_start_matches([' ', '\t', '>']);
        let closed = code.trim_end().contains('\n') && last.len() >= opening && last.chars().all(|c| c == mark);
        !closed && !src[r.end..].trim().is_empty()
    })
}
