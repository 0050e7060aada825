//! The command line tool: sequences of invocations over a scratch directory against a model.

use crate::engine::*;
use crate::gen::many;
use crate::gens::*;
use crate::soup;
use crate::tape::Tape;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

fn bytes_of(v: &Value) -> Vec<u8> {
    match v {
        Value::String(s) => s.clone().into_bytes(),
        v => v.as_array().unwrap().iter().map(|b| b.as_u64().unwrap() as u8).collect(),
    }
}

const NAMES: [&str; 6] = ["a.md", "b c.md", "ünï.md", "plain", "sub/d.markdown", "e.txt"];

fn content(t: &mut Tape) -> Value {
    match t.below(9) {
        0 => json!(""),
        1 => {
            let mut b = b"# a  \n\n".to_vec();
            b.extend(many(t, 1, 4, |t, _| *t.pick(&[0xffu8, 0xc3, 0x80, b'a', b'\n', 0xe2, 0x28])));
            // certainly no UTF-8
            b.push(0xff);
            json!(b)
        }
        2 => json!(docs::<FULL, ALL>(t).input.replace('\n', "\r\n")),
        3 => json!(soup::tame_lines(t, 5)),
        4 => json!(format!("\u{feff}{}", docs::<FULL, ALL>(t).input)),
        _ => json!(docs::<FULL, ALL>(t).input),
    }
}

pub fn sessions(t: &mut Tape) -> Case {
    let mut files = serde_json::Map::new();
    for name in NAMES {
        if t.chance(2, 3) {
            files.insert(name.to_string(), content(t));
        }
    }
    let ops = many(t, 1, 6, |t, _| {
        let mut parts: Vec<Vec<String>> = vec![];
        let s = |v: &[&str]| v.iter().map(|s| s.to_string()).collect::<Vec<_>>();
        let stdout = t.chance(1, 3);
        if stdout {
            parts.push(s(&["--stdout"]));
        }
        let mut width = None;
        if t.chance(1, 2) {
            let w = pick_width(t);
            width = Some(w);
            let w = w.to_string();
            parts.push(match t.below(4) {
                0 => s(&["-m", &w]),
                1 => vec![format!("-m{w}")],
                2 => s(&["--max-width", &w]),
                _ => vec![format!("--max-width={w}")],
            });
        }
        let reflow = t.chance(1, 3);
        if reflow {
            parts.push(s(&[if t.chance(1, 2) { "-r" } else { "--reflow-text" }]));
        }
        let mut bad = false;
        if t.chance(1, 8) {
            bad = true;
            let p: &[&str] = match t.below(5) {
                0 => &["-m", "wide"],
                1 => &["--max-width=-1"],
                2 => &["--no-such-flag"],
                3 => &["--max-width", "1.5"],
                _ => &["-m", ""],
            };
            // a second width would be an error of its own
            parts.retain(|p| !p[0].starts_with("-m") && !p[0].starts_with("--max"));
            parts.push(s(p));
        }
        let target = match t.below(12) {
            0 => "sub".to_string(),
            1 => "missing.md".to_string(),
            2 => "link.md".to_string(),
            3 => "nowhere/x.md".to_string(),
            _ => t.pick(&NAMES).to_string(),
        };
        parts.push(vec![format!("@{target}")]);
        // any order
        for i in (1..parts.len()).rev() {
            let j = t.below(i as u32 + 1) as usize;
            parts.swap(i, j);
        }
        let no_input = t.chance(1, 20);
        if no_input {
            parts.retain(|p| !p[0].starts_with('@'));
        }
        let absolute = t.chance(1, 2);
        json!({"args": parts.concat(), "target": target, "absolute": absolute, "stdout": stdout, "width": width, "reflow": reflow, "bad": bad || no_input})
    });
    Case { aux: json!({"files": files, "ops": ops}), ..Default::default() }
}

static SCRATCH: AtomicU64 = AtomicU64::new(0);

struct Scratch(PathBuf);
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn listing(dir: &Path, prefix: &str, out: &mut BTreeMap<String, Vec<u8>>) {
    let mut entries: Vec<_> = std::fs::read_dir(dir).unwrap().flatten().collect();
    entries.sort_by_key(|e| e.file_name());
    for e in entries {
        let name = format!("{prefix}{}", e.file_name().to_string_lossy());
        let ft = e.file_type().unwrap();
        if ft.is_symlink() {
            out.insert(name, format!("-> {}", std::fs::read_link(e.path()).unwrap().display()).into_bytes());
        } else if ft.is_dir() {
            listing(&e.path(), &format!("{name}/"), out);
        } else {
            out.insert(name, std::fs::read(e.path()).unwrap());
        }
    }
}

/// Every invocation does what the model says: formats the one file or prints, or fails and changes nothing.
pub fn session(c: &Case) -> Verdict {
    let bin = std::env::var("MDFMT_BIN").expect("MDFMT_BIN names the command line tool");
    let base = verif_dir().join("target").join("scratch");
    let dir = base.join(format!("{}-{}", std::process::id(), SCRATCH.fetch_add(1, Ordering::Relaxed)));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(dir.join("sub")).unwrap();
    let scratch = Scratch(dir);
    let dir = &scratch.0;
    let mut model: BTreeMap<String, Vec<u8>> = BTreeMap::new();
    for (n, v) in c.aux["files"].as_object().unwrap() {
        model.insert(n.clone(), bytes_of(v));
        std::fs::write(dir.join(n), bytes_of(v)).unwrap();
    }
    std::os::unix::fs::symlink("a.md", dir.join("link.md")).unwrap();
    model.insert("link.md".into(), b"-> a.md".to_vec());
    let mut changed = false;
    for (n, op) in c.aux["ops"].as_array().unwrap().iter().enumerate() {
        let target = op["target"].as_str().unwrap();
        let absolute = op["absolute"].as_bool().unwrap();
        let args: Vec<String> = op["args"]
            .as_array()
            .unwrap()
            .iter()
            .map(|a| a.as_str().unwrap())
            .map(|a| match a.strip_prefix('@') {
                Some(f) if absolute => dir.join(f).display().to_string(),
                Some(f) => f.to_string(),
                None => a.to_string(),
            })
            .collect();
        let real = if target == "link.md" { "a.md" } else { target };
        let source = if op["bad"].as_bool().unwrap() { None } else { model.get(real).and_then(|b| String::from_utf8(b.clone()).ok()) };
        let expect = source.map(|s| {
            crate::checks::format_with(&s, op["width"].as_u64().map(|w| w as usize), op["reflow"].as_bool().unwrap())
        });
        let out = Command::new(&bin)
            .args(&args)
            .current_dir(dir)
            .env_remove("MARKDOWN_FMT_LOG")
            .stdin(Stdio::null())
            .output()
            .expect("the command line tool runs");
        let what = format!("invocation {n} {args:?}");
        let stdout = String::from_utf8_lossy(&out.stdout).to_string();
        let stderr = String::from_utf8_lossy(&out.stderr).to_string();
        match &expect {
            Some(formatted) => {
                if !out.status.success() {
                    return Verdict::Fail(format!("tool fails: {what} exits with {:?}: {stderr}", out.status.code()));
                }
                if op["stdout"].as_bool().unwrap() {
                    if stdout != *formatted {
                        return Verdict::Fail(format!("wrong on stdout: {what} prints\n{stdout}\n--- expected\n{formatted}"));
                    }
                } else {
                    if !stdout.is_empty() {
                        return Verdict::Fail(format!("noise on stdout: {what} prints {stdout:?}"));
                    }
                    changed |= model[real] != formatted.as_bytes();
                    model.insert(real.to_string(), formatted.clone().into_bytes());
                }
            }
            None => {
                if out.status.success() {
                    return Verdict::Fail(format!("error not reported: {what} exits with 0, prints {stdout:?}"));
                }
                if out.status.code().is_none_or(|c| c == 101) {
                    return Verdict::Fail(format!("tool crashes: {what}: {stderr}"));
                }
                if stderr.trim().is_empty() || !stdout.is_empty() {
                    return Verdict::Fail(format!("error not explained: {what} prints {stdout:?} and, as an error, {stderr:?}"));
                }
            }
        }
        let mut now = BTreeMap::new();
        listing(dir, "", &mut now);
        if now != model {
            let show = |m: &BTreeMap<String, Vec<u8>>| {
                m.iter().map(|(k, v)| format!("{k}: {:?}", String::from_utf8_lossy(v))).collect::<Vec<_>>().join("\n")
            };
            return Verdict::Fail(format!("files differ: after {what}\n{}\n--- expected\n{}", show(&now), show(&model)));
        }
    }
    ok(changed)
}
