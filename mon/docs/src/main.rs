//! Monitor of the documentation preprocessor: the program is run on books and what it delivers
//! is compared with what was written.

use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

use mon_common::*;
use pulldown_cmark::{Options, Parser, html};
use serde_json::{Value, json};

/// Runs the preprocessor: exit status, standard output and error.
fn program(args: &[&str], input: &[u8]) -> (Option<i32>, Vec<u8>, String) {
    let exe = std::env::current_exe().unwrap().with_file_name("mdbook-tables");
    let mut c = Command::new(&exe).args(args).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().unwrap_or_else(|e| panic!("{}: {e}", exe.display()));
    let mut stdin = c.stdin.take().unwrap();
    let data = input.to_vec();
    let t = std::thread::spawn(move || {
        let _ = stdin.write_all(&data);
    });
    let mut stdout = c.stdout.take().unwrap();
    let mut stderr = c.stderr.take().unwrap();
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let mut v = Vec::new();
        let _ = stdout.read_to_end(&mut v);
        let _ = tx.send(v);
    });
    let e = std::thread::spawn(move || {
        let mut v = Vec::new();
        let _ = stderr.read_to_end(&mut v);
        v
    });
    // A program that does not end is ended, and has no exit status.
    let out = rx.recv_timeout(std::time::Duration::from_secs(150)).unwrap_or_else(|_| {
        let _ = c.kill();
        Vec::new()
    });
    let status = c.wait().unwrap();
    let _ = t.join();
    (status.code(), out, String::from_utf8_lossy(&e.join().unwrap_or_default()).to_string())
}

fn context() -> Value {
    json!({"root": "/book", "config": {"book": {"authors": [], "language": "en", "multilingual": false, "src": "src"}}, "renderer": "html", "mdbook_version": "0.4.52"})
}

fn render(markdown: &str, tables: bool) -> String {
    let mut o = Options::empty();
    if tables {
        o.insert(Options::ENABLE_TABLES);
    }
    let mut s = String::new();
    html::push_html(&mut s, Parser::new_ext(markdown, o));
    s
}

fn unescape(s: &str) -> String {
    s.replace("&lt;", "<").replace("&gt;", ">").replace("&quot;", "\"").replace("&#39;", "'").replace("&amp;", "&")
}

/// Tags and texts of HTML. White space is that of one space outside of code blocks, and what HTML
/// leaves to the reader (rows of a head, table bodies, ends of cells and rows) is left out.
fn tokens(html: &str) -> Vec<String> {
    let mut out: Vec<String> = Vec::new();
    let (mut pre, mut head, mut items) = (0, 0, 0);
    let mut text = String::new();
    let mut rest = html;
    loop {
        let at = rest.find('<');
        let tag = at.is_some_and(|i| rest[i + 1..].starts_with(|c: char| c.is_ascii_alphabetic() || c == '/') || rest[i..].starts_with("<!--"));
        if let (Some(i), false) = (at, tag) {
            text.push_str(&rest[..=i]);
            rest = &rest[i + 1..];
            continue;
        }
        text.push_str(&rest[..at.unwrap_or(rest.len())]);
        let t = unescape(&text);
        text.clear();
        if pre > 0 {
            if !t.is_empty() {
                out.push(format!("={t}"));
            }
        } else {
            let words = t.split([' ', '\n', '\t', '\r']).filter(|w| !w.is_empty()).collect::<Vec<_>>().join(" ");
            if !words.is_empty() {
                out.push(format!("={words}"));
            }
        }
        let Some(i) = at else { break };
        if rest[i..].starts_with("<!--") {
            let end = rest[i..].find("-->").map_or(rest.len(), |e| i + e + 3);
            out.push(rest[i..end].to_string());
            rest = &rest[end..];
            continue;
        }
        let end = rest[i..].find('>').map_or(rest.len(), |e| i + e + 1);
        let tag = rest[i..end].replace(" />", ">").replace("/>", ">");
        rest = &rest[end..];
        let name = tag.trim_matches(|c| "</>".contains(c)).split([' ', '>']).next().unwrap_or("").to_string();
        let close = tag.starts_with("</");
        let step = if close { -1 } else { 1 };
        match name.as_str() {
            "pre" => pre += step,
            "thead" => head += step,
            "li" | "blockquote" => items += step,
            _ => {}
        }
        match name.as_str() {
            "tbody" => continue,
            "tr" if head > 0 || close => continue,
            "td" | "th" if close => continue,
            "p" if items > 0 => continue,
            _ => {}
        }
        out.push(tag);
    }
    out
}

fn word(rng: &mut Rng) -> String {
    match rng.below(14) {
        0 => "caf\u{e9}".into(),
        1 => "\u{5b57}\u{7b26}".into(),
        2 => format!("0x{:02x}", rng.below(256)),
        3 => "R&D".into(),
        4 => "a&lt;b".into(),
        5 => "x > y".into(),
        6 => "it's".into(),
        7 => "\"quoted\"".into(),
        8 => format!("{}.{}", rng.below(10), rng.below(100)),
        _ => {
            let n = rng.usize(1, 9);
            (0..n).map(|_| (b'a' + rng.below(26) as u8) as char).collect()
        }
    }
}

fn words(rng: &mut Rng, most: usize) -> String {
    let n = rng.usize(1, most);
    (0..n).map(|_| word(rng)).collect::<Vec<_>>().join(" ")
}

/// Markdown of inline elements, on one line.
fn inline(rng: &mut Rng, cell: bool) -> String {
    let n = if rng.chance(1, 200) { rng.usize(10, 120) } else { rng.usize(1, 4) };
    let mut parts = Vec::new();
    for _ in 0..n {
        parts.push(match rng.below(22) {
            12 => format!("[{}](page.md \"{}\")", words(rng, 2), rng.pick(&["title", "a title"])),
            13 => format!("<https://example.org/{}?a=b&c=d>", rng.below(100)),
            14 => format!("\\*{}\\*", word(rng)),
            15 => format!("~~{}~~", word(rng)),
            16 => format!("[^{}]", rng.below(9)),
            17 => format!("${}$", word(rng)),
            18 => format!("_{}_", words(rng, 2)),
            19 => format!("***{}***", words(rng, 2)),
            20 => format!("**{} `{}`**", word(rng), word(rng).replace('"', "")),
            21 => rng.pick(&["...", "a -- b", "---x", "a_b_c", "2 * 3 * 4", "#5", "{#x}", "z <!-- no text -->", "[x]", "[x] y", "colspan=2", "`colspan=\"2\"`", "a  b", "`a  b`", "a\\\\b", "&copy;", "&#65;", "!", "@x:y"]).to_string(),
            0 => format!("*{}*", words(rng, 2)),
            1 => format!("**{}**", words(rng, 2)),
            2 => format!("`{}`", rng.pick(&["code", "a | b", "x < y", "R&D", "[1]", "*no*"])),
            3 => format!("[{}](page.md#{})", words(rng, 2), rng.below(100)),
            4 => format!("<a name=\"n{}\"></a>{}", rng.below(100), words(rng, 2)),
            5 if cell => format!("![{}](p{}.png)", words(rng, 2), rng.below(10)),
            6 if cell => format!("{} <br> {}", word(rng), word(rng)),
            7 => format!("{} | {}", word(rng), word(rng)),
            8 => format!("{}<sup>{}</sup>", word(rng), rng.below(10)),
            9 => format!("{} &nbsp; {}", word(rng), word(rng)),
            _ => words(rng, 4),
        });
    }
    parts.join(" ")
}

/// A table: its markdown and the tokens it is to give.
fn table(rng: &mut Rng, ctx_seen: &mut Vec<&'static str>) -> (String, Vec<String>) {
    let columns = if rng.chance(1, 40) { rng.usize(7, 40) } else { rng.usize(1, 6) };
    let rows = match rng.below(2000) {
        0 => rng.usize(1000, 3000),
        1..=200 => rng.usize(30, 120),
        _ => rng.usize(0, 9),
    };
    let style = rng.below(3);
    let write = |cells: &[String]| {
        let c: Vec<String> = cells.iter().map(|c| c.replace('|', "\\|")).collect();
        match style {
            0 => format!("| {} |\n", c.join(" | ")),
            1 => format!("| {}\n", c.join(" | ")),
            _ => format!("|{}|\n", c.join("|")),
        }
    };
    let mut md = String::new();
    let mut t: Vec<String> = vec!["<div class=\"table-wrapper\">".into(), "<table>".into(), "<thead>".into()];
    let cell_tokens = |c: &str| -> Vec<String> {
        tokens(&render(c, false)).into_iter().filter(|t| t != "<p>" && t != "</p>").collect()
    };
    if rng.chance(1, 8) {
        // a cell over all columns, the other cells of the row are empty
        let c = inline(rng, true);
        md.push_str(&format!("| <th colspan=\"{columns}\"> {}{}|\n", c.replace('|', "\\|"), " | ".repeat(columns - 1)));
        t.push(format!("<th colspan=\"{columns}\">"));
        t.extend(cell_tokens(&c));
        ctx_seen.push("header cells over all columns");
    } else {
        let head: Vec<String> = (0..columns).map(|_| inline(rng, true)).collect();
        md.push_str(&write(&head));
        for c in &head {
            t.push("<th>".into());
            t.extend(cell_tokens(c));
        }
    }
    t.push("</thead>".into());
    md.push_str(&write(&vec!["---".to_string(); columns]));
    for _ in 0..rows {
        t.push("<tr>".into());
        if rng.chance(1, 6) {
            // a cell over all columns
            let c = inline(rng, true);
            md.push_str(&format!("| <td colspan=\"{columns}\"> {}\n", c.replace('|', "\\|")));
            t.push(format!("<td colspan=\"{columns}\">"));
            t.extend(cell_tokens(&c));
            ctx_seen.push("cells over all columns");
            continue;
        }
        let mut cells: Vec<String> = (0..columns).map(|_| if rng.chance(1, 6) { String::new() } else { inline(rng, true) }).collect();
        if style == 1 && cells.last().is_some_and(|c| c.is_empty()) {
            *cells.last_mut().unwrap() = word(rng);
        }
        let mut written = cells.clone();
        if rng.chance(1, 8) && columns > 1 {
            let n = rng.usize(1, columns - 1);
            written.truncate(n);
            cells[n..].fill(String::new());
            if written[n - 1].is_empty() {
                written[n - 1] = "z".into();
                cells[n - 1] = "z".into();
            }
            ctx_seen.push("rows with fewer cells");
        } else if rng.chance(1, 12) {
            written.push(word(rng));
            ctx_seen.push("rows with more cells");
        }
        if columns == 1 && written[0].is_empty() {
            written[0] = "z".into();
            cells[0] = "z".into();
        }
        md.push_str(&write(&written));
        for c in &cells {
            t.push("<td>".into());
            t.extend(cell_tokens(c));
            if c.is_empty() {
                ctx_seen.push("empty cells");
            }
            if c.starts_with("<a name") {
                ctx_seen.push("cells that start with HTML");
            }
        }
    }
    t.push("</table>".into());
    t.push("</div>".into());
    ctx_seen.push("tables");
    (md, t)
}

fn indent(md: &str, first: &str, other: &str) -> String {
    md.lines().enumerate().map(|(i, l)| if i == 0 { format!("{first}{l}\n") } else if l.is_empty() && other.trim().is_empty() { "\n".into() } else { format!("{other}{l}\n") }).collect()
}

/// A chapter: its markdown and the tokens it is to give.
fn chapter(rng: &mut Rng, seen: &mut Vec<&'static str>) -> (String, Vec<String>) {
    let mut md = String::new();
    let mut t = Vec::new();
    let n = if rng.chance(1, 50) { rng.usize(30, 90) } else { rng.usize(0, 9) };
    let mut last_list = false;
    for _ in 0..n {
        let mut list = false;
        let plain = match rng.below(27) {
            16 if !last_list => {
                list = true;
                let from = rng.usize(1, 20);
                (0..rng.usize(1, 12)).map(|i| format!("{}. {}\n", from + i, words(rng, 4))).collect()
            }
            17 if !last_list => {
                list = true;
                (0..rng.usize(1, 4)).map(|_| format!("* {}\n  * {}\n  * {}\n", words(rng, 4), words(rng, 2), inline(rng, false))).collect()
            }
            18 => format!("{}\n{}\n", words(rng, 4), rng.pick(&["===", "---"])),
            19 => format!("{}  \n{}\\\n{}\n", words(rng, 4), words(rng, 2), word(rng)),
            20 => format!("<!-- {}\n\n{} -->\n", words(rng, 4), words(rng, 4)),
            21 if !last_list => {
                list = true;
                format!("    {}\n    | a | b |\n", words(rng, 4))
            }
            22 => format!("[{}][r{}]\n\n[r{}]: page.md#{}\n", words(rng, 2), md.len(), md.len(), rng.below(100)),
            23 => format!("![{}](p{}.png)\n", words(rng, 2), rng.below(10)),
            24 => format!("~~~{}\n{}\n```\n~~~\n", rng.pick(&["", "text"]), words(rng, 4)),
            25 => format!("> # {}\n>\n> - {}\n> - {}\n", words(rng, 4), words(rng, 2), words(rng, 2)),
            26 => format!("<table>\n<tr><td>{}</td></tr>\n</table>\n", words(rng, 4)),
            0..=5 => {
                let (m, e) = table(rng, seen);
                md.push_str(&m);
                md.push('\n');
                t.extend(e);
                last_list = false;
                continue;
            }
            6 if !last_list => {
                let (m, e) = table(rng, seen);
                let text = words(rng, 3);
                md.push_str(&indent(&format!("{text}\n\n{m}"), "- ", "  "));
                md.push('\n');
                t.extend(["<ul>".to_string(), "<li>".into()]);
                t.extend(tokens(&render(&text, false)).into_iter().filter(|t| t != "<p>" && t != "</p>"));
                t.extend(e);
                t.extend(["</li>".to_string(), "</ul>".into()]);
                seen.push("tables in list items");
                last_list = true;
                continue;
            }
            7 => format!("{} {}\n", "#".repeat(rng.usize(1, 6)), inline(rng, false)),
            8 => {
                let lines = rng.usize(0, 5);
                let mut s = format!("```{}\n", rng.pick(&["", "rust", "bash"]));
                for _ in 0..lines {
                    s.push_str(rng.pick(&["let x = 1;\n", "| a | b |\n", "| --- | --- |\n", "<table>\n", "  indented\n", "\n", "# no heading\n"]));
                }
                s.push_str("```\n");
                s
            }
            9 if !last_list => {
                list = true;
                (0..rng.usize(1, 4)).map(|_| format!("- {}\n", words(rng, 4))).collect()
            }
            10 => (0..rng.usize(1, 3)).map(|_| format!("> {}\n", words(rng, 4))).collect(),
            11 => format!("<div class=\"note\">{}</div>\n", rng.below(100)),
            12 => "***\n".to_string(),
            _ => (0..rng.usize(1, 3)).map(|_| format!("{}\n", inline(rng, false))).collect(),
        };
        t.extend(tokens(&render(&plain, false)));
        md.push_str(&plain);
        md.push('\n');
        last_list = list;
    }
    (md, t)
}

type Expected = Vec<(String, Option<Vec<String>>, String)>;

fn items(rng: &mut Rng, depth: usize, number: &[u32], expected: &mut Expected, seen: &mut Vec<&'static str>) -> Vec<Value> {
    let n = rng.usize(1, if depth == 0 { 5 } else { 3 });
    let mut out = Vec::new();
    for i in 0..n {
        match rng.below(12) {
            0 => out.push(json!("Separator")),
            1 => out.push(json!({"PartTitle": words(rng, 3)})),
            _ => {
                let mut own = number.to_vec();
                own.push(i as u32 + 1);
                let name = format!("{} {:?}", words(rng, 2), own);
                let draft = rng.chance(1, 8);
                let (md, t) = chapter(rng, seen);
                expected.push((name.clone(), if draft { None } else { Some(t) }, md.clone()));
                if draft {
                    seen.push("draft chapters");
                }
                let sub = if depth < 6 && rng.chance(1, 3) { items(rng, depth + 1, &own, expected, seen) } else { Vec::new() };
                if !sub.is_empty() {
                    seen.push("chapters with sub chapters");
                }
                let path = if draft { Value::Null } else { json!(format!("p{}.md", rng.below(100))) };
                out.push(json!({"Chapter": {
                    "name": name, "content": md, "number": if rng.chance(1, 5) { Value::Null } else { json!(own) },
                    "sub_items": sub, "path": path, "source_path": path, "parent_names": (0..depth).map(|d| format!("parent {d}")).collect::<Vec<_>>(),
                }}));
            }
        }
    }
    out
}

/// Takes the contents out of a book.
fn contents(v: &mut Value, out: &mut Vec<String>) {
    if let Some(a) = v.as_array_mut() {
        for i in a {
            if let Some(c) = i.get_mut("Chapter") {
                out.push(c["content"].as_str().unwrap_or("no text").to_string());
                c["content"] = Value::Null;
                contents(&mut c["sub_items"], out);
            }
        }
    }
}

fn compare(ctx: &mut Ctx, name: &str, md: &str, content: &str, expected: &[String]) -> CaseResult {
    let got = tokens(&render(content, true));
    if got != expected {
        let i = got.iter().zip(expected).position(|(a, b)| a != b).unwrap_or(got.len().min(expected.len()));
        let near = |v: &[String]| v[i.saturating_sub(3).min(v.len())..(i + 4).min(v.len())].join(" ");
        ctx.detail(format!("chapter:\n{md}\nwas turned into:\n{content}"));
        fail!("docs:content", "chapter {name:?} shows {:?} where {:?} was written", near(&got), near(expected));
    }
    Ok(())
}

fn book(ctx: &mut Ctx) -> CaseResult {
    let mut expected = Vec::new();
    let mut seen = Vec::new();
    let sections = items(&mut ctx.rng, 0, &[], &mut expected, &mut seen);
    let mut before = json!({"sections": sections, "__non_exhaustive": null});
    let input = serde_json::to_vec(&json!([context(), before])).unwrap();
    ctx.distinct(&input);
    let (status, out, error) = program(&[], &input);
    require_eq!(status, Some(0), "docs:exit", "exit status for a valid book, standard error {error:?}");
    require!(error.is_empty(), "docs:error", "error output for a valid book: {error:?}");
    let mut after: Value = match serde_json::from_slice(&out) {
        Ok(v) => v,
        Err(e) => fail!("docs:json", "the output is not JSON: {e}: {}", String::from_utf8_lossy(&out).chars().take(200).collect::<String>()),
    };
    let (mut a, mut b) = (Vec::new(), Vec::new());
    contents(&mut before["sections"], &mut b);
    contents(&mut after["sections"], &mut a);
    require_eq!(after, before, "docs:book", "the book apart from the contents");
    for ((name, t, md), content) in expected.iter().zip(&a) {
        match t {
            Some(t) => compare(ctx, name, md, content, t)?,
            None => require_eq!(content, md, "docs:draft", "content of a draft chapter"),
        }
        ctx.count("chapters");
    }
    for s in seen {
        ctx.count(s);
    }
    ctx.sample(|| format!("a book of {} chapters, the first {:?}", expected.len(), expected.first().map(|e| &e.2)));
    Ok(())
}

/// What a page of the documentation is to show, from the tokens of its tables as such.
fn page_tokens(md: &str) -> Vec<String> {
    let all = tokens(&render(md, true));
    let mut out: Vec<String> = Vec::new();
    let mut i = 0;
    while i < all.len() {
        match all[i].as_str() {
            "<table>" => {
                out.push("<div class=\"table-wrapper\">".into());
                out.push("<table>".into());
            }
            "</table>" => {
                out.push("</table>".into());
                out.push("</div>".into());
            }
            "<td>" if all.get(i + 1).is_some_and(|t| t.contains("colspan=")) => {
                i += 1;
                out.push(all[i].clone());
                while all.get(i + 1).is_some_and(|t| t != "<tr>" && t != "</table>") {
                    i += 1;
                    if all[i] != "<td>" {
                        out.push(all[i].clone());
                    }
                }
            }
            t if t.starts_with("<th style") || t.starts_with("<td style") => out.push(format!("{}>", &t[..3])),
            _ => out.push(all[i].clone()),
        }
        i += 1;
    }
    out
}

fn pages() -> Vec<PathBuf> {
    let mut v: Vec<PathBuf> = std::fs::read_dir("/repo/docs/formats/src").map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().is_some_and(|e| e == "md")).collect()).unwrap_or_default();
    v.sort();
    v
}

fn page(ctx: &mut Ctx) -> CaseResult {
    let all = pages();
    let Some(p): Option<&Path> = all.get(ctx.index as usize).map(|p| p.as_path()) else {
        return Ok(());
    };
    let md = match std::fs::read_to_string(p) {
        Ok(s) => s,
        Err(_) => return Ok(()),
    };
    ctx.detail(p.display().to_string());
    let path = json!("page.md");
    let sections = json!([{"Chapter": {"name": "page", "content": md, "number": null, "sub_items": [], "path": path, "source_path": path, "parent_names": []}}]);
    let input = serde_json::to_vec(&json!([context(), {"sections": sections, "__non_exhaustive": null}])).unwrap();
    let (status, out, error) = program(&[], &input);
    require_eq!(status, Some(0), "docs:exit", "exit status for {}: {error:?}", p.display());
    let mut after: Value = match serde_json::from_slice(&out) {
        Ok(v) => v,
        Err(e) => fail!("docs:json", "the output is not JSON: {e}"),
    };
    let mut a = Vec::new();
    contents(&mut after["sections"], &mut a);
    require_eq!(a.len(), 1, "docs:book", "number of chapters");
    compare(ctx, &p.display().to_string(), "(the page)", &a[0], &page_tokens(&md))?;
    ctx.distinct(md.as_bytes());
    ctx.count("pages of the documentation");
    Ok(())
}

fn command(ctx: &mut Ctx) -> CaseResult {
    let (status, out, _) = program(&["supports", *ctx.rng.pick(&["html", "markdown", "epub", "x"])], b"");
    require_eq!(status, Some(0), "docs:supports", "exit status of supports");
    require!(out.is_empty(), "docs:supports", "output of supports");
    let mut input = serde_json::to_vec(&json!([context(), {"sections": [{"PartTitle": words(&mut ctx.rng, 4)}], "__non_exhaustive": null}])).unwrap();
    let what = match ctx.rng.below(3) {
        0 => {
            let n = ctx.rng.usize(0, input.len() - 1);
            input.truncate(n);
            "truncated input"
        }
        1 => {
            input = b"[1, 2]".to_vec();
            "other JSON"
        }
        _ => {
            let i = ctx.rng.usize(0, input.len() - 1);
            input.insert(i, 0xff);
            "input that is not UTF-8"
        }
    };
    let (status, out, error) = program(&[], &input);
    require!(status.is_some_and(|s| s != 0), "docs:refusal", "exit status {status:?} for {what}");
    require_eq!(status, Some(1), "docs:refusal", "exit status for {what}, standard error {error:?}");
    require!(out.is_empty(), "docs:refusal", "output for {what}");
    let (status, out, _) = program(&["other"], b"");
    require!(status.is_some_and(|s| s != 0) && out.is_empty(), "docs:argument", "exit status {status:?} for another argument");
    ctx.count("refused inputs");
    ctx.distinct(&input);
    Ok(())
}

fn main() {
    main_with(vec![Property {
        id: "C37",
        level: "exploration",
        assumptions: &["the Markdown renderer the preprocessor uses as well renders text outside of tables as it should"],
        rule: "every book the preprocessor is given comes out with the same structure and, rendered, the same text, tables included",
        case_cpu_limit: 60,
        must_observe: &["tables", "cells over all columns", "cells that start with HTML", "rows with fewer cells", "empty cells", "draft chapters", "chapters with sub chapters", "refused inputs"],
        sections: vec![
            Section { name: "book", quick: 3000, thorough: 60000, run: book },
            Section { name: "page", quick: 60, thorough: 60, run: page },
            Section { name: "command", quick: 100, thorough: 2000, run: command },
        ],
    }]);
}
