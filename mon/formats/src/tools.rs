//! The command line tools: they are run on files with known content and what they print and
//! write is compared with it.

use std::fs;
use std::io::Write;
use std::os::unix::fs::PermissionsExt;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

use keramics_core::DataStreamReference;
use keramics_datetime::DateTime;
use keramics_formats::gpt::GptVolumeSystem;
use keramics_encodings::CharacterEncoding;
use keramics_types::{ByteString, Ucs2String};
use keramics_vfs::*;
use mon_common::digests::reference;
use mon_common::*;

use crate::media::*;
use crate::vfs::*;
use crate::{ewf, ext, fat, ntfs, qcow, sparse, udif, vhd, vhdx, volume};

struct Out {
    status: String,
    text: String,
}

/// Runs a tool without the rights to change anything outside of the scratch directory.
fn run(dir: &Scratch, tool: &str, args: &[&str], input: Option<&[u8]>) -> Result<Out, Violation> {
    let at = std::env::var("KERAMICS_TOOLS").expect("KERAMICS_TOOLS");
    let (o, e) = (dir.0.join("stdout.txt"), dir.0.join("stderr.txt"));
    let mut c = Command::new(format!("{at}/keramics{tool}"));
    c.args(args).current_dir(&dir.0).env_clear().uid(65534).gid(65534);
    unsafe {
        c.pre_exec(|| {
            limit_cpu(60);
            Ok(())
        });
    }
    c.stdin(if input.is_some() { Stdio::piped() } else { Stdio::null() });
    c.stdout(fs::File::create(&o).expect("scratch file")).stderr(fs::File::create(&e).expect("scratch file"));
    let mut p = c.spawn().expect("tool");
    if let (Some(data), Some(mut i)) = (input, p.stdin.take()) {
        let _ = i.write_all(data);
    }
    let started = Instant::now();
    let status = loop {
        match p.try_wait().expect("tool") {
            Some(s) => break s,
            None if started.elapsed() > Duration::from_secs(200) => {
                let _ = p.kill();
                let _ = p.wait();
                fail!("tools:hang", "{tool} {args:?} did not end within 200 s");
            }
            None => std::thread::sleep(Duration::from_micros(300)),
        }
    };
    let text = String::from_utf8_lossy(&fs::read(&o).unwrap_or_default()).into_owned();
    let wrong = String::from_utf8_lossy(&fs::read(&e).unwrap_or_default()).into_owned();
    if matches!(status.signal(), Some(9 | 24)) {
        fail!("tools:hang", "{tool} {args:?} did not end within 60 s of CPU time: {}", short(&text));
    }
    if let Some(s) = status.signal() {
        fail!(&format!("tools:{tool} killed"), "{tool} {args:?}: signal {s}: {}", short(&wrong));
    }
    if status.code() == Some(101) || wrong.contains("panicked at") {
        let place = wrong.split("panicked at ").nth(1).and_then(|s| s.lines().next()).unwrap_or("?");
        let what = wrong.lines().skip_while(|l| !l.contains("panicked at")).nth(1).unwrap_or("");
        let file = place.split(':').next().unwrap_or("?").rsplit("keramics-").next().unwrap_or("?");
        fail!(&format!("tools:panic:{file}:{what}"), "{tool} {args:?}: panicked at {place} {what}");
    }
    Ok(Out { status: format!("{:?}", status.code()), text })
}

/// A tool that has to succeed.
fn good(dir: &Scratch, tag: &str, what: &str, tool: &str, args: &[&str], input: Option<&[u8]>) -> Result<String, Violation> {
    let o = run(dir, tool, args, input)?;
    require!(o.status == "Some(0)", &format!("tools:{tag}"), "{what}: {tool} {args:?}: exit status {}: {}", o.status, short(&o.text));
    Ok(o.text)
}

fn hex_of(d: &[u8]) -> String {
    d.iter().map(|b| format!("{b:02x}")).collect()
}

/// A name as the tools show it.
fn escaped(name: &VfsString, bar: bool) -> String {
    let one = |c: char| match c as u32 {
        n @ (0..=0x1f | 0x7f..=0x9f) => format!("\\x{n:02x}"),
        n @ (0x2028 | 0x2029 | 0xe000 | 0xf8ff | 0xf0000 | 0xffffd | 0x100000 | 0x10fffd | 0xfdd0..=0xfddf) => format!("\\U{n:08x}"),
        n if n & 0xfffe == 0xfffe => format!("\\U{n:08x}"),
        0x2f | 0x3a | 0x5c => format!("\\{c}"),
        0x7c if bar => "\\|".to_string(),
        _ => c.to_string(),
    };
    match name {
        VfsString::Byte(b) => b.get_character_decoder().map(|c| match c.map(char::from_u32) {
            Ok(Some(c)) => one(c),
            Ok(None) => "?".into(),
            Err(_) => "\u{fffd}".into(),
        }).collect(),
        VfsString::Ucs2(u) => u.elements.iter().map(|e| match char::from_u32(*e as u32) {
            Some(c) => one(c),
            None => format!("\\U{e:08x}"),
        }).collect(),
        VfsString::String(s) => s.chars().map(one).collect(),
        _ => String::new(),
    }
}

fn shown_path(path: &[VfsString], bar: bool) -> String {
    if path.len() == 1 { "/".into() } else { path.iter().map(|p| escaped(p, bar)).collect::<Vec<_>>().join("/") }
}

/// Whether the names are text whatever the encoding.
fn plain(path: &[VfsString]) -> Option<String> {
    let mut v = Vec::new();
    for p in path {
        v.push(match p {
            VfsString::Byte(b) if b.elements.iter().all(|c| (0x20..0x7f).contains(c)) => String::from_utf8_lossy(&b.elements).into_owned(),
            VfsString::Ucs2(u) if u.elements.iter().all(|c| char::from_u32(*c as u32).is_some_and(|c| c as u32 > 0x1f)) => String::from_utf16_lossy(&u.elements),
            VfsString::Empty => String::new(),
            _ => return None,
        });
    }
    Some(if v.len() == 1 { "/".into() } else { v.join("/") })
}

fn all(s: &DataStreamReference) -> Result<Vec<u8>, ()> {
    let n = s.write().unwrap().get_size().map_err(|_| ())?;
    piece(s, 0, n as usize)
}

fn time(t: Option<&DateTime>) -> Option<String> {
    // seconds and a fraction of them that is never negative, as a decimal number
    let number = |v: i128, digits: u32| {
        let unit = 10i128.pow(digits);
        format!("{}{}.{:0w$}", if v < 0 { "-" } else { "" }, v.abs() / unit, v.abs() % unit, w = digits as usize)
    };
    Some(match t {
        None | Some(DateTime::NotSet) => String::new(),
        Some(DateTime::Filetime(f)) => number(f.timestamp as i128 - 116_444_736_000_000_000, 7),
        Some(DateTime::PosixTime32(p)) => p.timestamp.to_string(),
        Some(DateTime::PosixTime64Ns(p)) => number(p.timestamp as i128 * 1_000_000_000 + p.fraction as i128, 9),
        Some(DateTime::FatDate(d)) => fat_time(d.date, 0).map_or(String::new(), |n| n.to_string()),
        Some(DateTime::FatTimeDate(d)) => fat_time(d.date, d.time).map_or(String::new(), |n| n.to_string()),
        Some(DateTime::FatTimeDate10Ms(d)) => fat_time(d.date, d.time).map_or(String::new(), |n| number(n as i128 * 100 + d.fraction as i128, 2)),
        _ => return None,
    })
}

/// The seconds from 1970 to a FAT time, taken as universal time: the days are counted.
fn fat_time(date: u16, time: u16) -> Option<i64> {
    let (year, month, day) = (1980 + (date >> 9) as i64, (date >> 5 & 15) as i64, (date & 31) as i64);
    let (h, m, s) = ((time >> 11) as i64, (time >> 5 & 63) as i64, (time & 31) as i64 * 2);
    let leap = |y: i64| y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);
    let length = |y: i64, m: i64| match m {
        2 => 28 + leap(y) as i64,
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    };
    if !(1..=12).contains(&month) || day < 1 || day > length(year, month) || h > 23 || m > 59 || s > 59 {
        return None;
    }
    let days = (1970..year).map(|y| 365 + leap(y) as i64).sum::<i64>() + (1..month).map(|m| length(year, m)).sum::<i64>() + day - 1;
    Some(((days * 24 + h) * 60 + m) * 60 + s)
}

fn rights(mode: u16) -> String {
    let mut s = String::from(match mode >> 12 {
        1 => "p",
        2 => "c",
        4 => "d",
        6 => "b",
        10 => "l",
        12 => "s",
        _ => "-",
    });
    for k in (0..9).rev() {
        s.push(if mode >> k & 1 == 1 { ['x', 'w', 'r'][k % 3] } else { '-' });
    }
    s
}

fn mode_of(w: &Item) -> String {
    match (w.more.mode, w.more.flags) {
        (Some(m), _) => rights(m),
        (_, Some(f)) => {
            let t = match w.kind.as_str() {
                "directory" => "d",
                "symbolic link" => "l",
                _ => "-",
            };
            format!("{t}{}", if f & 5 != 0 { "r-xr-xr-x" } else { "rwxrwxrwx" })
        }
        _ => String::new(),
    }
}

fn lines(s: &str) -> Vec<String> {
    let mut v: Vec<String> = s.split('\n').map(|l| l.to_string()).collect();
    v.sort();
    v
}

/// The lines are the expected ones, as often as expected.
fn same_lines(tag: &str, what: &str, got: &str, want: &str) -> CaseResult {
    let (g, w) = (lines(got), lines(want));
    if g != w {
        let only = |a: &Vec<String>, b: &Vec<String>| {
            let mut b = b.clone();
            a.iter().filter(|l| match b.iter().position(|x| x == *l) {
                Some(k) => {
                    b.swap_remove(k);
                    false
                }
                None => true,
            }).take(3).cloned().collect::<Vec<_>>()
        };
        fail!(&format!("tools:{tag}"), "{what}: {} lines, expected {}; observed only {:?}; expected only {:?}", g.len(), w.len(), only(&g, &w), only(&w, &g));
    }
    Ok(())
}

/// The identifiers of the partitions of a GPT.
fn identifiers(disk: &Media) -> Vec<String> {
    let mut v = GptVolumeSystem::new();
    let mut out = Vec::new();
    if v.read_data_stream(&sparse_stream(disk)).is_ok() {
        for i in 0..v.get_number_of_partitions() {
            out.push(v.get_partition_by_index(i).map(|p| p.identifier.to_string()).unwrap_or_default());
        }
    }
    out
}

struct Listed {
    prefix: [String; 2],
    kind: &'static str,
    items: Vec<Item>,
}

/// The file systems of a stack; None when one of them is not for the formats monitors.
fn listed(s: &Stack) -> Option<Vec<Listed>> {
    let mut out = Vec::new();
    let ids = if s.volumes == "GPT" { identifiers(&s.disk) } else { Vec::new() };
    let disks: Vec<(&Media, [String; 2])> = if s.volumes.is_empty() {
        vec![(&s.disk, Default::default())]
    } else {
        s.partitions.iter().enumerate().map(|(i, p)| (p, [format!("/p{}", i + 1), ids.get(i).map_or(format!("/p{}", i + 1), |u| format!("/gpt{{{u}}}"))])).collect()
    };
    for (m, prefix) in disks {
        for kind in file_system_of(m) {
            out.push(Listed { prefix, kind, items: direct(kind, m).ok()? });
            break;
        }
    }
    Some(out)
}

fn hierarchy(n: &Node, depth: usize, ids: &[String], out: &mut String) {
    let alias = match n.path.strip_prefix("/gpt").and_then(|k| k.parse::<usize>().ok()) {
        Some(k) if n.kind == "GPT" => ids.get(k - 1).map_or(String::new(), |u| format!(" (alias: /gpt{{{u}}})")),
        _ => String::new(),
    };
    out.push_str(&format!("{}{}: path: {}{alias}\n", " ".repeat(depth * 4), n.kind, n.path));
    for s in &n.subs {
        hierarchy(s, depth + 1, ids, out);
    }
}

const DIGESTS: [&str; 5] = ["md5", "sha1", "sha224", "sha256", "sha512"];

/// File systems in partitions in images.
pub fn stacks(ctx: &mut Ctx) -> CaseResult {
    let Some(s) = stack(ctx, 1 << 40) else {
        return Ok(());
    };
    let what = s.describe.clone();
    let Some(tree) = &s.tree else {
        ctx.count("disks that are not clear");
        return Ok(());
    };
    let Some(all_items) = listed(&s) else {
        ctx.count("disks that are not for the formats monitors");
        return Ok(());
    };
    let source = s.dir.path(&s.top);
    ctx.distinct_hash(s.files.values().fold(0, |h, m| h.rotate_left(3) ^ m.hash()));
    ctx.sample(|| what.clone());
    let ids = if s.volumes == "GPT" { identifiers(&s.disk) } else { Vec::new() };

    // the hierarchy of layers
    let mut want = String::new();
    hierarchy(&Node { kind: "OS".into(), path: source.clone(), subs: tree.iter().map(copy).collect() }, 0, &ids, &mut want);
    let command: &[&str] = if ctx.rng.chance(1, 2) { &[&source] } else { &[&source, "hierarchy"] };
    let got = good(&s.dir, "image hierarchy", &what, "image", command, None)?;
    require!(got == want, "tools:image hierarchy", "{what}: observed {got:?}, expected {want:?}");
    ctx.count("hierarchies of layers");

    let empty = tree.is_empty();
    if empty {
        // no layer: the file is one stream
        if s.disk.size < 1 << 25 {
            let k = ctx.rng.usize(0, 4);
            let got = good(&s.dir, "hash of a file", &what, "hash", &["-d", DIGESTS[k], &source], None)?;
            let want = format!("{}  {source}\n", hex_of(&reference(k, &s.files[&s.top].bytes())));
            require!(got == want, "tools:hash of a file", "{what}: observed {got:?}, expected {want:?}");
            ctx.count("digests of files without a known format");
        }
        return Ok(());
    }
    let total: u64 = all_items.iter().flat_map(|l| l.items.iter()).flat_map(|i| i.forks.iter().map(|f| &f.1).chain(i.more.main.iter())).map(|f| f.write().unwrap().get_size().unwrap_or(0)).fold(0, |a, b| a.saturating_add(b));
    let small = total < 12_000_000;
    let by = ctx.rng.usize(0, 1);

    if small {
        // digests of all data
        let k = ctx.rng.usize(0, 4);
        let mut want = String::new();
        for l in &all_items {
            for i in &l.items {
                for (name, data) in &i.forks {
                    let bad = i.path.len() > 1 && i.path[1] == VfsString::Ucs2(Ucs2String::from("$BadClus")) && *name == Some(VfsString::Ucs2(Ucs2String::from("$Bad")));
                    let d = match all(data) {
                        _ if bad => "N/A (skipped)".to_string(),
                        Ok(d) => hex_of(&reference(k, &d)),
                        Err(()) => "N/A (error)".to_string(),
                    };
                    let name = name.as_ref().map_or(String::new(), |n| format!(":{}", escaped(n, false)));
                    want.push_str(&format!("{d}\t{}{}{name}\n", l.prefix[by], shown_path(&i.path, false)));
                    ctx.count("digests of data streams");
                }
            }
        }
        let mut args = vec!["-d", DIGESTS[k]];
        if by == 1 {
            args.extend(["--volume-path-type", "identifier"]);
        }
        args.push(&source);
        let got = good(&s.dir, "hash", &what, "hash", &args, None)?;
        same_lines("hash", &what, &got, &want)?;
        ctx.count("file systems with digests of all data");
    }

    // the bodyfile
    let times: Option<Vec<Vec<[String; 4]>>> = all_items.iter().map(|l| l.items.iter().map(|i| {
        let t: Vec<String> = i.times.iter().map(|t| time(t.as_ref())).collect::<Option<_>>()?;
        t.try_into().ok()
    }).collect()).collect();
    let md5 = small && ctx.rng.chance(1, 2);
    let mut args = vec![source.as_str(), "bodyfile"];
    if md5 {
        args.push("--calculate-md5");
    }
    if by == 1 {
        args.extend(["--volume-path-type", "identifier"]);
    }
    let digest = |d: Option<&DataStreamReference>| -> Option<String> {
        Some(match d {
            _ if !md5 => "0".to_string(),
            None => "0".repeat(32),
            Some(d) => hex_of(&reference(0, &all(d).ok()?)),
        })
    };
    let mut want = String::from("# extended bodyfile 3 format\n");
    let mut readable = true;
    if let Some(times) = &times {
        for (l, t) in all_items.iter().zip(times) {
            for (i, t) in l.items.iter().zip(t) {
                let path = format!("{}{}", l.prefix[by], shown_path(&i.path, true));
                let Ok(link) = &i.link else {
                    readable = false;
                    continue;
                };
                let link = link.as_ref().map_or(String::new(), |l| format!(" -> {}", l.to_string()));
                let middle = format!("{}|{}|{}|{}", i.more.id, mode_of(i), i.more.owner, i.more.group);
                let [access, change, creation, modification] = t;
                let Some(d) = digest(i.more.main.as_ref()) else {
                    readable = false;
                    continue;
                };
                want.push_str(&format!("{d}|{path}{link}|{middle}|{}|{access}|{modification}|{change}|{creation}\n", i.size.unwrap_or(0)));
                for (name, data) in &i.forks {
                    let Some(name) = name else { continue };
                    let Some(d) = digest(Some(data)) else {
                        readable = false;
                        continue;
                    };
                    let size = data.write().unwrap().get_size().unwrap_or(0);
                    want.push_str(&format!("{d}|{path}:{}{link}|{middle}|{size}|{access}|{modification}|{change}|{creation}\n", escaped(name, true)));
                    ctx.count("named data streams in bodyfiles");
                }
                for n in &i.more.names {
                    let t: Vec<String> = n.iter().map(|t| time(Some(t)).unwrap_or_default()).collect();
                    want.push_str(&format!("{d}|{path} ($FILE_NAME)|{middle}|{}|{}|{}|{}|{}\n", i.size.unwrap_or(0), t[0], t[3], t[1], t[2]));
                }
            }
        }
    }
    if times.is_none() {
        ctx.count("bodyfiles with times of another kind");
    }
    if readable {
        let got = match good(&s.dir, "bodyfile", &what, "image", &args, None) {
            Err(mut v) if times.is_none() && v.message.contains("Unsupported date time") => {
                v.sig = "tools:bodyfile of FAT times".into();
                return Err(v);
            }
            r => r?,
        };
        if times.is_some() {
            same_lines("bodyfile", &what, &got, &want)?;
            ctx.count("bodyfiles");
        }
    }

    // a data stream of the only file system
    if let [l] = all_items.as_slice()
        && s.volumes.is_empty()
    {
        export(ctx, &s, l, &source)?;
        if s.kind == "OS" {
            info(ctx, &s.dir, l, &source, &s.disk)?;
        }
    }
    Ok(())
}

fn copy(n: &Node) -> Node {
    Node { kind: n.kind.clone(), path: n.path.clone(), subs: n.subs.iter().map(copy).collect() }
}

/// Whether there is one entry with the path, in whatever spelling.
fn single(l: &Listed, path: &str) -> bool {
    let fold = |s: &str| s.to_uppercase();
    l.items.iter().filter(|i| plain(&i.path).is_some_and(|p| fold(&p) == fold(path))).count() == 1
}

fn export(ctx: &mut Ctx, s: &Stack, l: &Listed, source: &str) -> CaseResult {
    let target = s.dir.0.join("target");
    fs::create_dir(&target).expect("scratch directory");
    fs::set_permissions(&target, fs::Permissions::from_mode(0o777)).expect("scratch directory");
    let t = target.to_str().unwrap();
    let file = target.join("keramics.bin");
    for _ in 0..3 {
        let i = ctx.rng.pick(&l.items);
        let Some(path) = plain(&i.path) else { continue };
        if !single(l, &path) || i.path.len() == 1 {
            continue;
        }
        let forks: Vec<(Option<String>, &DataStreamReference)> = i.forks.iter().filter_map(|(n, d)| Some((match n {
            Some(n) => Some(plain(&[VfsString::Empty, n.clone()])?[1..].to_string()),
            None => None,
        }, d))).filter(|f| f.1.write().unwrap().get_size().unwrap_or(u64::MAX) < 12_000_000).collect();
        let _ = fs::remove_file(&file);
        let mut args = vec!["-t", t, source, "path", &path];
        if forks.is_empty() {
            if i.kind == "directory" && i.forks.is_empty() {
                let got = good(&s.dir, "export of a directory", &s.describe, "export", &args, None)?;
                require!(got == "No data streams exported\n" && !file.exists(), "tools:export of a directory", "{}: {path}: {got:?}", s.describe);
                ctx.count("directories without data that are not exported");
            }
            continue;
        }
        let (name, data) = ctx.rng.pick(&forks);
        if let Some(n) = name {
            args.extend(["--name", n]);
        }
        let Ok(want) = all(data) else { continue };
        let got = good(&s.dir, "export", &s.describe, "export", &args, None)?;
        let data = fs::read(&file);
        require!(got.is_empty() && data.as_ref().is_ok_and(|d| *d == want), "tools:export", "{}: {path} {name:?}: printed {got:?}, {:?} bytes of {}", s.describe, data.map(|d| d.len()), want.len());
        ctx.count("exported data streams");
        if name.is_some() {
            ctx.count("exported named data streams");
        }
    }
    let _ = fs::remove_file(&file);
    let path = format!("/no such {}", ctx.rng.next());
    let got = good(&s.dir, "export of nothing", &s.describe, "export", &["-t", t, source, "path", &path], None)?;
    require!(got == "No data streams exported\n" && !file.exists(), "tools:export of nothing", "{}: {got:?}", s.describe);
    ctx.count("missing files that are not exported");
    let _ = fs::remove_dir_all(&target);
    Ok(())
}

/// The value of a property as the information tool prints it.
fn value<'a>(text: &'a str, name: &str) -> Option<&'a str> {
    text.lines().find_map(|l| l.trim_start().strip_prefix(name)?.trim_start().strip_prefix(": "))
}

const ENCODINGS: [(&str, CharacterEncoding); 9] = [
    ("ascii", CharacterEncoding::Ascii),
    ("iso8859-1", CharacterEncoding::Iso8859_1),
    ("latin-2", CharacterEncoding::Iso8859_2),
    ("iso8859-5", CharacterEncoding::Iso8859_5),
    ("iso8859-7", CharacterEncoding::Iso8859_7),
    ("iso8859-11", CharacterEncoding::Iso8859_11),
    ("iso8859-15", CharacterEncoding::Iso8859_15),
    ("iso8859-16", CharacterEncoding::Iso8859_16),
    ("utf8", CharacterEncoding::Utf8),
];

/// A name as the library represents it as text.
fn text(name: &VfsString, encoding: &CharacterEncoding) -> String {
    match name {
        VfsString::Byte(b) => ByteString { encoding: if *encoding == CharacterEncoding::Utf8 { b.encoding.clone() } else { encoding.clone() }, elements: b.elements.clone() }.to_string(),
        n => n.to_string(),
    }
}

/// A name of bytes, decoded; None if it is not text.
fn decoded(name: &VfsString, encoding: &CharacterEncoding) -> Option<String> {
    match name {
        VfsString::Byte(b) => ByteString { encoding: encoding.clone(), elements: b.elements.clone() }.get_character_decoder().map(|c| char::from_u32(c.ok()?)).collect::<Option<String>>().filter(|s| !s.contains('\0') && (*encoding != CharacterEncoding::Ascii || s.is_ascii())),
        VfsString::Empty => Some(String::new()),
        _ => None,
    }
}

fn info(ctx: &mut Ctx, dir: &Scratch, l: &Listed, source: &str, disk: &Media) -> CaseResult {
    let what = l.kind;
    let system = good(dir, "info", what, "info", &[source], None)?;
    let (title, version) = match l.kind {
        "EXT" => ("Extended File System (ext)", "ext"),
        "FAT" => ("File Allocation Table (FAT)", "FAT-"),
        _ => ("New Technologies File System (NTFS)", ""),
    };
    require!(system.starts_with(&format!("{title} information:\n")), "tools:info", "{what}: {}", short(&system));
    if l.kind != "NTFS" {
        require!(value(&system, "Format version").is_some_and(|v| v.starts_with(version)), "tools:info", "{what}: {}", short(&system));
    }
    // the paths, of ext file systems in different encodings
    let (option, encoding) = ctx.rng.pick(&ENCODINGS).clone();
    let mut args = vec![source, "hierarchy"];
    let encoding = if l.kind == "EXT" && ctx.rng.chance(1, 2) {
        args.splice(0..0, ["--encoding", option]);
        ctx.count("names in an encoding");
        encoding
    } else {
        CharacterEncoding::Utf8
    };
    let tree = good(dir, "info hierarchy", what, "info", &args, None)?;
    let mut want = format!("{title} hierarchy:\n");
    for i in &l.items {
        let p = if i.path.len() == 1 { "/".to_string() } else { i.path.iter().map(|n| text(n, &encoding)).collect::<Vec<_>>().join("/") };
        // of NTFS the data streams are listed, of the others the file entries
        if l.kind != "NTFS" {
            want.push_str(&format!("{p}\n"));
            continue;
        }
        for f in &i.forks {
            match &f.0 {
                Some(f) => want.push_str(&format!("{p}:{}\n", text(f, &encoding))),
                None => want.push_str(&format!("{p}\n")),
            }
        }
    }
    same_lines("info hierarchy", what, &tree, &want)?;
    ctx.count("hierarchies of file systems");
    // an entry by its name in the encoding
    for _ in 0..2 {
        let i = ctx.rng.pick(&l.items);
        let p = i.path.iter().map(|n| decoded(n, &encoding)).collect::<Option<Vec<_>>>();
        let Some(p) = p.filter(|p| l.kind == "EXT" && p.len() > 1 && !p.iter().any(|n| n.contains('/'))) else { continue };
        let same = l.items.iter().filter(|o| o.path.iter().map(|n| decoded(n, &encoding)).collect::<Option<Vec<_>>>().as_ref() == Some(&p)).count();
        let (Some(n), true) = (i.more.number, same == 1) else { continue };
        let path = p.join("/");
        let got = good(dir, "info path in an encoding", what, "info", &["--encoding", if encoding == CharacterEncoding::Utf8 { "utf8" } else { option }, source, "path", &path], None)?;
        require!(value(&got, "Inode number") == Some(&n.to_string()), "tools:info path in an encoding", "{what}: {path:?} in {option} is {n}: {}", short(&got));
        ctx.count("entries by path in an encoding");
    }
    // single entries
    for _ in 0..2 {
        let i = ctx.rng.pick(&l.items);
        let Some(path) = plain(&i.path) else { continue };
        if !single(l, &path) {
            continue;
        }
        let got = good(dir, "info path", what, "info", &[source, "path", &path], None)?;
        let size = i.size.unwrap_or(0).to_string();
        require!(value(&got, "Size").is_some_and(|v| v.split(' ').next() == Some(&size)), "tools:info path", "{what}: {path}: size of {size}: {}", short(&got));
        let name = plain(&[VfsString::Empty, i.path[i.path.len() - 1].clone()]).unwrap()[1..].replace('\\', "\\\\");
        if i.path.len() > 1 {
            require!(value(&got, "Name") == Some(&name), "tools:info path", "{what}: {path}: name {name:?}: {}", short(&got));
        }
        if let Some(m) = i.more.mode {
            let m = format!("{} (0o{m:o})", rights(m));
            require!(value(&got, "File mode") == Some(&m), "tools:info path", "{what}: {path}: mode {m}: {}", short(&got));
            require!(value(&got, "Owner identifier") == Some(&i.more.owner) && value(&got, "Group identifier") == Some(&i.more.group), "tools:info path", "{what}: {path}: owner {} and group {}: {}", i.more.owner, i.more.group, short(&got));
        }
        if let Some(f) = i.more.flags {
            let f = if l.kind == "FAT" { format!("0x{f:02x}") } else { format!("0x{f:08x}") };
            require!(value(&got, "File attribute flags") == Some(&f), "tools:info path", "{what}: {path}: flags {f}: {}", short(&got));
        }
        if let (Some(n), true) = (i.more.number, l.kind != "FAT") {
            let text = if ctx.rng.chance(1, 2) { n.to_string() } else { format!("0x{n:x}") };
            let by = good(dir, "info entry", what, "info", &[source, "entry", &text], None)?;
            if l.kind == "EXT" {
                for k in ["Inode number", "Size", "Modification time", "Access time", "Inode change time", "Creation time", "Deletion time", "Number of links", "Owner identifier", "Group identifier", "File mode", "Device number", "Symbolic link target"] {
                    require!(value(&by, k) == value(&got, k), "tools:info entry", "{what}: {path} {n}: {k}: {:?} by identifier and {:?} by path", value(&by, k), value(&got, k));
                }
                require!(value(&by, "Inode number") == Some(&n.to_string()), "tools:info entry", "{what}: {path} {n}: {}", short(&by));
            } else {
                require!(by.contains(&format!("MFT entry: {n} information:\n")), "tools:info entry", "{what}: {path} {n}: {}", short(&by));
            }
            ctx.count("entries by identifier");
        }
        ctx.count("entries by path");
    }
    // the same after other data
    if disk.size < 1 << 26 {
        let at = *ctx.rng.pick(&[1u64, 512, 513, 4096, 65536]) * (1 + ctx.rng.below(4));
        let mut m = Media::new(disk.size + at, 4096);
        let junk = ctx.rng.bytes(at.min(3000) as usize);
        m.write(0, &junk);
        for (o, b) in disk.blocks() {
            let n = (disk.size.saturating_sub(o)).min(b.len() as u64) as usize;
            m.write(at + o, &b[..n]);
        }
        let name = format!("moved {at}");
        dir.put(&name, &m);
        let offset = if ctx.rng.chance(1, 2) { at.to_string() } else { format!("0x{at:x}") };
        for (rest, want) in [(&[source][..], &system), (&args[..], &tree)] {
            let path = dir.path(&name);
            let mut a = vec!["-o", &offset];
            a.extend(rest.iter().map(|a| if *a == source { path.as_str() } else { a }));
            let got = good(dir, "info at an offset", what, "info", &a, None)?;
            require!(got == *want, "tools:info at an offset", "{what} at {at}: observed {}, expected {}", short(&got), short(want));
        }
        ctx.count("file systems at an offset");
    }
    Ok(())
}

/// Images with the digest of their content.
pub fn images(ctx: &mut Ctx) -> CaseResult {
    if ctx.rng.chance(1, 4) {
        return volumes(ctx);
    }
    let dir = Scratch::new();
    let mut files = Files::new();
    let mut stored = [Vec::new(), Vec::new()];
    let kind = *ctx.rng.pick(&["EWF", "EWF", "UDIF", "SPARSEIMAGE", "QCOW", "VHD", "VHDX"]);
    let (top, content) = match kind {
        "EWF" => {
            let (f, n, c, digests) = ewf::sample_with_digests(&mut ctx.rng);
            files = f;
            stored = digests;
            (n, c)
        }
        "QCOW" | "VHD" | "VHDX" => {
            let (f, n, mut c) = match kind {
                "QCOW" => qcow::sample(&mut ctx.rng),
                "VHD" => vhd::sample(&mut ctx.rng),
                _ => vhdx::sample(&mut ctx.rng),
            };
            files = f;
            if c.len() > 1 {
                ctx.count("images with several layers");
            }
            (n, c.pop().unwrap())
        }
        _ => {
            let (f, c) = if kind == "UDIF" { udif::sample(&mut ctx.rng) } else { sparse::sample(&mut ctx.rng) };
            files.insert("image".into(), f);
            ("image".to_string(), c)
        }
    };
    if files.values().any(|f| f.size > 1 << 40) || image_of(&files[&top]).len() != 1 || top.contains('/') {
        ctx.count("images that are too large or not clear");
        return Ok(());
    }
    dir.put_all(&files);
    let source = dir.path(&top);
    let what = format!("{kind} image {top} of {} bytes in {} files", content.size, files.len());
    ctx.detail(what.clone());
    if content.size <= 1 << 25 {
        let got = good(&dir, "image hash", &what, "image", &[&source, "hash"], None)?;
        let want = hex_of(&reference(0, &content.bytes()));
        require!(value(&got, "Calculated MD5 hash") == Some(&want), "tools:image hash", "{what}: observed {got:?}, expected {want}");
        for (d, name) in stored.iter().zip(["Stored MD5 hash", "Stored SHA1 hash"]) {
            let want = d.iter().any(|b| *b != 0).then(|| hex_of(d));
            require!(value(&got, name) == want.as_deref(), "tools:stored hash", "{what}: {name}: {got:?}, expected {want:?}");
            if want.is_some() {
                ctx.count("stored digests");
            }
        }
        ctx.count(&format!("digests of {kind} images"));
    }
    // what else may be seen in the file is not for this monitor
    let others = !file_system_of(&files[&top]).is_empty() || !volume_system_of(&files[&top]).is_empty();
    if !others {
        let got = good(&dir, "info", &what, "info", &[&source], None)?;
        let size = format!("{} bytes", content.size);
        require!(got.contains("information:") && value(&got, "Media size").is_some_and(|v| v == size || v.ends_with(&format!(" ({size})"))), "tools:info of an image", "{what}: {}", short(&got));
        ctx.count(&format!("information of {kind} images"));
    }
    ctx.distinct_hash(files.values().fold(0, |h, m| h.rotate_left(3) ^ m.hash()));
    ctx.sample(|| what.clone());
    Ok(())
}

/// Partition tables.
fn volumes(ctx: &mut Ctx) -> CaseResult {
    let (kind, disk, parts) = volume::sample(&mut ctx.rng);
    let m = Media::from_bytes(&disk);
    let upper = kind.to_uppercase();
    let seen = volume_system_of(&m);
    if seen.len() != 1 || !seen.contains(upper.as_str()) || !file_system_of(&m).is_empty() || !image_of(&m).is_empty() {
        ctx.count("disks that are not clear");
        return Ok(());
    }
    let dir = Scratch::new();
    dir.put("disk", &m);
    let source = dir.path("disk");
    let what = format!("{kind} disk of {} bytes with {} partitions", m.size, parts.len());
    ctx.detail(what.clone());
    let got = good(&dir, "info", &what, "info", &[&source], None)?;
    require!(value(&got, "Number of partitions") == Some(&parts.len().to_string()), "tools:info of partitions", "{what}: {}", short(&got));
    let all = |name: &str| -> Vec<&str> { got.lines().filter_map(|l| l.trim_start().strip_prefix(name)?.trim_start().strip_prefix(": ")).collect() };
    let offsets: Vec<String> = parts.iter().map(|p| format!("{} (0x{:08x})", p.0, p.0)).collect();
    require!(all("Offset") == offsets, "tools:info of partitions", "{what}: offsets {:?}, expected {offsets:?}", all("Offset"));
    let sizes = all("Size");
    let fits = |v: &str, n: u64| if n < 1024 { v == format!("{n} bytes") || v == n.to_string() } else { v.ends_with(&format!(" ({n} bytes)")) };
    require!(sizes.len() == parts.len() && sizes.iter().zip(&parts).all(|(v, p)| fits(v, p.1)), "tools:info of partitions", "{what}: sizes {sizes:?}, expected {parts:?}");
    ctx.count(&format!("information of {kind} partition tables"));
    ctx.distinct(&disk);
    Ok(())
}

/// Streams of bytes.
pub fn input(ctx: &mut Ctx) -> CaseResult {
    let dir = Scratch::new();
    let n = *ctx.rng.pick(&[0usize, 1, 55, 64, 4096, 65535, 65536, 65537, 131072, 200_000]);
    let n = if ctx.rng.chance(1, 2) { n } else { ctx.rng.usize(0, 300_000) };
    let data = fill(ctx.rng.next(), 0, n);
    let k = ctx.rng.usize(0, 4);
    ctx.detail(format!("{n} bytes of standard input"));
    let mut args = Vec::new();
    if k > 0 || ctx.rng.chance(1, 2) {
        args.extend(["-d", DIGESTS[k]]);
    }
    let got = good(&dir, "hash of the input", &format!("{n} bytes"), "hash", &args, Some(&data))?;
    let want = format!("{}  -\n", hex_of(&reference(k, &data)));
    require!(got == want, "tools:hash of the input", "{n} bytes: observed {got:?}, expected {want:?}");
    ctx.count("digests of standard input");
    ctx.distinct(&data);
    Ok(())
}

/// Damaged file systems and images: the tools end, with or without an error message.
pub fn hostile(ctx: &mut Ctx) -> CaseResult {
    let dir = Scratch::new();
    let mut files = Files::new();
    let k = ctx.rng.below(12);
    let mut parts = Vec::new();
    let (what, top) = match k {
        0..=5 => {
            let (what, m) = match k % 3 {
                0 => ("EXT", ext::damaged(&mut ctx.rng)),
                1 => ("FAT", fat::damaged(&mut ctx.rng)),
                _ => ("NTFS", ntfs::damaged(&mut ctx.rng)),
            };
            files.insert("d".into(), m);
            (what, "d".to_string())
        }
        6 => {
            let (kind, mut disk, p) = volume::sample(&mut ctx.rng);
            let n = disk.len();
            parts = p;
            mutate(&mut ctx.rng, &mut disk, &[(0, 512.min(n)), (512.min(n - 1), 2048.min(n)), (n.saturating_sub(512), 512.min(n))]);
            files.insert("d".into(), Media::from_bytes(&disk));
            (kind, "d".to_string())
        }
        _ => {
            let (what, f, top) = match k {
                7 => {
                    let (f, n, _) = ewf::sample(&mut ctx.rng);
                    ("EWF", f, n)
                }
                8 => {
                    let (f, n, _) = qcow::sample(&mut ctx.rng);
                    ("QCOW", f, n)
                }
                9 => {
                    let (f, n, _) = if ctx.rng.chance(1, 2) { vhd::sample(&mut ctx.rng) } else { vhdx::sample(&mut ctx.rng) };
                    ("VHD or VHDX", f, n)
                }
                _ => {
                    let (m, _) = if k == 10 { udif::sample(&mut ctx.rng) } else { sparse::sample(&mut ctx.rng) };
                    ("UDIF or SPARSEIMAGE", Files::from([("image".to_string(), m)]), "image".to_string())
                }
            };
            files = f;
            let names: Vec<String> = files.keys().cloned().collect();
            let name = if ctx.rng.chance(2, 3) { top.clone() } else { ctx.rng.pick(&names).clone() };
            let m = files.get_mut(&name).unwrap();
            let n = m.size;
            mutate_media(&mut ctx.rng, m, &[(0, 104), (0, 1024), (0, 1024), (n.saturating_sub(1024), 1024), (0, n)]);
            (what, top)
        }
    };
    let _ = parts;
    if files.values().any(|f| f.size > 1 << 40) || top.contains('/') {
        return Ok(());
    }
    dir.put_all(&files);
    let source = dir.path(&top);
    ctx.detail(format!("damaged {what}"));
    ctx.distinct_hash(files.values().fold(0, |h, m| h.rotate_left(3) ^ m.hash()));
    let number = if ctx.rng.chance(1, 2) { ctx.rng.below(100) } else { ctx.rng.next() >> ctx.rng.below(63) }.to_string();
    let mut uses: Vec<(&str, Vec<&str>)> = vec![("info", vec![&source]), ("image", vec![&source, "hierarchy"]), ("image", vec![&source, "bodyfile"])];
    if k < 6 {
        uses.extend([("info", vec![source.as_str(), "hierarchy"]), ("info", vec![source.as_str(), "path", "/"]), ("info", vec![source.as_str(), "entry", &number])]);
    }
    if ctx.rng.chance(1, 10) {
        uses.iter_mut().for_each(|u| u.1.insert(0, "--debug"));
        ctx.count("debug output");
    }
    for (tool, args) in uses {
        let o = run(&dir, tool, &args, None)?;
        require!(o.status == "Some(0)" || o.status == "Some(1)", "tools:exit status", "{what}: {tool} {args:?}: {}", o.status);
        ctx.count(if o.status == "Some(0)" { "damaged files shown" } else { "damaged files refused" });
    }
    Ok(())
}
