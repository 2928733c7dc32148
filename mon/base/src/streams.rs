//! C01: byte streams behave as an array of bytes with a cursor.

use std::fs;
use std::io::SeekFrom;
use std::path::PathBuf;
use std::sync::{Arc, RwLock};

use keramics_core::{
    DataStream, DataStreamReference, ErrorTrace, FakeDataStream, open_fake_data_stream,
    open_os_data_stream,
};
use mon_common::*;

/// The executable model: content, cursor.
pub struct Model<'a> {
    pub content: &'a [u8],
    pub cursor: u64,
}

#[derive(Debug)]
enum Op {
    Seek(SeekFrom),
    Read(usize),
    ReadAt(usize, SeekFrom),
    ReadExact(usize),
    ReadExactAt(usize, SeekFrom),
    Size,
}

fn seek_target(rng: &mut Rng, size: u64, cursor: u64) -> (SeekFrom, u64) {
    let target: u64 = match rng.below(8) {
        0 => 0,
        1 => size,
        2 => size + rng.below(20),
        3 => size.saturating_sub(rng.below(20)),
        4 => rng.below(64),
        5 => (1u64 << rng.range(20, 42)) + rng.below(3),
        _ => rng.below(size.max(1)),
    };
    let small = target < (1u64 << 62) && cursor < (1u64 << 62);
    match rng.below(3) {
        0 if small => (SeekFrom::Current(target as i64 - cursor as i64), target),
        1 if small => (SeekFrom::End(target as i64 - size as i64), target),
        _ => (SeekFrom::Start(target), target),
    }
}

/// Drives a stream with a random schedule of operations and compares every return value and
/// every byte with the model. `tag` prefixes the violation signatures.
pub fn drive(
    ctx: &mut Ctx,
    tag: &str,
    stream: &DataStreamReference,
    content: &[u8],
    operations: usize,
    max_read: usize,
) -> CaseResult {
    let size = content.len() as u64;
    let mut model = Model { content, cursor: 0 };
    // A new stream starts at offset 0.
    if ctx.rng.chance(1, 2) {
        let mut s = stream.write().unwrap();
        let p = no_panic("seek", || s.seek(SeekFrom::Start(0)))?;
        require!(matches!(p, Ok(0)), &format!("{}:rewind", tag), "seek to the start returned {:?}", p);
    }
    for _ in 0..operations {
        let n = match ctx.rng.below(6) {
            0 => 0,
            1 => ctx.rng.usize(1, 16),
            _ => ctx.rng.size(max_read),
        };
        let op = match ctx.rng.below(12) {
            0 | 1 => Op::Seek(seek_target(&mut ctx.rng, size, model.cursor).0),
            2 | 3 | 4 => Op::Read(n),
            5 | 6 | 7 => Op::ReadAt(n, seek_target(&mut ctx.rng, size, model.cursor).0),
            8 => Op::ReadExact(n),
            9 | 10 => Op::ReadExactAt(n, seek_target(&mut ctx.rng, size, model.cursor).0),
            _ => Op::Size,
        };
        step(ctx, tag, stream, &mut model, op)?;
    }
    Ok(())
}

fn resolve(pos: SeekFrom, cursor: u64, size: u64) -> u64 {
    match pos {
        SeekFrom::Start(o) => o,
        SeekFrom::Current(d) => (cursor as i128 + d as i128) as u64,
        SeekFrom::End(d) => (size as i128 + d as i128) as u64,
    }
}

fn step(
    ctx: &mut Ctx,
    tag: &str,
    stream: &DataStreamReference,
    model: &mut Model,
    op: Op,
) -> CaseResult {
    let size = model.content.len() as u64;
    let describe = format!("{:?} at cursor {} of {} bytes", op, model.cursor, size);
    ctx.detail(describe.clone());
    let mut s = stream.write().unwrap();
    match op {
        Op::Size => {
            let r = no_panic("get_size", || s.get_size())?;
            match r {
                Ok(n) => require_eq!(n, size, &format!("{}:size", tag), "{}", describe),
                Err(e) => fail!(&format!("{}:size", tag), "{}: {}", describe, e.to_string()),
            }
            ctx.count("size");
        }
        Op::Seek(pos) => {
            let want = resolve(pos, model.cursor, size);
            match no_panic("seek", || s.seek(pos))? {
                Ok(n) => require_eq!(n, want, &format!("{}:seek", tag), "{}", describe),
                Err(e) => fail!(&format!("{}:seek", tag), "{}: {}", describe, e.to_string()),
            }
            model.cursor = want;
            ctx.count("seek");
        }
        Op::Read(n) | Op::ReadAt(n, _) => {
            let mut buf = vec![0xa5u8; n];
            let r = match op {
                Op::ReadAt(_, pos) => {
                    model.cursor = resolve(pos, model.cursor, size);
                    no_panic("read_at_position", || s.read_at_position(&mut buf, pos))?
                }
                _ => no_panic("read", || s.read(&mut buf))?,
            };
            let at = model.cursor.min(size) as usize;
            let want = &model.content[at..(at + n).min(model.content.len())];
            match r {
                Ok(got) => {
                    require_eq!(got, want.len(), &format!("{}:read-count", tag), "{}", describe);
                    if &buf[..got] != want {
                        let d = buf[..got].iter().zip(want).position(|(a, b)| a != b).unwrap();
                        fail!(
                            &format!("{}:read-bytes", tag),
                            "{}: first wrong byte at stream offset {}: observed {:02x} expected {:02x}",
                            describe, at + d, buf[d], want[d]
                        );
                    }
                    require!(
                        buf[got..].iter().all(|b| *b == 0xa5),
                        &format!("{}:read-overrun", tag),
                        "{}: bytes beyond the returned count were written",
                        describe
                    );
                    model.cursor += got as u64;
                    ctx.add("bytes compared", got as u64);
                    ctx.count(if got == n && n > 0 { "full read" } else if got == 0 { "empty read" } else { "short read at the end" });
                }
                Err(e) => fail!(&format!("{}:read-error", tag), "{}: {}", describe, e.to_string()),
            }
        }
        Op::ReadExact(n) | Op::ReadExactAt(n, _) => {
            let mut buf = vec![0xa5u8; n];
            let r = match op {
                Op::ReadExactAt(_, pos) => {
                    model.cursor = resolve(pos, model.cursor, size);
                    let c = model.cursor;
                    match no_panic("read_exact_at_position", || s.read_exact_at_position(&mut buf, pos))? {
                        Ok(o) => {
                            require_eq!(o, c, &format!("{}:exact-offset", tag), "{}", describe);
                            Ok(())
                        }
                        Err(e) => Err(e),
                    }
                }
                _ => no_panic("read_exact", || s.read_exact(&mut buf))?,
            };
            let at = model.cursor.min(size) as usize;
            let fits = model.cursor.saturating_add(n as u64) <= size || n == 0;
            match r {
                Ok(()) => {
                    require!(fits, &format!("{}:exact-short", tag), "{}: succeeded past the end", describe);
                    require!(
                        n == 0 || buf[..] == model.content[at..at + n],
                        &format!("{}:exact-bytes", tag),
                        "{}: wrong bytes", describe
                    );
                    model.cursor += n as u64;
                    ctx.count("exact read");
                }
                Err(e) => {
                    require!(!fits, &format!("{}:exact-error", tag), "{}: {}", describe, e.to_string());
                    // Where a failed exact read leaves the cursor is unspecified.
                    model.cursor = ctx.rng.below(size + 1);
                    let c = model.cursor;
                    match no_panic("seek", || s.seek(SeekFrom::Start(c)))? {
                        Ok(o) => require_eq!(o, c, &format!("{}:seek", tag), "after a failed exact read"),
                        Err(e) => fail!(&format!("{}:seek", tag), "{}", e.to_string()),
                    }
                    ctx.count("refused exact read");
                }
            }
        }
    }
    Ok(())
}

pub fn fake(ctx: &mut Ctx) -> CaseResult {
    let n = ctx.rng.size(20000);
    let data = ctx.rng.data(n);
    // The stream may be longer than its data: the rest reads as zero.
    let size = match ctx.rng.below(4) {
        0 => n,
        1 => n + ctx.rng.usize(0, 4096),
        2 => ctx.rng.usize(0, n),
        _ => n + 1,
    };
    let mut content = data.clone();
    content.resize(size, 0);
    let stream: DataStreamReference = if size == n && ctx.rng.chance(1, 2) {
        open_fake_data_stream(&data)
    } else {
        Arc::new(RwLock::new(FakeDataStream::new(&data, size as u64)))
    };
    ctx.detail(format!("data of {} bytes, stream size {}", n, size));
    let mut key = (n as u64).to_le_bytes().to_vec();
    key.extend_from_slice(&(size as u64).to_le_bytes());
    key.extend_from_slice(&data[..n.min(64)]);
    ctx.distinct(&key);
    ctx.sample(|| format!("in-memory stream, {} bytes of data, size {}", n, size));
    let m = (size + 40).max(64);
    drive(ctx, "fake", &stream, &content, 60, m)?;
    before_start(ctx, "fake", &stream, size as u64)
}

/// A seek to before the start, or beyond what a position can be, fails and moves nothing.
fn before_start(ctx: &mut Ctx, tag: &str, stream: &DataStreamReference, size: u64) -> CaseResult {
    let c = ctx.rng.below(size + 40);
    let by = 1 + *ctx.rng.pick(&[0u64, 1, 7, 100, 1 << 31, 1 << 32, 1 << 40]);
    let pos = match ctx.rng.below(4) {
        0 => SeekFrom::Current(-(c as i64) - by as i64),
        1 => SeekFrom::End(-(size as i64) - by as i64),
        2 => SeekFrom::Current(i64::MIN),
        _ => SeekFrom::End(i64::MIN),
    };
    let mut s = stream.write().unwrap();
    let r = no_panic("seek", || s.seek(SeekFrom::Start(c)))?;
    require!(matches!(r, Ok(o) if o == c), &format!("{tag}:seek"), "seek to {} gave {:?}", c, r);
    let r = match ctx.rng.below(3) {
        0 => no_panic("seek", || s.seek(pos).is_err())?,
        1 => no_panic("read_at_position", || s.read_at_position(&mut [0u8; 4], pos).is_err())?,
        _ => no_panic("read_exact_at_position", || s.read_exact_at_position(&mut [0u8; 4], pos).is_err())?,
    };
    require!(r, &format!("{tag}:seek-before-start"), "a seek of {:?} from {} of {} bytes succeeded", pos, c, size);
    let r = no_panic("seek", || s.seek(SeekFrom::Current(0)))?;
    require!(matches!(r, Ok(o) if o == c), &format!("{tag}:seek"), "after a failed seek from {} the position is {:?}", c, r);
    ctx.count("seek before the start refused");
    Ok(())
}

/// Large streams: data with islands in zeros, of up to 2^60 bytes, and large reads.
pub fn large(ctx: &mut Ctx) -> CaseResult {
    let use_file = ctx.rng.chance(1, 2);
    let size = match ctx.rng.below(4) {
        0 => ctx.rng.range(1 << 20, 9 << 20),
        1 => (1u64 << 32) + ctx.rng.below(1 << 20) - (1 << 19),
        2 => ctx.rng.range(1 << 31, 1 << 36),
        _ if use_file => ctx.rng.range(1 << 36, 1 << 41),
        _ => ctx.rng.range(1 << 36, 1 << 60),
    };
    // the islands: offset and content
    let mut islands: Vec<(u64, Vec<u8>)> = Vec::new();
    let path = ctx.scratch.join(format!("l{}", ctx.index));
    let stream: DataStreamReference = if use_file {
        use std::os::unix::fs::FileExt;
        let f = fs::File::create(&path).unwrap();
        f.set_len(size).unwrap();
        for _ in 0..ctx.rng.usize(1, 4) {
            let n = if ctx.rng.chance(1, 4) { ctx.rng.usize(1 << 20, 3 << 20) } else { ctx.rng.usize(1, 9000) };
            let n = n.min(size as usize / 8);
            let at = match ctx.rng.below(3) {
                0 => size - n as u64,
                1 => ((1u64 << 32) - n as u64 / 2).min(size - n as u64),
                _ => ctx.rng.below(size - n as u64),
            };
            if islands.iter().any(|i| at < i.0 + i.1.len() as u64 && i.0 < at + n as u64) {
                continue;
            }
            let v = ctx.rng.bytes(n);
            f.write_all_at(&v, at).unwrap();
            islands.push((at, v));
        }
        drop(f);
        open_os_data_stream(&path).unwrap()
    } else {
        let n = if ctx.rng.chance(1, 3) { ctx.rng.usize(1 << 20, 6 << 20) } else { ctx.rng.usize(0, 70000) };
        let n = n.min(size as usize);
        let v = ctx.rng.bytes(n);
        let s = FakeDataStream::new(&v, size);
        islands.push((0, v));
        Arc::new(RwLock::new(s))
    };
    ctx.detail(format!("stream of {} bytes, file: {}, data at {:?}", size, use_file, islands.iter().map(|i| (i.0, i.1.len())).collect::<Vec<_>>()));
    ctx.distinct(&[&size.to_le_bytes()[..], &islands[0].1[..islands[0].1.len().min(32)]].concat());
    let mut r = Ok(());
    let mut cursor = 0u64;
    for _ in 0..24 {
        r = long_step(ctx, &stream, size, &islands, &mut cursor);
        if r.is_err() {
            break;
        }
    }
    drop(stream);
    if use_file {
        fs::remove_file(&path).unwrap();
    }
    r?;
    ctx.count(if use_file { "large file" } else { "large stream in memory" });
    Ok(())
}

fn long_step(ctx: &mut Ctx, stream: &DataStreamReference, size: u64, islands: &[(u64, Vec<u8>)], cursor: &mut u64) -> CaseResult {
    let near = {
        let i = ctx.rng.usize(0, islands.len() - 1);
        &islands[i]
    };
    let target = match ctx.rng.below(5) {
        0 => near.0.saturating_sub(ctx.rng.below(5000)),
        1 => near.0 + ctx.rng.below(near.1.len() as u64 + 1),
        2 => size.saturating_sub(ctx.rng.below(9000)),
        3 => ((1u64 << 32) - ctx.rng.below(100)).min(size),
        _ => ctx.rng.below(size),
    };
    let pos = match ctx.rng.below(4) {
        0 => SeekFrom::Current(target as i64 - *cursor as i64),
        1 => SeekFrom::End(target as i64 - size as i64),
        _ => SeekFrom::Start(target),
    };
    let n = match ctx.rng.below(6) {
        0 => ctx.rng.usize(1 << 16, 5 << 20),
        1 => ctx.rng.usize(0, 70000),
        _ => ctx.rng.usize(0, 5000),
    };
    let mut s = stream.write().unwrap();
    let r = no_panic("get_size", || s.get_size())?;
    require!(matches!(r, Ok(k) if k == size), "large:size", "size {:?} of {}", r, size);
    let mut buf = vec![0xa5u8; n];
    let have = (n as u64).min(size - target) as usize;
    let exact = ctx.rng.chance(1, 3);
    if exact {
        let r = no_panic("read_exact_at_position", || s.read_exact_at_position(&mut buf, pos))?;
        match r {
            Ok(o) => require!(o == target && have == n, "large:exact", "{} bytes at {} of {}: {}", n, target, size, o),
            Err(e) => {
                require!(have < n, "large:exact", "{} bytes at {} of {}: {}", n, target, size, e.to_string());
                *cursor = 0;
                s.seek(SeekFrom::Start(0)).map_err(|e| violation("large:seek", e.to_string()))?;
                return Ok(());
            }
        }
    } else {
        match no_panic("read_at_position", || s.read_at_position(&mut buf, pos))? {
            Ok(k) => require_eq!(k, have, "large:read-count", "{} bytes at {} of {}", n, target, size),
            Err(e) => fail!("large:read", "{} bytes at {} of {}: {}", n, target, size, e.to_string()),
        }
    }
    let mut want = vec![0u8; have];
    for (at, v) in islands {
        let (from, to) = (target.max(*at), (target + have as u64).min(at + v.len() as u64));
        if from < to {
            want[(from - target) as usize..(to - target) as usize].copy_from_slice(&v[(from - at) as usize..(to - at) as usize]);
        }
    }
    if buf[..have] != want[..] {
        let d = buf.iter().zip(&want).position(|(a, b)| a != b).unwrap();
        fail!("large:bytes", "reading {} bytes at {} of {}: byte {} is {:02x} instead of {:02x}", n, target, size, d, buf[d], want[d]);
    }
    *cursor = target + have as u64;
    ctx.add("bytes of large streams compared", have as u64);
    Ok(())
}

/// Reading what can be opened but not read (a directory) fails, whatever the way.
pub fn unreadable(ctx: &mut Ctx) -> CaseResult {
    let path = ctx.scratch.join(format!("d{}", ctx.index));
    fs::create_dir_all(&path).unwrap();
    let r = no_panic("open_os_data_stream", || open_os_data_stream(&path))?;
    ctx.distinct(&ctx.index.to_le_bytes());
    if let Ok(stream) = r {
        for k in 0..6 {
            let mut buf = vec![0u8; ctx.rng.usize(1, 600)];
            let r = no_panic("read", || match k {
                0 => stream.write().unwrap().read(&mut buf).is_err(),
                1 => stream.write().unwrap().read_exact(&mut buf).is_err(),
                2 => stream.write().unwrap().read_at_position(&mut buf, SeekFrom::Start(0)).is_err(),
                3 => stream.write().unwrap().read_exact_at_position(&mut buf, SeekFrom::Start(0)).is_err(),
                4 => macro_read(&stream, &mut buf, 0).is_err(),
                _ => macro_read_exact(&stream, &mut buf, 0).is_err(),
            })?;
            require!(r, "file:read-error", "reading a directory succeeded, way {}", k);
        }
    }
    fs::remove_dir(&path).unwrap();
    ctx.count("unreadable file refused");
    Ok(())
}

pub fn file(ctx: &mut Ctx) -> CaseResult {
    let n = ctx.rng.size(300000);
    let data = ctx.rng.data(n);
    let path: PathBuf = ctx.scratch.join(format!("f{}", ctx.index));
    fs::write(&path, &data).unwrap();
    let r = no_panic("open_os_data_stream", || open_os_data_stream(&path))?;
    let stream = match r {
        Ok(s) => s,
        Err(e) => fail!("file:open", "{}", e.to_string()),
    };
    ctx.distinct(&data);
    ctx.sample(|| format!("file stream of {} bytes", n));
    let r = drive(ctx, "file", &stream, &data, 80, n + 100).and_then(|_| before_start(ctx, "file", &stream, n as u64));
    drop(stream);
    let _ = fs::remove_file(&path);
    let missing = ctx.scratch.join("missing");
    let r2 = no_panic("open_os_data_stream", || open_os_data_stream(&missing))?;
    require!(r2.is_err(), "file:open-missing", "opening a missing file succeeded");
    r
}

fn macro_read(s: &DataStreamReference, buf: &mut [u8], at: u64) -> Result<usize, ErrorTrace> {
    Ok(keramics_core::data_stream_read_at_position!(s, buf, SeekFrom::Start(at)))
}
fn macro_read_exact(s: &DataStreamReference, buf: &mut [u8], at: u64) -> Result<u64, ErrorTrace> {
    Ok(keramics_core::data_stream_read_exact_at_position!(s, buf, SeekFrom::Start(at)))
}
fn macro_size(s: &DataStreamReference) -> Result<u64, ErrorTrace> {
    Ok(keramics_core::data_stream_get_size!(s))
}

/// Several threads issue positional reads on one shared stream; every byte is unambiguous
/// (a function of its offset), so a read that mixed up two cursors is seen.
pub fn shared(ctx: &mut Ctx) -> CaseResult {
    let n = ctx.rng.usize(4000, 60000);
    let content: Vec<u8> = (0..n).map(|i| (i as u32).wrapping_mul(2654435761).to_be_bytes()[0] ^ (i as u8)).collect();
    let path = ctx.scratch.join(format!("s{}", ctx.index));
    let use_file = ctx.rng.chance(1, 2);
    let stream: DataStreamReference = if use_file {
        fs::write(&path, &content).unwrap();
        open_os_data_stream(&path).unwrap()
    } else {
        open_fake_data_stream(&content)
    };
    let content = Arc::new(content);
    let threads: u64 = 4;
    let mut handles = Vec::new();
    for t in 0..threads {
        let stream = stream.clone();
        let content = content.clone();
        let mut rng = Rng::new(ctx.rng.next() ^ t);
        handles.push(std::thread::spawn(move || -> Result<u64, Violation> {
            let mut observed = 0u64;
            for _ in 0..150 {
                let at = rng.usize(0, content.len() + 20);
                let len = rng.usize(0, 300);
                let mut buf = vec![0u8; len];
                let have = &content[at.min(content.len())..(at + len).min(content.len())];
                match rng.below(3) {
                    0 => match observe(|| macro_read(&stream, &mut buf, at as u64)) {
                        Ok(Ok(k)) => {
                            require!(k == have.len() && &buf[..k] == have, "shared:bytes", "read of {} at {} mixed up", len, at);
                        }
                        Ok(Err(e)) => fail!("shared:error", "{}", e.to_string()),
                        Err(p) => return Err(panic_violation("shared read", &p)),
                    },
                    1 => match observe(|| macro_read_exact(&stream, &mut buf, at as u64)) {
                        Ok(Ok(o)) => {
                            require!(o == at as u64 && have.len() == len && buf == have, "shared:bytes", "exact read of {} at {} mixed up", len, at);
                        }
                        Ok(Err(_)) => {
                            require!(have.len() < len, "shared:error", "exact read of {} at {} refused", len, at);
                        }
                        Err(p) => return Err(panic_violation("shared read", &p)),
                    },
                    _ => match observe(|| macro_size(&stream)) {
                        Ok(Ok(k)) => require!(k == content.len() as u64, "shared:size", "size {}", k),
                        Ok(Err(e)) => fail!("shared:error", "{}", e.to_string()),
                        Err(p) => return Err(panic_violation("shared size", &p)),
                    },
                }
                observed += 1;
            }
            Ok(observed)
        }));
    }
    let mut result = Ok(());
    for h in handles {
        match h.join() {
            Ok(Ok(k)) => ctx.add("concurrent reads", k),
            Ok(Err(v)) => result = Err(v),
            Err(_) => result = Err(violation("HARNESS", String::from("thread died"))),
        }
    }
    let _ = fs::remove_file(&path);
    ctx.distinct(&(n as u64).to_le_bytes());
    ctx.sample(|| format!("4 threads, 150 positional reads each, {} bytes, file: {}", n, use_file));
    result
}

/// A stream whose reads fail or come up short: exact reads must not claim success, errors must
/// reach the caller with their own message.
struct Flaky {
    size: u64,
    offset: u64,
    fail_at: u64,
    short_by: usize,
}
impl DataStream for Flaky {
    fn get_size(&mut self) -> Result<u64, ErrorTrace> {
        if self.fail_at == 0 {
            return Err(ErrorTrace::new(String::from("injected size fault")));
        }
        Ok(self.size)
    }
    fn read(&mut self, buf: &mut [u8]) -> Result<usize, ErrorTrace> {
        if self.offset >= self.fail_at {
            return Err(ErrorTrace::new(String::from("injected read fault")));
        }
        let n = buf.len().saturating_sub(self.short_by);
        for b in buf[..n].iter_mut() {
            *b = 7;
        }
        self.offset += n as u64;
        Ok(n)
    }
    fn seek(&mut self, pos: SeekFrom) -> Result<u64, ErrorTrace> {
        match pos {
            SeekFrom::Start(o) if o > self.size => Err(ErrorTrace::new(String::from("injected seek fault"))),
            SeekFrom::Start(o) => {
                self.offset = o;
                Ok(o)
            }
            _ => Err(ErrorTrace::new(String::from("injected seek fault"))),
        }
    }
}

pub fn faults(ctx: &mut Ctx) -> CaseResult {
    let size = 1000;
    let fail_at = *ctx.rng.pick(&[0u64, 1, 100, 500, 5000]);
    let short_by = *ctx.rng.pick(&[0usize, 0, 1, 5, 1000]);
    let stream: DataStreamReference = Arc::new(RwLock::new(Flaky { size, offset: 0, fail_at, short_by }));
    for _ in 0..20 {
        let at = ctx.rng.below(1200);
        let len = ctx.rng.usize(0, 50);
        let mut buf = vec![0u8; len];
        let fault = if at > size { Some("injected seek fault") } else if at >= fail_at { Some("injected read fault") } else { None };
        let got = len.saturating_sub(short_by);
        ctx.count("fault injected or short read");
        match no_panic("exact", || macro_read_exact(&stream, &mut buf, at))? {
            Ok(o) => require!(
                fault.is_none() && got == len && o == at,
                "fault:exact-success",
                "exact read of {} at {} succeeded although the stream delivered {} bytes, fault {:?}", len, at, got, fault
            ),
            Err(e) => {
                require!(fault.is_some() || got != len, "fault:exact-error", "unexpected {}", e.to_string());
                if let Some(f) = fault {
                    require!(e.to_string().contains(f), "fault:message", "the cause {:?} is lost in {:?}", f, e.to_string());
                }
            }
        }
        match no_panic("read", || macro_read(&stream, &mut buf, at))? {
            Ok(k) => require!(fault.is_none() && k == got, "fault:read-success", "read returned {} of {} fault {:?}", k, got, fault),
            Err(e) => {
                require!(fault.is_some(), "fault:read-error", "unexpected {}", e.to_string());
                require!(e.to_string().contains(fault.unwrap()), "fault:message", "the cause is lost in {:?}", e.to_string());
            }
        }
        let s = no_panic("size", || macro_size(&stream))?;
        require!(s.is_err() == (fail_at == 0), "fault:size", "{:?}", s);
        let mut locked = stream.write().unwrap();
        let r = no_panic("read_exact", || locked.read_exact(&mut buf))?;
        if r.is_ok() {
            require!(got == len, "fault:exact-success", "read_exact of {} succeeded with {} delivered", len, got);
        }
    }
    ctx.distinct(&[fail_at as u8, short_by as u8, ctx.index as u8]);
    ctx.sample(|| format!("faulty stream: fails from {}, short by {}", fail_at, short_by));
    Ok(())
}

pub fn property() -> Property {
    Property {
        id: "C01",
        level: "exploration",
        rule: "random schedules of size/seek/read/exact-read operations on in-memory, file-backed and fault-injecting streams of random size and content, every return value and byte compared with an array-with-cursor model; plus concurrent positional reads on a shared stream; non-trivial = distinct stream content/size",
        assumptions: &["seek targets stay below 2^62", "regular files on the scratch file system deliver full reads"],
        sections: vec![
            Section { name: "memory", quick: 300_000, thorough: 3_000_000, run: fake },
            Section { name: "file", quick: 20_000, thorough: 200_000, run: file },
            Section { name: "large", quick: 1500, thorough: 30_000, run: large },
            Section { name: "unreadable", quick: 200, thorough: 2000, run: unreadable },
            Section { name: "shared", quick: 1500, thorough: 15_000, run: shared },
            Section { name: "faults", quick: 10_000, thorough: 200_000, run: faults },
        ],
        must_observe: &["full read", "short read at the end", "empty read", "exact read", "refused exact read", "concurrent reads", "seek", "seek before the start refused", "large file", "large stream in memory", "unreadable file refused"],
        case_cpu_limit: 30,
    }
}
