//! Damaged images: no panic, no endless run, the same observations with debug output.

use std::io::SeekFrom;

use keramics_core::DataStreamReference;
use keramics_core::mediator::Mediator;
use mon_common::*;

/// What opening an image gave: a description and the streams inside.
#[derive(Default)]
pub struct Opened {
    pub text: String,
    pub streams: Vec<DataStreamReference>,
}

pub type Opener<'a> = &'a dyn Fn() -> Result<Opened, String>;

/// Reads of a stream, described. What a failed read leaves is not looked at.
fn look(s: &DataStreamReference, seed: u64, out: &mut String, budget: &mut usize) {
    let mut rng = Rng::new(seed);
    let mut s = s.write().unwrap();
    let size = match s.get_size() {
        Ok(n) => n,
        Err(_) => {
            out.push_str("size error;");
            return;
        }
    };
    out.push_str(&format!("size {size};"));
    let limit = size.min(i64::MAX as u64 / 2);
    let mut buf = vec![0u8; 65536];
    for i in 0..6 {
        let at = match i {
            0 => 0,
            1 => limit.saturating_sub(rng.below(3000)),
            _ => rng.below(limit.max(1)),
        };
        let n = (*rng.pick(&[1usize, 512, 4096, 5000, 65536])).min(*budget);
        if n == 0 {
            break;
        }
        *budget -= n.min(*budget);
        match s.seek(SeekFrom::Start(at)) {
            Ok(o) => out.push_str(&format!("@{o}")),
            Err(_) => {
                out.push_str("seek error;");
                continue;
            }
        }
        match s.read(&mut buf[..n]) {
            Ok(k) => {
                assert!(k <= n, "read of {n} bytes returned {k}");
                out.push_str(&format!(":{k}={:x};", fnv(&buf[..k])));
            }
            Err(_) => out.push_str(":error;"),
        }
    }
}

fn run(open: Opener, seed: u64) -> (bool, String, usize) {
    match open() {
        Ok(o) => {
            let mut t = o.text;
            let mut budget = 600_000;
            for (i, s) in o.streams.iter().enumerate() {
                look(s, seed ^ i as u64, &mut t, &mut budget);
            }
            (true, t, o.streams.len())
        }
        Err(_) => (false, String::new(), 0),
    }
}

/// Opens a damaged image and reads the streams in it, twice, the second time at times with
/// debug output.
pub fn probe(ctx: &mut Ctx, what: &str, open: Opener) -> CaseResult {
    let seed = ctx.rng.next();
    Mediator::new(false).make_current();
    let r1 = no_panic(what, || run(open, seed))?;
    let debug = ctx.rng.chance(1, 3);
    Mediator::new(debug).make_current();
    let r2 = no_panic(what, || run(open, seed));
    Mediator::new(false).make_current();
    let r2 = r2?;
    if r1 != r2 {
        fail!(
            &format!("{what}:unstable"),
            "{what}: opening and reading the same data twice (the second time with debug output: {debug}) gave {} and {}",
            short(&format!("{r1:?}")),
            short(&format!("{r2:?}"))
        );
    }
    ctx.count(if r1.0 { "damaged images opened" } else { "damaged images refused" });
    ctx.add("streams of damaged images read", r1.2 as u64);
    if debug {
        ctx.count("damaged images read with debug output");
    }
    Ok(())
}
