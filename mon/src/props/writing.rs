//! X07: what is handed to the writing operations, and when they are given up.

use super::build::{self, Op};
use super::import::{self, Config, Feed};
use super::{Prop, EXPLORED};
use crate::drive::cid_from;
use crate::model::Meta;
use crate::util::{cid_styled, fp, fp2, Rng, STYLES};
use crate::{ensure, pass_on, take_panic, Across, Case, Fail, R};
use std::panic::{catch_unwind, AssertUnwindSafe};
use unixfs_v1::dir::builder::{BufferingTreeBuilder, PostOrderIterator, TreeOptions};
use unixfs_v1::file::adder::{BalancedCollector, Chunker, Collector};
use unixfs_v1::symlink::serialize_symlink_block;

pub static PROPS: &[Prop] = &[Prop {
    id: "X07",
    title: "No argument can crash the writing operations",
    run: x07,
    quick: 60000,
    rule: "imports with any chunk size and branching factor, builders fed with strange, invalid, long and deep paths, metadata of any value and sizes up to 2^63, symlinks to anything, every state displayed, given up before, during and after the iteration, some of them on small stacks; all count",
    assumptions: &[EXPLORED, "Sums of sizes beyond 2^64, chunks of no bytes and branching factors below two are left out. Stack overflows are noticed from about 1 MiB of stack, with paths of up to 60000 segments."],
}];

fn shown(what: &str, s: String) -> R {
    ensure!(!s.is_empty(), "{} is displayed as nothing", what);
    Ok(())
}

/// Runs on a stack which is smaller than those of usual threads.
fn small_stack<T>(f: impl FnOnce() -> T) -> T {
    let size = if std::env::var_os("MON_NO_LIMIT").is_some() { 6 << 20 } else { 1 << 20 };
    let f = Across(f);
    let r = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(size)
            .spawn_scoped(s, move || {
                let f = f;
                Across(catch_unwind(AssertUnwindSafe(f.0)).map_err(|p| (take_panic(), p)))
            })
            .expect("spawn")
            .join()
    });
    match r {
        Ok(Across(Ok(t))) => t,
        Ok(Across(Err((at, p)))) => pass_on(at, p),
        Err(p) => std::panic::resume_unwind(p),
    }
}

fn x07(c: &mut Case) -> R {
    let rng = &mut c.rng.clone();
    match rng.below(200) {
        0..=69 => importing(c, rng),
        70..=188 => building(c, rng),
        189 => deep(c, rng),
        _ => symlinks(c, rng),
    }
}

// ---- importing ---------------------------------------------------------------------------------

fn importing(c: &mut Case, rng: &mut Rng) -> R {
    let cfg = Config {
        chunk: match rng.below(8) {
            0 => None,
            1 => Some(usize::MAX - rng.usize(0, 2)),
            2 => Some((rng.wide() as usize).max(1)),
            3 => Some(1),
            _ => Some(rng.usize(1, 40)),
        },
        k: match rng.below(8) {
            0 => None,
            1 => Some(usize::MAX - rng.usize(0, 2)),
            2 => Some((rng.wide() as usize).max(2)),
            3 | 4 => Some(2),
            _ => Some(rng.usize(2, 9)),
        },
    };
    let n = match cfg.chunk {
        Some(k) if k < 100 => k * rng.usize(0, 70),
        _ => *rng.pick(&[0, 1, 5, 300, 4096, 262144, 300000]),
    };
    let data = rng.bytes(n);
    let feed = Feed::random(rng);
    c.describe(|| format!("import of {} bytes, {:?} {:?}", n, cfg, feed));
    if let Some(k) = cfg.k {
        shown("a collector", format!("{:?}", BalancedCollector::with_branching_factor(k)))?;
        shown("a collector", format!("{:?}", Collector::from(BalancedCollector::with_branching_factor(k))))?;
    } else {
        shown("a collector", format!("{:?} {:?}", BalancedCollector::default(), Collector::default()))?;
    }
    shown("a chunker", format!("{:?} {:?}", Chunker::default(), cfg.chunk.map(Chunker::Size)))?;
    let mut adder = cfg.adder();
    let mut r = rng.clone();
    let mut at = 0;
    let stop = if rng.one_in(4) { rng.usize(0, n) } else { n };
    let mut blocks = 0;
    while at < stop {
        let want = match feed {
            Feed::All => n,
            Feed::Hint => adder.size_hint(),
            Feed::Fixed(k) => k,
            Feed::Random(_) => r.usize(0, 50),
        };
        let end = at.saturating_add(want.max(1)).min(n);
        let empty = r.one_in(9);
        let piece = if empty { &data[at..at] } else { &data[at..end] };
        let (it, used) = adder.push(piece);
        // not everybody stores what a push gives
        blocks += if r.one_in(30) { 0 } else { it.count() };
        ensure!(used <= piece.len(), "a push of {} bytes used {}", piece.len(), used);
        ensure!(used > 0 || empty, "a push of {} bytes used nothing", piece.len());
        at += used;
        shown("an import", format!("{:?}", adder))?;
        let _ = adder.size_hint();
        c.add("pushes", 1);
    }
    shown("an import", format!("{:#?} {}", adder, adder.size_hint()))?;
    match rng.below(4) {
        0 => drop(adder),
        1 => {
            let mut it = adder.finish();
            blocks += it.next().is_some() as usize;
        }
        _ => blocks += adder.finish().count(),
    }
    c.add("blocks of imports", blocks as u64);
    c.counts(fp2(fp(format!("{:?}{:?}", cfg, feed).as_bytes()), fp2(n as u64, stop as u64)));
    // the usual way, for what it checks itself
    if rng.one_in(20) {
        import::import(&cfg, &data, &feed)?;
    }
    Ok(())
}

// ---- building ----------------------------------------------------------------------------------

fn strange(rng: &mut Rng) -> String {
    match rng.below(14) {
        0 => String::new(),
        1 => ".".into(),
        2 => "..".into(),
        3 => "/".repeat(rng.usize(1, 3)),
        4 => "\u{0}".into(),
        5 => rng.pick(&["é", "日本語", "🦀", "e\u{301}", "\u{feff}", "\u{10ffff}", "ß/é"]).to_string(),
        6 => "x".repeat(rng.usize(100, 5000)),
        7 => "🦀é".repeat(rng.usize(20, 400)),
        8 => rng.pick(&["a", "b"]).to_string(),
        9 => "\\".into(),
        10 => format!("{}", rng.below(300)),
        11 => rng.pick(&["\n", "%s", "{}", "\"", "a b", "~", "C:"]).to_string(),
        _ => rng.pick(&["a", "b", "c", "d", "aa", "ab"]).to_string(),
    }
}

fn path(rng: &mut Rng) -> String {
    if rng.one_in(3000) {
        return format!("a/{}", rng.pick(&["é", "n", "🦀x"]).repeat(rng.usize(1 << 19, 1 << 20)));
    }
    let n = match rng.below(20) {
        0 => rng.usize(50, 400),
        _ => rng.usize(1, 5),
    };
    let easy = rng.one_in(2);
    let v: Vec<String> = (0..n)
        .map(|_| if easy { rng.pick(&["a", "b", "c", "d"]).to_string() } else { strange(rng) })
        .collect();
    v.join("/")
}

fn options(rng: &mut Rng) -> (TreeOptions, bool) {
    let wrap = !rng.one_in(4);
    let limit = match rng.below(6) {
        0 => None,
        1 => Some(None),
        2 => Some(Some(*rng.pick(&[0, 1, 4, 50, 51, 60, 200, 5000, u64::MAX]))),
        _ => Some(Some(1 << 40)),
    };
    (build::options(wrap, limit), !wrap && limit.is_none())
}

fn cid(rng: &mut Rng) -> Vec<u8> {
    let n = rng.usize(0, 4);
    let b = rng.bytes(n);
    cid_styled(&b, rng.below(STYLES) as u8)
}

/// What became of the iteration.
fn iterate(c: &mut Case, rng: &mut Rng, mut it: PostOrderIterator, max: usize) -> R {
    let stop = if rng.one_in(4) { rng.usize(0, max) } else { usize::MAX };
    let mut n = 0;
    let mut over = 0;
    while n < stop {
        let owned = rng.one_in(3);
        let more = if owned {
            it.next().map(|r| r.map(|n| n.block.len()).map_err(|e| format!("{} {:?}", e, e)))
        } else {
            it.next_borrowed().map(|r| {
                r.map(|n| {
                    let shown = format!("{:?}", n);
                    n.block.len() + (shown.is_empty() as usize)
                })
                .map_err(|e| format!("{} {:#?}", e, e))
            })
        };
        match more {
            None => over += 1,
            Some(Err(e)) => {
                c.add("trees too large", 1);
                shown("an error", e)?;
                if rng.bool() {
                    break;
                }
            }
            Some(Ok(_)) => {
                ensure!(over == 0, "a directory is emitted after the end");
                n += 1;
                c.add("directories", 1);
                ensure!(n <= max, "more directories than paths can have");
            }
        }
        if over == 3 {
            break;
        }
    }
    if n >= stop {
        c.add("iterations given up", 1);
    }
    Ok(())
}

fn building(c: &mut Case, rng: &mut Rng) -> R {
    let (opts, plain) = options(rng);
    shown("options", format!("{:?}", opts))?;
    let mut b = if plain && rng.bool() { BufferingTreeBuilder::default() } else { BufferingTreeBuilder::new(opts) };
    let mut key = 0;
    let mut max = 1;
    let huge = rng.one_in(10);
    for i in 0..rng.usize(0, 14) {
        let p = path(rng);
        let size = if huge && i == 0 { rng.wide() >> 1 } else { rng.wide() >> 20 };
        let r = if rng.one_in(4) {
            let mut m = Meta::random(rng);
            if rng.one_in(3) {
                m.mode = Some(rng.next() as u32);
            }
            build::perform(&mut b, &Op::Meta(p.clone(), m))
        } else {
            b.put_link(&p, cid_from(&cid(rng)), size)
        };
        key = fp2(key, fp(p.as_bytes()));
        c.add("calls of builders", 1);
        match r {
            // rejected paths may leave directories, see B02
            Ok(()) => {}
            Err(e) => {
                c.add("refused calls of builders", 1);
                shown("an error", format!("{}", e))?;
                shown("an error", format!("{:?}", e))?;
            }
        }
        max += p.split('/').count();
        if rng.one_in(3) {
            shown("a builder", format!("{:?}", b))?;
        }
    }
    c.describe(|| format!("{:?}", b));
    c.counts(key);
    if rng.one_in(8) {
        c.add("builders given up", 1);
        drop(b);
        return Ok(());
    }
    iterate(c, rng, b.build(), max)
}

/// A path of very many segments, and what else happens to be there.
fn deep(c: &mut Case, rng: &mut Rng) -> R {
    let n = rng.usize(15_000, 60_000);
    let what = rng.below(6);
    let twigs = rng.usize(0, 3);
    let seed = rng.next();
    c.add("paths of thousands of segments", 1);
    c.max("most segments of a path", n as u64);
    c.describe(|| format!("path of {} segments, way {}, {} more", n, what, twigs));
    c.counts(fp2(n as u64, fp2(what, twigs as u64)));
    let done: Result<u64, Fail> = small_stack(move || {
        let rng = &mut Rng::new(seed);
        let limit = if what == 5 { Some(Some(70)) } else { None };
        let mut b = BufferingTreeBuilder::new(build::options(rng.bool(), limit));
        let link = cid(rng);
        let put = |b: &mut BufferingTreeBuilder, p: &str| b.put_link(p, cid_from(&link), 1).map_err(|e| e.to_string());
        let path = "a/".repeat(n) + "b";
        ensure!(put(&mut b, &path).is_ok(), "a path of {} segments is refused", n);
        for _ in 0..twigs {
            let k = rng.usize(1, n);
            let p = format!("{}{}{}", "a/".repeat(k), *rng.pick(&["c/", "Z/"]), "d/".repeat(rng.usize(0, n)));
            // the last slash might be refused
            let _ = put(&mut b, &p);
            let _ = put(&mut b, p.trim_end_matches('/'));
        }
        let dir = path.trim_end_matches("/b");
        let m = Meta::random(rng);
        let r = build::perform(&mut b, &Op::Meta(dir.to_string(), m));
        ensure!(r.is_ok(), "metadata of a directory of {} levels is refused", n);
        let again = put(&mut b, &path);
        ensure!(again.is_err(), "the same path of {} segments is put twice", n);
        let text = format!("{:?}", b);
        ensure!(!text.is_empty(), "a builder is displayed as nothing");
        if what == 0 {
            drop(b);
            return Ok(0);
        }
        let mut it = b.build();
        let stop = match what {
            1 => 0,
            2 => rng.usize(0, 5),
            3 => rng.usize(0, n),
            _ => usize::MAX,
        };
        let mut k = 0;
        while k < stop {
            match it.next_borrowed() {
                Some(Ok(_)) => k += 1,
                Some(Err(_)) => break,
                None => {
                    ensure!(k >= n, "only {} directories of {} are emitted", k, n);
                    break;
                }
            }
        }
        if what == 5 {
            let e = it.next_borrowed().map(|r| r.is_ok());
            ensure!(e.is_none(), "after an error, something is emitted");
        }
        Ok(k as u64)
    });
    let k = done?;
    c.add("directories of deep trees", k);
    Ok(())
}

// ---- symlinks ----------------------------------------------------------------------------------

fn symlinks(c: &mut Case, rng: &mut Rng) -> R {
    let target = match rng.below(4) {
        0 => path(rng),
        1 => strange(rng).repeat(rng.usize(0, 300)),
        2 => String::from_utf8_lossy(&rng.bytes(60)).into_owned(),
        _ => strange(rng),
    };
    let n = *rng.pick(&[0, 0, 33]);
    let mut buf = rng.bytes(n);
    let before = buf.len();
    serialize_symlink_block(&target, &mut buf);
    c.describe(|| format!("symlink to {:?}", target));
    c.counts(fp2(fp(target.as_bytes()), 3));
    c.add("symlinks", 1);
    ensure!(buf.len() >= before + target.len(), "a symlink to {} bytes takes {}", target.len(), buf.len() - before);
    Ok(())
}
