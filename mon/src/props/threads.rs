//! X04: operations on several threads.

use super::build::{self, Built};
use super::hostile::{self, Caches, Job, Log, Run};
use super::import::{self, Config};
use super::{Prop, EXPLORED, ORACLE};
use crate::model::Store;
use crate::util::{fp, fp2, Rng};
use crate::{ensure, pass_on, take_panic, Across, Case, Fail, R};
use std::collections::VecDeque;
use std::marker::PhantomData;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use unixfs_v1::dir::builder::{BufferingTreeBuilder, PostOrderIterator};
use unixfs_v1::file::adder::FileAdder;

pub static PROPS: &[Prop] = &[Prop {
    id: "X04",
    title: "Operations can change threads and run on several at once",
    run: x04,
    quick: 6000,
    rule: "three to eight imports, directory builds, visits, walks and lookups (half of the time over damaged blocks) are first run one by one on a fresh thread, then by three or four threads at once which pass them around between their steps together with the caches, and the complete logs are compared; then states half way are read by several threads at once; counted when at least one operation changed threads between two of its steps",
    assumptions: &[ORACLE, EXPLORED, "Which thread performs which step is up to the system's scheduler; the number of observed schedules is in the evidence. Data races proper are only looked for by the ThreadSanitizer of the thorough tier: the crate has no unsafe code of its own."],
}];

// ---- what the types promise --------------------------------------------------------------------

trait Otherwise {
    const SEND: bool = false;
    const SYNC: bool = false;
}
struct Sends<T: ?Sized>(PhantomData<T>);
struct Syncs<T: ?Sized>(PhantomData<T>);
impl<T: ?Sized> Otherwise for Sends<T> {}
impl<T: ?Sized> Otherwise for Syncs<T> {}
impl<T: ?Sized + Send> Sends<T> {
    const SEND: bool = true;
}
impl<T: ?Sized + Sync> Syncs<T> {
    const SYNC: bool = true;
}

macro_rules! promises {
    ($($t:ty),* $(,)?) => {
        &[$((stringify!($t), Sends::<$t>::SEND, Syncs::<$t>::SYNC)),*]
    };
}

static PROMISES: &[(&str, bool, bool)] = promises![
    unixfs_v1::file::adder::FileAdder,
    unixfs_v1::file::adder::FileAdderBuilder,
    unixfs_v1::file::adder::Chunker,
    unixfs_v1::file::adder::Collector,
    unixfs_v1::file::adder::BalancedCollector,
    unixfs_v1::file::visit::IdleFileVisit,
    unixfs_v1::file::visit::FileVisit,
    unixfs_v1::file::visit::Cache,
    unixfs_v1::file::FileReadFailed,
    unixfs_v1::file::FileError,
    unixfs_v1::dir::Cache,
    unixfs_v1::dir::ShardedLookup<'static>,
    unixfs_v1::dir::MaybeResolved<'static>,
    unixfs_v1::ResolveError,
    unixfs_v1::LookupError,
    unixfs_v1::dir::MultipleMatchingLinks,
    unixfs_v1::InvalidCidInLink,
    unixfs_v1::UnexpectedNodeType,
    unixfs_v1::Metadata,
    unixfs_v1::dir::builder::BufferingTreeBuilder,
    unixfs_v1::dir::builder::PostOrderIterator,
    unixfs_v1::dir::builder::TreeOptions,
    unixfs_v1::dir::builder::OwnedTreeNode,
    unixfs_v1::dir::builder::TreeNode<'static>,
    unixfs_v1::dir::builder::TreeBuildingFailed,
    unixfs_v1::dir::builder::TreeConstructionFailed,
    unixfs_v1::walk::Walker,
    unixfs_v1::walk::ContinuedWalk<'static>,
    unixfs_v1::walk::FileSegment<'static>,
    unixfs_v1::walk::Error,
    unixfs_v1::FlatUnixFs<'static>,
    unixfs_v1::UnixFs<'static>,
    unixfs_v1::PBNode<'static>,
    unixfs_v1::PBLink<'static>,
    unixfs_v1::dagpb::NodeData<Vec<u8>>,
];

// ---- tasks -------------------------------------------------------------------------------------

enum Task {
    Read(Job),
    Import(Config, Vec<u8>, Vec<usize>),
    Build(bool, Option<Option<u64>>, Vec<build::Op>),
}

#[derive(Debug, PartialEq, Clone)]
enum Outcome {
    Read(Log),
    Blocks(Vec<(Vec<u8>, Vec<u8>)>, Vec<usize>),
    Tree(Vec<String>, Built),
}

enum State<'s> {
    Read(Run<'s>),
    Import {
        adder: Option<FileAdder>,
        content: &'s [u8],
        cuts: &'s [usize],
        at: usize,
        n: usize,
        blocks: Vec<(Vec<u8>, Vec<u8>)>,
        hints: Vec<usize>,
    },
    Put {
        builder: Option<BufferingTreeBuilder>,
        ops: &'s [build::Op],
        answers: Vec<String>,
    },
    Emit {
        it: PostOrderIterator,
        answers: Vec<String>,
        built: Built,
        done: bool,
    },
    Gone,
}

impl<'s> State<'s> {
    fn new(store: &'s Store, t: &'s Task) -> State<'s> {
        match t {
            Task::Read(j) => State::Read(Run::new(store, j)),
            Task::Import(cfg, content, cuts) => State::Import {
                adder: Some(cfg.adder()),
                content,
                cuts,
                at: 0,
                n: 0,
                blocks: Vec::new(),
                hints: Vec::new(),
            },
            Task::Build(wrap, limit, ops) => State::Put {
                builder: Some(BufferingTreeBuilder::new(build::options(*wrap, *limit))),
                ops,
                answers: Vec::new(),
            },
        }
    }

    fn done(&self) -> bool {
        match self {
            State::Read(r) => r.done(),
            State::Import { adder, .. } => adder.is_none(),
            State::Put { .. } => false,
            State::Emit { done, .. } => *done,
            State::Gone => true,
        }
    }

    fn step(&mut self, k: &mut Caches) -> R {
        *self = match std::mem::replace(self, State::Gone) {
            State::Read(mut r) => {
                r.step(k)?;
                State::Read(r)
            }
            State::Import {
                adder,
                content,
                cuts,
                mut at,
                mut n,
                mut blocks,
                mut hints,
            } => {
                let mut adder = adder;
                if at == content.len() {
                    if let Some(a) = adder.take() {
                        blocks.extend(a.finish().map(|(c, b)| (c.to_bytes(), b)));
                    }
                } else if let Some(a) = adder.as_mut() {
                    hints.push(a.size_hint());
                    let end = (at + cuts[n % cuts.len()]).min(content.len());
                    n += 1;
                    let (b, used) = a.push(&content[at..end]);
                    blocks.extend(b.map(|(c, b)| (c.to_bytes(), b)));
                    at += used;
                    ensure!(at <= end && n <= 2 * content.len() + 2, "an import does not get on");
                }
                State::Import {
                    adder,
                    content,
                    cuts,
                    at,
                    n,
                    blocks,
                    hints,
                }
            }
            State::Put {
                builder,
                ops,
                mut answers,
            } => match builder {
                Some(mut b) if answers.len() < ops.len() => {
                    answers.push(match build::perform(&mut b, &ops[answers.len()]) {
                        Ok(()) => String::new(),
                        Err(e) => format!("{:?} {}", e, e),
                    });
                    State::Put {
                        builder: Some(b),
                        ops,
                        answers,
                    }
                }
                Some(b) => State::Emit {
                    it: b.build(),
                    answers,
                    built: Built::default(),
                    done: false,
                },
                None => State::Gone,
            },
            State::Emit {
                mut it,
                answers,
                mut built,
                ..
            } => {
                let borrowed = built.out.len() % 2 == 0;
                let done = build::next(&mut it, borrowed, &mut built)?;
                ensure!(built.out.len() < 100_000, "building does not come to an end");
                State::Emit {
                    it,
                    answers,
                    built,
                    done,
                }
            }
            State::Gone => State::Gone,
        };
        Ok(())
    }

    fn outcome(self) -> Outcome {
        match self {
            State::Read(r) => Outcome::Read(r.log()),
            State::Import { blocks, hints, .. } => Outcome::Blocks(blocks, hints),
            State::Emit { answers, built, .. } => Outcome::Tree(answers, built),
            State::Put { answers, .. } => Outcome::Tree(answers, Built::default()),
            State::Gone => Outcome::Blocks(Vec::new(), Vec::new()),
        }
    }

    /// Everything that can be asked for without going on.
    fn look(&self) -> String {
        match self {
            State::Read(r) => r.look(),
            State::Import { adder, .. } => adder
                .as_ref()
                .map(|a| format!("{} {:?}", a.size_hint(), a))
                .unwrap_or_default(),
            State::Put { builder, .. } => format!("{:?}", builder.is_some()),
            State::Emit { .. } | State::Gone => String::new(),
        }
    }
}

fn prints(all: &[Outcome]) -> u64 {
    all.iter().fold(0, |h, o| {
        fp2(
            h,
            match o {
                Outcome::Read(l) => fp(format!("{:?}", l).as_bytes()),
                Outcome::Blocks(b, _) => b.iter().fold(1, |h, b| fp2(h, fp(&b.0))),
                Outcome::Tree(_, b) => b.out.iter().fold(2, |h, o| fp2(h, fp(&o.cid))),
            },
        )
    })
}

fn alone(store: &Store, t: &Task) -> Result<(Outcome, usize), Fail> {
    let mut s = State::new(store, t);
    let mut n = 0;
    while !s.done() {
        s.step(&mut Caches::default())?;
        n += 1;
    }
    Ok((s.outcome(), n))
}

// ---- threads -----------------------------------------------------------------------------------

struct Held<'s> {
    id: usize,
    state: State<'s>,
    last: usize,
}

#[derive(Default)]
struct Seen {
    steps: u64,
    moves: u64,
    /// Operations held by threads at the moment one was taken.
    most: u64,
    together: u64,
    schedule: u64,
}

fn some_tasks(c: &mut Case, rng: &mut Rng, store: &mut Store, stampede: bool) -> Vec<Task> {
    let mut tasks = Vec::new();
    // of one kind, so that they meet in the same places
    let only = if stampede { rng.below(4) } else { 3 };
    if only == 3 || only == 0 {
        tasks.extend(hostile::some_jobs(rng, store).into_iter().map(Task::Read));
    }
    let imports = match only {
        1 => rng.usize(2, 4),
        3 => rng.usize(0, 2),
        _ => 0,
    };
    let large = only == 1 && rng.one_in(12);
    for _ in 0..imports {
        if large {
            let n = rng.usize(1_000_000, 1_300_000);
            let salt = rng.next();
            let content = (0..n as u64).map(|i| (i.wrapping_mul(0x9e37_79b9) ^ salt) as u8).collect();
            let cfg = Config {
                chunk: Some(*rng.pick(&[n / 6, n / 3 + 1, n / 2 + 1, n])),
                k: Some(rng.usize(2, 4)),
            };
            tasks.push(Task::Import(cfg, content, vec![n]));
            continue;
        }
        c.rng = Rng::new(rng.next());
        let (cfg, content, _) = import::case(c);
        let content = content[..content.len().min(3000)].to_vec();
        let cfg = Config {
            chunk: cfg.chunk.map(|n| n.max(content.len() / 100 + 1)),
            k: cfg.k,
        };
        let cuts = (0..rng.usize(1, 5)).map(|_| rng.usize(1, content.len().max(1))).collect();
        tasks.push(Task::Import(cfg, content, cuts));
    }
    let builds = match only {
        2 => rng.usize(2, 4),
        3 => rng.usize(0, 2),
        _ => 0,
    };
    for _ in 0..builds {
        let wrap = rng.bool();
        let limit = if rng.one_in(4) { Some(Some(rng.range(0, 600))) } else { None };
        let (_, mut ops) = build::compatible(rng, wrap, false);
        ops.truncate(if only == 2 { 400 } else { 60 });
        if rng.one_in(3) {
            // some are refused
            for _ in 0..rng.usize(1, 3) {
                if !ops.is_empty() {
                    let o = rng.pick(&ops).clone();
                    let at = rng.idx(ops.len() + 1);
                    ops.insert(at, o);
                }
            }
        }
        tasks.push(Task::Build(wrap, limit, ops));
    }
    if only == 2 {
        // two bushy ones: directories with both links and directories
        for n in 0..2u64 {
            let mut ops = Vec::new();
            let (a, b) = (rng.usize(2, 9), rng.usize(2, 7));
            for i in 0..rng.usize(20, 120) {
                let d = format!("{}/{}/{}", i % a, i % b, i);
                ops.push(build::Op::Put(format!("{}/x", d), crate::util::cid_of(&n.to_le_bytes()), i as u64));
                ops.push(build::Op::Put(format!("{}/y/z", d), crate::util::cid_of(d.as_bytes()), n));
            }
            tasks.push(Task::Build(true, Some(None), ops));
        }
    }
    tasks
}

/// Every thread performs all of the operations, each from its beginning to its end.
fn all_at_once(c: &mut Case, rng: &mut Rng, store: &Store, tasks: &[Task], want: &[Outcome]) -> R {
    let workers = 4;
    let large = tasks.iter().any(|t| matches!(t, Task::Import(_, d, _) if d.len() >= 1_000_000));
    let rounds = if c.replays() { 200 } else if large { 6 } else { 2 };
    for _ in 0..rounds {
        let orders: Vec<Vec<usize>> = (0..workers)
            .map(|_| {
                let mut o: Vec<usize> = (0..tasks.len()).collect();
                rng.shuffle(&mut o);
                o
            })
            .collect();
        let gate = std::sync::Barrier::new(workers);
        let busy = AtomicUsize::new(0);
        let work = |order: &[usize]| -> Result<u64, Fail> {
            gate.wait();
            let mut met = 0;
            for i in order {
                met += (busy.fetch_add(1, Ordering::SeqCst) > 0) as u64;
                let mut s = State::new(store, &tasks[*i]);
                let mut k = Caches::default();
                while !s.done() {
                    s.step(&mut k)?;
                }
                busy.fetch_sub(1, Ordering::SeqCst);
                let got = s.outcome();
                ensure!(
                    got == want[*i],
                    "operation {} at the same time as others on other threads gives {:?}, alone it gives {:?}",
                    i,
                    got,
                    want[*i]
                );
            }
            Ok(met)
        };
        let work = Across(&work);
        let ends: Vec<_> = std::thread::scope(|s| {
            let ts: Vec<_> = orders
                .iter()
                .map(|o| {
                    let work = &work;
                    s.spawn(move || catch_unwind(AssertUnwindSafe(|| (work.0)(o))).map_err(|p| Across((take_panic(), p))))
                })
                .collect();
            ts.into_iter().map(|t| t.join()).collect()
        });
        for e in ends {
            match e {
                Ok(Ok(r)) => c.add("whole operations begun while others were under way", r?),
                Ok(Err(Across((at, p)))) => pass_on(at, p),
                Err(p) => std::panic::resume_unwind(p),
            }
        }
        c.add("whole operations at the same time", (workers * tasks.len()) as u64);
    }
    if !tasks.is_empty() {
        c.counts(prints(want));
    }
    Ok(())
}

fn x04(c: &mut Case) -> R {
    if c.idx == 0 {
        for (name, send, sync) in PROMISES {
            ensure!(*send, "{} cannot be handed to another thread", name);
            ensure!(*sync, "{} cannot be looked at from several threads", name);
        }
        c.add("types which are Send and Sync", PROMISES.len() as u64);
    }
    let rng = &mut c.rng.clone();
    let mut store = Store::default();
    // all threads start at once and nothing of the harness slows them down, or things change hands
    let stampede = rng.one_in(3);
    let tasks = some_tasks(c, rng, &mut store, stampede);
    c.describe(|| {
        tasks
            .iter()
            .map(|t| match t {
                Task::Read(j) => hostile::shown(std::slice::from_ref(j)),
                Task::Import(cfg, d, cuts) => format!("import {} bytes {:?} {:?}", d.len(), cfg, cuts),
                Task::Build(w, l, ops) => format!("build wrap {} limit {:?} {:?}", w, l, ops),
            })
            .collect::<Vec<_>>()
            .join("; ")
    });
    let mut want = Vec::new();
    let mut steps = Vec::new();
    for t in &tasks {
        let (w, n) = crate::elsewhere(|| alone(&store, t))?;
        want.push(w);
        steps.push(n);
    }
    c.add("operations", tasks.len() as u64);
    if stampede {
        return all_at_once(c, rng, &store, &tasks, &want);
    }
    let workers = rng.usize(3, 4);
    let burst = *rng.pick(&[1u64, 1, 2, 5]);
    // whether a thread would rather wait than go on with what it had last
    let keen = *rng.pick(&[1, 4, 50]);
    // for a replay the scheduler gets some more chances
    let rounds = if c.replays() { 50 } else { 1 };
    let mut moved = 0;
    for _ in 0..rounds {
        let seeds: Vec<u64> = (0..workers).map(|_| rng.next()).collect();
        let (seen, got) = circulate(&store, &tasks, &seeds, burst, keen)?;
        for (i, g) in got {
            ensure!(
                g == want[i],
                "operation {} passed around between {} threads gives {:?}, alone on one it gives {:?}",
                i,
                workers,
                g,
                want[i]
            );
        }
        c.add("steps", seen.steps);
        c.add("changes of thread between two steps", seen.moves);
        c.add("steps begun while another thread performs one", seen.together);
        c.max("most operations under way at once", seen.most);
        c.distinct("schedules", seen.schedule);
        moved += seen.moves;
        if moved > 0 {
            c.counts(fp2(seen.schedule, prints(&want)));
        }
    }

    // half way, looked at by all at once
    if rng.one_in(4) {
        let mut half = Vec::new();
        for (i, t) in tasks.iter().enumerate() {
            let mut s = State::new(&store, t);
            let n = rng.idx(steps[i] + 1);
            for _ in 0..n {
                if !s.done() {
                    s.step(&mut Caches::default())?;
                }
            }
            if !s.done() {
                let l = s.look();
                half.push((s, l));
            }
        }
        let half = Across(half);
        let half = &half;
        let bad = std::thread::scope(|sc| {
            let ts: Vec<_> = (0..3)
                .map(|i| {
                    sc.spawn(move || {
                        let all = &half.0;
                        catch_unwind(AssertUnwindSafe(|| {
                            let n = all.len();
                            (0..n)
                                .map(|j| &all[(j + i) % n])
                                .find(|(s, l)| s.look() != *l)
                                .map(|(s, l)| format!("{} instead of {}", s.look(), l))
                        }))
                        .map_err(|p| Across((take_panic(), p)))
                    })
                })
                .collect();
            ts.into_iter().map(|t| t.join()).collect::<Vec<_>>()
        });
        c.add("states looked at by several threads", half.0.len() as u64);
        for b in bad {
            match b {
                Ok(Ok(None)) => {}
                Ok(Ok(Some(m))) => return Err(Fail(format!("another thread sees a state differently: {}", m))),
                Ok(Err(Across((at, p)))) => pass_on(at, p),
                Err(p) => std::panic::resume_unwind(p),
            }
        }
    }
    Ok(())
}

fn circulate(store: &Store, tasks: &[Task], seeds: &[u64], burst: u64, keen: u64) -> Result<(Seen, Vec<(usize, Outcome)>), Fail> {
    let queue: Mutex<VecDeque<Across<Held<'_>>>> = Mutex::new(
        tasks
            .iter()
            .enumerate()
            .map(|(id, t)| {
                Across(Held {
                    id,
                    state: State::new(store, t),
                    last: usize::MAX,
                })
            })
            .collect(),
    );
    let caches: Mutex<Vec<Across<Caches>>> = Mutex::new(Vec::new());
    let finished: Mutex<Vec<(usize, Across<Outcome>)>> = Mutex::new(Vec::new());
    let seen: Mutex<Seen> = Mutex::new(Seen::default());
    let left = AtomicUsize::new(tasks.len());
    let held = AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let work = |me: usize, seed: u64| -> Result<(), Fail> {
        let mut rng = Rng::new(seed);
        while left.load(Ordering::SeqCst) > 0 && !stop.load(Ordering::SeqCst) {
            let taken = {
                let mut q = queue.lock().unwrap();
                let n = q.len();
                // nearly always what another one had before
                let t = match (0..n).find(|i| q[*i].0.last != me) {
                    Some(at) => q.remove(at),
                    None if n > 0 && rng.one_in(keen) => q.remove(0),
                    None => None,
                };
                if let Some(Across(t)) = &t {
                    let mut s = seen.lock().unwrap();
                    let now = held.fetch_add(1, Ordering::SeqCst) as u64 + 1;
                    s.most = s.most.max(now);
                    s.together += (now > 1) as u64;
                    s.moves += (t.last != usize::MAX && t.last != me) as u64;
                    s.schedule = fp2(s.schedule, (t.id * 16 + me) as u64);
                }
                t
            };
            let Some(Across(mut t)) = taken else {
                std::thread::yield_now();
                continue;
            };
            let mut k = match caches.lock().unwrap().pop() {
                Some(Across(k)) if !rng.one_in(10) => k,
                _ => Caches::default(),
            };
            let mut n = 0;
            while !t.state.done() {
                t.state.step(&mut k)?;
                n += 1;
                if rng.one_in(burst) {
                    break;
                }
            }
            caches.lock().unwrap().push(Across(k));
            held.fetch_sub(1, Ordering::SeqCst);
            seen.lock().unwrap().steps += n;
            t.last = me;
            if t.state.done() {
                finished.lock().unwrap().push((t.id, Across(t.state.outcome())));
                left.fetch_sub(1, Ordering::SeqCst);
            } else {
                queue.lock().unwrap().push_back(Across(t));
            }
        }
        Ok(())
    };
    let work = Across(&work);
    let stop_it = &stop;
    let ends: Vec<_> = std::thread::scope(|s| {
        let ts: Vec<_> = seeds
            .iter()
            .enumerate()
            .map(|(me, seed)| {
                let work = &work;
                s.spawn(move || {
                    let r = catch_unwind(AssertUnwindSafe(|| (work.0)(me, *seed)));
                    if !matches!(r, Ok(Ok(()))) {
                        stop_it.store(true, Ordering::SeqCst);
                    }
                    r.map_err(|p| Across((take_panic(), p)))
                })
            })
            .collect();
        ts.into_iter().map(|t| t.join()).collect()
    });
    for e in ends {
        match e {
            Ok(Ok(r)) => r?,
            Ok(Err(Across((at, p)))) => pass_on(at, p),
            Err(p) => std::panic::resume_unwind(p),
        }
    }
    let finished = finished.into_inner().unwrap();
    let seen = seen.into_inner().unwrap();
    Ok((seen, finished.into_iter().map(|(i, Across(o))| (i, o)).collect()))
}
