//! Monitors at the boundary of the crate: they run a visit, a walk or a lookup to its end, hand out
//! blocks, and record what was announced, requested and returned at every step. Rules that hold for
//! every execution whatever the input (content lies inside the supplied block, the end of the
//! operation is announced consistently) are checked on the fly.

use crate::model::{Ev, Kind, MetaSeen, Store};
use crate::{ensure, Fail, R};
use libipld::Cid;
use std::ops::Range;
use unixfs_v1::dir::{self, MaybeResolved};
use unixfs_v1::file::visit::{Cache, FileVisit, IdleFileVisit};
use unixfs_v1::file::FileReadFailed;
use unixfs_v1::walk::{self, ContinuedWalk, Walker};
use unixfs_v1::{LookupError, Metadata, ResolveError};

pub fn cid_from(b: &[u8]) -> Cid {
    use std::convert::TryFrom;
    Cid::try_from(b).expect("the harness only makes valid identifiers here")
}

/// Position, name, hash and displayed form of a broken link, out of an error.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct BadLink {
    pub nth: usize,
    pub name: String,
    pub hash: Vec<u8>,
}

fn bad(l: &unixfs_v1::InvalidCidInLink) -> BadLink {
    BadLink {
        nth: l.nth,
        name: l.name.to_string(),
        hash: l.hash.to_vec(),
    }
}

pub fn bad_in_visit(e: &FileReadFailed) -> Option<BadLink> {
    match e {
        FileReadFailed::InvalidCid(l) => Some(bad(l)),
        _ => None,
    }
}

pub fn bad_in_walk(e: &walk::Error) -> Option<BadLink> {
    match e {
        walk::Error::InvalidCid(l) => Some(bad(l)),
        _ => None,
    }
}

pub fn bad_in_lookup(e: &LookupError) -> Option<BadLink> {
    match e {
        LookupError::InvalidCid(l) => Some(bad(l)),
        _ => None,
    }
}

pub fn bad_in_resolve(e: &ResolveError) -> Option<BadLink> {
    match e {
        ResolveError::Lookup(e) => bad_in_lookup(e),
        _ => None,
    }
}

pub fn seen(m: &Metadata) -> MetaSeen {
    (m.mode(), m.mtime())
}

/// `part` has to be a piece of `block`, not a copy and not something else.
pub fn inside(block: &[u8], part: &[u8]) -> R {
    if part.is_empty() {
        return Ok(());
    }
    let b = block.as_ptr() as usize..block.as_ptr() as usize + block.len();
    let p = part.as_ptr() as usize;
    ensure!(
        b.contains(&p) && p + part.len() <= b.end,
        "returned content of {} bytes is not a part of the supplied block of {} bytes",
        part.len(),
        block.len()
    );
    Ok(())
}

/// A block as an operation gets it: in memory which held other blocks before, and which is filled
/// with something else as soon as the step is over. Nothing may be remembered by its address.
pub struct Loan(Vec<u8>);

thread_local! {
    static MEMORY: std::cell::RefCell<Vec<u8>> = std::cell::RefCell::new(Vec::with_capacity(1 << 16));
}

pub fn lend(block: &[u8]) -> Loan {
    let mut m = MEMORY.with(|m| std::mem::take(&mut *m.borrow_mut()));
    m.clear();
    m.extend_from_slice(block);
    Loan(m)
}

impl std::ops::Deref for Loan {
    type Target = [u8];
    fn deref(&self) -> &[u8] {
        &self.0
    }
}

impl Drop for Loan {
    fn drop(&mut self) {
        let mut m = std::mem::take(&mut self.0);
        for b in m.iter_mut() {
            *b = 0xb5;
        }
        MEMORY.with(|x| *x.borrow_mut() = m);
    }
}

// ---- file visits -------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct VStep {
    pub block: Vec<u8>,
    pub bytes: Vec<u8>,
    /// Reported after the step; `None` when the visit is over and nobody is left to ask.
    pub total: Option<u64>,
    pub meta: Option<MetaSeen>,
    /// Announced after the step, the next one first.
    pub pending: Vec<Vec<u8>>,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct VLog {
    pub steps: Vec<VStep>,
    /// Debug form of the error, if it ended with one: `File(LinksAndBlocksizesMismatch)`.
    pub err: Option<String>,
    /// Displayed form.
    pub err_text: String,
    pub bad_link: Option<BadLink>,
}

impl VLog {
    pub fn bytes(&self) -> Vec<u8> {
        self.steps.iter().flat_map(|s| s.bytes.iter().copied()).collect()
    }
    pub fn brief(&self) -> String {
        let s: Vec<String> = self
            .steps
            .iter()
            .map(|s| {
                format!(
                    "{}:{}b/{:?}+{}",
                    crate::model::tail(&s.block),
                    s.bytes.len(),
                    s.total,
                    s.pending.len()
                )
            })
            .collect();
        format!("[{}] err={:?}", s.join(" "), self.err)
    }
}

fn visit_pending(v: &FileVisit) -> Vec<Vec<u8>> {
    let (first, rest) = v.pending_links();
    std::iter::once(first).chain(rest).map(|c| c.to_bytes()).collect()
}

/// One visit which can be advanced step by step.
pub struct VisitRun<'s> {
    store: &'s Store,
    root: Vec<u8>,
    idle: Option<IdleFileVisit>,
    visit: Option<FileVisit>,
    pub log: VLog,
    pub done: bool,
    limit: usize,
}

impl<'s> VisitRun<'s> {
    pub fn new(store: &'s Store, root: &[u8], range: Option<Range<u64>>, limit: usize) -> Self {
        let mut idle = IdleFileVisit::default();
        if let Some(r) = range {
            if r.start % 5 == 3 {
                // the latter is what counts
                idle = idle.with_target_range(r.end..r.end.saturating_add(7));
            }
            idle = idle.with_target_range(r);
        }
        VisitRun {
            store,
            root: root.to_vec(),
            idle: Some(idle),
            visit: None,
            log: VLog::default(),
            done: false,
            limit,
        }
    }

    pub fn look(&self) -> String {
        match (&self.idle, &self.visit) {
            (Some(i), _) => format!("{:?}", i),
            (_, Some(v)) => format!("{:?} {} {:?} {:?}", visit_pending(v), v.file_size(), v.as_ref(), v),
            _ => String::new(),
        }
    }

    pub fn step(&mut self, cache: &mut Option<Cache>) -> R {
        ensure!(
            self.log.steps.len() < self.limit,
            "the visit does not come to an end: {} steps",
            self.log.steps.len()
        );
        if let Some(idle) = self.idle.take() {
            let block = self.store.get(&self.root).ok_or_else(|| Fail::new("root missing".into()))?;
            let block = &*lend(block);
            match idle.start(block) {
                Ok((bytes, total, meta, next)) => {
                    inside(block, bytes)?;
                    let pending = next.as_ref().map(visit_pending).unwrap_or_default();
                    if let Some(v) = &next {
                        ensure!(
                            v.file_size() == total && seen(v.as_ref()) == seen(&meta),
                            "start() reports total size {} and {:?}, the visit it returns {} and {:?}",
                            total,
                            meta,
                            v.file_size(),
                            v.as_ref()
                        );
                    }
                    self.log.steps.push(VStep {
                        block: self.root.clone(),
                        bytes: bytes.to_vec(),
                        total: Some(total),
                        meta: Some(seen(&meta)),
                        pending,
                    });
                    self.done = next.is_none();
                    self.visit = next;
                }
                Err(e) => {
                    self.log.err = Some(format!("{:?}", e));
                    self.log.err_text = e.to_string();
                    self.log.bad_link = bad_in_visit(&e);
                    self.done = true;
                }
            }
        } else if let Some(v) = self.visit.take() {
            let want = v.pending_links().0.to_bytes();
            let block = self
                .store
                .get(&want)
                .ok_or_else(|| Fail::new(format!("requests {}, which no block of the file links to", crate::util::hex(&want))))?;
            let block = &*lend(block);
            match v.continue_walk(block, cache) {
                Ok((bytes, next)) => {
                    inside(block, bytes)?;
                    self.log.steps.push(VStep {
                        block: want,
                        bytes: bytes.to_vec(),
                        total: next.as_ref().map(|v| v.file_size()),
                        meta: next.as_ref().map(|v| seen(v.as_ref())),
                        pending: next.as_ref().map(visit_pending).unwrap_or_default(),
                    });
                    self.done = next.is_none();
                    self.visit = next;
                }
                Err(e) => {
                    self.log.err = Some(format!("{:?}", e));
                    self.log.err_text = e.to_string();
                    self.log.bad_link = bad_in_visit(&e);
                    self.done = true;
                }
            }
        }
        Ok(())
    }
}

pub fn visit(
    store: &Store,
    root: &[u8],
    range: Option<Range<u64>>,
    cache: &mut Option<Cache>,
    limit: usize,
) -> Result<VLog, Fail> {
    let mut run = VisitRun::new(store, root, range, limit);
    while !run.done {
        run.step(cache)?;
    }
    Ok(run.log)
}

// ---- walks -------------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct WStep {
    pub ev: Ev,
    pub pending: Vec<Vec<u8>>,
}

#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct WLog {
    pub steps: Vec<WStep>,
    /// The block that made it fail and the debug form of the error.
    pub err: Option<(Vec<u8>, String)>,
    pub err_text: String,
    pub bad_link: Option<BadLink>,
}

impl WLog {
    pub fn brief(&self) -> String {
        let mut s: Vec<String> = self.steps.iter().map(|s| s.ev.brief()).collect();
        if let Some((b, e)) = &self.err {
            s.push(format!("error {} at {}", e, crate::model::tail(b)));
        }
        s.join("\n    ")
    }
    pub fn sequence(&self) -> u64 {
        let mut h = 0;
        for s in &self.steps {
            h = crate::util::fp2(h, s.ev.kind as u64 + 1);
        }
        h
    }
}

pub fn walk_pending(w: &Walker) -> Vec<Vec<u8>> {
    let (first, rest) = w.pending_links();
    std::iter::once(first).chain(rest).map(|c| c.to_bytes()).collect()
}

pub fn observe(item: &ContinuedWalk<'_>, block: &[u8], supplied: &[u8]) -> Result<Ev, Fail> {
    let mut e = match item {
        ContinuedWalk::Bucket(cid, path) => {
            Ev::bare(Kind::Bucket, &cid.to_bytes(), &path.to_path_buf())
        }
        ContinuedWalk::Directory(cid, path, m) => {
            let mut e = Ev::bare(Kind::Dir, &cid.to_bytes(), &path.to_path_buf());
            e.meta = Some(seen(m));
            e
        }
        ContinuedWalk::RootDirectory(cid, path, m) => {
            let mut e = Ev::bare(Kind::Root, &cid.to_bytes(), &path.to_path_buf());
            e.meta = Some(seen(m));
            e
        }
        ContinuedWalk::Symlink(bytes, cid, path, m) => {
            inside(block, bytes)?;
            let mut e = Ev::bare(Kind::Symlink, &cid.to_bytes(), &path.to_path_buf());
            e.meta = Some(seen(m));
            e.bytes = bytes.to_vec();
            e
        }
        ContinuedWalk::File(seg, cid, path, m, total) => {
            inside(block, seg.as_bytes())?;
            ensure!(
                seg.as_bytes() == seg.as_ref(),
                "the two ways to get at the bytes of a segment differ"
            );
            let mut e = Ev::bare(Kind::File, &cid.to_bytes(), &path.to_path_buf());
            e.meta = Some(seen(m));
            e.bytes = seg.as_bytes().to_vec();
            e.first = seg.is_first();
            e.last = seg.is_last();
            e.total = *total;
            e
        }
    };
    e.block = supplied.to_vec();
    Ok(e)
}

pub struct WalkRun<'s> {
    store: &'s Store,
    walker: Walker,
    pub log: WLog,
    pub done: bool,
    limit: usize,
}

impl<'s> WalkRun<'s> {
    pub fn new(store: &'s Store, root: &[u8], name: &str, limit: usize) -> Self {
        let walker = Walker::new(cid_from(root), name.to_string());
        WalkRun {
            store,
            done: !walker.should_continue(),
            walker,
            log: WLog::default(),
            limit,
        }
    }

    pub fn pending(&self) -> Vec<Vec<u8>> {
        walk_pending(&self.walker)
    }

    pub fn look(&self) -> String {
        if self.done {
            return String::new();
        }
        format!("{:?} {} {:?}", self.pending(), self.walker.should_continue(), self.walker)
    }

    pub fn step(&mut self, cache: &mut Option<Cache>) -> R {
        ensure!(
            self.log.steps.len() < self.limit,
            "the walk does not come to an end: {} steps",
            self.log.steps.len()
        );
        let want = self.walker.pending_links().0.to_bytes();
        let block = self
            .store
            .get(&want)
            .ok_or_else(|| Fail::new(format!("requests {}, which no block of the tree links to", crate::util::hex(&want))))?;
        let block = &*lend(block);
        let ev = match self.walker.next(block, cache) {
            Ok(item) => observe(&item, block, &want)?,
            Err(e) => {
                self.log.err = Some((want, format!("{:?}", e)));
                self.log.err_text = e.to_string();
                self.log.bad_link = bad_in_walk(&e);
                self.done = true;
                ensure!(
                    !self.walker.should_continue(),
                    "should_continue() is true after an error"
                );
                return Ok(());
            }
        };
        self.done = !self.walker.should_continue();
        self.log.steps.push(WStep {
            ev,
            pending: if self.done {
                Vec::new()
            } else {
                walk_pending(&self.walker)
            },
        });
        Ok(())
    }
}

pub fn walk(
    store: &Store,
    root: &[u8],
    name: &str,
    cache: &mut Option<Cache>,
    limit: usize,
) -> Result<WLog, Fail> {
    let mut run = WalkRun::new(store, root, name, limit);
    ensure!(!run.done, "a new walker has nothing to do");
    ensure!(
        run.pending() == vec![root.to_vec()],
        "a new walker announces something else than its root: {:?}",
        run.pending().len()
    );
    while !run.done {
        run.step(cache)?;
    }
    Ok(run.log)
}

/// The variant name of an error, out of its debug form.
pub fn variant(debug: &str) -> &str {
    debug
        .split(|c: char| !(c.is_alphanumeric() || c == '_'))
        .next()
        .unwrap_or("")
}

#[allow(dead_code)]
pub fn walk_error_is(e: &walk::Error, name: &str) -> bool {
    variant(&format!("{:?}", e)) == name
}

// ---- lookups -----------------------------------------------------------------------------------

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Found {
    Target(Vec<u8>),
    No,
    Err(String, String),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct LLog {
    /// Blocks supplied, and what was announced after each, the next one first.
    pub steps: Vec<(Vec<u8>, Vec<Vec<u8>>)>,
    pub end: Found,
    pub bad_link: Option<BadLink>,
}

pub enum LState<'n> {
    Start(Vec<u8>, &'n str),
    Going(dir::ShardedLookup<'n>),
    Over,
}

fn lookup_pending(l: &dir::ShardedLookup<'_>) -> Vec<Vec<u8>> {
    let (first, rest) = l.pending_links();
    std::iter::once(first).chain(rest).map(|c| c.to_bytes()).collect()
}

pub struct LookupRun<'s, 'n> {
    store: &'s Store,
    state: LState<'n>,
    pub steps: Vec<(Vec<u8>, Vec<Vec<u8>>)>,
    pub end: Option<Found>,
    limit: usize,
    /// Own the needle before this step.
    pub own_at: Option<usize>,
    pub bad_link: Option<BadLink>,
}

impl<'s, 'n> LookupRun<'s, 'n> {
    pub fn new(store: &'s Store, root: &[u8], needle: &'n str, limit: usize) -> Self {
        LookupRun {
            store,
            state: LState::Start(root.to_vec(), needle),
            steps: Vec::new(),
            end: None,
            limit,
            own_at: None,
            bad_link: None,
        }
    }

    pub fn look(&self) -> String {
        match &self.state {
            LState::Going(l) => format!("{:?} {:?}", lookup_pending(l), l),
            _ => String::new(),
        }
    }

    pub fn step(&mut self, cache: &mut Option<dir::Cache>) -> R {
        ensure!(
            self.steps.len() < self.limit,
            "the lookup does not come to an end: {} steps",
            self.steps.len()
        );
        let n = self.steps.len();
        let (block_cid, res): (Vec<u8>, Result<MaybeResolved<'n>, (String, String, Option<BadLink>)>) =
            match std::mem::replace(&mut self.state, LState::Over) {
                LState::Start(root, needle) => {
                    let block = self.store.get(&root).ok_or_else(|| Fail::new("root missing".into()))?;
                    let block = lend(block);
                    let r = unixfs_v1::resolve(&block, needle, cache)
                        .map_err(|e| (format!("{:?}", e), e.to_string(), bad_in_resolve(&e)));
                    (root, r)
                }
                LState::Going(mut l) => {
                    if self.own_at == Some(n) {
                        let was = lookup_pending(&l);
                        l = l.with_owned_needle();
                        ensure!(
                            was == lookup_pending(&l),
                            "a lookup announces other blocks once it owns the name: {} before, {} after",
                            was.len(),
                            lookup_pending(&l).len()
                        );
                    }
                    let want = l.pending_links().0.to_bytes();
                    let block = self.store.get(&want).ok_or_else(|| {
                        Fail::new(format!("requests {}, which no block links to", crate::util::hex(&want)))
                    })?;
                    let block = lend(block);
                    let r = l
                        .continue_walk(&block, cache)
                        .map_err(|e| (format!("{:?}", e), e.to_string(), bad_in_lookup(&e)));
                    (want, r)
                }
                LState::Over => return Ok(()),
            };
        let mut pending = Vec::new();
        match res {
            Ok(MaybeResolved::Found(c)) => self.end = Some(Found::Target(c.to_bytes())),
            Ok(MaybeResolved::NotFound) => self.end = Some(Found::No),
            Ok(MaybeResolved::NeedToLoadMore(l)) => {
                pending = lookup_pending(&l);
                self.state = LState::Going(l);
            }
            Err((d, t, b)) => {
                self.end = Some(Found::Err(d, t));
                self.bad_link = b;
            }
        }
        self.steps.push((block_cid, pending));
        Ok(())
    }
}

pub fn lookup(
    store: &Store,
    root: &[u8],
    needle: &str,
    cache: &mut Option<dir::Cache>,
    own_at: Option<usize>,
    limit: usize,
) -> Result<LLog, Fail> {
    let mut run = LookupRun::new(store, root, needle, limit);
    run.own_at = own_at;
    while run.end.is_none() {
        run.step(cache)?;
    }
    Ok(LLog {
        steps: run.steps,
        bad_link: run.bad_link,
        end: run.end.unwrap(),
    })
}

/// The conversion of the collections of the caller to caches, where the tree at hand has it: the
/// monitors do not fail to build over a conversion which has nothing to do with what they decide.
pub struct CacheFrom<S, T>(pub Option<S>, pub std::marker::PhantomData<T>);

impl<S, T: From<S>> CacheFrom<S, T> {
    pub fn make(&mut self) -> Option<T> {
        self.0.take().map(T::from)
    }
}

pub trait NoCacheFrom<T> {
    fn make(&mut self) -> Option<T>;
}

impl<S, T> NoCacheFrom<T> for &mut CacheFrom<S, T> {
    fn make(&mut self) -> Option<T> {
        None
    }
}

pub fn dir_cache(q: std::collections::VecDeque<Cid>) -> Option<dir::Cache> {
    #[allow(unused_imports)]
    use self::NoCacheFrom as _;
    let mut from = CacheFrom::<_, dir::Cache>(Some(q), std::marker::PhantomData);
    (&mut from).make()
}

pub fn file_cache(q: Vec<(Cid, Range<u64>)>) -> Option<Cache> {
    #[allow(unused_imports)]
    use self::NoCacheFrom as _;
    let mut from = CacheFrom::<_, Cache>(Some(q), std::marker::PhantomData);
    (&mut from).make()
}

/// Caches made from what callers may have in their collections.
pub fn stale_file_cache(rng: &mut crate::util::Rng) -> Option<Cache> {
    let n = *rng.pick(&[0, 1, 2, 5, 64, 200]);
    let mut q = Vec::with_capacity(n + rng.usize(0, 100));
    for i in 0..n as u64 {
        q.push((cid_from(&crate::util::cid_of(b"stale")), i..i + 1));
    }
    file_cache(q)
}

pub fn stale_dir_cache(rng: &mut crate::util::Rng) -> Option<dir::Cache> {
    let n = *rng.pick(&[0, 1, 2, 5, 64, 200]);
    let mut q = std::collections::VecDeque::with_capacity(n + rng.usize(0, 100));
    for _ in 0..n {
        q.push_back(cid_from(&crate::util::cid_of(b"stale")));
    }
    dir_cache(q)
}
