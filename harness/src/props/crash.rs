//! C12: what is on disk after a crash at any point, and operations abandoned midway.
use super::history::*;
use super::packs;
use super::reopen::LabelModel;
use super::*;
use crate::fsx::{self, own, Op};
use crate::world::*;
use crate::{ensure, viol};
use std::collections::{BTreeMap, HashMap};
use std::future::Future;
use std::path::{Path, PathBuf};
use terminus_store::layer::Layer;
use terminus_store::storage::Label;

// ------------------------------------------------------------ disk model
#[derive(Clone, Copy, PartialEq, Debug)]
enum Node {
    Dir(usize),
    File(u64),
}
#[derive(Clone)]
enum Entry {
    Put(String, Node),
    Del(String),
    Move(String, String),
}
#[derive(Clone, Default)]
struct DirObj {
    now: BTreeMap<String, Node>,
    durable: BTreeMap<String, Node>,
    pending: Vec<Entry>,
}
#[derive(Clone)]
enum Change {
    Write(u64, Vec<u8>),
    Len(u64),
}
#[derive(Clone, Default)]
struct FileObj {
    now: Vec<u8>,
    durable: Vec<u8>,
    pending: Vec<Change>,
}
/// A disk: what is visible now, and what is certain to survive a power loss.
#[derive(Clone)]
pub struct Disk {
    root: PathBuf,
    dirs: Vec<DirObj>,
    files: HashMap<u64, FileObj>,
}

fn put(m: &mut BTreeMap<String, Node>, e: &Entry) {
    match e {
        Entry::Put(n, x) => {
            m.insert(n.clone(), *x);
        }
        Entry::Del(n) => {
            m.remove(n);
        }
        Entry::Move(a, b) => {
            if let Some(x) = m.remove(a) {
                m.insert(b.clone(), x);
            }
        }
    }
}
fn change(data: &mut Vec<u8>, c: &Change) {
    match c {
        Change::Write(off, b) => {
            let end = *off as usize + b.len();
            if data.len() < end {
                data.resize(end, 0);
            }
            data[*off as usize..end].copy_from_slice(b);
        }
        Change::Len(n) => data.resize(*n as usize, 0),
    }
}

impl Disk {
    /// The directory as it is, all of it safe. Also gives the ids for the recorder.
    pub fn of(root: &Path) -> R<(Disk, HashMap<u64, u64>)> {
        own(|| {
            let mut d = Disk { root: root.to_path_buf(), dirs: vec![], files: HashMap::new() };
            let mut ids = HashMap::new();
            d.scan(root, &mut ids).env("reading the store's directory")?;
            Ok((d, ids))
        })
    }
    fn scan(&mut self, p: &Path, ids: &mut HashMap<u64, u64>) -> std::io::Result<usize> {
        use std::os::unix::fs::MetadataExt;
        let me = self.dirs.len();
        self.dirs.push(DirObj::default());
        for e in std::fs::read_dir(p)? {
            let e = e?;
            let name = e.file_name().to_string_lossy().to_string();
            let node = if e.file_type()?.is_dir() {
                Node::Dir(self.scan(&e.path(), ids)?)
            } else {
                let id = ids.len() as u64 + 1;
                ids.insert(e.metadata()?.ino(), id);
                let data = std::fs::read(e.path())?;
                self.files.insert(id, FileObj { now: data.clone(), durable: data, pending: vec![] });
                Node::File(id)
            };
            self.dirs[me].now.insert(name.clone(), node);
            self.dirs[me].durable.insert(name, node);
        }
        Ok(me)
    }
    fn dir_of(&self, p: &Path) -> Option<usize> {
        let rel = p.strip_prefix(&self.root).ok()?;
        let mut d = 0;
        for c in rel.components() {
            match self.dirs[d].now.get(c.as_os_str().to_str()?)? {
                Node::Dir(x) => d = *x,
                _ => return None,
            }
        }
        Some(d)
    }
    fn split(&self, p: &Path) -> Option<(usize, String)> {
        Some((self.dir_of(p.parent()?)?, p.file_name()?.to_str()?.to_string()))
    }
    fn entry(&mut self, d: usize, e: Entry) {
        put(&mut self.dirs[d].now, &e);
        self.dirs[d].pending.push(e);
    }
    fn file(&mut self, id: u64, c: Change) {
        let f = self.files.entry(id).or_default();
        change(&mut f.now, &c);
        f.pending.push(c);
    }
    pub fn apply(&mut self, op: &Op) {
        match op {
            Op::Create(p, id) => {
                if let Some((d, n)) = self.split(p) {
                    self.files.insert(*id, FileObj::default());
                    self.entry(d, Entry::Put(n, Node::File(*id)));
                }
            }
            Op::Truncate(id, n) => self.file(*id, Change::Len(*n)),
            Op::Write(id, off, b) => self.file(*id, Change::Write(*off, b.clone())),
            Op::Sync(id) => {
                let f = self.files.entry(*id).or_default();
                f.durable = f.now.clone();
                f.pending.clear();
            }
            Op::SyncDir(p) => {
                if let Some(d) = self.dir_of(p) {
                    self.dirs[d].durable = self.dirs[d].now.clone();
                    self.dirs[d].pending.clear();
                }
            }
            Op::Rename(a, b) => {
                if let (Some((da, na)), Some((db, nb))) = (self.split(a), self.split(b)) {
                    if da == db {
                        self.entry(da, Entry::Move(na, nb));
                    } else if let Some(x) = self.dirs[da].now.get(&na).copied() {
                        self.entry(db, Entry::Put(nb, x));
                        self.entry(da, Entry::Del(na));
                    }
                }
            }
            Op::Link(a, b) => {
                if let (Some((da, na)), Some((db, nb))) = (self.split(a), self.split(b)) {
                    if let Some(x) = self.dirs[da].now.get(&na).copied() {
                        self.entry(db, Entry::Put(nb, x));
                    }
                }
            }
            Op::Unlink(p) | Op::Rmdir(p) => {
                if let Some((d, n)) = self.split(p) {
                    self.entry(d, Entry::Del(n));
                }
            }
            Op::Mkdir(p) => {
                if let Some((d, n)) = self.split(p) {
                    let x = self.dirs.len();
                    self.dirs.push(DirObj::default());
                    self.entry(d, Entry::Put(n, Node::Dir(x)));
                }
            }
            Op::Mark(_) => {}
        }
    }
    /// Puts what is visible now (after a kill) into a directory.
    fn write_now(&self, to: &Path) -> R<()> {
        own(|| self.write(0, to, &mut |d| d.now.clone(), &mut |f| f.now.clone())).env("writing an image")
    }
    /// Puts a possible state after a power loss into a directory: entries of
    /// directories and contents of files that were not made durable may be
    /// there, or not, or in part.
    fn write_lost(&self, to: &Path, rng: &mut Rng) -> R<()> {
        let (mode_e, mode_f) = (rng.below(4), rng.below(4));
        let mut r1 = rng.fork();
        let mut r2 = rng.fork();
        own(|| {
            self.write(
                0,
                to,
                &mut |d| {
                    let mut m = d.durable.clone();
                    let k = match mode_e {
                        0 => 0,
                        1 => d.pending.len(),
                        _ => r1.below(d.pending.len() + 1),
                    };
                    for e in &d.pending[..k] {
                        put(&mut m, e);
                    }
                    m
                },
                &mut |f| {
                    let mut b = f.durable.clone();
                    match mode_f {
                        0 => {}
                        1 => b = f.now.clone(),
                        _ => {
                            for c in &f.pending {
                                match (r2.below(4), c) {
                                    (0, _) => {}
                                    (1, Change::Write(off, x)) => {
                                        let k = r2.below(x.len() + 1);
                                        change(&mut b, &Change::Write(*off, x[..k].to_vec()));
                                    }
                                    (2, Change::Write(off, x)) => {
                                        // the size arrived, the data did not
                                        let end = *off as usize + x.len();
                                        if b.len() < end {
                                            b.resize(end, 0);
                                        }
                                    }
                                    (_, c) => change(&mut b, c),
                                }
                            }
                        }
                    }
                    b
                },
            )
        })
        .env("writing an image")
    }
    fn write(&self, d: usize, to: &Path, fe: &mut dyn FnMut(&DirObj) -> BTreeMap<String, Node>, ff: &mut dyn FnMut(&FileObj) -> Vec<u8>) -> std::io::Result<()> {
        std::fs::create_dir_all(to)?;
        for (n, x) in fe(&self.dirs[d]) {
            match x {
                Node::Dir(k) => self.write(k, &to.join(&n), fe, ff)?,
                Node::File(id) => std::fs::write(to.join(&n), self.files.get(&id).map(&mut *ff).unwrap_or_default())?,
            }
        }
        Ok(())
    }
    fn unsynced(&self) -> usize {
        self.dirs.iter().map(|d| d.pending.len()).sum::<usize>() + self.files.values().map(|f| f.pending.len()).sum::<usize>()
    }
}

// ------------------------------------------------------------- the script
pub type Labels = BTreeMap<String, (u64, Option<usize>)>;
/// What holds once the n-th operation is acknowledged.
struct State {
    labels: Labels,
    layers: usize,
    what: String,
}

pub fn import_op(ctx: &mut Ctx, w: &mut World) -> R<()> {
    let bk = Bk::open(&ctx.rt, Kind::Mem, None)?;
    let mut o = World { bk, layers: vec![], pool: w.pool.clone(), rollups_done: 0, abandoned: 0, tag: "other ".into() };
    for _ in 0..ctx.rng.range(1, 3) {
        step(ctx, &mut o, &MIX)?;
    }
    let mut names: Vec<Name> = o.layers.iter().map(|l| l.name).collect();
    let pack = packs::export(ctx, &o, names.clone(), false)?.op("exporting")?;
    ctx.rng.shuffle(&mut names);
    ctx.t(format!("import {} layers", names.len()));
    packs::import(ctx, w, &pack, names, false)?.op("importing a pack")?;
    for i in 0..o.layers.len() {
        packs::adopt(ctx, &mut o, w, i)?;
    }
    ctx.stats.add("imports", 1);
    Ok(())
}

const SETUP: Mix = Mix { commit: 10, rollup: 2, rollup_upto: 1, imprecise: 1, squash: 1, squash_upto: 1, merge: 1, ..NOTHING };
const OPS: Mix = Mix { commit: 4, rollup: 4, rollup_upto: 3, imprecise: 2, squash: 2, squash_upto: 2, merge: 1, ..NOTHING };

pub fn small_world(ctx: &mut Ctx) -> R<(World, LabelModel)> {
    let kind = *ctx.rng.pick(&DISK_KINDS);
    let mut w = World::new(ctx, kind)?;
    let n = ctx.rng.range(0, 5);
    for _ in 0..n {
        step(ctx, &mut w, &SETUP)?;
    }
    let mut lm = LabelModel::default();
    for _ in 0..ctx.rng.range(0, 6) {
        lm.step(ctx, &mut w)?;
    }
    Ok((w, lm))
}

pub fn labels_now(ctx: &mut Ctx, w: &World, what: &str) -> R<BTreeMap<String, Label>> {
    let got = ctx.rt.block_on(w.bk.labels.labels()).op(what)?;
    Ok(got.into_iter().map(|l| (l.name.clone(), l)).collect())
}

/// Whether the labels are the old or the new ones, each for itself; gives the model of what is there.
pub fn judge_labels(w: &World, got: &BTreeMap<String, Label>, old: &Labels, new: &Labels, what: &str) -> R<Labels> {
    let to = |n: &String, m: &Labels| m.get(n).map(|(v, l)| Label { name: n.clone(), layer: l.map(|i| w.layers[i].name), version: *v });
    let mut names: Vec<String> = got.keys().cloned().collect();
    names.extend(old.keys().cloned());
    names.extend(new.keys().cloned());
    names.sort();
    names.dedup();
    let mut now = Labels::new();
    for n in names {
        let g = got.get(&n).cloned();
        let (o, e) = (to(&n, old), to(&n, new));
        if g == e {
            if let Some(x) = new.get(&n) {
                now.insert(n, *x);
            }
        } else if g == o {
            if let Some(x) = old.get(&n) {
                now.insert(n, *x);
            }
        } else {
            viol!("{what}: label {n:?} is {g:?}; it was {o:?} before and {e:?} after the interrupted operation");
        }
    }
    Ok(now)
}

/// The store goes on working: layers, labels, rollups.
pub fn go_on(ctx: &mut Ctx, w: &mut World, labels: Labels, steps: usize) -> R<()> {
    let mut lm = LabelModel { m: labels, ..Default::default() };
    let before = w.layers.len();
    for _ in 0..steps {
        step(ctx, w, &OPS)?;
    }
    for _ in 0..steps {
        lm.step(ctx, w)?;
    }
    // every database can be created or moved on
    let all: Vec<String> = lm.m.keys().cloned().collect();
    for n in all {
        if w.layers.is_empty() {
            break;
        }
        let i = ctx.rng.below(w.layers.len());
        let (v, l) = lm.m[&n];
        let from = Label { name: n.clone(), layer: l.map(|i| w.layers[i].name), version: v };
        let r = ctx.rt.block_on(w.bk.labels.set_label(&from, w.layers[i].name)).op("setting a label")?;
        ensure!(r.is_some(), "label {n:?} cannot be set from {from:?}, which it is");
        lm.m.insert(n, (v + 1, Some(i)));
    }
    for i in before..w.layers.len() {
        w.check(ctx, i, Focus { cap: 2, ..Focus::LIGHT })?;
    }
    lm.check(ctx, w)
}

/// Performs operations while recording what reaches the file system, then
/// looks at what a crash at any point would have left.
fn crash(ctx: &mut Ctx) -> R<()> {
    let (mut w, mut lm) = small_world(ctx)?;
    let root = w.bk.path.clone().unwrap();
    for i in 0..w.layers.len() {
        w.view_of(ctx, i)?;
    }
    let (disk, ids) = Disk::of(&root)?;
    let mut states = vec![State { labels: lm.m.clone(), layers: w.layers.len(), what: "nothing".into() }];
    let n = ctx.rng.range(1, 4);
    fsx::record_start(&root, &ids);
    let r = (|| -> R<()> {
        for k in 1..=n {
            let t0 = ctx.trace.len();
            match ctx.rng.below(10) {
                0..=4 => {
                    step(ctx, &mut w, &OPS)?;
                }
                5..=7 => {
                    for _ in 0..ctx.rng.range(1, 2) {
                        let l0 = lm.m.clone();
                        lm.step(ctx, &mut w)?;
                        if lm.m != l0 {
                            break;
                        }
                    }
                }
                8 => import_op(ctx, &mut w)?,
                _ => {
                    let p = pick_parent(ctx, &w);
                    let s = pick_size(ctx, &w);
                    w.op_commit(ctx, p, s)?;
                }
            }
            fsx::mark(k);
            states.push(State { labels: lm.m.clone(), layers: w.layers.len(), what: ctx.trace[t0.min(ctx.trace.len())..].join("; ") });
        }
        Ok(())
    })();
    let log = fsx::record_stop();
    r?;
    for i in 0..w.layers.len() {
        w.view_of(ctx, i)?;
    }
    for l in &mut w.layers {
        l.kept.clear();
    }
    ctx.stats.add("recorded_operations", n as u64);
    ctx.stats.add("recorded_fs_calls", log.iter().filter(|o| !matches!(o, Op::Mark(_))).count() as u64);
    // check the model of the disk against the disk
    let mut d = disk.clone();
    for o in &log {
        d.apply(o);
    }
    let (real, _) = Disk::of(&root)?;
    ensure_same(&d, 0, &real, 0, &root)?;

    let points = if ctx.thorough { 60 } else { 24 };
    let mut ks: Vec<usize> = if log.len() < points { (0..=log.len()).collect() } else { (0..points).map(|_| ctx.rng.below(log.len() + 1)).collect() };
    // the steps that matter most: those that replace, remove or overwrite
    for (i, o) in log.iter().enumerate() {
        if matches!(o, Op::Rename(..) | Op::Unlink(..) | Op::Truncate(..)) && ctx.rng.chance(1, 2) {
            ks.push(i);
            ks.push(i + 1);
        }
        if matches!(o, Op::Mark(_)) {
            ks.push(i + 1);
        }
    }
    ks.sort();
    ks.dedup();
    let mut d = disk;
    let mut done = 0;
    let mut acked = 0;
    for k in ks {
        while done < k {
            if let Op::Mark(m) = log[done] {
                acked = m;
            }
            d.apply(&log[done]);
            done += 1;
        }
        let mut img = d.clone();
        let what = match ctx.rng.below(5) {
            0 | 1 => {
                if let Some(Op::Write(id, off, b)) = log.get(k) {
                    // killed in the middle of a large write
                    if b.len() > 4096 && ctx.rng.chance(1, 2) {
                        let m = 4096 * ctx.rng.range(1, b.len() / 4096);
                        img.apply(&Op::Write(*id, *off, b[..m.min(b.len())].to_vec()));
                        ctx.stats.add("torn_writes", 1);
                    }
                }
                "kill"
            }
            _ => "power loss",
        };
        let to = ctx.fresh_dir("image")?;
        if what == "kill" {
            img.write_now(&to)?;
            ctx.stats.add("kill_images", 1);
        } else {
            img.write_lost(&to, &mut ctx.rng)?;
            ctx.stats.add("power_loss_images", 1);
            if img.unsynced() > 0 {
                ctx.stats.add("images_with_unsynced_data", 1);
            }
        }
        let next = (acked + 1).min(n);
        let around: Vec<String> = log[k.saturating_sub(3)..(k + 2).min(log.len())].iter().map(|o| brief(o, &root)).collect();
        let what = format!("after a {what} at step {k} of {} during [{}] (around: {})", log.len(), if acked < n { states[next].what.clone() } else { "nothing".into() }, around.join(", "));
        let r = look(ctx, &w, &to, &states, acked, next, &what);
        own(|| std::fs::remove_dir_all(&to)).env("removing an image")?;
        r.map_err(|e| match e {
            Fail::Viol(m) if !m.contains(&what) => Fail::Viol(format!("{what}: {m}")),
            e => e,
        })?;
    }
    ctx.shape = Some(hash64(log.iter().map(|o| brief(o, &root).replace(char::is_numeric, "")).collect::<Vec<_>>().join(",").as_bytes()));
    w.cleanup();
    Ok(())
}

fn look(ctx: &mut Ctx, w: &World, to: &Path, states: &[State], acked: usize, next: usize, what: &str) -> R<()> {
    let bk = Bk::open(&ctx.rt, w.bk.kind, Some(to.to_path_buf()))?;
    let mut iw = w.fork(bk, states[acked].layers, "crashed ");
    let got = labels_now(ctx, &iw, "listing the labels")?;
    let now = judge_labels(w, &got, &states[acked].labels, &states[next].labels, what)?;
    let listed = ctx.rt.block_on(iw.bk.direct.layers()).op("layers()")?;
    for i in 0..iw.layers.len() {
        ensure!(listed.contains(&iw.layers[i].name), "layer #{i} is not listed");
    }
    let cap = if ctx.rng.chance(1, 4) { 4 } else { 1 };
    let f = Focus { contents: true, delta: ctx.rng.chance(1, 2), history: ctx.rng.chance(1, 2), unknown: false, sync: false, cap };
    iw.check_all(ctx, f)?;
    ctx.stats.add("layers_found_intact", iw.layers.len() as u64);
    // a label may name a layer that was written, but not acknowledged
    let max = now.values().filter_map(|x| x.1).max().map(|m| m + 1).unwrap_or(0);
    if max > iw.layers.len() {
        viol!("{what}: a label refers to layer #{}, which was not yet acknowledged", max - 1);
    }
    if ctx.rng.chance(1, 3) {
        // what was interrupted can be done again
        if let Some(l) = iw.layers.len().checked_sub(1) {
            if states[next].what.contains("rollup #") {
                let t = states[next].what.clone();
                let nums: Vec<usize> = t.split('#').skip(1).filter_map(|x| x.split(|c: char| !c.is_numeric()).next().and_then(|x| x.parse().ok())).collect();
                match nums[..] {
                    [i] if i <= l => iw.op_rollup(ctx, i)?,
                    [i, j] if i <= l && j <= l => iw.op_rollup_upto(ctx, i, j, t.contains("imprecise"))?,
                    _ => {}
                }
                ctx.stats.add("rollups_repeated", 1);
                iw.check_all(ctx, Focus { cap: 1, ..Focus::LIGHT })?;
            }
        }
        go_on(ctx, &mut iw, now, 2)?;
        ctx.stats.add("went_on", 1);
        if ctx.rng.chance(1, 2) {
            iw.reopen(ctx)?;
            iw.check_all(ctx, Focus { cap: 1, ..Focus::LIGHT })?;
        }
    }
    ctx.trace.truncate(400);
    Ok(())
}

fn brief(o: &Op, root: &Path) -> String {
    let f = |p: &PathBuf| p.strip_prefix(root).unwrap_or(p).to_string_lossy().to_string();
    match o {
        Op::Create(p, id) => format!("create {} as {id}", f(p)),
        Op::Truncate(i, n) => format!("truncate {i} to {n}"),
        Op::Write(i, o, b) => format!("write {i} at {o} len {}", b.len()),
        Op::Sync(i) => format!("sync {i}"),
        Op::SyncDir(p) => format!("syncdir {}", f(p)),
        Op::Rename(a, b) => format!("rename {} {}", f(a), f(b)),
        Op::Link(a, b) => format!("link {} {}", f(a), f(b)),
        Op::Unlink(p) => format!("unlink {}", f(p)),
        Op::Mkdir(p) => format!("mkdir {}", f(p)),
        Op::Rmdir(p) => format!("rmdir {}", f(p)),
        Op::Mark(n) => format!("mark {n}"),
    }
}

/// The model of the disk is right: otherwise the recorder missed something.
fn ensure_same(a: &Disk, da: usize, b: &Disk, db: usize, at: &Path) -> R<()> {
    let (ma, mb) = (&a.dirs[da].now, &b.dirs[db].now);
    if ma.keys().ne(mb.keys()) {
        return Err(Fail::Harness(format!("the recorded calls give {:?} in {}, but there is {:?}", ma.keys(), at.display(), mb.keys())));
    }
    for (n, x) in ma {
        match (x, &mb[n]) {
            (Node::Dir(p), Node::Dir(q)) => ensure_same(a, *p, b, *q, &at.join(n))?,
            (Node::File(p), Node::File(q)) => {
                if a.files[p].now != b.files[q].now {
                    return Err(Fail::Harness(format!("the recorded calls do not explain the contents of {}", at.join(n).display())));
                }
            }
            _ => return Err(Fail::Harness(format!("the recorded calls do not explain {}", at.join(n).display()))),
        }
    }
    Ok(())
}

// ------------------------------------------------- operations left midway
/// Polls a future until it has been pending `k` times, then drops it.
pub fn abandon<F: Future>(rt: &tokio::runtime::Runtime, f: F, k: usize) -> Option<F::Output> {
    let mut f = Box::pin(f);
    let mut n = 0;
    let _g = rt.enter();
    let r = rt.block_on(std::future::poll_fn(|cx| match f.as_mut().poll(cx) {
        std::task::Poll::Ready(x) => std::task::Poll::Ready(Some(x)),
        std::task::Poll::Pending => {
            n += 1;
            if n > k {
                std::task::Poll::Ready(None)
            } else {
                std::task::Poll::Pending
            }
        }
    }));
    drop(f);
    r
}

fn abandoned(ctx: &mut Ctx) -> R<()> {
    let (mut w, lm) = small_world(ctx)?;
    let mut labels = lm.m;
    if w.layers.is_empty() {
        let s = pick_size(ctx, &w);
        w.op_commit(ctx, None, s)?;
    }
    let rt = ctx.rt.clone();
    for i in 0..w.layers.len() {
        w.view_of(ctx, i)?;
    }
    for l in &mut w.layers {
        if ctx.rng.chance(2, 3) {
            l.kept.clear();
        }
    }
    if ctx.rng.chance(1, 3) {
        w.reopen(ctx)?;
    }
    let root = w.bk.path.clone().unwrap();
    let rounds = ctx.rng.range(1, 6);
    let slow = ctx.rng.chance(1, 2);
    for _ in 0..rounds {
        let k = match ctx.rng.below(4) {
            0 => 0,
            1 => ctx.rng.range(0, 4),
            2 => ctx.rng.range(0, 20),
            _ => ctx.rng.range(0, 80),
        };
        let store = w.bk.store.clone();
        let i = ctx.rng.below(w.layers.len());
        let op = ctx.rng.below(12);
        let mut changed: Option<(String, Option<(u64, Option<usize>)>)> = None;
        let mut finished = false;
        if slow {
            let s = ctx.rng.next();
            fsx::delays_start(&root, 300, 300, s);
        }
        let name = (*ctx.rng.pick(&super::reopen::LABEL_NAMES)).to_string();
        let cur = labels.get(&name).cloned();
        let r: R<String> = (|| {
            Ok(match op {
                0 | 1 => {
                    let parent = if ctx.rng.chance(1, 3) { None } else { Some(i) };
                    let s = pick_size(ctx, &w).min(40);
                    let ops = w.gen_ops(ctx, parent, s);
                    let handle = match parent {
                        Some(p) => Some(w.load(ctx, p)?),
                        None => None,
                    };
                    let made = std::cell::Cell::new(None);
                    let r = abandon(
                        &rt,
                        async {
                            let b = match &handle {
                                None => store.create_base_layer().await?,
                                Some(h) => h.open_write().await?,
                            };
                            for (add, t, _) in &ops.ops {
                                if *add { b.add_value_triple(t.clone()) } else { b.remove_value_triple(t.clone()) }?;
                            }
                            made.set(Some(b.name()));
                            b.commit().await
                        },
                        k,
                    );
                    if let Some(r) = r {
                        let l = r.op("commit")?;
                        w.model_commit(l.name(), parent, &ops, "commit");
                        finished = true;
                    }
                    "commit".into()
                }
                2 | 3 => {
                    let l = w.load(ctx, i)?;
                    if let Some(r) = abandon(&rt, l.rollup(), k) {
                        r.op("rollup")?;
                        finished = true;
                    }
                    format!("rollup #{i}")
                }
                4 => match pick_anc(ctx, &w) {
                    Some((i, j)) => {
                        let (l, u) = (w.load(ctx, i)?, w.load(ctx, j)?);
                        let imp = ctx.rng.chance(1, 2);
                        let r = if imp { abandon(&rt, l.imprecise_rollup_upto(&u), k) } else { abandon(&rt, l.rollup_upto(&u), k) };
                        if let Some(r) = r {
                            r.op("rollup_upto")?;
                            finished = true;
                        }
                        format!("rollup #{i} upto #{j}")
                    }
                    None => "nothing".into(),
                },
                5 => {
                    let l = w.load(ctx, i)?;
                    if let Some(r) = abandon(&rt, l.squash(), k) {
                        let n = r.op("squash")?.name();
                        let t = (*w.layers[i].triples).clone();
                        let (mut mo, mut mp) = Default::default();
                        parts(&t, &mut mo, &mut mp);
                        w.model_derived(n, None, t, mo, mp, "squash");
                        finished = true;
                    }
                    format!("squash #{i}")
                }
                6 | 7 => {
                    // reading
                    for l in &mut w.layers {
                        l.kept.clear();
                    }
                    let n = w.layers[i].name;
                    match ctx.rng.below(4) {
                        0 => finished = abandon(&rt, w.bk.labels.labels(), k).is_some(),
                        1 => finished = abandon(&rt, async { store.open(&name).await }, k).is_some(),
                        _ => {
                            if let Some(r) = abandon(&rt, store.get_layer_from_id(n), k) {
                                ensure!(r.op("loading")?.is_some(), "layer #{i} is not found");
                                finished = true;
                            }
                        }
                    }
                    format!("reading #{i}")
                }
                8 => {
                    if let Some(r) = abandon(&rt, store.delete(&name), k) {
                        ensure!(r.op("delete")? == cur.is_some(), "deleting {name:?} gives the wrong answer");
                        finished = true;
                    }
                    changed = Some((name.clone(), None));
                    format!("delete {name:?}")
                }
                _ => match cur {
                    None => {
                        if let Some(r) = abandon(&rt, store.create(&name), k) {
                            r.op("create")?;
                            finished = true;
                        }
                        changed = Some((name.clone(), Some((0, None))));
                        format!("create {name:?}")
                    }
                    Some((v, l)) => {
                        let from = Label { name: name.clone(), layer: l.map(|i| w.layers[i].name), version: v };
                        let to = if ctx.rng.chance(1, 4) { None } else { Some(i) };
                        if let Some(r) = abandon(&rt, w.bk.labels.set_label_option(&from, to.map(|i| w.layers[i].name)), k) {
                            ensure!(r.op("setting a label")?.is_some(), "label {name:?} cannot be set from {from:?}, which it is");
                            finished = true;
                        }
                        changed = Some((name.clone(), Some((v + 1, to))));
                        format!("set {name:?} to {to:?}")
                    }
                },
            })
        })();
        fsx::delays_stop();
        let t = r?;
        ctx.t(format!("{t}, {} after {k} waits", if finished { "finished" } else { "abandoned" }));
        ctx.stats.add(if finished { "finished_operations" } else { "abandoned_operations" }, 1);
        let mut new = labels.clone();
        if let Some((n, x)) = changed {
            match x {
                Some(x) => new.insert(n, x),
                None => new.remove(&n),
            };
        }
        if finished {
            labels = new.clone();
        }
        // what was started may still be completing
        for _ in 0..ctx.rng.below(3) {
            std::thread::sleep(std::time::Duration::from_millis(2));
        }
        let what = format!("after [{t}] was abandoned");
        let got = labels_now(ctx, &w, "listing the labels")?;
        judge_labels(&w, &got, &labels, &new, &what)?;
        if !finished && labels != new {
            // until nothing is under way anymore
            let t0 = std::time::Instant::now();
            while rt.metrics().num_alive_tasks() > 0 && t0.elapsed().as_secs() < 20 {
                std::thread::sleep(std::time::Duration::from_millis(1));
            }
            let got = labels_now(ctx, &w, "listing the labels")?;
            labels = judge_labels(&w, &got, &labels, &new, &what)?;
        }
        let f = Focus { cap: 1, delta: ctx.rng.chance(1, 3), history: false, ..Focus::LIGHT };
        for j in 0..w.layers.len() {
            w.layers[j].kept.clear();
            w.check(ctx, j, f)?;
        }
    }
    if ctx.rng.chance(1, 2) {
        w.reopen(ctx)?;
    }
    // a change left midway and still under way would have shown by now
    go_on(ctx, &mut w, labels, 2)?;
    w.reopen(ctx)?;
    w.check_all(ctx, Focus { cap: 2, ..Focus::LIGHT })?;
    w.cleanup();
    Ok(())
}

fn c12(ctx: &mut Ctx) -> R<()> {
    if ctx.rng.chance(1, 3) {
        abandoned(ctx)
    } else {
        crash(ctx)
    }
}

pub fn register(v: &mut Vec<Prop>) {
    v.push(Prop {
        id: "C12",
        case: c12,
        rule: "random operations on a random directory or archive store whose file system calls are recorded; for sampled points of the recorded history the directory is rebuilt as a kill or a power loss at that point would have left it, opened again and compared with the model; and operations whose futures are dropped after a random number of waits. A case is distinct by the sequence of recorded calls",
        assumptions: &[
            "disk model: file contents are safe after fsync/fdatasync of the file, names after fsync of their directory; without these, each name change of a directory may be lost from some point on and each write may be lost, shortened, or leave zeros",
            "a killed process leaves what its completed calls wrote; a write of more than 4096 bytes may be cut at a multiple of 4096",
        ],
        must_observe: &["kill_images", "power_loss_images", "images_with_unsynced_data", "abandoned_operations", "went_on", "rollups_repeated", "imports"],
        concurrent: true,
        ..BASE
    });
}
