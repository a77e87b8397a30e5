//! C22: using a store does not wear it out.
use super::history::*;
use super::*;
use crate::alloc;
use crate::fsx;
use crate::world::*;
use crate::{ensure, viol};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::Arc;
use std::time::{Duration, Instant};
use terminus_store::layer::{Layer, ValueTriple};
use terminus_store::store::sync::SyncStore;
use terminus_store::store::{Store, StoreLayer};

/// What the operations of a cycle work on.
struct Env {
    bk: Bk,
    names: Vec<Name>,
    pack: Vec<u8>,
    packed: Vec<Name>,
    fresh: AtomicU64,
}

/// Operations that leave the store as it was.
#[derive(Clone, Debug)]
enum Op {
    /// a layer is loaded and asked
    Load(usize),
    /// the change of a layer is asked for
    Delta(usize),
    /// several readers load one layer at once
    Herd(usize, usize),
    /// a label comes, moves and goes
    Life(usize, usize),
    Listing,
    Export(Vec<usize>),
    Reimport,
    Parents,
    Unknown,
    /// rollups that have nothing to do
    Noop(usize),
    /// another store object over the same data
    Second(usize),
    /// layer store calls
    Raw(usize, usize),
}

fn go_on<T>(r: std::io::Result<T>, what: &str, strict: bool) -> R<Option<T>> {
    match r {
        Ok(x) => Ok(Some(x)),
        Err(_) if !strict => Ok(None),
        Err(e) => Err(e).op(what),
    }
}

fn ask(l: &dyn Layer) -> u64 {
    let mut n = 0;
    for (i, t) in l.triples().enumerate() {
        if i > 40 {
            break;
        }
        n += t.subject;
        if i < 8 {
            n += l.triples_sp(t.subject, t.predicate).count() as u64;
            n += l.triples_o(t.object).take(5).count() as u64;
            n += l.triples_p(t.predicate).take(5).count() as u64;
            n += l.triple_exists(t.subject, t.predicate, t.object) as u64;
            n += l.id_triple_to_string(&t).is_some() as u64;
        }
    }
    n + l.triple_count() as u64
}

impl Env {
    async fn load(&self, s: &Store, i: usize, strict: bool) -> R<Option<StoreLayer>> {
        match go_on(s.get_layer_from_id(self.names[i]).await, "get_layer_from_id", strict)? {
            Some(Some(l)) => Ok(Some(l)),
            Some(None) if strict => viol!("a committed layer is not found"),
            _ => Ok(None),
        }
    }
    async fn run(self: Arc<Self>, op: Op, strict: bool) -> R<()> {
        let s = &self.bk.store;
        match op {
            Op::Load(i) => {
                if let Some(l) = self.load(s, i, strict).await? {
                    ask(&l);
                    if let Some(p) = go_on(l.parent().await, "parent", strict)?.flatten() {
                        ask(&p);
                    }
                    go_on(l.retrieve_layer_stack_names().await, "retrieve_layer_stack_names", strict)?;
                }
            }
            Op::Delta(i) => {
                if let Some(l) = self.load(s, i, strict).await? {
                    if let Some(it) = go_on(l.triple_additions().await, "triple_additions", strict)? {
                        for t in it.take(6) {
                            go_on(l.triple_additions_s(t.subject).await, "triple_additions_s", strict)?;
                            go_on(l.triple_additions_o(t.object).await, "triple_additions_o", strict)?;
                            go_on(l.triple_addition_exists(t.subject, t.predicate, t.object).await, "triple_addition_exists", strict)?;
                        }
                    }
                    if let Some(it) = go_on(l.triple_removals().await, "triple_removals", strict)? {
                        // not asked to the end
                        let mut it = it;
                        it.next();
                        drop(l);
                        it.next();
                    }
                }
            }
            Op::Herd(i, n) => {
                let mut hs = vec![];
                for _ in 0..n {
                    let me = self.clone();
                    hs.push(tokio::spawn(async move {
                        let l = me.load(&me.bk.store, i, strict).await?;
                        if let Some(l) = &l {
                            ask(l);
                        }
                        Ok::<_, Fail>(l)
                    }));
                }
                for h in hs {
                    h.await.map_err(join_viol)??;
                }
            }
            Op::Life(i, j) => {
                let n = self.fresh.fetch_add(1, SeqCst);
                let name = format!("label {:08}", n);
                let (a, b) = (self.load(s, i, strict).await?, self.load(s, j, strict).await?);
                let g = match go_on(s.create(&name).await, "create", strict)? {
                    Some(g) => g,
                    None => {
                        let _ = s.delete(&name).await;
                        return Ok(());
                    }
                };
                ensure!(!strict || s.create(&name).await.is_err(), "a label is created twice");
                if let (Some(a), Some(b)) = (&a, &b) {
                    go_on(g.force_set_head(a).await, "force_set_head", strict)?;
                    go_on(g.set_head(b).await, "set_head", strict)?;
                    go_on(g.force_set_head_version(b, 77).await, "force_set_head_version", strict)?;
                    go_on(g.force_set_head(b).await, "force_set_head", strict)?;
                }
                if let Some(g2) = go_on(s.open(&name).await, "open", strict)?.flatten() {
                    go_on(g2.head_version().await, "head_version", strict)?;
                    go_on(g2.head().await, "head", strict)?;
                }
                go_on(s.delete(&name).await, "delete", strict)?;
                go_on(s.delete(&name).await, "delete again", strict)?;
                go_on(s.open(&name).await, "open of a deleted label", strict)?;
                // deleted for good, also where a fault came in between
                let _ = s.delete(&name).await;
            }
            Op::Listing => {
                go_on(s.labels().await, "labels", strict)?;
                go_on(self.bk.inner.layers().await, "layers", strict)?;
            }
            Op::Export(v) => {
                let names: Vec<Name> = v.iter().map(|i| self.names[*i]).collect();
                go_on(s.export_layers(Box::new(names.into_iter())).await, "export_layers", strict)?;
            }
            Op::Reimport => {
                go_on(s.import_layers(&self.pack[..], Box::new(self.packed.clone().into_iter())).await, "import_layers", strict)?;
            }
            Op::Parents => {
                let mut p = &self.pack[..];
                ensure!(terminus_store::storage::pack_layer_parents(&mut p).is_ok(), "pack_layer_parents of a good pack fails");
                let mut p = &self.pack[..self.pack.len() / 2];
                let _ = terminus_store::storage::pack_layer_parents(&mut p);
            }
            Op::Unknown => {
                let n = self.fresh.fetch_add(1, SeqCst) as u32;
                let name = [n, 1, 2, 3, 4];
                go_on(s.get_layer_from_id(name).await, "get_layer_from_id of an unknown layer", strict)?;
                let _ = self.bk.inner.retrieve_layer_stack_names(name).await;
                let _ = self.bk.inner.get_layer_parent_name(name).await;
                let _ = self.bk.inner.triple_additions(name).await;
                let _ = s.export_layers(Box::new(vec![name].into_iter())).await;
                go_on(s.open(&format!("no label {n}")).await, "open of an unknown label", strict)?;
            }
            Op::Noop(i) => {
                if let Some(l) = self.load(s, i, strict).await? {
                    go_on(l.rollup_upto(&l).await, "rollup_upto itself", strict)?;
                    go_on(l.imprecise_rollup_upto(&l).await, "imprecise_rollup_upto itself", strict)?;
                    match go_on(l.parent().await, "parent", strict)?.flatten() {
                        Some(p) => drop(go_on(l.rollup_upto(&p).await, "rollup_upto the parent", strict)?),
                        None => drop(go_on(l.rollup().await, "rollup of a base layer", strict)?),
                    }
                }
            }
            Op::Second(i) => {
                let s = match self.bk.kind {
                    Kind::Mem => return Ok(()),
                    Kind::Dir | Kind::DirCachedLabels => terminus_store::store::open_directory_store(self.bk.path.clone().unwrap()),
                    Kind::Raw => terminus_store::store::open_raw_archive_store(self.bk.path.clone().unwrap()),
                    Kind::Lru(n) => terminus_store::store::open_archive_store(self.bk.path.clone().unwrap(), n),
                };
                let l = self.load(&s, i, strict).await?;
                go_on(s.labels().await, "labels of a second store", strict)?;
                drop(s);
                if let Some(l) = l {
                    ask(&l);
                }
            }
            Op::Raw(i, j) => {
                let st = &self.bk.inner;
                let (a, b) = (self.names[i], self.names[j]);
                go_on(st.layer_is_ancestor_of(a, b).await, "layer_is_ancestor_of", strict)?;
                go_on(st.triple_layer_addition_count(a).await, "triple_layer_addition_count", strict)?;
                go_on(st.triple_layer_removal_count(b).await, "triple_layer_removal_count", strict)?;
                go_on(st.get_node_dictionary(a).await, "get_node_dictionary", strict)?;
                go_on(st.get_value_dictionary(b).await, "get_value_dictionary", strict)?;
                go_on(st.get_predicate_dictionary(a).await, "get_predicate_dictionary", strict)?;
            }
        }
        Ok(())
    }
    fn run_sync(&self, op: &Op, strict: bool) -> R<()> {
        let s = SyncStore::wrap(self.bk.store.clone());
        match op {
            Op::Life(i, _) => {
                let n = self.fresh.fetch_add(1, SeqCst);
                let name = format!("label {:08}", n);
                if let (Some(g), Some(l)) = (go_on(s.create(&name), "create", strict)?, go_on(s.get_layer_from_id(self.names[*i]), "get_layer_from_id", strict)?.flatten()) {
                    go_on(g.set_head(&l), "set_head", strict)?;
                    go_on(g.head(), "head", strict)?;
                }
                let _ = s.delete(&name);
                let _ = s.delete(&name);
            }
            Op::Listing => drop(go_on(s.labels(), "labels", strict)?),
            Op::Export(v) => {
                let names: Vec<Name> = v.iter().map(|i| self.names[*i]).collect();
                go_on(s.export_layers(Box::new(names.into_iter())), "export_layers", strict)?;
            }
            Op::Reimport => drop(go_on(s.import_layers(&self.pack[..], Box::new(self.packed.clone().into_iter())), "import_layers", strict)?),
            Op::Load(i) | Op::Delta(i) | Op::Herd(i, _) | Op::Noop(i) | Op::Second(i) | Op::Raw(i, _) => {
                if let Some(l) = go_on(s.get_layer_from_id(self.names[*i]), "get_layer_from_id", strict)?.flatten() {
                    ask(&l);
                    go_on(l.parent(), "parent", strict)?;
                    go_on(l.triple_additions(), "triple_additions", strict)?;
                }
            }
            Op::Parents | Op::Unknown => drop(go_on(s.get_layer_from_id([9, 9, 9, 9, 9]), "get_layer_from_id of an unknown layer", strict)?),
        }
        Ok(())
    }
}

/// Open descriptors of files under `root`.
fn open_under(root: &Path) -> Vec<String> {
    fsx::own(|| {
        let mut v = vec![];
        if let Ok(rd) = std::fs::read_dir("/proc/self/fd") {
            for e in rd.flatten() {
                if let Ok(t) = std::fs::read_link(e.path()) {
                    if t.starts_with(root) {
                        v.push(t.to_string_lossy().into_owned());
                    }
                }
            }
        }
        v
    })
}
fn open_all() -> usize {
    fsx::own(|| std::fs::read_dir("/proc/self/fd").map(|r| r.count()).unwrap_or(0))
}
fn threads() -> usize {
    fsx::own(|| std::fs::read_dir("/proc/self/task").map(|r| r.count()).unwrap_or(0))
}
/// All files and directories with their sizes (of the lock file only its presence).
fn tree(root: &Path) -> BTreeMap<String, u64> {
    fn walk(p: &Path, root: &Path, out: &mut BTreeMap<String, u64>) {
        if let Ok(rd) = std::fs::read_dir(p) {
            for e in rd.flatten() {
                let q = e.path();
                let rel = q.strip_prefix(root).unwrap().to_string_lossy().into_owned();
                match e.metadata() {
                    Ok(m) if m.is_dir() => {
                        out.insert(format!("{rel}/"), 0);
                        walk(&q, root, out);
                    }
                    Ok(m) => {
                        out.insert(rel, m.len());
                    }
                    Err(_) => (),
                }
            }
        }
    }
    let mut m = BTreeMap::new();
    fsx::own(|| walk(root, root, &mut m));
    m
}

/// Waits until nothing runs in the background, then reports what stays open.
fn settle(ctx: &mut Ctx, root: Option<&Path>) -> R<()> {
    let t = Instant::now();
    loop {
        let tasks = ctx.rt.metrics().num_alive_tasks();
        let open = root.map(open_under).unwrap_or_default();
        if tasks == 0 && open.is_empty() {
            return Ok(());
        }
        if t.elapsed() > Duration::from_secs(25) {
            ensure!(open.is_empty(), "25 s after the last operation ended and the last layer was dropped the process still holds open {open:?}");
            viol!("25 s after the last operation ended {tasks} tasks of the library are still alive");
        }
        std::thread::sleep(Duration::from_micros(if t.elapsed().as_millis() < 20 { 200 } else { 5000 }));
    }
}

#[derive(Clone, Copy, Debug)]
struct Level {
    heap: i64,
    fds: usize,
    threads: usize,
}

/// The lowest levels seen at rest after `cycles` repetitions.
fn window(ctx: &mut Ctx, root: Option<&Path>, cycles: usize, f: &mut dyn FnMut(&mut Ctx) -> R<()>) -> R<Level> {
    for k in 0..cycles {
        f(ctx)?;
        if k % 8 == 0 {
            settle(ctx, root)?;
        }
    }
    // what is released in the background may take a moment
    settle(ctx, root)?;
    let mut l = Level { heap: i64::MAX, fds: usize::MAX, threads: usize::MAX };
    for k in 0..6 {
        l = Level { heap: l.heap.min(alloc::live()), fds: l.fds.min(open_all()), threads: l.threads.min(threads()) };
        std::thread::sleep(Duration::from_micros(100 << k));
    }
    ctx.stats.add("cycles", cycles as u64);
    ctx.stats.add("levels_taken", 1);
    Ok(l)
}

const STEP: i64 = 16;

/// Repeats `f`; a resource that grows in every single window is not given back.
fn repeat(ctx: &mut Ctx, root: Option<&Path>, heap: bool, what: &str, f: &mut dyn FnMut(&mut Ctx) -> R<()>) -> R<()> {
    let cycles = ctx.rng.range(12, 30);
    window(ctx, root, cycles, f)?;
    let mut last = window(ctx, root, cycles, f)?;
    let mut grows = [heap, true, true];
    let mut log = vec![last];
    let more = |g: &mut [bool; 3], last: Level, now: Level, cycles: usize| {
        g[0] &= now.heap - last.heap >= STEP * cycles as i64;
        g[1] &= now.fds >= last.fds + cycles.div_ceil(4);
        g[2] &= now.threads >= last.threads + cycles.div_ceil(2);
    };
    for k in 0..7 {
        if grows == [false; 3] {
            return Ok(());
        }
        let n = if k < 3 { cycles } else { cycles * 4 };
        let now = window(ctx, root, n, f)?;
        more(&mut grows, last, now, n);
        last = now;
        log.push(now);
        if k >= 3 {
            ctx.stats.add("suspicions_looked_into", 1);
        }
    }
    let names: Vec<&str> = ["memory", "open files", "threads"].iter().zip(grows).filter(|x| x.1).map(|x| *x.0).collect();
    if names.is_empty() {
        return Ok(());
    }
    viol!("{what}: with every repetition the process holds more {names:?}: after {cycles} cycles each, later {} each: {log:?}", cycles * 4)
}

fn gen_op(ctx: &mut Ctx, n: usize) -> Op {
    let (i, j) = (ctx.rng.below(n), ctx.rng.below(n));
    match ctx.rng.below(14) {
        0 | 1 => Op::Load(i),
        2 => Op::Delta(i),
        3 => Op::Herd(i, ctx.rng.range(2, 6)),
        4 | 5 => Op::Life(i, j),
        6 => Op::Listing,
        7 => Op::Export((0..n).filter(|_| ctx.rng.chance(1, 2)).collect()),
        8 => Op::Reimport,
        9 => Op::Parents,
        10 => Op::Unknown,
        11 => Op::Noop(i),
        12 => Op::Second(i),
        _ => Op::Raw(i, j),
    }
}

fn world(ctx: &mut Ctx) -> R<World> {
    let kind = if ctx.rng.chance(1, 8) { Kind::Mem } else { *ctx.rng.pick(&DISK_KINDS) };
    let mut w = World::new(ctx, kind)?;
    let m = Mix { commit: 8, rollup: 2, rollup_upto: 2, imprecise: 1, squash: 1, squash_upto: 1, merge: 1, ..MIX };
    for _ in 0..ctx.rng.range(2, 7) {
        step(ctx, &mut w, &m)?;
    }
    for l in &mut w.layers {
        l.kept.clear();
    }
    if ctx.rng.chance(1, 3) {
        w.reopen(ctx)?;
    }
    Ok(w)
}

/// Operations that change nothing, over and over.
fn steady(ctx: &mut Ctx) -> R<()> {
    let w = world(ctx)?;
    let n = w.layers.len();
    let root = w.bk.path.clone();
    let names: Vec<Name> = w.layers.iter().map(|l| l.name).collect();
    let i = ctx.rng.below(n);
    let packed: Vec<Name> = w.stack(i).iter().map(|i| names[*i]).collect();
    let st = w.bk.store.clone();
    let pack = {
        let p = packed.clone();
        ctx.rt.block_on(async move { st.export_layers(Box::new(p.into_iter())).await }).op("export_layers")?
    };
    // labels that stay
    for k in 0..ctx.rng.below(4) {
        let st = w.bk.store.clone();
        ctx.rt.block_on(async move { st.create(&format!("kept {k}")).await }).op("create")?;
    }
    let env = Arc::new(Env { bk: w.bk.clone(), names, pack, packed, fresh: AtomicU64::new(0) });
    let ops: Vec<Op> = (0..ctx.rng.range(1, 5)).map(|_| gen_op(ctx, n)).collect();
    // how: in a row, at once, abandoned midway, with failing calls, through the blocking interface
    let how = ctx.rng.weighted(&[6, 3, 2, if root.is_some() { 2 } else { 0 }, 2]);
    let what = format!("{:?} {} of {ops:?}", w.bk.kind, ["rounds", "concurrent rounds", "abandoned rounds", "failing rounds", "blocking rounds"][how]);
    ctx.t(what.clone());
    ctx.stats.add(["steady_cases", "concurrent_cases", "abandoned_cases", "faulty_cases", "blocking_cases"][how], 1);
    for o in &ops {
        let s = format!("{o:?}");
        ctx.stats.add(&format!("op_{}", s.split(['(', '{']).next().unwrap()), 1);
    }
    let before = root.as_deref().map(tree);
    let quiet = how == 0 || how == 1 || how == 4;
    let rt = ctx.rt.clone();
    let keep = if ctx.rng.chance(1, 3) { Some(env.names[ctx.rng.below(n)]) } else { None };
    let kept = match keep {
        // others hold on to a layer meanwhile
        Some(name) => {
            let st = w.bk.store.clone();
            rt.block_on(async move { st.get_layer_from_id(name).await }).op("get_layer_from_id")?
        }
        None => None,
    };
    let root2 = root.clone();
    let env2 = env.clone();
    let mut f = move |ctx: &mut Ctx| -> R<()> {
        let env = &env2;
        match how {
            0 => {
                for o in &ops {
                    rt.block_on(env.clone().run(o.clone(), true))?;
                }
            }
            1 => {
                let hs: Vec<_> = ops.iter().flat_map(|o| [o, o]).map(|o| rt.spawn(env.clone().run(o.clone(), true))).collect();
                for h in hs {
                    rt.block_on(h).map_err(join_viol)??;
                }
            }
            2 => {
                for o in &ops {
                    let k = ctx.rng.below(12);
                    if let Some(r) = super::crash::abandon(&rt, env.clone().run(o.clone(), false), k) {
                        r?;
                    }
                }
            }
            3 => {
                for o in &ops {
                    let plan = fsx::Plan {
                        at: ctx.rng.below(24),
                        only: None,
                        errno: *ctx.rng.pick(&[libc::EIO, libc::EACCES, libc::EMFILE, libc::ENOSPC, 0]),
                        times: if ctx.rng.chance(1, 4) { 1000 } else { 1 },
                    };
                    fsx::faults_start(root2.as_deref().unwrap(), Some(plan));
                    let r = rt.block_on(env.clone().run(o.clone(), false));
                    let (hits, _) = fsx::faults_stop();
                    ctx.stats.add("failed_calls", hits.len() as u64);
                    match r {
                        Err(Fail::Viol(m)) => viol!("{m}"),
                        _ => (),
                    }
                }
            }
            _ => {
                for o in &ops {
                    env.run_sync(o, true)?;
                }
            }
        }
        Ok(())
    };
    repeat(ctx, root.as_deref(), true, &what, &mut f)?;
    drop(f);
    drop(kept);
    if let (Some(b), Some(p), true) = (before, root.as_deref(), quiet) {
        let a = tree(p);
        ctx.stats.add("directories_compared", 1);
        // the lock file of the labels may come
        let news: Vec<&String> = a.keys().filter(|k| !b.contains_key(*k) && !k.ends_with(".lock")).collect();
        let gone: Vec<&String> = b.keys().filter(|k| !a.contains_key(*k)).collect();
        let other: Vec<&String> = b.keys().filter(|k| a.get(*k).map(|x| *x != b[*k]).unwrap_or(false)).collect();
        ensure!(news.is_empty(), "{what}: nothing was added to the store, but its directory holds new files {:?}", &news[..news.len().min(6)]);
        ensure!(gone.is_empty() && other.is_empty(), "{what}: nothing was changed in the store, but of the files in its directory {gone:?} are gone and {other:?} changed");
    }
    drop(env);
    // the store is still good
    let mut w = w;
    w.check_all(ctx, Focus { cap: 6, sync: false, ..Focus::ALL })?;
    w.cleanup();
    Ok(())
}

/// Layers that are made, used and dropped: their contents leave the memory.
fn growing(ctx: &mut Ctx) -> R<()> {
    let kind = *ctx.rng.pick(&[Kind::Dir, Kind::Raw, Kind::Raw, Kind::Lru(0), Kind::Lru(0), Kind::DirCachedLabels, Kind::Lru(1), Kind::Mem]);
    let mut w = World::new(ctx, kind)?;
    for _ in 0..ctx.rng.range(1, 3) {
        let s = ctx.rng.range(1, 30);
        w.op_commit(ctx, None, s)?;
    }
    for l in &mut w.layers {
        l.kept.clear();
    }
    let root = w.bk.path.clone();
    let store = w.bk.store.clone();
    let rt = ctx.rt.clone();
    let size = ctx.rng.range(1000, 2500);
    let base = w.layers[ctx.rng.below(w.layers.len())].name;
    let what_op = ctx.rng.weighted(&[2, 2, 1, 2, 4, 2]);
    let label = ["commit_and_squash", "chains_and_rollups", "merges", "dropped_builders", "failed_commits", "imports"][what_op];
    ctx.t(format!("{kind:?}, {label} of {size} triples"));
    ctx.stats.add(&format!("growing_{label}"), 1);
    let mut no = 0u64;
    let mut calls = 0;
    let mut donors: Vec<Vec<u8>> = vec![];
    let mut donor_names: Vec<Vec<Name>> = vec![];
    const CYCLES: usize = 10;
    if what_op == 5 {
        let d = terminus_store::store::open_memory_store();
        for k in 0..CYCLES * 3 {
            let d2 = d.clone();
            let r = rt.block_on(async move {
                let b = d2.create_base_layer().await?;
                for i in 0..size {
                    b.add_value_triple(ValueTriple::new_string_value(&format!("s{i}"), "p", &format!("v{k} {i}")))?;
                }
                let l = b.commit().await?;
                let n = Layer::name(&l);
                Ok::<_, std::io::Error>((n, d2.export_layers(Box::new(vec![n].into_iter())).await?))
            });
            let (n, p) = r.op("preparing a pack")?;
            donors.push(p);
            donor_names.push(vec![n]);
        }
    }
    // the layers made per cycle, at most
    let made = [2, 5, 3, 2, 1, 1][what_op];
    let root2 = root.clone();
    let mut f = |ctx: &mut Ctx| -> R<()> {
        no += 1;
        let me = no;
        let store = store.clone();
        let fill = move |b: &terminus_store::store::StoreLayerBuilder, salt: u64| -> std::io::Result<()> {
            for i in 0..size {
                b.add_value_triple(ValueTriple::new_string_value(&format!("s{i}"), &format!("p{}", i % 7), &format!("value {me} {salt} {i}")))?;
            }
            Ok(())
        };
        let faulty = what_op == 4 && root2.is_some();
        if faulty {
            // the first time only counts the calls
            let times = if ctx.rng.chance(1, 3) { 1000 } else { 1 };
            let plan = if ctx.rng.chance(2, 3) {
                let only = *ctx.rng.pick(&[fsx::Call::Write, fsx::Call::Sync, fsx::Call::Rename, fsx::Call::Mkdir]);
                fsx::Plan { at: ctx.rng.below(2), only: Some(only), errno: libc::EIO, times }
            } else {
                fsx::Plan { at: ctx.rng.below(calls + 2), only: None, errno: libc::EIO, times }
            };
            fsx::faults_start(root2.as_deref().unwrap(), if me == 1 { None } else { Some(plan) });
        }
        let pack = if what_op == 5 { Some((donors[(me as usize - 1) % donors.len()].clone(), donor_names[(me as usize - 1) % donors.len()].clone())) } else { None };
        let r: std::io::Result<()> = rt.block_on(async {
            let top = match store.get_layer_from_id(base).await? {
                Some(l) => l,
                None => return Ok(()),
            };
            match what_op {
                0 => {
                    let b = top.open_write().await?;
                    fill(&b, 0)?;
                    let l = b.commit().await?;
                    ask(&l);
                    let _ = b.commit().await;
                    let q = l.squash().await?;
                    ask(&q);
                }
                1 => {
                    let mut l = top;
                    for k in 0..3 {
                        let b = l.open_write().await?;
                        fill(&b, k)?;
                        l = b.commit().await?;
                    }
                    l.rollup().await?;
                    let l = store.get_layer_from_id(Layer::name(&l)).await?.unwrap();
                    ask(&l);
                    let p = l.parent().await?.unwrap();
                    let q = l.squash_upto(&p).await?;
                    ask(&q);
                }
                2 => {
                    let mut v = vec![];
                    for k in 0..2 {
                        let b = store.create_base_layer().await?;
                        fill(&b, k)?;
                        v.push(Layer::name(&b.commit().await?));
                    }
                    let tmp = ctx.scratch.join("merging");
                    let _ = std::fs::create_dir_all(&tmp);
                    let m = store.merge_base_layers(&v, &tmp).await?;
                    let m = store.get_layer_from_id(m).await?;
                    ask(&m.unwrap());
                }
                3 => {
                    let b = top.open_write().await?;
                    fill(&b, 0)?;
                    drop(b);
                    let b = store.create_base_layer().await?;
                    fill(&b, 1)?;
                }
                4 => {
                    let b = top.open_write().await?;
                    fill(&b, 0)?;
                    let r = b.commit().await;
                    let _ = b.commit_no_load().await;
                    r?;
                }
                _ => {
                    let (p, n) = pack.unwrap();
                    store.import_layers(&p[..], Box::new(n.clone().into_iter())).await?;
                    let l = store.get_layer_from_id(n[0]).await?;
                    ask(&l.unwrap());
                }
            }
            Ok(())
        });
        if faulty {
            let (hits, seen) = fsx::faults_stop();
            if me == 1 {
                calls = seen.len();
                r.op(label)?;
            } else {
                ctx.stats.add("failed_calls", hits.len() as u64);
                ctx.stats.add(if r.is_ok() { "commits_despite_failed_calls" } else { "failed_commits" }, 1);
            }
        } else {
            r.op(label)?;
        }
        Ok(())
    };
    let p = root.as_deref();
    let l0 = window(ctx, p, CYCLES, &mut f)?;
    let l1 = window(ctx, p, CYCLES, &mut f)?;
    let mut last = window(ctx, p, CYCLES, &mut f)?;
    let log = format!("{l0:?} {l1:?} {last:?}");
    ensure!(!(l1.fds >= l0.fds + CYCLES / 2 && last.fds >= l1.fds + CYCLES / 2), "{kind:?} {label}: the process holds more and more open files: {log}");
    if !matches!(kind, Kind::Mem | Kind::Lru(1)) {
        // of a layer that nobody holds only its place in the table of layers remains
        let per = |a: Level, b: Level| (b.heap - a.heap) / (CYCLES * made) as i64;
        let mut grow = per(l0, l1).min(per(l1, last));
        ctx.stats.max(&format!("bytes_kept_per_dropped_layer_{label}"), grow.max(0) as u64);
        let mut k = 0;
        let most = if what_op == 3 { 6000 } else { 4000 };
        while grow > most && what_op != 5 && k < 2 {
            let now = window(ctx, p, CYCLES, &mut f)?;
            grow = grow.min(per(last, now));
            last = now;
            k += 1;
        }
        ensure!(grow <= most, "{kind:?} {label}: of every layer that was made and dropped (about {size} triples) the process keeps {grow} bytes: {log}");
        ctx.stats.add("dropped_layers_measured", (3 * CYCLES * made) as u64);
    }
    if let (Some(p), true) = (p, what_op != 4) {
        // nothing half written stays about
        let t = tree(p);
        let odd: Vec<&String> = t.keys().filter(|k| (k.ends_with(".tmp") || k.rsplit('/').next().unwrap().starts_with('.')) && !k.ends_with(".lock") && !k.ends_with(".label")).collect();
        ensure!(odd.is_empty(), "{kind:?} {label}: the store's directory holds left over files {:?}", &odd[..odd.len().min(6)]);
        ctx.stats.add("directories_compared", 1);
    }
    if let Ok(rd) = fsx::own(|| std::fs::read_dir(ctx.scratch.join("merging"))) {
        let left: BTreeSet<String> = rd.flatten().map(|e| e.file_name().to_string_lossy().into_owned()).collect();
        ensure!(left.is_empty(), "{kind:?} {label}: merging left {left:?} in its temporary directory");
    }
    w.check_all(ctx, Focus { cap: 6, sync: false, ..Focus::ALL })?;
    w.cleanup();
    Ok(())
}

fn c22(ctx: &mut Ctx) -> R<()> {
    alloc::count(true);
    let r = if ctx.rng.chance(3, 5) { steady(ctx) } else { growing(ctx) };
    alloc::count(false);
    r
}

pub fn register(v: &mut Vec<Prop>) {
    v.push(Prop {
        id: "C22",
        case: c22,
        rule: "After every repetition and once nothing runs any more: no descriptor open under the store's directory, heap bytes, descriptors and threads that do not rise window after window, per dropped layer no more than a table entry of memory, and a directory exactly as before where nothing was added.",
        must_observe: &["cycles", "levels_taken", "directories_compared", "dropped_layers_measured", "failed_calls"],
        ..BASE
    });
}
