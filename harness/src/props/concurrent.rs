//! C14: many threads on one store at once.
use super::history::*;
use super::packs;
use super::*;
use crate::alloc;
use crate::fsx;
use crate::world::*;
use crate::ensure;
use std::collections::{BTreeSet, HashSet};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{Barrier, Mutex};
use terminus_store::layer::{Layer, ValueTriple};

/// What the threads of a case have in common.
struct Shared {
    /// every layer committed so far; a parent is an index into this list
    layers: Mutex<Vec<MLayer>>,
    /// what each thread is doing right now
    inflight: Mutex<Vec<Option<(&'static str, usize)>>>,
    pairs: Mutex<BTreeSet<(&'static str, &'static str, bool)>>,
    overlaps: AtomicU64,
    failed: AtomicBool,
    /// the names of all layers begun
    begun: Mutex<HashSet<Name>>,
}
impl Shared {
    /// Notes that thread `k` starts `what` on layer `i` (as an index into the common list).
    fn begin(&self, k: usize, what: &'static str, i: usize) {
        let mut f = self.inflight.lock().unwrap();
        for (j, o) in f.iter().enumerate() {
            if let (true, Some((w, l))) = (j != k, o) {
                self.overlaps.fetch_add(1, Ordering::SeqCst);
                let (a, b) = if *w < what { (*w, what) } else { (what, *w) };
                self.pairs.lock().unwrap().insert((a, b, *l == i));
            }
        }
        f[k] = Some((what, i));
    }
    fn end(&self, k: usize) {
        self.inflight.lock().unwrap()[k] = None;
    }
}

fn copy(m: &MLayer, parent: Option<usize>, kept: bool) -> MLayer {
    let mut c = m.clone();
    c.parent = parent;
    if !kept {
        c.kept.clear();
    }
    c
}

/// Exchanges layers between the thread's picture and the common one.
fn exchange(ctx: &mut Ctx, w: &mut World, sh: &Shared) {
    let kept = ctx.rng.chance(1, 3);
    let mut g = sh.layers.lock().unwrap();
    for i in 0..w.layers.len() {
        let m = &w.layers[i];
        match g.iter_mut().find(|l| l.name == m.name) {
            Some(l) => {
                if l.view.is_none() {
                    l.view = m.view.clone();
                }
            }
            None => {
                let p = m.parent.map(|p| g.iter().position(|l| l.name == w.layers[p].name).unwrap());
                g.push(copy(m, p, kept));
            }
        }
    }
    for l in g.iter() {
        if w.by_name(l.name).is_none() {
            let p = l.parent.map(|p| w.by_name(g[p].name).unwrap());
            let c = copy(l, p, kept);
            w.layers.push(c);
        }
    }
}

struct Job {
    k: usize,
    rounds: usize,
    ops: usize,
    hot: Vec<(u64, usize)>,
    db: Option<(terminus_store::store::NamedGraph, u64)>,
}

/// One operation of a thread; `hot` is the layer everybody is after.
fn act(ctx: &mut Ctx, w: &mut World, ext: &mut World, pack: &[u8], sh: &Shared, job: &mut Job, hot: Option<(usize, usize)>) -> R<()> {
    let n = w.layers.len();
    let i = match hot {
        Some((i, _)) => i,
        None if ctx.rng.chance(1, 2) => n - 1,
        None => ctx.rng.below(n),
    };
    let anc = w.ancestors(i);
    let k = match hot {
        Some((_, what)) if ctx.rng.chance(3, 4) => what,
        _ => ctx.rng.below(25),
    };
    let name = w.layers[i].name;
    let common = sh.layers.lock().unwrap().iter().position(|l| l.name == name).unwrap_or(usize::MAX);
    let (kk, s) = (job.k, sh);
    let begin = move |what: &'static str| s.begin(kk, what, common);
    ctx.stats.add("operations", 1);
    match k {
        0..=3 => {
            begin("commit");
            let s = pick_size(ctx, w).min(60);
            w.op_commit(ctx, Some(i), s)?;
        }
        4 => {
            begin("base");
            let s = pick_size(ctx, w).min(60);
            w.op_commit(ctx, None, s)?;
        }
        5 | 6 => {
            begin("rollup");
            w.op_rollup(ctx, i)?;
        }
        7 | 8 if !anc.is_empty() => {
            begin("rollup_upto");
            let a = *ctx.rng.pick(&anc);
            w.op_rollup_upto(ctx, i, a, false)?;
        }
        9 if !anc.is_empty() => {
            begin("imprecise");
            let a = *ctx.rng.pick(&anc);
            w.op_rollup_upto(ctx, i, a, true)?;
        }
        10 => {
            begin("squash");
            w.op_squash(ctx, i)?;
        }
        11 if !anc.is_empty() => {
            begin("squash_upto");
            let a = *ctx.rng.pick(&anc);
            w.op_squash_upto(ctx, i, a)?;
        }
        12 => {
            begin("merge");
            let b: Vec<usize> = (0..n).filter(|i| w.layers[*i].parent.is_none()).collect();
            let pick: Vec<usize> = (0..ctx.rng.range(1, 3)).map(|_| *ctx.rng.pick(&b)).collect();
            w.op_merge(ctx, &pick)?;
        }
        13 => {
            begin("selfpack");
            w.op_selfpack(ctx)?;
        }
        14 | 15 => {
            begin("import");
            // a layer of the other store with everything it stands on
            let j = ctx.rng.below(ext.layers.len());
            let names: Vec<Name> = ext.stack(j).iter().map(|j| ext.layers[*j].name).collect();
            ctx.t(format!("import layer {j} of the other store and what it stands on"));
            ctx.stats.add("imports", 1);
            let sync = ctx.rng.chance(1, 4);
            packs::import(ctx, w, pack, names, sync)?.op("import_layers")?;
            packs::adopt(ctx, ext, w, j)?;
        }
        16 => {
            begin("export");
            let st = w.stack(i);
            let names: Vec<Name> = st.iter().map(|j| w.layers[*j].name).collect();
            ctx.t(format!("export the stack of #{i}"));
            ctx.stats.add("exports", 1);
            let p = packs::export(ctx, w, names.clone(), false)?.op("export_layers")?;
            let parents = terminus_store::storage::pack_layer_parents(std::io::Cursor::new(&p)).map_err(|e| Fail::Viol(format!("the parents of a pack cannot be read: {e:?}")))?;
            ensure!(parents.len() == names.len(), "a pack of {} layers contains {}", names.len(), parents.len());
            if ctx.rng.chance(1, 3) {
                let bk = Bk::open(&ctx.rt, Kind::Mem, None)?;
                let mut m = World { bk, layers: vec![], pool: w.pool.clone(), rollups_done: 0, abandoned: 0, tag: "exported ".into() };
                packs::import(ctx, &m, &p, names, false)?.op("import_layers of what was just exported")?;
                let j = packs::adopt(ctx, w, &mut m, i)?;
                m.check(ctx, j, Focus { cap: 2, ..Focus::LIGHT })?;
                ctx.stats.add("exports_checked", 1);
            }
        }
        17 => {
            begin("database");
            let l = w.get(ctx, i)?;
            let rt = ctx.rt.clone();
            match &mut job.db {
                None => {
                    let g = rt.block_on(w.bk.store.create(&format!("own{}", job.k))).op("create")?;
                    job.db = Some((g, 0));
                }
                Some((g, v)) => {
                    rt.block_on(g.force_set_head(&l)).op("force_set_head")?;
                    *v += 1;
                    let (h, hv) = rt.block_on(g.head_version()).op("head_version")?;
                    ensure!(h.map(|h| h.name()) == Some(w.layers[i].name) && hv == *v, "a database of one thread has head version {hv}, expected {v}");
                    ctx.stats.add("heads_read", 1);
                }
            }
        }
        18 => {
            begin("drop");
            ctx.t("drop all handles".into());
            for l in &mut w.layers {
                l.kept.clear();
            }
            if ctx.rng.chance(1, 2) {
                for l in sh.layers.lock().unwrap().iter_mut() {
                    l.kept.clear();
                }
            }
        }
        19 => {
            begin("list");
            let ls = if ctx.rng.chance(1, 2) { w.bk.inner.clone() } else { w.bk.direct.clone() };
            let l: BTreeSet<Name> = ctx.rt.block_on(ls.layers()).op("layers()")?.into_iter().collect();
            for (j, m) in w.layers.iter().enumerate() {
                ensure!(l.contains(&m.name), "layers() does not list #{j} ({}) while others use the store", m.origin);
            }
            ctx.stats.add("listings", 1);
        }
        20 => {
            begin("history");
            let l = w.get(ctx, i)?;
            w.check_history(ctx, i, &l)?;
        }
        21 => {
            begin("range");
            w.check_range_changes(ctx, i)?;
            w.check_storage_counts(ctx, i)?;
        }
        24 => {
            begin("create");
            let many = if w.bk.path.is_none() { 40 } else { 8 };
            let m = ctx.rng.range(2, many);
            let l = if ctx.rng.chance(1, 2) { Some(w.get(ctx, i)?) } else { None };
            ctx.t(format!("begin {m} layers on {}", if l.is_some() { format!("#{i}") } else { "nothing".into() }));
            let rt = ctx.rt.clone();
            let mut bs = vec![];
            w.abandoned += m;
            for j in 0..m {
                let b = match &l {
                    Some(l) => rt.block_on(l.open_write()).op("open_write")?,
                    None => rt.block_on(w.bk.store.create_base_layer()).op("create_base_layer")?,
                };
                let t = ValueTriple::new_node(&format!("begun by {}", job.k), "number", &format!("{j} {}", ctx.rng.next()));
                b.add_value_triple(t.clone()).op("add_value_triple")?;
                bs.push((b, t));
            }
            ctx.stats.add("layers_begun", m as u64);
            for (b, _) in &bs {
                ensure!(sh.begun.lock().unwrap().insert(b.name()), "two layers begun at about the same time have the same name");
            }
            for (b, t) in bs.into_iter().take(2) {
                let name = b.name();
                let c = rt.block_on(b.commit()).op("commit")?;
                ensure!(c.name() == name, "a builder's layer has another name than the builder");
                let all = c.triples().filter(|x| c.id_triple_to_string(x).as_ref() == Some(&t)).count();
                let want = l.as_ref().map(|l| l.triple_count()).unwrap_or(0) + 1;
                ensure!(all == 1 && c.triple_count() == want, "a layer begun while others are is not what was put in it");
            }
        }
        _ => {
            begin("query");
            let fresh = ctx.rng.chance(1, 2);
            let l = if fresh { w.load(ctx, i)? } else { w.get(ctx, i)? };
            // changes are read from storage for every question
            let delta = ctx.rng.chance(1, 4);
            let sync = delta && ctx.rng.chance(1, 3);
            w.check_handle(ctx, i, &l, Focus { cap: 2, sync, delta, ..Focus::LIGHT })?;
            if ctx.rng.chance(1, 2) && w.layers[i].kept.len() < 3 {
                w.layers[i].kept.push(l);
            }
        }
    }
    Ok(())
}

fn thread(mut ctx: Ctx, mut w: World, mut ext: World, pack: &[u8], sh: &Shared, bar: &Barrier, mut job: Job) -> (Ctx, World, Job, R<()>) {
    let mut res = Ok(());
    for r in 0..job.rounds {
        exchange(&mut ctx, &mut w, sh);
        bar.wait();
        exchange(&mut ctx, &mut w, sh);
        let h = {
            // the same for everybody
            let g = sh.layers.lock().unwrap();
            g[(job.hot[r].0 % g.len() as u64) as usize].name
        };
        bar.wait();
        let hot = w.by_name(h).unwrap();
        for o in 0..job.ops {
            if res.is_err() || sh.failed.load(Ordering::SeqCst) {
                break;
            }
            let target = if o == 0 || ctx.rng.chance(1, 4) { Some((hot, job.hot[r].1)) } else { None };
            let a = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| act(&mut ctx, &mut w, &mut ext, pack, sh, &mut job, target)));
            sh.end(job.k);
            res = match a {
                Ok(r) => r,
                Err(_) => {
                    let (m, ours) = crate::orch::last_panic().unwrap_or_default();
                    Err(if ours { Fail::Harness(m) } else { Fail::Viol(format!("an operation panics: {m}")) })
                }
            };
            if res.is_err() {
                sh.failed.store(true, Ordering::SeqCst);
            }
            if ctx.rng.chance(1, 3) {
                exchange(&mut ctx, &mut w, sh);
            }
        }
    }
    (ctx, w, job, res)
}

/// Many threads begin layers at the same moments; no two may be the same layer.
fn beginnings(ctx: &mut Ctx) -> R<()> {
    let kind = if ctx.rng.chance(2, 3) { Kind::Mem } else { pick_kind(ctx) };
    let w = World::new(ctx, kind)?;
    let bk = w.bk.clone();
    let rt = ctx.rt.clone();
    let nt = ctx.rng.range(2, 9);
    let (rounds, each) = if kind == Kind::Mem { (1500, 10) } else { (60, 3) };
    let base = if ctx.rng.chance(1, 2) {
        let b = rt.block_on(bk.store.create_base_layer()).op("create_base_layer")?;
        b.add_value_triple(ValueTriple::new_node("cow", "likes", "duck")).op("add_value_triple")?;
        Some(rt.block_on(b.commit()).op("commit")?)
    } else {
        None
    };
    ctx.t(format!("{nt} threads begin {each} layers each in {rounds} rounds, in {kind:?}, on {}", if base.is_some() { "a layer" } else { "nothing" }));
    // threads spin, so that they start together
    let turn = std::sync::atomic::AtomicUsize::new(0);
    let stop = AtomicBool::new(false);
    let t0 = std::time::Instant::now();
    let done: Vec<R<Vec<Name>>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..nt)
            .map(|k| {
                let (turn, stop, bk, rt, base) = (&turn, &stop, &bk, &rt, &base);
                s.spawn(move || -> R<Vec<Name>> {
                    let mut names = vec![];
                    let go = || -> R<()> {
                        for r in 0..rounds {
                            turn.fetch_add(1, Ordering::SeqCst);
                            let mut spins = 0;
                            while turn.load(Ordering::SeqCst) < (r + 1) * nt {
                                if stop.load(Ordering::SeqCst) {
                                    return Ok(());
                                }
                                spins += 1;
                                if spins % 2000 == 0 {
                                    std::thread::yield_now();
                                }
                                std::hint::spin_loop();
                            }
                            if t0.elapsed().as_secs() >= 3 {
                                stop.store(true, Ordering::SeqCst);
                            }
                            let mut bs = vec![];
                            for _ in 0..each {
                                bs.push(match base {
                                    Some(l) => rt.block_on(l.open_write()).op("open_write")?,
                                    None => rt.block_on(bk.store.create_base_layer()).op("create_base_layer")?,
                                });
                            }
                            names.extend(bs.iter().map(|b| b.name()));
                            if r % 100 == 0 {
                                let t = ValueTriple::new_node("thread", "is", &format!("{k}"));
                                bs[0].add_value_triple(t.clone()).op("add_value_triple")?;
                                let l = rt.block_on(bs[0].commit()).op("commit")?;
                                ensure!(l.name() == bs[0].name(), "a builder's layer has another name than the builder");
                                let all: Vec<_> = l.triples().map(|t| l.id_triple_to_string(&t)).collect();
                                ensure!(all.contains(&Some(t)) && all.len() == 1 + base.is_some() as usize, "a layer begun while others are is not what was put in it");
                            }
                        }
                        Ok(())
                    };
                    let mut go = go;
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(&mut go));
                    stop.store(true, Ordering::SeqCst);
                    match r {
                        Ok(r) => r.map(|_| names),
                        Err(_) => {
                            let (m, ours) = crate::orch::last_panic().unwrap_or_default();
                            Err(if ours { Fail::Harness(m) } else { Fail::Viol(format!("an operation panics: {m}")) })
                        }
                    }
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err(Fail::Harness("a thread of the harness panicked".into())))).collect()
    });
    let mut all = HashSet::new();
    for d in done {
        for n in d? {
            ensure!(all.insert(n), "two layers begun at the same time have the same name");
        }
    }
    ctx.stats.add("layers_begun_together", all.len() as u64);
    w.cleanup();
    Ok(())
}

fn c14(ctx: &mut Ctx) -> R<()> {
    if ctx.rng.chance(1, 12) {
        return beginnings(ctx);
    }
    let kind = pick_kind(ctx);
    let mut w = World::new(ctx, kind)?;
    let rt = ctx.rt.clone();
    let tip = pick_size(ctx, &w).min(80).max(3);
    w.op_commit(ctx, None, tip)?;
    for _ in 0..ctx.rng.range(1, 7) {
        step(ctx, &mut w, &Mix { commit: 8, rollup: 1, rollup_upto: 1, squash: 1, evict: 0, reopen: 0, ..MIX })?;
    }
    // layers to import
    let mut ext = World::new(ctx, Kind::Mem)?;
    for _ in 0..ctx.rng.range(2, 5) {
        step(ctx, &mut ext, &Mix { commit: 8, rollup: 1, evict: 0, reopen: 0, ..MIX })?;
    }
    let names: Vec<Name> = ext.layers.iter().map(|l| l.name).collect();
    let pack = packs::export(ctx, &ext, names, false)?.op("export_layers")?;
    for i in 0..ext.layers.len() {
        ext.view_of(ctx, i)?;
    }
    // sometimes nothing is loaded yet
    let views = ctx.rng.chance(1, 2);
    if ctx.rng.chance(1, 2) {
        w.reopen(ctx)?;
    } else if ctx.rng.chance(1, 2) {
        for l in &mut w.layers {
            l.kept.clear();
        }
    }
    if views {
        for i in 0..w.layers.len() {
            w.view_of(ctx, i)?;
        }
    }
    let nt = *ctx.rng.pick(&[2, 3, 4, 6, 8]);
    let rounds = ctx.rng.range(1, 4);
    let ops = ctx.rng.range(2, 5);
    // what everybody does to the same layer at the start of a round
    let hot: Vec<(u64, usize)> = (0..rounds).map(|_| (ctx.rng.next(), *ctx.rng.pick(&[1, 5, 5, 7, 7, 9, 10, 11, 13, 14, 14, 16, 20, 22, 22, 24, 24]))).collect();
    let slow = *ctx.rng.pick(&[0u64, 0, 100, 300]);
    ctx.t(format!("{nt} threads, {rounds} rounds of {ops} operations, starting with {hot:?}, delays {slow}"));
    let sh = Shared {
        layers: Mutex::new(vec![]),
        inflight: Mutex::new(vec![None; nt]),
        pairs: Default::default(),
        overlaps: AtomicU64::new(0),
        failed: AtomicBool::new(false),
        begun: Mutex::new(w.layers.iter().map(|l| l.name).collect()),
    };
    exchange(ctx, &mut w, &sh);
    let before = (w.rollups_done, w.abandoned);
    let bar = Barrier::new(nt);
    if let (true, Some(p)) = (slow > 0, w.bk.path.clone()) {
        let s = ctx.rng.next();
        fsx::delays_start(&p, slow, 300, s);
    }
    let pauses = *ctx.rng.pick(&[0u64, 300, 2000, 10000]);
    if pauses > 0 {
        let s = ctx.rng.next();
        alloc::pauses_start(pauses, s);
    }
    let p0 = alloc::PAUSES.load(Ordering::SeqCst);
    let mut parts = vec![];
    for k in 0..nt {
        let c = Ctx {
            prop: ctx.prop.clone(),
            seed: ctx.seed,
            rng: ctx.rng.fork(),
            rt: rt.clone(),
            thorough: ctx.thorough,
            scratch: ctx.scratch.clone(),
            trace: vec![],
            stats: Stats::default(),
            nontrivial: true,
            shape: None,
            worker: ctx.worker,
            case_no: ctx.case_no,
        };
        let mut wk = w.fork(w.bk.clone(), w.layers.len(), "");
        for (a, b) in wk.layers.iter_mut().zip(&w.layers) {
            a.kept = b.kept.clone();
        }
        (wk.rollups_done, wk.abandoned) = (0, 0);
        let xk = ext.fork(ext.bk.clone(), ext.layers.len(), "");
        parts.push((c, wk, xk, Job { k, rounds, ops, hot: hot.clone(), db: None }));
    }
    for l in &mut w.layers {
        l.kept.clear();
    }
    let done: Vec<_> = std::thread::scope(|s| {
        let hs: Vec<_> = parts
            .into_iter()
            .map(|(c, wk, xk, job)| {
                let (sh, bar, pack) = (&sh, &bar, &pack);
                s.spawn(move || thread(c, wk, xk, pack, sh, bar, job))
            })
            .collect();
        hs.into_iter().map(|h| h.join()).collect()
    });
    fsx::delays_stop();
    alloc::pauses_stop();
    ctx.stats.add("pauses_between_allocations", alloc::PAUSES.load(Ordering::SeqCst) - p0);
    let mut err = None;
    let mut dbs = vec![];
    for (k, d) in done.into_iter().enumerate() {
        let (mut c, mut wk, job, r) = match d {
            Ok(d) => d,
            Err(_) => {
                let m = crate::orch::last_panic().unwrap_or_default().0;
                return Err(Fail::Harness(format!("a thread of the harness panicked: {m}")));
            }
        };
        for l in c.trace.drain(..) {
            ctx.t(format!("T{k}: {l}"));
        }
        for (k, v) in &c.stats.counts {
            ctx.stats.add(k, *v);
        }
        for (k, v) in &c.stats.maxes {
            ctx.stats.max(k, *v);
        }
        if let Err(e) = r {
            // a violation says more than what followed from it
            if err.is_none() || matches!(e, Fail::Viol(_)) {
                err = Some(e);
            }
        }
        exchange(&mut c, &mut wk, &sh);
        w.rollups_done += wk.rollups_done;
        w.abandoned += wk.abandoned;
        if let Some((g, v)) = job.db {
            dbs.push((k, g, v));
        }
    }
    if let Some(e) = err {
        return Err(e);
    }
    let pairs = sh.pairs.lock().unwrap().clone();
    ctx.stats.add("overlapping_operations", sh.overlaps.load(Ordering::SeqCst));
    for (a, b, same) in &pairs {
        ctx.stats.add(&format!("~ {a} / {b}{}", if *same { " on the same layer" } else { "" }), 1);
        ctx.stats.hashes.insert(hash64(format!("{a} {b} {same} {kind:?}").as_bytes()));
    }
    ctx.stats.max("most_threads", nt as u64);
    let _ = before;
    // at rest
    exchange(ctx, &mut w, &sh);
    ctx.t(format!("at rest with {} layers", w.layers.len()));
    for (k, g, v) in &dbs {
        let (_, hv) = rt.block_on(g.head_version()).op("head_version")?;
        ensure!(hv == *v, "the database of thread {k} is at version {hv} in the end, expected {v}");
    }
    let light = Focus { cap: 2, ..Focus::LIGHT };
    w.check_all(ctx, light)?;
    w.check_listing(ctx)?;
    for again in [false, true] {
        if again {
            w.reopen(ctx)?;
            w.check_all(ctx, Focus { delta: false, ..light })?;
            w.check_listing(ctx)?;
        }
        for _ in 0..2 {
            let s = step(ctx, &mut w, &Mix { commit: 4, rollup: 1, rollup_upto: 1, squash: 1, packs: 1, reopen: 0, evict: 0, ..MIX })?;
            if let Some(i) = s {
                w.check(ctx, i, light)?;
            }
        }
    }
    if pairs.is_empty() {
        ctx.nontrivial = false;
    }
    w.cleanup();
    Ok(())
}

pub fn register(v: &mut Vec<Prop>) {
    v.push(Prop {
        id: "C14",
        case: c14,
        rule: "two to eight threads on one store object commit, roll up, squash, merge, export, import, query, list, move databases and drop handles at the same time, often starting with the same kind of operation on the same layer, with delayed system calls in half of the cases; every answer is compared with the model of the layers the thread knows, no call may fail, and at rest and after reopening everything is compared once more. A case is distinct by its operations; pairs of kinds of operations seen in flight together are counted as well",
        assumptions: &["operating system schedules with injected delays; not all of them are enumerated"],
        must_observe: &["overlapping_operations", "imports", "exports_checked", "rollups", "rollups_upto", "squashes", "merges", "heads_read", "listings", "layers_begun", "layers_begun_together"],
        concurrent: true,
        ..BASE
    });
}
