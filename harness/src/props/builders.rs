//! C15: layer builders, shared between threads.
use super::history::*;
use super::*;
use crate::gen::VT;
use crate::alloc;
use crate::fsx;
use crate::world::*;
use crate::{ensure, viol};
use std::collections::BTreeSet;
use std::io;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use terminus_store::layer::{IdTriple, Layer};
use terminus_store::store::sync::{SyncStoreLayer, SyncStoreLayerBuilder};
use terminus_store::store::{StoreLayer, StoreLayerBuilder};

#[derive(Clone)]
enum B {
    A(StoreLayerBuilder, Arc<tokio::runtime::Runtime>),
    S(SyncStoreLayerBuilder),
}
#[derive(Clone)]
enum L {
    A(StoreLayer),
    S(SyncStoreLayer),
}
/// A change of one triple, by its id if it has one.
#[derive(Clone)]
struct Chg {
    add: bool,
    t: VT,
    id: Option<IdTriple>,
}
impl B {
    fn change(&self, c: &Chg) -> io::Result<()> {
        match (self, c.add, c.id) {
            (B::A(b, _), true, Some(i)) => b.add_id_triple(i),
            (B::A(b, _), false, Some(i)) => b.remove_id_triple(i),
            (B::A(b, _), true, None) => b.add_value_triple(c.t.clone()),
            (B::A(b, _), false, None) => b.remove_value_triple(c.t.clone()),
            (B::S(b), true, Some(i)) => b.add_id_triple(i),
            (B::S(b), false, Some(i)) => b.remove_id_triple(i),
            (B::S(b), true, None) => b.add_value_triple(c.t.clone()),
            (B::S(b), false, None) => b.remove_value_triple(c.t.clone()),
        }
    }
    fn batch(&self, cs: &[Chg]) -> io::Result<()> {
        macro_rules! go {
            ($b:expr) => {
                $b.with_builder(|b| {
                    for c in cs {
                        match (c.add, c.id) {
                            (true, Some(i)) => b.add_id_triple(i),
                            (false, Some(i)) => b.remove_id_triple(i),
                            (true, None) => b.add_value_triple(c.t.clone()),
                            (false, None) => b.remove_value_triple(c.t.clone()),
                        }
                    }
                })
            };
        }
        match self {
            B::A(b, _) => go!(b),
            B::S(b) => go!(b),
        }
    }
    fn delta(&self, l: &L) -> io::Result<()> {
        match (self, l) {
            (B::A(b, rt), L::A(l)) => rt.block_on(b.apply_delta(l)),
            (B::S(b), L::S(l)) => b.apply_delta(l),
            _ => unreachable!(),
        }
    }
    fn diff(&self, l: &L) -> io::Result<()> {
        match (self, l) {
            (B::A(b, _), L::A(l)) => b.apply_diff(l),
            (B::S(b), L::S(l)) => b.apply_diff(l),
            _ => unreachable!(),
        }
    }
    fn committed(&self) -> bool {
        match self {
            B::A(b, _) => b.committed(),
            B::S(b) => b.committed(),
        }
    }
    fn name(&self) -> Name {
        match self {
            B::A(b, _) => b.name(),
            B::S(b) => b.name(),
        }
    }
    /// Returns the name of the layer, if it is loaded.
    fn commit(&self, load: bool) -> io::Result<Option<Name>> {
        match (self, load) {
            (B::A(b, rt), true) => rt.block_on(b.commit()).map(|l| Some(l.name())),
            (B::A(b, rt), false) => rt.block_on(b.commit_no_load()).map(|_| None),
            (B::S(b), true) => b.commit().map(|l| Some(l.name())),
            (B::S(b), false) => b.commit_no_load().map(|_| None),
        }
    }
}

#[derive(Clone)]
enum Act {
    One(Chg),
    Batch(Vec<Chg>),
    /// the changes of another layer, and what they are
    Delta(L, Vec<Chg>),
    Diff(L, Vec<Chg>),
    Pause(u64),
}

/// One builder with those who use it.
struct Job {
    b: B,
    parent: Option<usize>,
    acts: Vec<Vec<Act>>,
    committers: Vec<(bool, u64, usize)>,
    /// committers wait for those who change
    after: bool,
    done: AtomicBool,
    /// acts done by all
    progress: AtomicUsize,
    finished: AtomicUsize,
}

fn chgs(w: &World, ctx: &mut Ctx, parent: Option<usize>, n: usize) -> R<Vec<Chg>> {
    let v = match parent {
        Some(p) => Some(w.layers[p].view.clone().expect("view")),
        None => None,
    };
    let o = w.gen_ops(ctx, parent, n);
    Ok(o.ops
        .into_iter()
        .map(|(add, t, byid)| {
            let id = if byid { v.as_ref().and_then(|v| v.to_id(&t)) } else { None };
            Chg { add, t, id }
        })
        .collect())
}
fn value(add: bool, t: &VT) -> Chg {
    Chg { add, t: t.clone(), id: None }
}

fn delta_of(w: &World, src: usize) -> Vec<Chg> {
    let s = &w.layers[src];
    s.adds.iter().map(|t| value(true, t)).chain(s.removes.iter().map(|t| value(false, t))).collect()
}
fn diff_to(w: &World, parent: Option<usize>, src: usize) -> Vec<Chg> {
    let empty = Arc::new(BTreeSet::new());
    let pt = parent.map(|p| w.layers[p].triples.clone()).unwrap_or(empty);
    let st = w.layers[src].triples.clone();
    st.difference(&pt).map(|t| value(true, t)).chain(pt.difference(&st).map(|t| value(false, t))).collect()
}

fn handle(ctx: &mut Ctx, w: &World, b: &B, i: usize) -> R<L> {
    Ok(match b {
        B::A(..) => L::A(w.load(ctx, i)?),
        B::S(_) => L::S(w.sync_get(i)?),
    })
}

fn open(ctx: &mut Ctx, w: &World, parent: Option<usize>) -> R<B> {
    let rt = ctx.rt.clone();
    Ok(if ctx.rng.chance(1, 3) {
        B::S(match parent {
            None => w.sync_store().create_base_layer().op("create_base_layer")?,
            Some(p) => w.sync_get(p)?.open_write().op("open_write")?,
        })
    } else {
        B::A(
            match parent {
                None => rt.block_on(w.bk.store.create_base_layer()).op("create_base_layer")?,
                Some(p) => {
                    let l = w.load(ctx, p)?;
                    rt.block_on(l.open_write()).op("open_write")?
                }
            },
            rt,
        )
    })
}

fn some_act(ctx: &mut Ctx, w: &World, b: &B, parent: Option<usize>) -> R<Act> {
    Ok(match ctx.rng.below(16) {
        0 | 1 => Act::Pause(ctx.rng.below(300) as u64),
        2 | 3 => {
            let n = ctx.rng.range(1, 12);
            Act::Batch(chgs(w, ctx, parent, n)?)
        }
        4 if !w.layers.is_empty() => {
            let s = ctx.rng.below(w.layers.len());
            Act::Delta(handle(ctx, w, b, s)?, delta_of(w, s))
        }
        5 if !w.layers.is_empty() => {
            let s = ctx.rng.below(w.layers.len());
            Act::Diff(handle(ctx, w, b, s)?, diff_to(w, parent, s))
        }
        _ => Act::One(chgs(w, ctx, parent, 1)?.pop().unwrap()),
    })
}

/// What the users of a builder saw.
#[derive(Default)]
struct Log {
    accepted: Vec<Chg>,
    /// of operations that failed halfway
    partly: Vec<Chg>,
    acts: u64,
    refused: u64,
    commits_ok: Vec<Option<Name>>,
    commits_refused: u64,
}

fn adder(job: &Job, k: usize, log: &Mutex<Log>) -> R<()> {
    let mut l = Log::default();
    let mut r = Ok(());
    for a in &job.acts[k] {
        let over = job.done.load(SeqCst);
        let over2 = job.b.committed();
        if over && !over2 {
            r = Err(Fail::Viol("committed() is false after a commit".into()));
            break;
        }
        let (res, cs): (io::Result<()>, &[Chg]) = match a {
            Act::Pause(us) => {
                std::thread::sleep(std::time::Duration::from_micros(*us));
                continue;
            }
            Act::One(c) => (job.b.change(c), std::slice::from_ref(c)),
            Act::Batch(cs) => (job.b.batch(cs), cs),
            Act::Delta(d, cs) => (job.b.delta(d), cs),
            Act::Diff(d, cs) => (job.b.diff(d), cs),
        };
        l.acts += 1;
        job.progress.fetch_add(1, SeqCst);
        match res {
            Ok(()) => {
                if (over || over2) && !cs.is_empty() {
                    let what = match a {
                        Act::One(_) => "a change",
                        Act::Batch(_) => "a batch of changes",
                        Act::Delta(..) => "apply_delta",
                        _ => "apply_diff",
                    };
                    r = Err(Fail::Viol(format!("{what} is accepted by a builder that is already committed")));
                    break;
                }
                l.accepted.extend_from_slice(cs);
            }
            Err(e) => {
                if env_errno(&e) {
                    r = Err(Fail::Harness(e.to_string()));
                    break;
                }
                if !job.b.committed() {
                    r = Err(Fail::Viol(format!("a builder that is not committed refuses a change: {e}")));
                    break;
                }
                l.refused += 1;
                if matches!(a, Act::Delta(..) | Act::Diff(..)) {
                    l.partly.extend_from_slice(cs);
                }
            }
        }
    }
    job.finished.fetch_add(1, SeqCst);
    let mut g = log.lock().unwrap();
    g.accepted.append(&mut l.accepted);
    g.partly.append(&mut l.partly);
    g.acts += l.acts;
    g.refused += l.refused;
    r
}

fn committer(job: &Job, k: usize, log: &Mutex<Log>) -> R<()> {
    let (load, us, at) = job.committers[k];
    let t0 = std::time::Instant::now();
    while (job.progress.load(SeqCst) < at || job.after) && job.finished.load(SeqCst) < job.acts.len() && t0.elapsed().as_secs() < 30 {
        std::thread::yield_now();
    }
    if us > 0 {
        std::thread::sleep(std::time::Duration::from_micros(us));
    }
    let over = job.done.load(SeqCst);
    let r = job.b.commit(load);
    if !job.b.committed() {
        viol!("committed() is false after commit() has returned");
    }
    match r {
        Ok(n) => {
            job.done.store(true, SeqCst);
            if over {
                viol!("a builder is committed once more, after its commit has succeeded");
            }
            log.lock().unwrap().commits_ok.push(n);
        }
        Err(e) if env_errno(&e) => return Err(Fail::Harness(e.to_string())),
        Err(_) => log.lock().unwrap().commits_refused += 1,
    }
    Ok(())
}

/// Many short-lived builders that several threads change and commit at the
/// very same moment.
fn storm(ctx: &mut Ctx, w: &mut World) -> R<()> {
    let n = ctx.rng.range(10, 60);
    let nt = ctx.rng.range(2, 5);
    let parent = pick_parent(ctx, w);
    ctx.t(format!("{n} builders on {parent:?}, each committed by {nt} threads at once"));
    if let Some(p) = parent {
        w.view_of(ctx, p)?;
    }
    let pauses = *ctx.rng.pick(&[0u64, 10, 100]);
    let mut bs = vec![];
    for _ in 0..n {
        bs.push(open(ctx, w, parent)?);
    }
    let changes: Vec<Vec<(VT, bool)>> = (0..n).map(|_| (0..nt).map(|_| (w.pool.triple(&mut ctx.rng), ctx.rng.chance(1, 2))).collect()).collect();
    let loads = ctx.rng.chance(1, 8);
    let gate = AtomicUsize::new(0);
    if pauses > 0 {
        let s = ctx.rng.next();
        alloc::pauses_start(pauses, s);
    }
    // per thread and builder: was the change accepted, was it committed here
    let res: Vec<Vec<(bool, bool, bool)>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..nt)
            .map(|k| {
                let (bs, changes, gate) = (&bs, &changes, &gate);
                s.spawn(move || {
                    let mut v = vec![];
                    for (i, b) in bs.iter().enumerate() {
                        gate.fetch_add(1, SeqCst);
                        let t0 = std::time::Instant::now();
                        while gate.load(SeqCst) < nt * (i + 1) {
                            if t0.elapsed().as_micros() > 200 {
                                std::thread::yield_now();
                            }
                            std::hint::spin_loop();
                        }
                        let (t, before) = &changes[i][k];
                        let mut acc = false;
                        if *before {
                            acc = b.change(&value(true, t)).is_ok();
                        }
                        let ok = b.commit(loads).is_ok();
                        if !*before {
                            acc = b.change(&value(true, t)).is_ok();
                        }
                        v.push((acc, ok, b.committed()));
                    }
                    v
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join()).collect::<Result<Vec<_>, _>>()
    })
    .map_err(|_| {
        let (m, ours) = crate::orch::last_panic().unwrap_or_default();
        if ours {
            Fail::Harness(m)
        } else {
            Fail::Viol(format!("a user of a builder panicked: {m}"))
        }
    })?;
    alloc::pauses_stop();
    for i in 0..n {
        let ok = (0..nt).filter(|k| res[*k][i].1).count();
        ensure!(ok == 1, "{ok} of {nt} commits of one builder succeed");
        let mut ops = BuilderOps { ops: vec![] };
        for k in 0..nt {
            let (acc, _, com) = res[k][i];
            ensure!(com, "committed() is false after commit() has returned");
            let (t, before) = &changes[i][k];
            ensure!(*before || !acc, "a change is accepted by a builder that is already committed");
            if acc {
                ops.ops.push((true, t.clone(), false));
            }
        }
        let j = w.model_commit(bs[i].name(), parent, &ops, "builder committed by many");
        if i % 8 == 0 {
            w.check(ctx, j, Focus { cap: 2, ..Focus::LIGHT })?;
        } else {
            let l = w.load(ctx, j)?;
            let c = l.triple_count();
            ensure!(c == w.layers[j].triples.len(), "a builder committed by many threads at once gives a layer with {c} triples, expected {}", w.layers[j].triples.len());
        }
    }
    ctx.stats.add("builders_committed_by_several", n as u64);
    ctx.stats.add("builders_committed_at_the_same_moment", n as u64);
    Ok(())
}

fn c15(ctx: &mut Ctx) -> R<()> {
    let kind = pick_kind(ctx);
    let mut w = World::new(ctx, kind)?;
    if ctx.rng.chance(1, 3) {
        w.op_commit(ctx, None, 5)?;
        for _ in 0..ctx.rng.range(1, 3) {
            storm(ctx, &mut w)?;
        }
        w.check_listing(ctx)?;
        w.cleanup();
        return Ok(());
    }
    let rt = ctx.rt.clone();
    for _ in 0..ctx.rng.range(0, 4) {
        step(ctx, &mut w, &Mix { commit: 6, rollup: 1, rollup_upto: 1, squash: 1, ..MIX })?;
    }
    let mut dropped: Vec<Name> = vec![];
    for _ in 0..ctx.rng.range(1, 3) {
        for i in 0..w.layers.len() {
            w.view_of(ctx, i)?;
            if ctx.rng.chance(1, 2) {
                w.layers[i].kept.clear();
            }
        }
        let mut jobs = vec![];
        for _ in 0..*ctx.rng.pick(&[1, 1, 2, 4]) {
            let parent = pick_parent(ctx, &w);
            let b = open(ctx, &w, parent)?;
            ensure!(!b.committed(), "committed() is true for a new builder");
            let nt = *ctx.rng.pick(&[1, 1, 2, 3, 6]);
            let top = *ctx.rng.pick(&[3, 12, 60]);
            let mut acts = vec![];
            for _ in 0..nt {
                let n = ctx.rng.range(0, top);
                acts.push((0..n).map(|_| some_act(ctx, &w, &b, parent)).collect::<R<Vec<_>>>()?);
            }
            let total: usize = acts.iter().map(|a| a.len()).sum();
            let nc = *ctx.rng.pick(&[0, 1, 1, 2, 2, 3, 5]);
            let at = ctx.rng.below(total + 1);
            let committers = (0..nc)
                .map(|_| {
                    let at = if ctx.rng.chance(2, 3) { at } else { ctx.rng.below(total + 1) };
                    let us = if ctx.rng.chance(1, 2) { 0 } else { ctx.rng.below(200) as u64 };
                    (ctx.rng.chance(1, 2), us, at)
                })
                .collect::<Vec<_>>();
            let after = ctx.rng.chance(1, 3);
            ctx.t(format!("builder on {parent:?}: {nt} threads with {total} acts, {nc} committers{}", if after { " afterwards" } else { "" }));
            jobs.push(Job { b, parent, acts, committers, after, done: AtomicBool::new(false), progress: AtomicUsize::new(0), finished: AtomicUsize::new(0) });
        }
        let logs: Vec<Mutex<Log>> = jobs.iter().map(|_| Default::default()).collect();
        let slow = ctx.rng.chance(1, 2);
        if let (true, Some(p)) = (slow, w.bk.path.clone()) {
            let s = ctx.rng.next();
            fsx::delays_start(&p, 200, 300, s);
        }
        let before = w.layers.len();
        let noise = ctx.rng.below(4);
        let res: Vec<R<()>> = std::thread::scope(|s| {
            let mut hs = vec![];
            for (job, log) in jobs.iter().zip(&logs) {
                for k in 0..job.acts.len() {
                    hs.push(s.spawn(move || adder(job, k, log)));
                }
                for k in 0..job.committers.len() {
                    hs.push(s.spawn(move || committer(job, k, log)));
                }
            }
            // meanwhile
            let mut rs = vec![];
            for job in &jobs {
                if let Some(p) = job.parent {
                    match noise {
                        0 => rs.push(w.op_rollup(ctx, p)),
                        1 => rs.push(w.check(ctx, p, Focus { cap: 2, ..Focus::LIGHT })),
                        2 => w.layers[p].kept.clear(),
                        _ => (),
                    }
                }
            }
            for h in hs {
                rs.push(match h.join() {
                    Ok(r) => r,
                    Err(_) => {
                        let (m, ours) = crate::orch::last_panic().unwrap_or_default();
                        Err(if ours { Fail::Harness(m) } else { Fail::Viol(format!("a user of a builder panicked: {m}")) })
                    }
                });
            }
            rs
        });
        fsx::delays_stop();
        for r in res {
            r?;
        }
        for (job, log) in jobs.into_iter().zip(logs) {
            let mut log = log.into_inner().unwrap();
            let name = job.b.name();
            let nc = job.committers.len();
            ctx.stats.add("builders", 1);
            ctx.stats.add("acts", log.acts);
            ctx.stats.add("changes_accepted", log.accepted.len() as u64);
            ctx.stats.add("changes_refused_concurrently", log.refused);
            ctx.stats.add("commits_refused_concurrently", log.commits_refused);
            ctx.stats.max("most_threads_on_a_builder", (job.acts.len() + nc) as u64);
            ctx.stats.hashes.insert(hash64(format!("{:?}", (log.acts, log.refused, log.commits_refused, log.accepted.len(), nc, job.acts.len())).as_bytes()));
            ensure!(log.commits_ok.len() <= 1, "{} of {nc} commits of one builder succeed", log.commits_ok.len());
            ensure!(nc == 0 || log.commits_ok.len() == 1, "none of {nc} commits of a builder succeeds");
            if nc > 1 {
                ctx.stats.add("builders_committed_by_several", 1);
            }
            if nc == 0 {
                ensure!(!job.b.committed(), "committed() is true without a commit");
                if ctx.rng.chance(1, 2) {
                    // never committed
                    dropped.push(name);
                    w.abandoned += 1;
                    ctx.stats.add("builders_dropped", 1);
                    continue;
                }
                log.commits_ok.push(job.b.commit(true).op("a commit after the others have finished")?);
            }
            if let Some(n) = log.commits_ok[0] {
                ensure!(n == name, "commit returned layer {} for builder {}", short(n), short(name));
            }
            // what was half accepted: whatever explains the contents
            let mut ops = BuilderOps { ops: vec![] };
            for c in &log.accepted {
                ops.ops.push((c.add, c.t.clone(), c.id.is_some()));
            }
            if !log.partly.is_empty() {
                let l = match rt.block_on(w.bk.store.get_layer_from_id(name)).op("loading a committed layer")? {
                    Some(l) => l,
                    None => viol!("a committed layer is not there"),
                };
                explain(&w, job.parent, &l, &mut ops, &log.partly);
                ctx.stats.add("builders_committed_halfway_apply", 1);
            }
            ctx.stats.add("builders_committed", 1);
            let i = w.model_commit(name, job.parent, &ops, "shared builder");
            // nothing more is accepted
            later(ctx, &mut w, &job)?;
            w.check(ctx, i, Focus { cap: 3, ..Focus::LIGHT })?;
        }
        for i in 0..before {
            if ctx.rng.chance(1, 2) {
                w.check(ctx, i, Focus { cap: 2, ..Focus::LIGHT })?;
            }
        }
    }
    for again in [false, true] {
        if again {
            w.reopen(ctx)?;
            w.check_all(ctx, Focus { cap: 2, ..Focus::LIGHT })?;
            w.check_listing(ctx)?;
        }
        for n in &dropped {
            if let Ok(Some(_)) = rt.block_on(w.bk.store.get_layer_from_id(*n)) {
                viol!("layer {} can be loaded{}, though its builder was never committed", short(*n), if again { " after reopening" } else { "" });
            }
        }
    }
    w.cleanup();
    Ok(())
}

/// Adds those of the `partly` accepted changes that the layer shows.
fn explain(w: &World, parent: Option<usize>, l: &StoreLayer, ops: &mut BuilderOps, partly: &[Chg]) {
    let now: BTreeSet<VT> = l.triples().filter_map(|t| l.id_triple_to_string(&t)).collect();
    let empty = Arc::new(BTreeSet::new());
    let pt = parent.map(|p| w.layers[p].triples.clone()).unwrap_or(empty);
    let mut a: BTreeSet<VT> = ops.ops.iter().filter(|o| o.0).map(|o| o.1.clone()).collect();
    let mut r: BTreeSet<VT> = ops.ops.iter().filter(|o| !o.0).map(|o| o.1.clone()).collect();
    let fin = |a: bool, r: bool, p: bool| (p || (a && !r)) && !(r && !a);
    for c in partly {
        let (ia, ir, p) = (a.contains(&c.t), r.contains(&c.t), pt.contains(&c.t));
        let n = now.contains(&c.t);
        if fin(ia, ir, p) != n && fin(ia || c.add, ir || !c.add, p) == n {
            if c.add {
                a.insert(c.t.clone());
            } else {
                r.insert(c.t.clone());
            }
            ops.ops.push((c.add, c.t.clone(), false));
        }
        // also what has no effect may bring in its names
        if fin(ia, ir, p) == n && fin(ia || c.add, ir || !c.add, p) == n && c.add && l.object_node_id(&c.t.subject).is_some() {
            ops.ops.push((c.add, c.t.clone(), false));
            a.insert(c.t.clone());
        }
    }
}

/// The builder is committed: it refuses everything.
fn later(ctx: &mut Ctx, w: &mut World, job: &Job) -> R<()> {
    let b = &job.b;
    ensure!(b.committed(), "committed() is false after a commit");
    for _ in 0..ctx.rng.range(1, 5) {
        let a = match ctx.rng.below(8) {
            0 => {
                let load = ctx.rng.chance(1, 2);
                ensure!(b.commit(load).is_err(), "a builder is committed a second time");
                ctx.stats.add("later_commits_refused", 1);
                continue;
            }
            1 => {
                let s = ctx.rng.below(w.layers.len());
                w.view_of(ctx, s)?;
                Act::Delta(handle(ctx, w, b, s)?, delta_of(w, s))
            }
            2 => {
                let s = ctx.rng.below(w.layers.len());
                w.view_of(ctx, s)?;
                Act::Diff(handle(ctx, w, b, s)?, diff_to(w, job.parent, s))
            }
            _ => some_act(ctx, w, b, job.parent)?,
        };
        let (what, r, n) = match &a {
            Act::One(c) => ("a change", b.change(c), 1),
            Act::Batch(c) => ("a batch of changes", b.batch(c), c.len()),
            Act::Delta(l, c) => ("apply_delta", b.delta(l), c.len()),
            Act::Diff(l, c) => ("apply_diff", b.diff(l), c.len()),
            Act::Pause(_) => continue,
        };
        if n > 0 {
            ensure!(r.is_err(), "{what} is accepted by a builder that is already committed");
            ctx.stats.add("later_changes_refused", 1);
        }
    }
    Ok(())
}

pub fn register(v: &mut Vec<Prop>) {
    v.push(Prop {
        id: "C15",
        case: c15,
        rule: "one to four builders at a time on random parents, each used by one to six threads that make random changes (single, in batches, by apply_delta and apply_diff, through the asynchronous and the blocking interface) while zero to five others commit at random points, with delayed system calls, and rollups and queries of the parents meanwhile; the committed layer is compared with the set of accepted changes, later calls have to be refused, uncommitted builders must leave nothing. A case is distinct by the number of changes accepted and refused and the commits refused",
        assumptions: &["operating system schedules with injected delays; not all of them are enumerated"],
        must_observe: &["builders_committed", "builders_dropped", "builders_committed_by_several", "changes_refused_concurrently", "commits_refused_concurrently", "later_changes_refused", "later_commits_refused"],
        concurrent: true,
        ..BASE
    });
}
