//! C13: file system calls that fail or are cut short.
use super::crash::*;
use super::history::*;
use super::packs;
use super::reopen::LABEL_NAMES;
use super::*;
use crate::fsx::{self, Call, Plan};
use crate::orch;
use crate::world::*;
use crate::{ensure, viol};
use std::sync::atomic::Ordering::SeqCst;
use terminus_store::layer::Layer;
use terminus_store::storage::Label;

pub fn plan(rng: &mut Rng) -> Plan {
    let only = if rng.chance(1, 2) {
        None
    } else {
        Some(*rng.pick(&[Call::Open, Call::Read, Call::Write, Call::Write, Call::Trunc, Call::Sync, Call::Sync, Call::Rename, Call::Rename, Call::Rename, Call::Link, Call::Unlink, Call::Mkdir, Call::Mkdir, Call::Stat, Call::Opendir, Call::Readdir, Call::Lock]))
    };
    // early calls are hit more often, so that short operations are covered as well
    // (and of some kinds there are but a few in any operation)
    let top: f64 = match only {
        None => 300.0,
        Some(Call::Rename | Call::Mkdir | Call::Unlink | Call::Opendir | Call::Trunc | Call::Link) => 3.0,
        Some(Call::Readdir | Call::Lock) => 8.0,
        Some(Call::Sync) => 25.0,
        Some(_) => 40.0,
    };
    let u = (rng.next() >> 11) as f64 / (1u64 << 53) as f64;
    let at = if rng.chance(1, 2) { top.powf(u) as usize - 1 } else { (u * top * 1.5) as usize };
    let errno = *rng.pick(&[libc::EIO, libc::EIO, libc::ENOSPC, libc::EACCES, libc::EMFILE, libc::EINTR, 0, 0]);
    let mut times = *rng.pick(&[1, 1, 1, 2, usize::MAX]);
    if errno == libc::EINTR {
        times = times.min(3);
    }
    Plan { at, only, errno, times }
}

/// An operation on one label: what it is afterwards, if it has its effect.
enum LabelOp {
    Create,
    Delete,
    Set(Option<usize>),
    SetHead(usize),
    Force(usize),
    ForceVersion(usize),
}

struct Outcome {
    what: String,
    /// the label and what it becomes
    label: Option<(String, Option<(u64, Option<usize>)>)>,
    /// layers of another store that may be in this one now
    imported: Option<(World, Vec<u8>)>,
}

fn label_op(ctx: &mut Ctx, w: &mut World, labels: &Labels, o: &mut Outcome) -> R<()> {
    let rt = ctx.rt.clone();
    let store = w.bk.store.clone();
    let name = if labels.is_empty() || ctx.rng.chance(1, 3) { (*ctx.rng.pick(&LABEL_NAMES)).to_string() } else { labels.keys().nth(ctx.rng.below(labels.len())).unwrap().clone() };
    let cur = labels.get(&name).cloned();
    let n = w.layers.len();
    let i = ctx.rng.below(n.max(1));
    let op = match (cur, ctx.rng.below(8)) {
        (None, 0) => LabelOp::Delete,
        (None, _) => LabelOp::Create,
        (Some(_), 0) => LabelOp::Delete,
        (Some(_), 1) => LabelOp::Create,
        (Some(_), 2 | 3) => LabelOp::Set(if n == 0 || ctx.rng.chance(1, 4) { None } else { Some(i) }),
        (Some(_), _) if n == 0 => LabelOp::Set(None),
        (Some(_), 4 | 5) => LabelOp::SetHead(i),
        (Some(_), 6) => LabelOp::Force(i),
        (Some(_), _) => LabelOp::ForceVersion(i),
    };
    match op {
        LabelOp::Create => {
            o.what = format!("create {name:?}");
            if cur.is_none() {
                o.label = Some((name.clone(), Some((0, None))));
            }
            let r = rt.block_on(store.create(&name));
            if cur.is_some() {
                ensure!(r.is_err(), "database {name:?} is created a second time");
                return Ok(());
            }
            r.op("create")?;
        }
        LabelOp::Delete => {
            o.what = format!("delete {name:?}");
            o.label = Some((name.clone(), None));
            let r = rt.block_on(store.delete(&name)).op("delete")?;
            ensure!(r == cur.is_some(), "deleting database {name:?} reports {r}");
        }
        LabelOp::Set(to) => {
            let (v, l) = cur.unwrap();
            o.what = format!("set {name:?} to {to:?}");
            o.label = Some((name.clone(), Some((v + 1, to))));
            let from = Label { name: name.clone(), layer: l.map(|i| w.layers[i].name), version: v };
            let r = rt.block_on(w.bk.labels.set_label_option(&from, to.map(|i| w.layers[i].name))).op("setting a label")?;
            ensure!(r.is_some(), "label {name:?} is refused to be set from {from:?}, which it is");
        }
        LabelOp::SetHead(i) | LabelOp::Force(i) | LabelOp::ForceVersion(i) => {
            let (v, h) = cur.unwrap();
            o.what = format!("set head of {name:?} to #{i}");
            let l = w.load(ctx, i)?;
            let g = match rt.block_on(store.open(&name)).op("opening a database")? {
                Some(g) => g,
                None => viol!("database {name:?} is reported not to exist"),
            };
            let ok = match op {
                LabelOp::SetHead(_) => h.map(|h| w.stack(i).contains(&h)).unwrap_or(true),
                _ => true,
            };
            if ok {
                o.label = Some((name.clone(), Some((v + 1, Some(i)))));
            }
            let r = match op {
                LabelOp::SetHead(_) => rt.block_on(g.set_head(&l)).op("set_head")?,
                LabelOp::Force(_) => rt.block_on(g.force_set_head(&l)).map(|_| true).op("force_set_head")?,
                _ => rt.block_on(g.force_set_head_version(&l, v)).op("force_set_head_version")?,
            };
            ensure!(r == ok, "set_head of {name:?} to #{i} gives {r}, expected {ok}");
        }
    }
    Ok(())
}

/// One operation while calls fail; a reported error comes back as Fail::Io.
fn faulted(ctx: &mut Ctx, w: &mut World, labels: &Labels, k: usize, o: &mut Outcome) -> R<()> {
    let n = w.layers.len();
    let one = |m: &mut Mix, k: usize| {
        *m = NOTHING;
        match k {
            0 => m.commit = 1,
            1 => m.rollup = 1,
            2 => m.rollup_upto = 1,
            3 => m.imprecise = 1,
            4 => m.squash = 1,
            5 => m.squash_upto = 1,
            _ => m.merge = 1,
        }
    };
    let rt = ctx.rt.clone();
    let f = Focus { cap: 2, sync: ctx.rng.chance(1, 4), ..Focus::LIGHT };
    let i = ctx.rng.below(n.max(1));
    match k {
        0..=6 => {
            let mut m = NOTHING;
            one(&mut m, k);
            let t = ctx.trace.len();
            let r = step(ctx, w, &m);
            o.what = ctx.trace[t.min(ctx.trace.len())..].join("; ");
            let new = r?;
            if let Some(i) = new {
                if ctx.rng.chance(1, 2) {
                    w.layers[i].kept.clear();
                    w.check(ctx, i, f)?;
                }
            }
        }
        7 => {
            o.what = "export".into();
            let m = ctx.rng.range(1, n);
            let which: Vec<usize> = (0..m).map(|_| ctx.rng.below(n)).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
            let pack = packs::export(ctx, w, which.iter().map(|i| w.layers[*i].name).collect(), false)?.op("export")?;
            // what is in it has to be right
            let parents = terminus_store::storage::pack_layer_parents(std::io::Cursor::new(&pack)).map_err(|e| Fail::Viol(format!("the exported pack cannot be read: {e:?}")))?;
            ensure!(parents.len() == which.len(), "the exported pack has {} layers instead of {}", parents.len(), which.len());
            for i in &which {
                let p = w.layers[*i].parent.map(|p| w.layers[p].name);
                ensure!(parents.get(&w.layers[*i].name) == Some(&p), "the parent of #{i} in the exported pack is wrong");
            }
            if ctx.rng.chance(1, 2) {
                // into a store without faults (there is no file system call in it)
                let all: Vec<usize> = which.iter().flat_map(|i| w.stack(*i)).collect::<std::collections::BTreeSet<_>>().into_iter().collect();
                if all == which {
                    let bk = Bk::open(&ctx.rt, Kind::Mem, None)?;
                    let mut v = w.fork(bk, n, "exported ");
                    packs::import(ctx, &v, &pack, all.iter().map(|i| w.layers[*i].name).collect(), false)?.op("importing into memory")?;
                    for i in all {
                        v.check(ctx, i, f)?;
                    }
                    ctx.stats.add("faulted_exports_imported", 1);
                }
            }
        }
        8 => {
            o.what = "import".into();
            let (ow, pack) = o.imported.as_ref().unwrap();
            let names: Vec<Name> = ow.layers.iter().map(|l| l.name).collect();
            let pack = pack.clone();
            packs::import(ctx, w, &pack, names, false)?.op("import")?;
        }
        9 => {
            o.what = "reopening and reading".into();
            w.reopen(ctx)?;
            w.check(ctx, i, f)?;
        }
        10 => {
            o.what = format!("reading #{i}");
            for l in &mut w.layers {
                l.kept.clear();
            }
            w.check(ctx, i, Focus { cap: 4, unknown: true, ..f })?;
        }
        11 => {
            o.what = format!("reading #{i} from storage");
            w.check_storage_counts(ctx, i)?;
            w.check_range_changes(ctx, i)?;
        }
        12 => {
            o.what = "listing the layers".into();
            let l = rt.block_on(w.bk.direct.layers()).op("layers()")?;
            for (i, m) in w.layers.iter().enumerate() {
                ensure!(l.contains(&m.name), "layers() does not list #{i} ({})", m.origin);
            }
        }
        13 => {
            o.what = "reading the labels".into();
            let got = labels_now(ctx, w, "listing the labels")?;
            judge_labels(w, &got, labels, labels, "listing the labels")?;
            for n in labels.keys() {
                match rt.block_on(w.bk.store.open(n)).op("opening a database")? {
                    None => viol!("database {n:?} is reported not to exist"),
                    Some(g) => {
                        let h = rt.block_on(g.head_version()).op("head_version")?;
                        let h = (h.0.map(|l| l.name()), h.1);
                        let (v, l) = labels[n];
                        ensure!(h == (l.map(|i| w.layers[i].name), v), "the head of {n:?} is {h:?}, expected {:?}", (v, l));
                    }
                }
            }
        }
        14 => {
            o.what = "apply changes".into();
            let target = if ctx.rng.chance(1, 3) { None } else { Some(ctx.rng.below(n)) };
            let i = if ctx.rng.chance(1, 2) { w.op_apply_delta(ctx, target, i)? } else { w.op_apply_diff(ctx, target, i)? };
            w.check(ctx, i, f)?;
        }
        15 => {
            o.what = "asking about unknown layers".into();
            w.check_unknown_layers(ctx)?;
        }
        _ => label_op(ctx, w, labels, o)?,
    }
    Ok(())
}

fn c13(ctx: &mut Ctx) -> R<()> {
    let (mut w, lm) = small_world(ctx)?;
    let mut labels = lm.m.clone();
    drop(lm);
    for i in 0..w.layers.len() {
        w.view_of(ctx, i)?;
    }
    let rounds = if ctx.rng.chance(1, 3) { ctx.rng.range(2, 6) } else { ctx.rng.range(6, 24) };
    let mut any = false;
    for _ in 0..rounds {
        let n = w.layers.len();
        let mut k = ctx.rng.below(28);
        if k >= 22 {
            k = 0;
        }
        if n == 0 && !matches!(k, 0 | 8 | 13 | 16..) {
            k = 0;
        }
        let mut o = Outcome { what: String::new(), label: None, imported: None };
        if k == 8 {
            let bk = Bk::open(&ctx.rt, Kind::Mem, None)?;
            let mut ow = World { bk, layers: vec![], pool: w.pool.clone(), rollups_done: 0, abandoned: 0, tag: "other ".into() };
            for _ in 0..ctx.rng.range(1, 3) {
                step(ctx, &mut ow, &MIX)?;
            }
            let names: Vec<Name> = ow.layers.iter().map(|l| l.name).collect();
            let pack = packs::export(ctx, &ow, names, false)?.op("exporting")?;
            for i in 0..ow.layers.len() {
                ow.view_of(ctx, i)?;
            }
            o.imported = Some((ow, pack));
        }
        if k == 0 || ctx.rng.chance(1, 3) {
            // nothing in memory yet
            w.reopen(ctx)?;
        }
        let p = plan(&mut ctx.rng);
        let panics = orch::panics();
        let before = w.layers.len();
        let scratch = ctx.scratch.clone();
        fsx::faults_start(&scratch, Some(p));
        FAULTS.store(true, SeqCst);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| faulted(ctx, &mut w, &labels, k, &mut o)));
        // what was started may go on for a while; let it meet the same faults
        let t0 = std::time::Instant::now();
        while ctx.rt.metrics().num_alive_tasks() > 0 && t0.elapsed().as_secs() < 20 {
            std::thread::sleep(std::time::Duration::from_micros(200));
        }
        FAULTS.store(false, SeqCst);
        let (hits, calls) = fsx::faults_stop();
        let unsynced = fsx::unsynced();
        let hit = hits.first().map(|(c, p)| format!("{c:?} of {}", p.trim_start_matches(&*scratch.to_string_lossy()))).unwrap_or("nothing".into());
        let err = match p.errno {
            0 => "was cut short".to_string(),
            e => format!("failed ({})", std::io::Error::from_raw_os_error(e)),
        };
        let what = format!("[{}] where {hit} {err}{}", o.what, if hits.len() > 1 { format!(" and {} more", hits.len() - 1) } else { String::new() });
        ctx.t(what.clone());
        ctx.stats.add("calls_seen", calls.len() as u64);
        ctx.stats.add("calls_hit", hits.len() as u64);
        ctx.stats.max("most_calls_of_an_operation", calls.len() as u64);
        if !hits.is_empty() {
            any = true;
            ctx.stats.add("operations_hit", 1);
            for c in hits.iter().map(|h| h.0).collect::<std::collections::HashSet<_>>() {
                ctx.stats.add(&format!("hit_{c:?}"), 1);
            }
        }
        let r = match r {
            Ok(r) => r,
            Err(_) => {
                let (m, ours) = orch::last_panic().unwrap_or_default();
                if ours {
                    return Err(Fail::Harness(m));
                }
                viol!("{what}: the library panicked: {m}");
            }
        };
        if orch::panics() != panics {
            let (m, ours) = orch::last_panic().unwrap_or_default();
            if ours {
                return Err(Fail::Harness(m));
            }
            viol!("{what}: the library panicked: {m}");
        }
        let failed = match r {
            Ok(()) => false,
            Err(Fail::Io(e)) => {
                if hits.is_empty() {
                    viol!("{what}: {e}");
                }
                true
            }
            Err(Fail::Viol(m)) => viol!("{what}: {m}"),
            Err(e) => return Err(e),
        };
        if !hits.is_empty() {
            ctx.stats.add(if failed { "errors_reported" } else { "completed_in_spite" }, 1);
        }
        if failed {
            w.abandoned += 8;
        } else if !unsynced.is_empty() {
            let of = unsynced[0].strip_prefix(&scratch).unwrap_or(&unsynced[0]);
            viol!("{what}: success is reported, but {} could not be brought to the disk", of.display());
        }
        // the labels: old or new, and the new one if acknowledged
        let mut new = labels.clone();
        if let Some((n, x)) = &o.label {
            match x {
                Some(x) => new.insert(n.clone(), *x),
                None => new.remove(n),
            };
        }
        if !failed {
            labels = new.clone();
        }
        let got = labels_now(ctx, &w, "listing the labels after the fault")?;
        labels = judge_labels(&w, &got, &labels, &new, &what)?;
        if let (Some((n, _)), true) = (&o.label, failed) {
            // and this one can be used
            match labels.get(n).cloned() {
                None => {
                    ctx.rt.block_on(w.bk.store.create(n)).op(&format!("creating {n:?} after {what}"))?;
                    labels.insert(n.clone(), (0, None));
                }
                Some((v, l)) => {
                    let from = Label { name: n.clone(), layer: l.map(|i| w.layers[i].name), version: v };
                    let r = ctx.rt.block_on(w.bk.labels.set_label_option(&from, from.layer)).op(&format!("setting {n:?} after {what}"))?;
                    ensure!(r.is_some(), "after {what}: label {n:?} is refused to be set from {from:?}, which it is");
                    labels.insert(n.clone(), (v + 1, l));
                }
            }
        }
        if let Some((mut ow, pack)) = o.imported {
            if failed {
                let names: Vec<Name> = ow.layers.iter().map(|l| l.name).collect();
                // what is there is right; and importing works now
                let there = ctx.rt.block_on(w.bk.direct.layers()).op("layers()")?;
                for i in 0..names.len() {
                    if ow.stack(i).iter().any(|j| !there.contains(&ow.layers[*j].name)) {
                        continue;
                    }
                    match ctx.rt.block_on(w.bk.store.get_layer_from_id(names[i])).op(&format!("loading an imported layer after {what}"))? {
                        Some(l) => ow.check_handle(ctx, i, &l, Focus { cap: 2, delta: false, history: false, ..Focus::LIGHT })?,
                        None => viol!("after {what}: a layer that is listed cannot be loaded"),
                    }
                    ctx.stats.add("partly_imported", 1);
                }
                packs::import(ctx, &w, &pack, names, false)?.op(&format!("importing again after {what}"))?;
            }
            for i in 0..ow.layers.len() {
                packs::adopt(ctx, &mut ow, &mut w, i)?;
            }
        }
        // everything else is as before, through the same store
        let f = Focus { cap: 2, delta: ctx.rng.chance(1, 3), history: ctx.rng.chance(1, 3), ..Focus::LIGHT };
        for i in 0..w.layers.len() {
            if i < before && (hits.is_empty() || ctx.rng.chance(1, 2)) && !failed {
                continue;
            }
            w.layers[i].kept.clear();
            w.check(ctx, i, f).map_err(|e| match e {
                Fail::Viol(m) => Fail::Viol(format!("after {what}: {m}")),
                e => e,
            })?;
        }
    }
    ctx.nontrivial = any;
    go_on(ctx, &mut w, labels, 2)?;
    w.reopen(ctx)?;
    w.check_all(ctx, Focus { cap: 2, ..Focus::LIGHT })?;
    w.cleanup();
    Ok(())
}

pub fn register(v: &mut Vec<Prop>) {
    v.push(Prop {
        id: "C13",
        case: c13,
        rule: "random operations (commit, rollups, squashes, merge, export, import, loading, reading from storage, label updates, heads, listings) on a random directory or archive store while one, several or all file system calls from a random one on fail with EIO, ENOSPC, EACCES, EMFILE, EINTR or are cut short; afterwards the same store is compared with the model, the operation's label is used again, and the store goes on working. A case is distinct by its operations and the calls hit",
        assumptions: &["faults are injected at the C library's interface, below Rust's standard library", "closing a file never fails"],
        must_observe: &["operations_hit", "errors_reported", "completed_in_spite", "hit_Open", "hit_Read", "hit_Write", "hit_Sync", "hit_Stat", "hit_Rename", "hit_Mkdir", "hit_Readdir", "hit_Lock"],
        tolerates_panics: true,
        ..BASE
    });
}
