//! Properties decided by driving random histories of layers and comparing
//! everything observable with the model after every step.
use super::*;
use crate::gen::*;
use crate::world::*;



const RULE: &str = "random histories of layers over random vocabularies (plain, adversarial strings and typed values, bulk) on a random backend; a case is distinct by its full list of operations and changes";

pub fn pick_kind(ctx: &mut Ctx) -> Kind {
    *ctx.rng.pick(&KINDS)
}

pub fn pick_size(ctx: &mut Ctx, w: &World) -> usize {
    let rng = &mut ctx.rng;
    match (w.pool.flavor, rng.below(12)) {
        (_, 0) => 0,
        (_, 1) => 1,
        (Flavor::Bulk, x) if x >= 6 => rng.range(50, 1200),
        (_, 2..=8) => rng.range(2, 12),
        (_, 9..=10) => rng.range(10, 40),
        _ => rng.range(20, 150),
    }
}

/// A random parent: usually a recent layer.
pub fn pick_parent(ctx: &mut Ctx, w: &World) -> Option<usize> {
    let n = w.layers.len();
    if n == 0 || ctx.rng.chance(1, 12) {
        None
    } else if ctx.rng.chance(3, 4) {
        Some(n - 1)
    } else {
        Some(ctx.rng.below(n))
    }
}

/// A layer and one of its proper ancestors.
pub fn pick_anc(ctx: &mut Ctx, w: &World) -> Option<(usize, usize)> {
    let c: Vec<usize> = (0..w.layers.len()).filter(|i| w.layers[*i].parent.is_some()).collect();
    if c.is_empty() {
        return None;
    }
    let i = if ctx.rng.chance(1, 2) { *c.last().unwrap() } else { *ctx.rng.pick(&c) };
    let a = w.ancestors(i);
    let j = a[ctx.rng.below(a.len())];
    Some((i, j))
}

/// Mostly chains, sometimes very deep ones.
fn c01(ctx: &mut Ctx) -> R<()> {
    let kind = pick_kind(ctx);
    let mut w = World::new(ctx, kind)?;
    let deep = ctx.rng.chance(1, 15);
    let steps = if deep { ctx.rng.range(30, 90) } else { ctx.rng.range(2, 9) };
    for _ in 0..steps {
        let p = pick_parent(ctx, &w);
        let n = if deep { ctx.rng.range(0, 5) } else { pick_size(ctx, &w) };
        let i = w.op_commit(ctx, p, n)?;
        if !deep || ctx.rng.chance(1, 6) {
            let sync = ctx.rng.chance(1, 3);
            let f = Focus { delta: false, history: false, sync, ..Focus::ALL };
            w.check(ctx, i, f)?;
        }
    }
    if ctx.rng.chance(1, 3) {
        w.reopen(ctx)?;
    }
    let k = if deep { 6 } else { w.layers.len() };
    for _ in 0..k {
        let i = if deep { ctx.rng.below(w.layers.len()) } else { ctx.rng.below(w.layers.len()) };
        let f = Focus { delta: false, history: false, sync: ctx.rng.chance(1, 4), ..Focus::ALL };
        w.check(ctx, i, f)?;
    }
    ctx.stats.max("deepest_stack", (0..w.layers.len()).map(|i| w.stack(i).len()).max().unwrap_or(0) as u64);
    ctx.nontrivial = w.layers.iter().any(|l| l.triples.len() > 1);
    w.cleanup();
    Ok(())
}


/// Weights of the steps of a random history.
#[derive(Clone, Copy)]
pub struct Mix {
    pub commit: usize,
    pub rollup: usize,
    pub rollup_upto: usize,
    pub imprecise: usize,
    pub squash: usize,
    pub squash_upto: usize,
    pub merge: usize,
    pub reopen: usize,
    pub evict: usize,
    pub packs: usize,
    pub labels: usize,
}
pub const MIX: Mix = Mix { commit: 10, rollup: 0, rollup_upto: 0, imprecise: 0, squash: 0, squash_upto: 0, merge: 0, reopen: 1, evict: 1, packs: 0, labels: 0 };
pub const NOTHING: Mix = Mix { commit: 0, rollup: 0, rollup_upto: 0, imprecise: 0, squash: 0, squash_upto: 0, merge: 0, reopen: 0, evict: 0, packs: 0, labels: 0 };

/// One random step. Returns the new layer, if the step made one.
pub fn step(ctx: &mut Ctx, w: &mut World, m: &Mix) -> R<Option<usize>> {
    let ws = [m.commit, m.rollup, m.rollup_upto, m.imprecise, m.squash, m.squash_upto, m.merge, m.reopen, m.evict, m.packs, m.labels];
    let n = w.layers.len();
    let k = if n == 0 { 0 } else { ctx.rng.weighted(&ws) };
    let recent = |ctx: &mut Ctx| if ctx.rng.chance(1, 2) { n - 1 } else { ctx.rng.below(n) };
    match k {
        0 => {
            let p = pick_parent(ctx, w);
            let s = pick_size(ctx, w);
            Ok(Some(w.op_commit(ctx, p, s)?))
        }
        1 => {
            let i = recent(ctx);
            w.op_rollup(ctx, i)?;
            Ok(None)
        }
        2 | 3 => {
            if let Some((i, j)) = pick_anc(ctx, w) {
                // also up to itself, which changes nothing
                let j = if ctx.rng.chance(1, 20) { i } else { j };
                w.op_rollup_upto(ctx, i, j, k == 3)?;
            }
            Ok(None)
        }
        4 => {
            let i = recent(ctx);
            Ok(Some(w.op_squash(ctx, i)?))
        }
        5 => match pick_anc(ctx, w) {
            Some((i, j)) => Ok(Some(w.op_squash_upto(ctx, i, j)?)),
            None => Ok(None),
        },
        6 => {
            let bases: Vec<usize> = (0..n).filter(|i| w.layers[*i].parent.is_none()).collect();
            let c = ctx.rng.range(1, 4);
            let pick: Vec<usize> = (0..c).map(|_| *ctx.rng.pick(&bases)).collect();
            Ok(Some(w.op_merge(ctx, &pick)?))
        }
        7 => {
            w.reopen(ctx)?;
            Ok(None)
        }
        8 => {
            ctx.t("drop all handles".into());
            for l in &mut w.layers {
                l.kept.clear();
            }
            Ok(None)
        }
        9 => {
            w.op_selfpack(ctx)?;
            Ok(None)
        }
        _ => {
            w.op_label_noise(ctx)?;
            Ok(None)
        }
    }
}

fn run(ctx: &mut Ctx, kind: Kind, m: Mix, steps: usize, each: Focus, end: Focus) -> R<World> {
    let mut w = World::new(ctx, kind)?;
    for _ in 0..steps {
        let new = step(ctx, &mut w, &m)?;
        let i = match new {
            Some(i) => i,
            None if w.layers.is_empty() => continue,
            None => ctx.rng.below(w.layers.len()),
        };
        w.check(ctx, i, each)?;
        if ctx.rng.chance(1, 2) {
            let j = ctx.rng.below(w.layers.len());
            w.check(ctx, j, each)?;
        }
    }
    w.check_all(ctx, end)?;
    if ctx.rng.chance(1, 2) {
        w.reopen(ctx)?;
        w.check_all(ctx, end)?;
    }
    ctx.nontrivial = w.layers.len() > 1 && w.layers.iter().any(|l| l.triples.len() > 1);
    Ok(w)
}

const DICT: Focus = Focus { contents: false, delta: false, history: false, unknown: true, sync: true, cap: 4 };

fn c02(ctx: &mut Ctx) -> R<()> {
    let kind = pick_kind(ctx);
    let steps = ctx.rng.range(2, 14);
    let m = Mix { rollup: 2, rollup_upto: 2, imprecise: 1, squash: 1, squash_upto: 1, merge: 1, reopen: 2, ..MIX };
    let f = Focus { sync: ctx.rng.chance(1, 3), ..DICT };
    let w = run(ctx, kind, m, steps, f, f)?;
    // every part of a triple has an id
    for l in &w.layers {
        if let Some(v) = &l.view {
            ids_of_all(v, l)?;
            ctx.stats.add("dictionary_entries_compared", (v.objs.len() + v.preds.len()) as u64);
        }
    }
    w.cleanup();
    Ok(())
}
fn ids_of_all(v: &crate::check::IdView, l: &MLayer) -> R<()> {
    crate::check::ids_of(v, &l.triples, &short(l.name), "the triple").map(|_| ())
}

fn c03(ctx: &mut Ctx) -> R<()> {
    let kind = pick_kind(ctx);
    let steps = ctx.rng.range(4, 14);
    let m = Mix { commit: 6, rollup: 2, rollup_upto: 2, imprecise: 2, squash: 2, squash_upto: 2, merge: 2, reopen: 1, evict: 1, packs: 3, labels: 3 };
    let f = Focus { unknown: false, sync: false, cap: 6, ..Focus::ALL };
    let mut w = World::new(ctx, kind)?;
    for _ in 0..steps {
        step(ctx, &mut w, &m)?;
        // handles obtained earlier and now
        for i in 0..w.layers.len() {
            if ctx.rng.chance(1, 3) || i + 1 == w.layers.len() {
                let l = w.load(ctx, i)?;
                w.check_handle(ctx, i, &l, f)?;
                if w.layers[i].kept.len() < 3 {
                    w.layers[i].kept.push(l);
                }
            }
            if !w.layers[i].kept.is_empty() && ctx.rng.chance(1, 3) {
                let l = w.layers[i].kept[0].clone();
                w.check_handle(ctx, i, &l, f)?;
                ctx.stats.add("old_handles_rechecked", 1);
            }
        }
    }
    w.check_all(ctx, f)?;
    w.reopen(ctx)?;
    w.check_all(ctx, f)?;
    ctx.nontrivial = w.layers.len() > 1 && w.layers.iter().any(|l| l.triples.len() > 1);
    w.cleanup();
    Ok(())
}

fn c04(ctx: &mut Ctx) -> R<()> {
    let kind = pick_kind(ctx);
    let steps = ctx.rng.range(3, 14);
    let m = Mix { rollup: 2, rollup_upto: 3, imprecise: 2, squash: 1, squash_upto: 1, reopen: 2, ..MIX };
    let f = Focus { contents: false, history: false, unknown: false, sync: ctx.rng.chance(1, 3), delta: true, cap: 10 };
    let mut w = World::new(ctx, kind)?;
    for _ in 0..steps {
        let new = step(ctx, &mut w, &m)?;
        if w.layers.is_empty() {
            continue;
        }
        let i = new.unwrap_or_else(|| ctx.rng.below(w.layers.len()));
        w.check(ctx, i, f)?;
        let j = ctx.rng.below(w.layers.len());
        w.check(ctx, j, f)?;
        w.check_storage_counts(ctx, j)?;
        w.check_range_changes(ctx, j)?;
    }
    for i in 0..w.layers.len() {
        w.check_storage_counts(ctx, i)?;
        w.check_range_changes(ctx, i)?;
    }
    w.check_all(ctx, f)?;
    if ctx.rng.chance(1, 2) {
        w.reopen(ctx)?;
        // straight from storage, nothing loaded
        for i in 0..w.layers.len() {
            w.check_storage_counts(ctx, i)?;
        }
        w.check_all(ctx, f)?;
    }
    ctx.nontrivial = w.layers.iter().any(|l| !l.removes.is_empty() && !l.adds.is_empty());
    w.cleanup();
    Ok(())
}

fn c05(ctx: &mut Ctx) -> R<()> {
    let kind = pick_kind(ctx);
    let mut w = World::new(ctx, kind)?;
    let base = ctx.rng.range(2, 9);
    for _ in 0..base {
        let p = pick_parent(ctx, &w);
        let n = pick_size(ctx, &w);
        w.op_commit(ctx, p, n)?;
    }
    if ctx.rng.chance(2, 3) {
        w.check_all(ctx, Focus { cap: 3, sync: false, ..Focus::ALL })?;
    }
    let m = Mix { commit: 3, rollup: 3, rollup_upto: 5, imprecise: 4, reopen: 2, evict: 2, ..MIX };
    let steps = ctx.rng.range(2, 12);
    let f = Focus { unknown: false, sync: ctx.rng.chance(1, 5), cap: 8, ..Focus::ALL };
    for _ in 0..steps {
        step(ctx, &mut w, &m)?;
        for _ in 0..2 {
            let j = ctx.rng.below(w.layers.len());
            w.check(ctx, j, f)?;
        }
    }
    w.check_all(ctx, f)?;
    w.reopen(ctx)?;
    w.check_all(ctx, f)?;
    // building on whatever is there now
    let j = ctx.rng.below(w.layers.len());
    let n = pick_size(ctx, &w);
    let i = w.op_commit(ctx, Some(j), n)?;
    w.check(ctx, i, Focus::ALL)?;
    ctx.nontrivial = w.rollups_done > 0 && w.layers.iter().any(|l| l.triples.len() > 1);
    w.cleanup();
    Ok(())
}

fn c06(ctx: &mut Ctx) -> R<()> {
    let kind = pick_kind(ctx);
    let m = Mix { commit: 8, rollup: 1, rollup_upto: 1, imprecise: 1, squash: 4, squash_upto: 5, ..MIX };
    let steps = ctx.rng.range(4, 14);
    let mut w = World::new(ctx, kind)?;
    for _ in 0..steps {
        let new = step(ctx, &mut w, &m)?;
        if let Some(i) = new {
            let f = Focus { sync: ctx.rng.chance(1, 4), ..Focus::ALL };
            w.check(ctx, i, f)?;
        }
        let j = ctx.rng.below(w.layers.len().max(1));
        if !w.layers.is_empty() && ctx.rng.chance(1, 2) {
            w.check(ctx, j, Focus { cap: 5, ..Focus::LIGHT })?;
        }
    }
    w.check_all(ctx, Focus::LIGHT)?;
    if ctx.rng.chance(1, 2) {
        w.reopen(ctx)?;
        w.check_all(ctx, Focus::LIGHT)?;
    }
    ctx.nontrivial = w.layers.iter().any(|l| l.origin.starts_with("squash") && l.triples.len() > 1);
    w.cleanup();
    Ok(())
}

fn c07(ctx: &mut Ctx) -> R<()> {
    let kind = pick_kind(ctx);
    let mut w = World::new(ctx, kind)?;
    let nb = ctx.rng.range(1, 7);
    for _ in 0..nb {
        let n = pick_size(ctx, &w);
        let i = w.op_commit(ctx, None, n)?;
        if ctx.rng.chance(1, 6) {
            // a base layer made by squashing
            let n = pick_size(ctx, &w);
            let c = w.op_commit(ctx, Some(i), n)?;
            w.op_squash(ctx, c)?;
        }
        if ctx.rng.chance(1, 4) {
            let other = Pool::random(&mut ctx.rng);
            w.pool.nodes.extend(other.nodes);
            w.pool.preds.extend(other.preds);
            w.pool.values.extend(other.values);
        }
    }
    let rounds = ctx.rng.range(1, 3);
    for _ in 0..rounds {
        let bases: Vec<usize> = (0..w.layers.len()).filter(|i| w.layers[*i].parent.is_none()).collect();
        let c = ctx.rng.range(0, bases.len() + 2);
        let mut pick: Vec<usize> = if ctx.rng.chance(1, 2) {
            let mut b = bases.clone();
            ctx.rng.shuffle(&mut b);
            b.truncate(c.max(1));
            b
        } else {
            (0..c).map(|_| *ctx.rng.pick(&bases)).collect()
        };
        if pick.is_empty() && ctx.rng.chance(3, 4) {
            pick.push(bases[0]);
        }
        let i = w.op_merge(ctx, &pick)?;
        let f = Focus { sync: ctx.rng.chance(1, 4), ..Focus::ALL };
        w.check(ctx, i, f)?;
        // something on top of it
        let n = pick_size(ctx, &w);
        let c = w.op_commit(ctx, Some(i), n)?;
        w.check(ctx, c, Focus::LIGHT)?;
    }
    w.check_all(ctx, Focus::LIGHT)?;
    if ctx.rng.chance(1, 2) {
        w.reopen(ctx)?;
        w.check_all(ctx, Focus::LIGHT)?;
    }
    ctx.nontrivial = w.layers.iter().any(|l| l.origin == "merge" && l.triples.len() > 1);
    w.cleanup();
    Ok(())
}

fn c16(ctx: &mut Ctx) -> R<()> {
    let kind = pick_kind(ctx);
    let mut w = World::new(ctx, kind)?;
    let m = Mix { commit: 10, rollup: 1, rollup_upto: 1, imprecise: 1, squash: 1, squash_upto: 1, merge: 1, ..MIX };
    let steps = ctx.rng.range(3, 9);
    for _ in 0..steps {
        step(ctx, &mut w, &m)?;
    }
    let picks = ctx.rng.range(1, 5);
    for _ in 0..picks {
        let target = if ctx.rng.chance(1, 6) { None } else { Some(ctx.rng.below(w.layers.len())) };
        let src = ctx.rng.below(w.layers.len());
        let i = if ctx.rng.chance(1, 2) { w.op_apply_delta(ctx, target, src)? } else { w.op_apply_diff(ctx, target, src)? };
        let f = Focus { sync: ctx.rng.chance(1, 4), ..Focus::ALL };
        w.check(ctx, i, f)?;
        w.check(ctx, src, Focus::LIGHT)?;
    }
    w.check_all(ctx, Focus { cap: 3, ..Focus::LIGHT })?;
    ctx.nontrivial = w.layers.iter().any(|l| l.origin.starts_with("apply") && (!l.adds.is_empty() || !l.removes.is_empty()));
    w.cleanup();
    Ok(())
}

fn c18(ctx: &mut Ctx) -> R<()> {
    let kind = pick_kind(ctx);
    let mut w = World::new(ctx, kind)?;
    let m = Mix { commit: 12, rollup: 2, rollup_upto: 3, imprecise: 2, squash: 1, squash_upto: 1, merge: 1, reopen: 2, evict: 1, packs: 1, labels: 0 };
    let deep = ctx.rng.chance(1, 8);
    let steps = if deep { ctx.rng.range(40, 120) } else { ctx.rng.range(4, 25) };
    let f = Focus { contents: false, delta: false, history: true, unknown: false, sync: false, cap: 2 };
    for _ in 0..steps {
        if deep {
            let p = pick_parent(ctx, &w);
            if ctx.rng.chance(5, 6) {
                w.op_commit(ctx, p, 1)?;
                continue;
            }
        }
        step(ctx, &mut w, &m)?;
        if !w.layers.is_empty() {
            let i = ctx.rng.below(w.layers.len());
            w.check(ctx, i, f)?;
            w.check_unknown_layers(ctx)?;
        }
    }
    for _ in 0..(if deep { 12 } else { w.layers.len() }) {
        let i = ctx.rng.below(w.layers.len());
        w.check(ctx, i, f)?;
    }
    w.reopen(ctx)?;
    for _ in 0..(if deep { 12 } else { w.layers.len() }) {
        let i = ctx.rng.below(w.layers.len());
        let l = w.load(ctx, i)?;
        w.check_history(ctx, i, &l)?;
    }
    w.check_unknown_layers(ctx)?;
    ctx.stats.max("deepest_stack", (0..w.layers.len()).map(|i| w.stack(i).len()).max().unwrap_or(0) as u64);
    ctx.nontrivial = w.layers.len() > 2;
    w.cleanup();
    Ok(())
}

pub fn register(v: &mut Vec<Prop>) {
    v.push(Prop { id: "C01", case: c01, rule: RULE, must_observe: &["commits", "content_queries_compared", "blocking_api_checks"], ..BASE });
    v.push(Prop { id: "C02", case: c02, rule: RULE, must_observe: &["commits", "dictionary_entries_compared", "rollups", "reopens"], ..BASE });
    v.push(Prop { id: "C03", case: c03, rule: RULE, must_observe: &["commits", "old_handles_rechecked", "rollups", "reopens", "squashes", "merges", "self_imports"], ..BASE });
    v.push(Prop { id: "C04", case: c04, rule: RULE, must_observe: &["commits", "delta_queries_compared", "rollups_upto", "range_changes_compared", "storage_counts_compared"], ..BASE });
    v.push(Prop { id: "C05", case: c05, rule: RULE, must_observe: &["commits", "rollups", "rollups_upto", "imprecise_rollups", "reopens"], ..BASE });
    v.push(Prop { id: "C06", case: c06, rule: RULE, must_observe: &["commits", "squashes", "squashes_upto"], ..BASE });
    v.push(Prop { id: "C07", case: c07, rule: RULE, must_observe: &["commits", "merges"], ..BASE });
    v.push(Prop { id: "C16", case: c16, rule: RULE, must_observe: &["commits", "deltas_applied", "diffs_applied"], ..BASE });
    v.push(Prop { id: "C18", case: c18, rule: RULE, must_observe: &["commits", "history_checks", "unknown_layers_asked"], ..BASE });
}
