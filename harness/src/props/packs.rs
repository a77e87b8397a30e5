//! C08: layers travel between stores in packs.
use super::history::*;
use super::*;
use crate::world::*;
use crate::{ensure, viol};
use std::collections::{BTreeMap, BTreeSet};

/// Calls export_layers, catching panics on the way.
pub fn export(ctx: &mut Ctx, w: &World, names: Vec<Name>, sync: bool) -> R<std::io::Result<Vec<u8>>> {
    if sync {
        return Ok(w.sync_store().export_layers(Box::new(names.into_iter())));
    }
    let st = w.bk.store.clone();
    ctx.rt.block_on(async move { tokio::spawn(async move { st.export_layers(Box::new(names.into_iter())).await }).await }).map_err(join_viol)
}
pub fn import(ctx: &mut Ctx, w: &World, pack: &[u8], names: Vec<Name>, sync: bool) -> R<std::io::Result<()>> {
    if sync {
        return Ok(w.sync_store().import_layers(pack, Box::new(names.into_iter())));
    }
    let st = w.bk.store.clone();
    let pack = pack.to_vec();
    ctx.rt
        .block_on(async move { tokio::spawn(async move { st.import_layers(&pack, Box::new(names.into_iter())).await }).await })
        .map_err(join_viol)
}

/// Makes layer `i` of `a` (and what it stands on) part of the model of `b`.
pub fn adopt(ctx: &mut Ctx, a: &mut World, b: &mut World, i: usize) -> R<usize> {
    if let Some(j) = b.by_name(a.layers[i].name) {
        return Ok(j);
    }
    let parent = match a.layers[i].parent {
        Some(p) => Some(adopt(ctx, a, b, p)?),
        None => None,
    };
    let view = a.view_of(ctx, i)?;
    let m = &a.layers[i];
    b.layers.push(MLayer {
        name: m.name,
        parent,
        triples: m.triples.clone(),
        adds: m.adds.clone(),
        removes: m.removes.clone(),
        mention_o: m.mention_o.clone(),
        mention_p: m.mention_p.clone(),
        view: Some(view),
        kept: vec![],
        origin: "import",
        rolled: false,
    });
    Ok(b.layers.len() - 1)
}

fn damage(ctx: &mut Ctx, pack: &[u8]) -> Vec<u8> {
    let mut p = pack.to_vec();
    let n = p.len();
    match ctx.rng.below(8) {
        0 | 1 | 2 => {
            let k = match ctx.rng.below(4) {
                0 => ctx.rng.below(20.min(n)),
                1 => n - 1 - ctx.rng.below(12.min(n - 1)),
                _ => ctx.rng.below(n),
            };
            p.truncate(k);
            ctx.stats.add("packs_truncated", 1);
        }
        3 | 4 => {
            for _ in 0..ctx.rng.range(1, 4) {
                let i = ctx.rng.below(n);
                p[i] ^= 1 << ctx.rng.below(8);
            }
            ctx.stats.add("packs_with_flipped_bits", 1);
        }
        5 => {
            let i = ctx.rng.below(n);
            let k = (i + ctx.rng.range(1, 200)).min(n);
            for b in &mut p[i..k] {
                *b = 0;
            }
            ctx.stats.add("packs_with_zeroes", 1);
        }
        6 => {
            let i = ctx.rng.below(n);
            let k = (i + ctx.rng.range(1, 100)).min(n);
            p.drain(i..k);
            ctx.stats.add("packs_with_a_hole", 1);
        }
        _ => {
            p = (0..ctx.rng.below(400)).map(|_| ctx.rng.next() as u8).collect();
            ctx.stats.add("packs_of_noise", 1);
        }
    }
    p
}

fn c08(ctx: &mut Ctx) -> R<()> {
    let (ka, kb) = (pick_kind(ctx), pick_kind(ctx));
    let mut a = World::new(ctx, ka)?;
    let mut b = World::new(ctx, kb)?;
    a.tag = "A".into();
    b.tag = "B".into();
    // one vocabulary for both
    a.pool.nodes.extend(b.pool.nodes.clone());
    a.pool.preds.extend(b.pool.preds.clone());
    a.pool.values.extend(b.pool.values.clone());
    b.pool = a.pool.clone();
    let m = Mix { commit: 9, rollup: 2, rollup_upto: 2, imprecise: 1, squash: 1, squash_upto: 1, merge: 1, reopen: 1, ..MIX };
    for _ in 0..ctx.rng.range(2, 9) {
        step(ctx, &mut a, &m)?;
    }
    for _ in 0..ctx.rng.range(0, 3) {
        step(ctx, &mut b, &MIX)?;
    }
    let light = Focus { cap: 5, sync: false, ..Focus::ALL };
    let rounds = ctx.rng.range(1, 3);
    for _ in 0..rounds {
        let n = a.layers.len();
        // what to export: some heads with all or part of their history
        let mut exp: BTreeSet<usize> = BTreeSet::new();
        for _ in 0..ctx.rng.range(1, 3) {
            let i = ctx.rng.below(n);
            let st = a.stack(i);
            let from = if ctx.rng.chance(2, 3) { 0 } else { ctx.rng.below(st.len()) };
            exp.extend(&st[from..]);
        }
        if ctx.rng.chance(1, 12) {
            exp.clear();
        }
        let mut order: Vec<usize> = exp.iter().cloned().collect();
        ctx.rng.shuffle(&mut order);
        let sync = ctx.rng.chance(1, 3);
        ctx.t(format!("export {order:?} from A"));
        ctx.stats.add("exports", 1);
        ctx.stats.add("layers_exported", order.len() as u64);
        let pack = export(ctx, &a, order.iter().map(|i| a.layers[*i].name).collect(), sync)?.op("export_layers")?;
        // the parent listing
        let got = terminus_store::storage::pack_layer_parents(Dribble::new(&pack, &mut ctx.rng));
        let got: BTreeMap<Name, Option<Name>> = match got {
            Ok(g) => g.into_iter().collect(),
            Err(e) => viol!("pack_layer_parents of a good pack fails: {e}"),
        };
        let want: BTreeMap<Name, Option<Name>> = order.iter().map(|i| (a.layers[*i].name, a.layers[*i].parent.map(|p| a.layers[p].name))).collect();
        ensure!(got == want, "pack_layer_parents lists {} layers {:?}, expected {} {:?}", got.len(), got, want.len(), want);
        if ctx.rng.chance(1, 6) {
            let mut names: Vec<Name> = order.iter().map(|i| a.layers[*i].name).collect();
            names.insert(ctx.rng.below(names.len() + 1), [7, 7, 7, 7, ctx.rng.below(9) as u32]);
            ensure!(export(ctx, &a, names, false)?.is_err(), "exporting a layer that does not exist succeeds");
            ctx.stats.add("exports_of_unknown_layers", 1);
        }
        // what to import: layers whose history will be complete
        let mut wish: Vec<usize> = order.iter().cloned().filter(|_| ctx.rng.chance(5, 6)).collect();
        loop {
            let ok: Vec<usize> = wish
                .iter()
                .cloned()
                .filter(|i| a.layers[*i].parent.map(|p| wish.contains(&p) || b.by_name(a.layers[p].name).is_some()).unwrap_or(true))
                .collect();
            if ok.len() == wish.len() {
                break;
            }
            wish = ok;
        }
        let mut req: Vec<Name> = wish.iter().map(|i| a.layers[*i].name).collect();
        let mut absent: Vec<Name> = vec![];
        for _ in 0..ctx.rng.below(3) {
            // layers that are not in the pack
            let i = ctx.rng.below(n);
            let x = if ctx.rng.chance(1, 2) && !exp.contains(&i) { a.layers[i].name } else { [9, 9, 9, ctx.rng.next() as u32, 9] };
            if b.by_name(x).is_none() && !req.contains(&x) {
                absent.push(x);
            }
            req.push(x);
        }
        ctx.rng.shuffle(&mut req);
        let not_asked: Vec<Name> = order.iter().filter(|i| !wish.contains(i)).map(|i| a.layers[*i].name).filter(|x| b.by_name(*x).is_none() && !req.contains(x)).collect();
        let present: Vec<usize> = wish.iter().cloned().filter(|i| b.by_name(a.layers[*i].name).is_some()).collect();
        ctx.stats.add("imports_of_present_layers", present.len() as u64);

        for _ in 0..(if ctx.rng.chance(2, 3) { ctx.rng.range(1, 6) } else { 0 }) {
            let bad = damage(ctx, &pack);
            if bad == pack {
                continue;
            }
            let r = import(ctx, &b, &bad, req.clone(), ctx.prop.len() == 99)?;
            ctx.t(format!("import of a damaged pack into B: {}", if r.is_ok() { "accepted" } else { "refused" }));
            ctx.stats.add(if r.is_ok() { "damaged_packs_accepted" } else { "damaged_packs_refused" }, 1);
            let pb = Dribble::new(&bad, &mut ctx.rng);
            let pl = std::panic::catch_unwind(move || terminus_store::storage::pack_layer_parents(pb).map(|m| m.into_iter().collect::<BTreeMap<_, _>>()).ok());
            match pl {
                Err(_) => viol!("pack_layer_parents panics on a damaged pack"),
                Ok(Some(m)) => ensure!(m == want, "pack_layer_parents reads {} layers from a damaged pack, the undamaged one has {}", m.len(), want.len()),
                Ok(None) => {}
            }
            if r.is_ok() {
                for i in &wish {
                    adopt(ctx, &mut a, &mut b, *i)?;
                }
                b.check_all(ctx, light)?;
            } else {
                let ls: BTreeSet<Name> = ctx.rt.block_on(b.bk.direct.layers()).op("layers() after a refused import")?.into_iter().collect();
                for x in &ls {
                    ensure!(b.by_name(*x).is_some() || req.contains(x) || b.rollups_done > 0, "after a refused import there is a new layer {}", short(*x));
                }
                for x in &req {
                    if b.by_name(*x).is_none() {
                        // not there, or there and complete
                        if let Ok(Some(l)) = ctx.rt.block_on(b.bk.store.get_layer_from_id(*x)) {
                            match wish.iter().find(|i| a.layers[**i].name == *x) {
                                None => viol!("after a refused import layer {} exists, which is not in the pack", short(*x)),
                                Some(i) => {
                                    let v = a.view_of(ctx, *i)?;
                                    let t = a.layers[*i].triples.clone();
                                    crate::check::ids_equal(&v, &crate::check::snapshot(&l)?, "a layer left by a refused import")?;
                                    crate::check::check_contents(&l, &v, &t, &mut ctx.rng, 3, &mut ctx.stats)?;
                                }
                            }
                        }
                    }
                }
                for _ in 0..2 {
                    if !b.layers.is_empty() {
                        let j = ctx.rng.below(b.layers.len());
                        b.check(ctx, j, light)?;
                    }
                }
            }
        }

        let times = if ctx.rng.chance(1, 4) { 2 } else { 1 };
        for _ in 0..times {
            let sync = ctx.rng.chance(1, 3);
            ctx.t(format!("import {wish:?} into B ({} asked for)", req.len()));
            ctx.stats.add("imports", 1);
            ctx.stats.add("layers_imported", wish.len() as u64);
            import(ctx, &b, &pack, req.clone(), sync)?.op("import_layers")?;
        }
        for i in &wish {
            adopt(ctx, &mut a, &mut b, *i)?;
        }
        for i in &wish {
            let j = b.by_name(a.layers[*i].name).unwrap();
            b.check(ctx, j, light)?;
        }
        for x in absent.iter().chain(&not_asked) {
            let l = ctx.rt.block_on(b.bk.store.get_layer_from_id(*x)).op("asking for a layer that was not imported")?;
            ensure!(l.is_none(), "layer {} was not imported, but it exists", short(*x));
            ctx.stats.add("layers_not_imported", 1);
        }
        b.check_listing(ctx)?;
        a.check_listing(ctx)?;
        if ctx.rng.chance(1, 2) {
            let m = Mix { commit: 4, rollup: 2, rollup_upto: 2, squash: 1, packs: 1, ..MIX };
            for _ in 0..ctx.rng.range(1, 4) {
                if let Some(i) = step(ctx, &mut b, &m)? {
                    b.check(ctx, i, light)?;
                }
            }
        }
        if ctx.rng.chance(1, 3) {
            let p = pick_parent(ctx, &a);
            let k = pick_size(ctx, &a);
            a.op_commit(ctx, p, k)?;
        }
    }
    b.check_all(ctx, light)?;
    let f = Focus { cap: 3, unknown: false, sync: false, ..Focus::ALL };
    a.check_all(ctx, f)?;
    if ctx.rng.chance(1, 2) {
        b.reopen(ctx)?;
        b.check_all(ctx, f)?;
    }
    ctx.nontrivial = b.layers.iter().any(|l| l.origin == "import" && !l.triples.is_empty());
    a.cleanup();
    b.cleanup();
    Ok(())
}

pub fn register(v: &mut Vec<Prop>) {
    v.push(Prop {
        id: "C08",
        case: c08,
        rule: "random histories in an exporting store, sets of layers with whole or partial ancestry packed and imported into another store of random kind, with absent, repeated and present layers asked for, and with truncated and damaged copies of the pack; distinct by the list of operations",
        must_observe: &["exports", "imports", "layers_imported", "imports_of_present_layers", "damaged_packs_refused", "packs_truncated", "layers_not_imported"],
        ..BASE
    });
}
