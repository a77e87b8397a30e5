//! C19: stores, labels and packs written by the released version.
//!
//! `tsverif corpus OUT N`, built against the released version, wrote the files
//! in /verif/corpus: the files of a store, a pack of all its layers, and the
//! model of what was done. `tsverif corpusverify OUT` names those that do not
//! hold what the model says because of a defect in the writer of the released
//! version (they were dropped).
use super::history::*;
use super::packs;
use super::reopen::LabelModel;
use super::*;
use crate::check::*;
use crate::gen::*;
use crate::world::*;
use crate::{ensure, viol};
use num_traits::FromPrimitive;
use serde_json::{json, Value};
use std::collections::{BTreeSet, HashMap};
use std::io::{Read, Write};
use std::path::{Path, PathBuf};
use std::sync::Arc;
use tdb_succinct::{Datatype, TdbDataType, TypedDictEntry};
use terminus_store::layer::ObjectType;
use terminus_store::storage::archive::{ArchiveLayerStore, DirectoryArchiveBackend};
use terminus_store::storage::directory::DirectoryLayerStore;
use terminus_store::storage::{string_to_name, PersistentLayerStore};

fn obj_json(o: &ObjectType) -> Value {
    match o {
        ObjectType::Node(n) => json!(n),
        ObjectType::Value(v) => json!([v.datatype() as u8, hex::encode(v.to_bytes())]),
    }
}
fn json_obj(v: &Value) -> Option<ObjectType> {
    if let Some(s) = v.as_str() {
        return Some(ObjectType::Node(s.to_string()));
    }
    let dt = Datatype::from_u64(v[0].as_u64()?)?;
    Some(ObjectType::Value(TypedDictEntry::new(dt, bytes::Bytes::from(hex::decode(v[1].as_str()?).ok()?).into())))
}
fn triples_json(v: &IdView, ts: &BTreeSet<VT>) -> Value {
    let ids: Vec<_> = ts.iter().map(|t| v.to_id(t).expect("a triple without ids")).collect();
    json!(ids.iter().map(|t| json!([t.subject, t.predicate, t.object])).collect::<Vec<_>>())
}
fn json_triples(v: &IdView, x: &Value) -> Option<BTreeSet<VT>> {
    x.as_array()?.iter().map(|t| v.to_val(&IT::new(t[0].as_u64()?, t[1].as_u64()?, t[2].as_u64()?))).collect()
}

/// Values of every datatype, at the ends of their ranges.
fn every_value(rng: &mut Rng) -> Vec<TypedDictEntry> {
    let mut v = vec![
        bool::make_entry(&true),
        bool::make_entry(&false),
        u32::make_entry(&0),
        u32::make_entry(&u32::MAX),
        i32::make_entry(&i32::MIN),
        i32::make_entry(&-1),
        i32::make_entry(&i32::MAX),
        u64::make_entry(&u64::MAX),
        i64::make_entry(&i64::MIN),
        i64::make_entry(&i64::MAX),
        f32::make_entry(&-0.5),
        f32::make_entry(&f32::INFINITY),
        f64::make_entry(&f64::MIN_POSITIVE),
        f64::make_entry(&-1.5e300),
        u8::make_entry(&255),
        i8::make_entry(&-128),
        u16::make_entry(&65535),
        i16::make_entry(&-32768),
        String::make_entry(&String::new()),
        String::make_entry(&"x".repeat(5000)),
    ];
    for n in 0..200u64 {
        let Some(dt) = Datatype::from_u64(n) else { continue };
        if v.iter().any(|e| e.datatype() == dt) {
            continue;
        }
        // as raw bytes, of which the dictionary only keeps the order
        for k in [1, 8, 12] {
            v.push(TypedDictEntry::new(dt, bytes::Bytes::from((0..k).map(|_| rng.next() as u8).collect::<Vec<_>>()).into()));
        }
    }
    for _ in 0..60 {
        v.push(gen_value(rng, Flavor::Adversarial, 3));
    }
    v.sort();
    v.dedup();
    v
}

fn expectation(ctx: &mut Ctx, w: &mut World, lm: &LabelModel) -> R<Value> {
    let mut ls = vec![];
    for i in 0..w.layers.len() {
        let v = w.view_of(ctx, i)?;
        let m = &w.layers[i];
        let pv = match m.parent {
            Some(p) => w.layers[p].view.clone().unwrap(),
            None => Arc::new(IdView { objs: vec![], preds: vec![], omap: HashMap::new(), pmap: HashMap::new() }),
        };
        ls.push(json!({"name": hexname(m.name), "parent": m.parent,
            "objs": v.objs[pv.objs.len()..].iter().map(obj_json).collect::<Vec<_>>(), "preds": v.preds[pv.preds.len()..],
            "triples": triples_json(&v, &m.triples), "adds": triples_json(&v, &m.adds), "removes": triples_json(&v, &m.removes), "origin": m.origin}));
    }
    let labels: Vec<Value> = lm.m.iter().map(|(n, (v, l))| json!([n, v, l])).collect();
    Ok(json!({"layers": ls, "labels": labels, "rollups_done": w.rollups_done}))
}

/// The rollup each layer has, as the storage tells.
fn rollups(ctx: &Ctx, path: &Path, archive: bool, names: &[Name]) -> R<Vec<Option<String>>> {
    async fn ask<S: PersistentLayerStore>(s: S, names: &[Name]) -> std::io::Result<Vec<Option<String>>> {
        let mut v = vec![];
        for n in names {
            v.push(if s.layer_has_rollup(*n).await? { Some(hexname(s.read_rollup_file(*n).await?)) } else { None });
        }
        Ok(v)
    }
    let rt = &ctx.rt;
    if archive {
        let b = DirectoryArchiveBackend::new(path.to_path_buf());
        rt.block_on(ask(ArchiveLayerStore::new(b.clone(), b), names)).op("reading the rollups")
    } else {
        rt.block_on(ask(DirectoryLayerStore::new(path), names)).op("reading the rollups")
    }
}

fn files(dir: &Path, at: &str, out: &mut Vec<(String, Vec<u8>)>) -> std::io::Result<()> {
    let mut es: Vec<_> = std::fs::read_dir(dir)?.collect::<Result<_, _>>()?;
    es.sort_by_key(|e| e.file_name());
    for e in es {
        let n = format!("{at}{}", e.file_name().to_string_lossy());
        if e.file_type()?.is_dir() {
            files(&e.path(), &format!("{n}/"), out)?;
        } else {
            out.push((n, std::fs::read(e.path())?));
        }
    }
    Ok(())
}

/// One entry of the corpus.
fn entry(ctx: &mut Ctx, k: usize) -> R<Value> {
    let kind = [Kind::Dir, Kind::Raw][k % 2];
    let mut w = World::new(ctx, kind)?;
    let mut lm = LabelModel::default();
    if k < 4 {
        let vs = every_value(&mut ctx.rng);
        w.pool = Pool::new(&mut ctx.rng, Flavor::Adversarial, 10, 4, 0);
        w.pool.values = vs.clone();
        let mut ops = BuilderOps { ops: vec![] };
        for (i, v) in vs.iter().enumerate() {
            let t = VT { subject: w.pool.nodes[i % w.pool.nodes.len()].clone(), predicate: w.pool.preds[i % w.pool.preds.len()].clone(), object: ObjectType::Value(v.clone()) };
            ops.ops.push((true, t, false));
        }
        w.commit_ops(ctx, None, ops)?;
    }
    if k == 4 || k == 5 {
        let i = w.op_commit(ctx, None, 0)?;
        w.op_commit(ctx, Some(i), 0)?;
    }
    let big = k % 7 == 6;
    for _ in 0..ctx.rng.range(3, 10) {
        if big && w.layers.len() < 3 {
            w.pool = Pool::new(&mut ctx.rng, Flavor::Bulk, 300, 20, 300);
            let p = pick_parent(ctx, &w);
            w.op_commit(ctx, p, 900)?;
        } else if w.pool.flavor == Flavor::Bulk && ctx.rng.chance(1, 2) {
            let p = pick_parent(ctx, &w);
            w.op_commit(ctx, p, 30)?;
        } else {
            step(ctx, &mut w, &Mix { commit: 7, rollup: 2, rollup_upto: 2, imprecise: 1, squash: 1, squash_upto: 1, merge: 1, reopen: 0, evict: 1, ..NOTHING })?;
        }
        lm.step(ctx, &mut w)?;
        lm.step(ctx, &mut w)?;
    }
    w.reopen(ctx)?;
    let mut e = expectation(ctx, &mut w, &lm)?;
    let path = w.bk.path.clone().unwrap();
    let names: Vec<Name> = w.layers.iter().map(|l| l.name).collect();
    e["rollups"] = json!(rollups(ctx, &path, kind == Kind::Raw, &names)?);
    let mut fs = vec![];
    files(&path, "", &mut fs).env("reading the files")?;
    e["files"] = json!(fs.iter().map(|(n, d)| json!([n, hex::encode(d)])).collect::<Vec<_>>());
    e["kind"] = json!(if kind == Kind::Dir { "dir" } else { "archive" });
    let pack = packs::export(ctx, &w, names, false)?.op("export_layers")?;
    e["pack"] = json!(hex::encode(pack));
    w.cleanup();
    Ok(e)
}

/// Writes `n` entries to `out`. Only ever used with the released version.
pub fn corpus(out: &str, n: usize, seed: u64) -> i32 {
    let rt = Arc::new(tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_all().build().unwrap());
    let scratch = crate::orch::scratch_base().join(format!("tsverif-corpus-{}", std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    let mut tries = seed * 100_000;
    for k in 0..n {
        loop {
            tries += 1;
            let mut ctx = crate::orch::mkctx_for("C19", hash64(&tries.to_le_bytes()), rt.clone(), scratch.clone());
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| entry(&mut ctx, k)));
            if let Ok(Ok(e)) = &r {
                let mut z = flate2::write::GzEncoder::new(vec![], flate2::Compression::best());
                z.write_all(e.to_string().as_bytes()).unwrap();
                let z = z.finish().unwrap();
                if z.len() > 200_000 {
                    continue;
                }
                std::fs::write(Path::new(out).join(format!("{k:03}.json.gz")), &z).unwrap();
                println!("{k}: {} layers, {} labels, {} bytes", e["layers"].as_array().unwrap().len(), e["labels"].as_array().unwrap().len(), z.len());
                break;
            }
            if let Ok(Err(e)) = r {
                println!("  passed over: {e:?}");
            }
        }
    }
    let _ = std::fs::remove_dir_all(&scratch);
    0
}

fn corpus_files() -> R<Vec<PathBuf>> {
    let d = PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| ".".into())).join("corpus");
    let mut v: Vec<PathBuf> = std::fs::read_dir(&d).env("reading the corpus")?.filter_map(|e| e.ok()).map(|e| e.path()).filter(|p| p.extension().map(|e| e == "gz").unwrap_or(false)).collect();
    v.sort();
    Ok(v)
}

fn damaged() -> Fail {
    Fail::Harness("the corpus cannot be read".into())
}

/// The model of an entry.
fn model(ctx: &mut Ctx, e: &Value, bk: Bk) -> R<(World, LabelModel)> {
    let mut layers: Vec<MLayer> = vec![];
    let mut pool = Pool { nodes: vec![], preds: vec![], values: vec![], flavor: Flavor::Adversarial };
    for l in e["layers"].as_array().ok_or_else(damaged)? {
        let parent = l["parent"].as_u64().map(|p| p as usize);
        let (mut objs, mut preds) = match parent {
            Some(p) => {
                let v = layers[p].view.as_ref().unwrap();
                (v.objs.clone(), v.preds.clone())
            }
            None => Default::default(),
        };
        for o in l["objs"].as_array().ok_or_else(damaged)? {
            let o = json_obj(o).ok_or_else(damaged)?;
            match &o {
                ObjectType::Node(n) => pool.nodes.push(n.clone()),
                ObjectType::Value(v) => pool.values.push(v.clone()),
            }
            objs.push(o);
        }
        for p in l["preds"].as_array().ok_or_else(damaged)? {
            let p = p.as_str().ok_or_else(damaged)?.to_string();
            pool.preds.push(p.clone());
            preds.push(p);
        }
        let omap = objs.iter().enumerate().map(|(i, o)| (o.clone(), i as u64 + 1)).collect();
        let pmap = preds.iter().enumerate().map(|(i, o)| (o.clone(), i as u64 + 1)).collect();
        let mention_o = Arc::new(objs.iter().cloned().collect());
        let mention_p = Arc::new(preds.iter().cloned().collect());
        let view = Arc::new(IdView { objs, preds, omap, pmap });
        layers.push(MLayer {
            name: string_to_name(l["name"].as_str().ok_or_else(damaged)?).map_err(|_| damaged())?,
            parent,
            triples: Arc::new(json_triples(&view, &l["triples"]).ok_or_else(damaged)?),
            adds: Arc::new(json_triples(&view, &l["adds"]).ok_or_else(damaged)?),
            // what is removed was known before
            removes: Arc::new(json_triples(&view, &l["removes"]).ok_or_else(damaged)?),
            mention_o,
            mention_p,
            view: Some(view),
            kept: vec![],
            origin: "released version",
            rolled: false,
        });
    }
    for v in [&mut pool.nodes, &mut pool.preds] {
        v.sort();
        v.dedup();
        v.push("something new".into());
        ctx.rng.shuffle(v);
    }
    pool.values.sort();
    pool.values.dedup();
    ctx.rng.shuffle(&mut pool.values);
    let mut lm = LabelModel::default();
    for l in e["labels"].as_array().ok_or_else(damaged)? {
        lm.m.insert(l[0].as_str().ok_or_else(damaged)?.into(), (l[1].as_u64().ok_or_else(damaged)?, l[2].as_u64().map(|x| x as usize)));
    }
    let rollups_done = e["rollups_done"].as_u64().unwrap_or(0) as usize;
    Ok((World { bk, layers, pool, rollups_done, abandoned: 0, tag: "old ".into() }, lm))
}

fn read_entry(p: &Path) -> R<(String, Value)> {
    let f = std::fs::File::open(p).env("reading the corpus")?;
    let mut s = String::new();
    flate2::read::GzDecoder::new(f).read_to_string(&mut s).env("reading the corpus")?;
    let e: Value = serde_json::from_str(&s).map_err(|_| damaged())?;
    Ok((p.file_name().unwrap().to_string_lossy().to_string(), e))
}

fn c19(ctx: &mut Ctx) -> R<()> {
    let all = corpus_files()?;
    ensure_env(!all.is_empty())?;
    let k = ctx.rng.below(all.len());
    let (id, e) = read_entry(&all[k])?;
    ctx.stats.hashes.insert(hash64(id.as_bytes()));
    let pack = ctx.rng.chance(1, 4);
    old(ctx, &id, &e, pack)
}

pub fn corpus_verify(dir: &str) -> i32 {
    let rt = Arc::new(tokio::runtime::Builder::new_multi_thread().worker_threads(3).enable_all().build().unwrap());
    let scratch = crate::orch::scratch_base().join(format!("tsverif-corpus-{}", std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    std::env::set_var("VERIF_DIR", dir);
    for p in corpus_files().unwrap() {
        let (id, e) = read_entry(&p).unwrap();
        for k in 0..16u64 {
            let mut ctx = crate::orch::mkctx_for("C19", hash64(format!("{id}{k}").as_bytes()), rt.clone(), scratch.clone());
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| old(&mut ctx, &id, &e, k % 4 == 0)));
            if !matches!(r, Ok(Ok(()))) {
                println!("{id} {} {:?} {}", e["kind"], r.map_err(|_| crate::orch::last_panic()), ctx.trace.join(" | ").chars().take(600).collect::<String>());
                break;
            }
        }
    }
    let _ = std::fs::remove_dir_all(&scratch);
    0
}

/// Judges one entry of the corpus.
fn old(ctx: &mut Ctx, id: &str, e: &Value, pack: bool) -> R<()> {
    let full = Focus { cap: 8, ..Focus::ALL };
    if pack {
        // the pack, into a store of its own or one with something in it
        let kind = pick_kind(ctx);
        ctx.t(format!("the pack of {id} into {kind:?}"));
        let mut w = World::new(ctx, kind)?;
        if ctx.rng.chance(1, 3) {
            for _ in 0..2 {
                step(ctx, &mut w, &MIX)?;
            }
        }
        let pack = hex::decode(e["pack"].as_str().unwrap_or("")).map_err(|_| damaged())?;
        let (old, _) = model(ctx, e, w.bk.clone())?;
        let names: Vec<Name> = old.layers.iter().map(|l| l.name).collect();
        let parents = match terminus_store::storage::pack_layer_parents(Dribble::new(&pack, &mut ctx.rng)) {
            Ok(p) => p,
            Err(x) => viol!("the parents in an old pack cannot be read: {x:?}"),
        };
        ensure!(parents.len() == names.len(), "an old pack lists {} layers, it has {}", parents.len(), names.len());
        for l in &old.layers {
            ensure!(parents.get(&l.name) == Some(&l.parent.map(|p| old.layers[p].name)), "an old pack lists {:?} as the parent of {}", parents.get(&l.name), short(l.name));
        }
        let sync = ctx.rng.chance(1, 2);
        packs::import(ctx, &w, &pack, names, sync)?.op("importing an old pack")?;
        let base = w.layers.len();
        // unknown strings are unknown to both
        w.pool.nodes.extend(old.pool.nodes.iter().cloned());
        w.pool.preds.extend(old.pool.preds.iter().cloned());
        w.pool.values.extend(old.pool.values.iter().cloned());
        for l in &old.layers {
            let mut l = l.clone();
            l.parent = l.parent.map(|p| p + base);
            w.layers.push(l);
        }
        ctx.stats.add("old_packs_imported", 1);
        w.check_all(ctx, full)?;
        w.check_listing(ctx)?;
        for _ in 0..3 {
            if let Some(i) = step(ctx, &mut w, &Mix { commit: 6, rollup: 2, rollup_upto: 2, imprecise: 1, squash: 1, squash_upto: 1, reopen: 0, packs: 1, ..MIX })? {
                w.check(ctx, i, Focus::LIGHT)?;
            }
        }
        w.reopen(ctx)?;
        w.check_all(ctx, Focus::LIGHT)?;
        w.cleanup();
        return Ok(());
    }
    let path = ctx.fresh_dir("old")?;
    let mut updated: Vec<(String, u64)> = vec![];
    for f in e["files"].as_array().ok_or_else(damaged)? {
        let name = f[0].as_str().ok_or_else(damaged)?;
        let p = path.join(name);
        let mut data = hex::decode(f[1].as_str().unwrap_or("")).map_err(|_| damaged())?;
        if let Some(label) = name.strip_suffix(".label") {
            if ctx.rng.chance(1, 2) {
                // as if it had been updated this often: the version is the first line, in decimal
                let v = match ctx.rng.below(4) {
                    0 => ctx.rng.range(5, 130) as u64,
                    1 => 10u64.pow(ctx.rng.range(1, 18) as u32) - ctx.rng.below(2) as u64,
                    2 => 1u64 << ctx.rng.range(3, 62),
                    _ => ctx.rng.next() >> ctx.rng.range(1, 60),
                };
                let rest = data.iter().position(|b| *b == b'\n').ok_or_else(damaged)?;
                data = [v.to_string().as_bytes(), &data[rest..]].concat();
                updated.push((label.to_string(), v));
            }
        }
        std::fs::create_dir_all(p.parent().unwrap()).env("writing an old store")?;
        std::fs::write(&p, data).env("writing an old store")?;
    }
    let archive = e["kind"] == "archive";
    let kind = if archive { *ctx.rng.pick(&[Kind::Raw, Kind::Lru(0), Kind::Lru(1), Kind::Lru(64)]) } else { *ctx.rng.pick(&[Kind::Dir, Kind::DirCachedLabels]) };
    ctx.t(format!("the store of {id} as {kind:?}"));
    let mut bk = Bk::open(&ctx.rt, kind, Some(path.clone()))?;
    if ctx.rng.chance(1, 3) {
        bk = bk.reopen(&ctx.rt, true)?;
    }
    let (mut w, mut lm) = model(ctx, e, bk)?;
    for (label, v) in updated {
        lm.m.get_mut(&label).ok_or_else(damaged)?.0 = v;
        ctx.stats.add("old_labels_with_many_updates", 1);
    }
    lm.check(ctx, &w)?;
    let names: Vec<Name> = w.layers.iter().map(|l| l.name).collect();
    let want: Vec<Option<String>> = e["rollups"].as_array().ok_or_else(damaged)?.iter().map(|r| r.as_str().map(|s| s.to_string())).collect();
    let got = rollups(ctx, &path, archive, &names)?;
    ensure!(got == want, "the rollups of an old store are {got:?}, expected {want:?}");
    ctx.stats.add("old_rollups_compared", want.iter().flatten().count() as u64);
    ctx.stats.add("old_labels_compared", lm.m.len() as u64);
    w.check_all(ctx, full)?;
    w.check_listing(ctx)?;
    for i in 0..w.layers.len() {
        if ctx.rng.chance(1, 2) {
            w.check_storage_counts(ctx, i)?;
            w.check_range_changes(ctx, i)?;
        }
    }
    ctx.stats.add(if archive { "old_archive_stores_read" } else { "old_directory_stores_read" }, 1);
    // go on with it
    for _ in 0..ctx.rng.range(1, 6) {
        lm.step(ctx, &mut w)?;
        if ctx.rng.chance(1, 8) {
            w.reopen(ctx)?;
            lm.handles.clear();
        }
        if let Some(i) = step(ctx, &mut w, &Mix { commit: 6, rollup: 2, rollup_upto: 2, imprecise: 1, squash: 1, squash_upto: 1, merge: 1, reopen: 0, packs: 1, ..MIX })? {
            w.check(ctx, i, Focus::LIGHT)?;
            ctx.stats.add("old_stores_extended", 1);
        }
    }
    w.reopen(ctx)?;
    w.check_all(ctx, Focus::LIGHT)?;
    lm.check(ctx, &w)?;
    w.check_listing(ctx)?;
    w.cleanup();
    Ok(())
}
fn ensure_env(b: bool) -> R<()> {
    if b {
        Ok(())
    } else {
        Err(Fail::Harness("the corpus is missing".into()))
    }
}

pub fn register(v: &mut Vec<Prop>) {
    v.push(Prop {
        id: "C19",
        case: c19,
        rule: "stores (directory, archive), label files and packs that the released version wrote, committed with what that version and the model agreed on about them: every layer's name, parent, ids, triples, changes, the rollup registered for it and every label is compared, then the store is extended at random and compared again. A case is distinct by the entry of the corpus and the operations that extend it",
        assumptions: &["the corpus stands for what the released version writes: every datatype, empty layers, bulk, deep and rolled up histories, odd label names"],
        must_observe: &["old_packs_imported", "old_archive_stores_read", "old_directory_stores_read", "old_rollups_compared", "old_labels_compared", "old_stores_extended"],
        ..BASE
    });
}
