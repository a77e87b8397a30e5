//! C09: what was acknowledged is there after reopening, in every backend; and
//! the sequential model of labels that other checks use as well.
use super::history::*;
use super::*;
use crate::check::*;
use crate::world::*;
use crate::{ensure, viol};
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::path::PathBuf;
use terminus_store::layer::Layer;
use terminus_store::storage::Label;
use terminus_store::store::NamedGraph;

pub const LABEL_NAMES: [&str; 12] = ["", "new\nline","main", "a.b", "two words", "日本", ".dot", "UPPER", "foo.label", "label", "x", "longlonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglonglong"];

/// The databases there should be.
#[derive(Default, Clone)]
pub struct LabelModel {
    pub m: BTreeMap<String, (u64, Option<usize>)>,
    /// graph objects opened at some time, possibly deleted since
    pub handles: Vec<NamedGraph>,
    pub obs: Vec<String>,
}

impl LabelModel {
    /// One random operation on a database, judged against the model.
    pub fn step(&mut self, ctx: &mut Ctx, w: &mut World) -> R<()> {
        let rt = ctx.rt.clone();
        let name = (*ctx.rng.pick(&LABEL_NAMES[..4 + ctx.rng.clone().below(9)])).to_string();
        let cur = self.m.get(&name).cloned();
        let store = w.bk.store.clone();
        let k = ctx.rng.below(12);
        if k < 2 || (cur.is_none() && k < 5) {
            let r = rt.block_on(store.create(&name));
            ctx.t(format!("create database {name:?}: {}", r.is_ok()));
            ctx.stats.add("label_creates", 1);
            ensure!(r.is_ok() == cur.is_none(), "creating database {name:?} {}, although it {}", if r.is_ok() { "succeeds" } else { "fails" }, if cur.is_none() { "does not exist" } else { "exists" });
            if let Ok(g) = r {
                ensure!(g.name() == name, "the created database is called {:?} instead of {name:?}", g.name());
                self.m.insert(name.clone(), (0, None));
                self.handles.push(g);
            }
            self.obs.push(format!("create {}", cur.is_none()));
            return Ok(());
        }
        if k < 4 {
            let r = rt.block_on(store.delete(&name)).op("deleting a database")?;
            ctx.t(format!("delete database {name:?}: {r}"));
            ctx.stats.add("label_deletes", 1);
            ensure!(r == cur.is_some(), "deleting database {name:?} reports {r}, but it {}", if cur.is_some() { "existed" } else { "did not exist" });
            self.m.remove(&name);
            self.obs.push(format!("delete {r}"));
            return Ok(());
        }
        if k == 4 {
            let g = rt.block_on(store.open(&name)).op("opening a database")?;
            ensure!(g.is_some() == cur.is_some(), "opening database {name:?} gives {}, but it {}", if g.is_some() { "one" } else { "none" }, if cur.is_some() { "exists" } else { "does not exist" });
            if let Some(g) = g {
                ensure!(g.name() == name, "the opened database is called {:?} instead of {name:?}", g.name());
                self.handles.push(g);
            }
            return Ok(());
        }
        if k < 7 {
            // compare and set through the label store
            let real = Label { name: name.clone(), layer: cur.and_then(|c| c.1).map(|i| w.layers[i].name), version: cur.map(|c| c.0).unwrap_or(0) };
            let mut l = real.clone();
            match ctx.rng.below(6) {
                0 => l.version = l.version.wrapping_sub(1) & 0xff,
                1 => l.version += 1,
                2 if !w.layers.is_empty() => l.layer = Some(w.layers[ctx.rng.below(w.layers.len())].name),
                _ => {}
            }
            let to = if w.layers.is_empty() || ctx.rng.chance(1, 4) { None } else { Some(ctx.rng.below(w.layers.len())) };
            let to_name = to.map(|i| w.layers[i].name);
            let ls = w.bk.labels.clone();
            let r = if to_name.is_none() { rt.block_on(ls.clear_label(&l)) } else { rt.block_on(ls.set_label_option(&l, to_name)) };
            ctx.t(format!("label {name:?} v{} -> {to:?}: {}", l.version, match &r { Ok(Some(_)) => "set", Ok(None) => "refused", Err(_) => "error" }));
            ctx.stats.add("label_sets", 1);
            match cur {
                None => ensure!(!matches!(r, Ok(Some(_))), "setting label {name:?} succeeds, but it does not exist"),
                Some((v, _)) => {
                    let r = r.op("setting an existing label")?;
                    if l == real {
                        let want = Label { name: name.clone(), layer: to_name, version: v + 1 };
                        ensure!(r.as_ref() == Some(&want), "setting label {name:?} from its current value gives {r:?}, expected {want:?}");
                        self.m.insert(name.clone(), (v + 1, to));
                    } else {
                        ensure!(r.is_none(), "setting label {name:?} succeeds although it is {real:?} and not {l:?} as the caller believes");
                    }
                    self.obs.push(format!("cas {}", r.is_some()));
                }
            }
            return Ok(());
        }
        if w.layers.is_empty() {
            return Ok(());
        }
        // through a graph object
        let g = if self.handles.is_empty() || ctx.rng.chance(1, 3) {
            match rt.block_on(store.open(&name)).op("opening a database")? {
                Some(g) => g,
                None => return Ok(()),
            }
        } else {
            let i = ctx.rng.below(self.handles.len());
            self.handles[i].clone()
        };
        let name = g.name().to_string();
        let cur = self.m.get(&name).cloned();
        let i = ctx.rng.below(w.layers.len());
        let l = w.load(ctx, i)?;
        match k {
            7 | 8 => {
                let r = rt.block_on(g.set_head(&l));
                ctx.t(format!("{name:?}.set_head(#{i}): {r:?}"));
                ctx.stats.add("label_set_heads", 1);
                match cur {
                    None => ensure!(r.is_err(), "set_head of deleted database {name:?} gives {r:?}"),
                    Some((v, h)) => {
                        let ok = h.map(|h| w.stack(i).contains(&h)).unwrap_or(true);
                        let r = r.op("set_head")?;
                        ensure!(r == ok, "set_head of {name:?} from {h:?} to #{i} gives {r}, but #{i} {} that head", if ok { "descends from" } else { "does not descend from" });
                        if r {
                            self.m.insert(name, (v + 1, Some(i)));
                        } else {
                            ctx.stats.add("label_set_heads_refused", 1);
                        }
                        self.obs.push(format!("set_head {r}"));
                    }
                }
            }
            9 => {
                let r = rt.block_on(g.force_set_head(&l));
                ctx.t(format!("{name:?}.force_set_head(#{i}): {}", r.is_ok()));
                match cur {
                    None => ensure!(r.is_err(), "force_set_head of deleted database {name:?} succeeds"),
                    Some((v, _)) => {
                        r.op("force_set_head")?;
                        self.m.insert(name, (v + 1, Some(i)));
                        ctx.stats.add("label_forces", 1);
                    }
                }
            }
            10 => {
                let v0 = cur.map(|c| c.0).unwrap_or(0);
                let ask = match ctx.rng.below(3) {
                    0 => v0 + 1,
                    1 => v0.saturating_sub(1),
                    _ => v0,
                };
                let r = rt.block_on(g.force_set_head_version(&l, ask));
                ctx.t(format!("{name:?}.force_set_head_version(#{i}, {ask}): {r:?}"));
                match cur {
                    None => ensure!(r.is_err(), "force_set_head_version of deleted database {name:?} gives {r:?}"),
                    Some((v, _)) => {
                        let r = r.op("force_set_head_version")?;
                        ensure!(r == (ask == v), "force_set_head_version of {name:?} expecting version {ask} gives {r}, the version is {v}");
                        if r {
                            self.m.insert(name, (v + 1, Some(i)));
                        }
                        ctx.stats.add("label_versioned_forces", 1);
                        self.obs.push(format!("force_version {r}"));
                    }
                }
            }
            _ => {
                let r = rt.block_on(g.head_version());
                match cur {
                    None => ensure!(r.is_err(), "the head of deleted database {name:?} can be read"),
                    Some((v, h)) => {
                        let (l, gv) = r.op("head_version")?;
                        let hn = h.map(|h| w.layers[h].name);
                        ensure!(gv == v && l.as_ref().map(|l| l.name()) == hn, "head of {name:?} is {:?} version {gv}, expected {:?} version {v}", l.map(|l| short(l.name())), hn.map(short));
                    }
                }
            }
        }
        Ok(())
    }

    /// Everything that can be asked about the databases.
    pub fn check(&mut self, ctx: &mut Ctx, w: &World) -> R<()> {
        let rt = ctx.rt.clone();
        let want: BTreeMap<String, Label> =
            self.m.iter().map(|(n, (v, l))| (n.clone(), Label { name: n.clone(), layer: l.map(|i| w.layers[i].name), version: *v })).collect();
        let got = rt.block_on(w.bk.labels.labels()).op("labels()")?;
        let n = got.len();
        let got: BTreeMap<String, Label> = got.into_iter().map(|l| (l.name.clone(), l)).collect();
        ensure!(n == got.len(), "labels() lists a label twice");
        ensure!(got == want, "labels() lists {got:?}, expected {want:?}");
        let mut names = rt.block_on(w.bk.store.labels()).op("labels()")?;
        names.sort();
        ensure!(names == want.keys().cloned().collect::<Vec<_>>(), "the store lists the databases {names:?}, expected {:?}", want.keys());
        for nm in LABEL_NAMES {
            let g = rt.block_on(w.bk.labels.get_label(nm)).op("get_label")?;
            ensure!(g.as_ref() == want.get(nm), "label {nm:?} is {g:?}, expected {:?}", want.get(nm));
            if let (Some(l), true) = (want.get(nm), ctx.rng.chance(1, 3)) {
                let g = match rt.block_on(w.bk.store.open(nm)).op("opening a database")? {
                    Some(g) => g,
                    None => viol!("database {nm:?} exists, but cannot be opened"),
                };
                let (h, v) = rt.block_on(g.head_version()).op("head_version")?;
                ensure!(v == l.version && h.as_ref().map(|h| h.name()) == l.layer, "database {nm:?} has head {:?} version {v}, expected {l:?}", h.map(|h| short(h.name())));
            }
        }
        ctx.stats.add("label_checks", 1);
        Ok(())
    }

    pub fn json(&self, w: &World) -> Value {
        let m: BTreeMap<&String, (u64, Option<String>)> = self.m.iter().map(|(n, (v, l))| (n, (*v, l.map(|i| hexname(w.layers[i].name))))).collect();
        json!(m)
    }
}

fn hash_ids(s: &std::collections::BTreeSet<IT>) -> u64 {
    let mut h = 99u64;
    for t in s {
        h = hash64(format!("{h} {} {} {}", t.subject, t.predicate, t.object).as_bytes());
    }
    h
}

pub fn kind_arg(k: Kind) -> String {
    match k {
        Kind::Mem => "mem".into(),
        Kind::Dir => "dir".into(),
        Kind::DirCachedLabels => "dircached".into(),
        Kind::Raw => "raw".into(),
        Kind::Lru(n) => format!("lru{n}"),
    }
}
pub fn arg_kind(s: &str) -> Kind {
    match s {
        "dir" => Kind::Dir,
        "dircached" => Kind::DirCachedLabels,
        "raw" => Kind::Raw,
        x => Kind::Lru(x[3..].parse().unwrap()),
    }
}

/// What a fresh process finds in a store: `tsverif dump KIND PATH LAYERS OUT`.
pub fn dump(kind: &str, path: &str, layers: &str, out: &str) -> i32 {
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    let r = dump_inner(&rt, arg_kind(kind), PathBuf::from(path), layers);
    let v = match r {
        Ok(v) => v,
        Err(Fail::Viol(m)) => json!({"fail": m}),
        Err(Fail::Harness(m) | Fail::Io(m)) => json!({"harness": m}),
    };
    match std::fs::write(out, v.to_string()) {
        Ok(()) => 0,
        Err(_) => 3,
    }
}

fn dump_inner(rt: &tokio::runtime::Runtime, kind: Kind, path: PathBuf, layers: &str) -> R<Value> {
    let bk = Bk::open(rt, kind, Some(path))?;
    let mut ls = BTreeMap::new();
    for hexn in layers.split(',').filter(|s| !s.is_empty()) {
        let name = terminus_store::storage::string_to_name(hexn).env("layer name")?;
        let l = match rt.block_on(bk.store.get_layer_from_id(name)).op("loading a committed layer in another process")? {
            Some(l) => l,
            None => viol!("layer {} is not found by another process", short(name)),
        };
        let v = snapshot(&l)?;
        let triples = l.triples().collect();
        let adds = rt.block_on(l.triple_additions()).op("triple_additions")?.collect();
        let rems = rt.block_on(l.triple_removals()).op("triple_removals")?.collect();
        let stack = rt.block_on(l.retrieve_layer_stack_names()).op("retrieve_layer_stack_names")?;
        ls.insert(
            hexn.to_string(),
            json!({"parent": l.parent_name().map(hexname), "ids": v.digest(), "triples": hash_ids(&triples), "adds": hash_ids(&adds), "removes": hash_ids(&rems), "stack": stack.into_iter().map(hexname).collect::<Vec<_>>()}),
        );
    }
    let labels: BTreeMap<String, (u64, Option<String>)> =
        rt.block_on(bk.labels.labels()).op("labels()")?.into_iter().map(|l| (l.name, (l.version, l.layer.map(hexname)))).collect();
    Ok(json!({"layers": ls, "labels": labels}))
}

/// Lets another process read everything and compares what it found.
pub fn check_other_process(ctx: &mut Ctx, w: &mut World, lm: &LabelModel) -> R<()> {
    if w.bk.kind == Kind::Mem {
        return Ok(());
    }
    let mut ls = BTreeMap::new();
    for i in 0..w.layers.len() {
        let v = w.view_of(ctx, i)?;
        let m = &w.layers[i];
        let ln = short(m.name);
        ls.insert(
            hexname(m.name),
            json!({"parent": m.parent.map(|p| hexname(w.layers[p].name)), "ids": v.digest(),
                "triples": hash_ids(&ids_of(&v, &m.triples, &ln, "the triple")?), "adds": hash_ids(&ids_of(&v, &m.adds, &ln, "the addition")?),
                "removes": hash_ids(&ids_of(&v, &m.removes, &ln, "the removal")?), "stack": w.stack(i).into_iter().map(|j| hexname(w.layers[j].name)).collect::<Vec<_>>()}),
        );
    }
    let out = ctx.scratch.join(format!("dump{}.json", ctx.rng.next() % 1000003));
    let names: Vec<String> = ls.keys().cloned().collect();
    let exe = std::env::current_exe().env("current_exe")?;
    let o = std::process::Command::new(exe)
        .args(["dump", &kind_arg(w.bk.kind), &w.bk.path.clone().unwrap().to_string_lossy(), &names.join(","), &out.to_string_lossy()])
        .output()
        .env("starting another process")?;
    let got: Value = match std::fs::read(&out).ok().and_then(|b| serde_json::from_slice(&b).ok()) {
        Some(v) => v,
        None => viol!("another process dies while reading the store: {} {}", o.status, String::from_utf8_lossy(&o.stderr).chars().take(400).collect::<String>()),
    };
    let _ = std::fs::remove_file(&out);
    if let Some(m) = got["fail"].as_str() {
        viol!("another process: {m}");
    }
    if let Some(m) = got["harness"].as_str() {
        return Err(Fail::Harness(m.into()));
    }
    for (n, want) in &ls {
        ensure!(&got["layers"][n] == want, "another process reads layer {} as {}, expected {}", &n[..8], got["layers"][n], want);
    }
    let want = lm.json(w);
    ensure!(got["labels"] == want, "another process reads the labels {}, expected {want}", got["labels"]);
    ctx.stats.add("reads_by_another_process", 1);
    Ok(())
}

fn c09_reopen(ctx: &mut Ctx) -> R<()> {
    let kind = if ctx.rng.chance(1, 10) { Kind::Mem } else { *ctx.rng.pick(&DISK_KINDS) };
    let mut w = World::new(ctx, kind)?;
    let mut lm = LabelModel::default();
    let m = Mix { commit: 8, rollup: 1, rollup_upto: 1, imprecise: 1, squash: 1, squash_upto: 1, merge: 1, reopen: 0, evict: 1, packs: 1, labels: 0 };
    let f = Focus { cap: 3, sync: false, unknown: false, ..Focus::ALL };
    let n = ctx.rng.range(4, 24);
    let mut other: Option<Bk> = None;
    for _ in 0..n {
        if ctx.rng.chance(1, 2) {
            step(ctx, &mut w, &m)?;
        } else {
            lm.step(ctx, &mut w)?;
        }
        if ctx.rng.chance(1, 6) {
            lm.check(ctx, &w)?;
        }
        // a second store object over the same files, open all the while
        if ctx.rng.chance(1, 5) && kind != Kind::DirCachedLabels && !w.layers.is_empty() {
            if other.is_none() {
                other = Some(w.bk.reopen(&ctx.rt, false)?);
            }
            let first = std::mem::replace(&mut w.bk, other.clone().unwrap());
            for l in &mut w.layers {
                l.kept.clear();
            }
            let i = ctx.rng.below(w.layers.len());
            w.check(ctx, i, f)?;
            lm.check(ctx, &w)?;
            if ctx.rng.chance(1, 2) {
                step(ctx, &mut w, &m)?;
                lm.step(ctx, &mut w)?;
            }
            w.bk = first;
            for l in &mut w.layers {
                l.kept.clear();
            }
            ctx.stats.add("second_store_object_checks", 1);
        }
        if ctx.rng.chance(1, 8) {
            w.reopen(ctx)?;
            lm.handles.clear();
            lm.check(ctx, &w)?;
            w.check_listing(ctx)?;
            for i in 0..w.layers.len() {
                if ctx.rng.chance(1, 2) {
                    w.check(ctx, i, f)?;
                }
            }
        }
    }
    lm.check(ctx, &w)?;
    w.check_listing(ctx)?;
    if ctx.rng.chance(2, 3) {
        check_other_process(ctx, &mut w, &lm)?;
    }
    w.reopen(ctx)?;
    lm.handles.clear();
    lm.check(ctx, &w)?;
    w.check_listing(ctx)?;
    w.check_all(ctx, f)?;
    ctx.nontrivial = w.layers.iter().any(|l| !l.triples.is_empty()) && !lm.m.is_empty();
    w.cleanup();
    Ok(())
}

/// The same script on several backends gives the same observations.
fn c09_same(ctx: &mut Ctx) -> R<()> {
    let mut kinds = vec![Kind::Mem, Kind::Dir, Kind::Raw, Kind::Lru(1), Kind::DirCachedLabels, Kind::Lru(0)];
    ctx.rng.shuffle(&mut kinds);
    kinds.truncate(3);
    let seed = ctx.rng.next();
    let pool = crate::gen::Pool::random(&mut ctx.rng);
    let steps = ctx.rng.range(3, 12);
    let mut first: Option<(Kind, Vec<String>)> = None;
    let rng = ctx.rng.clone();
    for k in kinds {
        let mut w = World::new(ctx, k)?;
        w.pool = pool.clone();
        ctx.rng = Rng::new(seed);
        let mut lm = LabelModel::default();
        let m = Mix { commit: 8, rollup: 1, rollup_upto: 1, imprecise: 1, squash: 1, squash_upto: 1, merge: 0, reopen: 1, evict: 1, packs: 1, labels: 0 };
        for _ in 0..steps {
            if ctx.rng.chance(2, 3) {
                step(ctx, &mut w, &m)?;
            } else {
                lm.step(ctx, &mut w)?;
            }
        }
        let mut obs = std::mem::take(&mut lm.obs);
        for i in 0..w.layers.len() {
            let l = w.load(ctx, i)?;
            let v = snapshot(&l)?;
            let t = l.triples().collect();
            let adds = ctx.rt.block_on(l.triple_additions()).op("triple_additions")?.collect();
            let rems = ctx.rt.block_on(l.triple_removals()).op("triple_removals")?.collect();
            obs.push(format!("#{i} {} ids {} contents {} additions {} removals {} count {}", w.layers[i].origin, v.digest(), hash_ids(&t), hash_ids(&adds), hash_ids(&rems), l.triple_count()));
        }
        obs.push(format!("{:?}", lm.m));
        w.cleanup();
        match &first {
            None => first = Some((k, obs)),
            Some((k0, o0)) => {
                for (x, y) in o0.iter().zip(&obs) {
                    ensure!(x == y, "the same operations give {x} on {k0:?} and {y} on {k:?}");
                }
                ensure!(o0.len() == obs.len(), "the same operations give {} observations on {k0:?} and {} on {k:?}", o0.len(), obs.len());
            }
        }
        ctx.stats.add("backends_compared", 1);
    }
    ctx.rng = rng;
    Ok(())
}

fn c09(ctx: &mut Ctx) -> R<()> {
    if ctx.rng.chance(1, 4) {
        c09_same(ctx)
    } else {
        c09_reopen(ctx)
    }
}

pub fn register(v: &mut Vec<Prop>) {
    v.push(Prop {
        id: "C09",
        case: c09,
        rule: "random histories of layers and databases on every on-disk backend, read back by the same, a second and a reopened store object and by another process; and one script run on three backends with all observations compared; distinct by the list of operations",
        must_observe: &["commits", "reopens", "reads_by_another_process", "label_checks", "listings", "backends_compared", "second_store_object_checks"],
        ..BASE
    });
}
