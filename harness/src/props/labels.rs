//! C10 and C11: concurrent clients of the label store and of database heads,
//! in one process or several; their call histories are checked for
//! linearizability, and committers for lost updates.
use super::history;
use super::reopen::{arg_kind, kind_arg, LabelModel};
use super::*;
use crate::world::*;
use crate::{ensure, fsx, viol};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::path::PathBuf;
use std::sync::Arc;
use terminus_store::layer::Layer;
use terminus_store::storage::{Label, LabelStore};
use terminus_store::store::{Store, StoreLayer};

pub type Lid = Option<usize>;
pub type St = Option<(u64, Lid)>;

#[derive(Clone, Debug, PartialEq)]
pub enum What {
    Create(bool),
    /// result of a read (or of a listing)
    Get(St),
    /// expected, new, result (None: does not exist)
    Cas((u64, Lid), Lid, Option<bool>),
    Delete(bool),
    SetHead(usize, Option<bool>),
    Force(usize, bool),
    ForceV(usize, u64, Option<bool>),
}
#[derive(Clone, Debug)]
pub struct Ev {
    pub client: usize,
    pub name: String,
    pub what: What,
    pub t0: u64,
    pub t1: u64,
    /// the result is not known: the call was abandoned
    pub open: bool,
}

pub fn now() -> u64 {
    unsafe {
        let mut ts: libc::timespec = std::mem::zeroed();
        libc::clock_gettime(libc::CLOCK_MONOTONIC, &mut ts);
        ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
    }
}

/// The sequential specification: the state after `w` from `s`, if `w` can be answered so.
fn apply(s: &St, w: &What, raced: bool, open: bool, below: &dyn Fn(usize, usize) -> bool) -> Option<St> {
    use What::*;
    if open {
        // an abandoned call that took effect after all
        return match (w, s) {
            (Create(_), None) => Some(Some((0, None))),
            (Cas(e, n, _), Some(c)) if c == e => Some(Some((c.0 + 1, *n))),
            (Delete(_), Some(_)) => Some(None),
            (SetHead(l, _), Some(c)) if c.1.map(|h| below(*l, h)).unwrap_or(true) => Some(Some((c.0 + 1, Some(*l)))),
            (Force(l, _), Some(c)) => Some(Some((c.0 + 1, Some(*l)))),
            (ForceV(l, v, _), Some(c)) if c.0 == *v => Some(Some((c.0 + 1, Some(*l)))),
            _ => None,
        };
    }
    match (w, s) {
        (Create(true), None) => Some(Some((0, None))),
        (Create(false), Some(_)) => Some(*s),
        (Get(g), s) if g == s => Some(*s),
        (Cas(e, n, Some(true)), Some(c)) if c == e => Some(Some((c.0 + 1, *n))),
        (Cas(e, _, Some(false)), Some(c)) if c != e => Some(*s),
        (Cas(_, _, Some(false)), None) => Some(*s),
        (Cas(_, _, None), None) => Some(None),
        (Delete(true), Some(_)) => Some(None),
        (Delete(false), None) => Some(None),
        (SetHead(l, Some(true)), Some(c)) if c.1.map(|h| below(*l, h)).unwrap_or(true) => Some(Some((c.0 + 1, Some(*l)))),
        (SetHead(l, Some(false)), Some(c)) if raced || c.1.map(|h| !below(*l, h)).unwrap_or(false) => Some(*s),
        (SetHead(_, None), None) => Some(None),
        (Force(l, true), Some(c)) => Some(Some((c.0 + 1, Some(*l)))),
        (Force(_, false), None) => Some(None),
        (ForceV(l, v, Some(true)), Some(c)) if c.0 == *v => Some(Some((c.0 + 1, Some(*l)))),
        (ForceV(_, v, Some(false)), Some(c)) if c.0 != *v => Some(*s),
        (ForceV(_, _, None), None) => Some(None),
        _ => None,
    }
}
fn changes(w: &What) -> bool {
    use What::*;
    matches!(w, Create(true) | Cas(_, _, Some(true)) | Delete(true) | SetHead(_, Some(true)) | Force(_, true) | ForceV(_, _, Some(true)))
}

/// Whether the events on one label have an order consistent with real time
/// that the sequential specification allows. Err: undecided (too large).
pub fn linearizable(start: St, evs: &[Ev], below: &dyn Fn(usize, usize) -> bool) -> Result<Option<Vec<usize>>, ()> {
    let n = evs.len();
    let raced: Vec<bool> = evs
        .iter()
        .enumerate()
        .map(|(i, e)| evs.iter().enumerate().any(|(j, f)| j != i && (changes(&f.what) || f.open) && f.t0 < e.t1 && e.t0 < f.t1))
        .collect();
    let words = n.div_ceil(64);
    let mut done = vec![0u64; words.max(1)];
    let mut seen: HashSet<(Vec<u64>, St)> = HashSet::new();
    let mut order: Vec<usize> = vec![];
    // explicit stack: (state, candidates, position)
    let cands = |done: &Vec<u64>| -> Vec<usize> {
        let left: Vec<usize> = (0..n).filter(|i| done[i / 64] >> (i % 64) & 1 == 0).collect();
        let lim = left.iter().filter(|i| !evs[**i].open).map(|i| evs[*i].t1).min().unwrap_or(u64::MAX);
        let mut c: Vec<usize> = left.into_iter().filter(|i| evs[*i].t0 <= lim).collect();
        c.sort_by_key(|i| evs[*i].t1);
        c
    };
    let complete = |done: &Vec<u64>| (0..n).all(|i| evs[i].open || done[i / 64] >> (i % 64) & 1 == 1);
    let mut stack: Vec<(St, Vec<usize>, usize)> = vec![(start, cands(&done), 0)];
    let mut steps = 0u64;
    loop {
        if complete(&done) {
            return Ok(Some(order));
        }
        steps += 1;
        if steps > 3_000_000 {
            return Err(());
        }
        let (s, c, p) = stack.last_mut().unwrap();
        let mut advanced = None;
        while *p < c.len() {
            let i = c[*p];
            *p += 1;
            if let Some(s2) = apply(s, &evs[i].what, raced[i], evs[i].open, below) {
                done[i / 64] |= 1 << (i % 64);
                if seen.insert((done.clone(), s2)) {
                    advanced = Some((i, s2));
                    break;
                }
                done[i / 64] &= !(1 << (i % 64));
            }
        }
        match advanced {
            Some((i, s2)) => {
                order.push(i);
                let c = cands(&done);
                stack.push((s2, c, 0));
            }
            None => {
                stack.pop();
                match order.pop() {
                    Some(i) => done[i / 64] &= !(1 << (i % 64)),
                    None => return Ok(None),
                }
                if stack.is_empty() {
                    return Ok(None);
                }
            }
        }
    }
}

pub fn show(e: &Ev, t: u64) -> String {
    format!("client {} [{}..{} us] {:?} {:?}{}", e.client, (e.t0 - t) / 1000, if e.t1 == u64::MAX { "?".into() } else { ((e.t1 - t) / 1000).to_string() }, e.name, e.what, if e.open { " (abandoned)" } else { "" })
}

/// Judges a whole history; `starts` are the states before it.
pub fn judge(ctx: &mut Ctx, starts: &BTreeMap<String, St>, evs: &[Ev], below: &dyn Fn(usize, usize) -> bool) -> R<()> {
    let t = evs.iter().map(|e| e.t0).min().unwrap_or(0);
    let mut by: BTreeMap<&str, Vec<Ev>> = BTreeMap::new();
    for e in evs {
        by.entry(&e.name).or_default().push(e.clone());
    }
    for (name, mut l) in by {
        l.sort_by_key(|e| e.t0);
        let overlaps: u64 = l.iter().enumerate().map(|(i, e)| l[i + 1..].iter().filter(|f| f.t0 < e.t1 && f.client != e.client).count() as u64).sum();
        ctx.stats.add("label_calls", l.len() as u64);
        ctx.stats.add("overlapping_pairs", overlaps);
        ctx.stats.max("calls_on_one_label", l.len() as u64);
        match linearizable(starts.get(name).cloned().unwrap_or(None), &l, below) {
            Ok(Some(order)) => {
                let s: Vec<String> = order.iter().map(|i| format!("{}:{:?}", l[*i].client, l[*i].what)).collect();
                ctx.stats.hashes.insert(hash64(s.join(";").as_bytes()));
                ctx.stats.add("linearized_histories", 1);
            }
            Ok(None) => {
                for e in &l {
                    ctx.t(show(e, t));
                }
                // find the shortest prefix (by return time) that fails, for the report
                let mut k = l.clone();
                k.sort_by_key(|e| e.t1);
                let mut bad = k.last().cloned();
                for n in 1..=k.len() {
                    let lim = k[n - 1].t1;
                    let sub: Vec<Ev> = l
                        .iter()
                        .filter(|e| e.t0 < lim)
                        .map(|e| if e.t1 > lim { Ev { open: true, t1: u64::MAX, ..e.clone() } } else { e.clone() })
                        .filter(|e| !(e.open && matches!(e.what, What::Get(_))))
                        .collect();
                    if linearizable(starts.get(name).cloned().unwrap_or(None), &sub, below) == Ok(None) {
                        bad = Some(k[n - 1].clone());
                        break;
                    }
                }
                viol!("the calls on label {name:?} have no order that explains all their results; the first that cannot be explained: {}", bad.map(|e| show(&e, t)).unwrap_or_default());
            }
            Err(()) => ctx.stats.add("undecided_histories", 1),
        }
    }
    Ok(())
}

fn missing(e: &std::io::Error) -> bool {
    matches!(e.kind(), std::io::ErrorKind::NotFound | std::io::ErrorKind::InvalidInput)
}

#[derive(Clone)]
pub struct Cfg {
    pub names: Vec<String>,
    pub layers: Vec<Name>,
    pub nops: usize,
    pub graph: bool,
    pub listing: bool,
    pub deletes: bool,
}

struct Client {
    id: usize,
    rng: Rng,
    cfg: Cfg,
    labels: Arc<dyn LabelStore>,
    store: Store,
    heads: Arc<Vec<StoreLayer>>,
    known: HashMap<String, Label>,
    evs: Vec<Ev>,
    index: HashMap<Name, usize>,
}
impl Client {
    fn st(&self, l: &Option<Label>) -> R<St> {
        Ok(match l {
            None => None,
            Some(l) => Some((l.version, self.lid(&l.layer)?)),
        })
    }
    fn lid(&self, n: &Option<Name>) -> R<Lid> {
        match n {
            None => Ok(None),
            Some(n) => match self.index.get(n) {
                Some(i) => Ok(Some(*i)),
                None => viol!("a label points to {}, which nobody ever set", hexname(*n)),
            },
        }
    }
    fn push(&mut self, name: &str, what: What, t0: u64) {
        self.evs.push(Ev { client: self.id, name: name.into(), what, t0, t1: now(), open: false });
    }
    async fn run(mut self) -> R<Vec<Ev>> {
        for _ in 0..self.cfg.nops {
            self.one().await?;
            if self.rng.chance(1, 6) {
                tokio::time::sleep(std::time::Duration::from_micros(self.rng.next() % 1500)).await;
            }
        }
        Ok(self.evs)
    }
    async fn one(&mut self) -> R<()> {
        let name = self.rng.pick(&self.cfg.names).clone();
        let k = self.rng.below(20);
        let t0 = now();
        if k == 0 || (k < 4 && !self.known.contains_key(&name)) {
            let r = if self.cfg.graph { self.store.create(&name).await.map(|_| Label::new_empty(&name)) } else { self.labels.create_label(&name).await };
            match r {
                Ok(l) => {
                    ensure!(l == Label::new_empty(&name), "create_label {name:?} returns {l:?}");
                    self.known.insert(name.clone(), l);
                    self.push(&name, What::Create(true), t0);
                }
                Err(e) if matches!(e.kind(), std::io::ErrorKind::InvalidInput | std::io::ErrorKind::AlreadyExists) => self.push(&name, What::Create(false), t0),
                Err(e) => return Err(e).op("creating a label"),
            }
            return Ok(());
        }
        if k == 1 && self.cfg.deletes {
            let r = self.labels.delete_label(&name).await.op("deleting a label while others use it")?;
            self.push(&name, What::Delete(r), t0);
            return Ok(());
        }
        if k < 4 && self.cfg.listing {
            let r = self.labels.labels().await.op("listing labels while others use them")?;
            let mut m = HashMap::new();
            for l in r {
                if let Some(o) = m.insert(l.name.clone(), l) {
                    viol!("labels() lists {:?} twice", o.name);
                }
            }
            for n in self.cfg.names.clone() {
                let g = self.st(&m.remove(&n))?;
                self.push(&n, What::Get(g), t0);
            }
            ensure!(m.is_empty(), "labels() lists labels that never existed: {:?}", m.keys());
            return Ok(());
        }
        if k < 8 || (!self.known.contains_key(&name) && !self.cfg.graph) {
            if self.cfg.graph && self.rng.chance(1, 2) {
                let g = self.store.open(&name).await.op("opening a database while others use it")?;
                if let Some(g) = g {
                    let t0 = now();
                    match g.head_version().await {
                        Ok((l, v)) => {
                            let st = Some((v, self.lid(&l.map(|l| l.name()))?));
                            self.push(&name, What::Get(st), t0);
                        }
                        Err(e) if missing(&e) && e.to_string().contains("database not found") => self.push(&name, What::Get(None), t0),
                        Err(e) => return Err(e).op("reading a head while others use it"),
                    }
                }
                return Ok(());
            }
            let r = self.labels.get_label(&name).await.op("reading a label while others use it")?;
            if let Some(l) = &r {
                ensure!(l.name == name, "get_label {name:?} returns {l:?}");
                self.known.insert(name.clone(), l.clone());
            }
            let st = self.st(&r)?;
            self.push(&name, What::Get(st), t0);
            return Ok(());
        }
        if self.cfg.graph {
            let i = self.rng.below(self.heads.len());
            let l = self.heads[i].clone();
            let g = match self.store.open(&name).await.op("opening a database while others use it")? {
                Some(g) => g,
                None => return Ok(()),
            };
            let t0 = now();
            match k {
                8..=14 => {
                    let r = match g.set_head(&l).await {
                        Ok(b) => Some(b),
                        Err(e) if missing(&e) => None,
                        Err(e) => return Err(e).op("set_head"),
                    };
                    self.push(&name, What::SetHead(i, r), t0);
                }
                15 => {
                    let r = match g.force_set_head(&l).await {
                        Ok(()) => true,
                        Err(e) if missing(&e) => false,
                        Err(e) => return Err(e).op("force_set_head"),
                    };
                    self.push(&name, What::Force(i, r), t0);
                }
                _ => {
                    let v = self.evs.iter().rev().find(|e| e.name == name).map(|e| match &e.what {
                        What::Get(Some((v, _))) => *v,
                        What::ForceV(_, v, _) => *v + 1,
                        _ => 1,
                    });
                    let v = match v {
                        Some(v) if self.rng.chance(2, 3) => v,
                        _ => {
                            let r = self.labels.get_label(&name).await.op("reading a label")?;
                            r.map(|l| l.version).unwrap_or(0)
                        }
                    };
                    let t0 = now();
                    let r = match g.force_set_head_version(&l, v).await {
                        Ok(b) => Some(b),
                        Err(e) if missing(&e) => None,
                        Err(e) => return Err(e).op("force_set_head_version"),
                    };
                    self.push(&name, What::ForceV(i, v, r), t0);
                }
            }
            return Ok(());
        }
        let mut l = match self.known.get(&name) {
            Some(l) => l.clone(),
            None => return Ok(()),
        };
        if self.rng.chance(1, 8) {
            l.layer = Some(*self.rng.pick(&self.cfg.layers));
        }
        let to = if self.rng.chance(1, 4) { None } else { Some(*self.rng.pick(&self.cfg.layers)) };
        let t0 = now();
        let r = match to {
            None => self.labels.clear_label(&l).await,
            Some(n) if self.rng.chance(1, 2) => self.labels.set_label(&l, n).await,
            t => self.labels.set_label_option(&l, t).await,
        };
        let r = match r {
            Ok(Some(n)) => {
                let want = l.with_updated_layer(to);
                ensure!(n == want, "setting label {l:?} returns {n:?}");
                self.known.insert(name.clone(), n);
                Some(true)
            }
            Ok(None) => {
                self.known.remove(&name);
                Some(false)
            }
            Err(e) if missing(&e) => {
                self.known.remove(&name);
                None
            }
            Err(e) => return Err(e).op("setting a label while others use it"),
        };
        let w = What::Cas((l.version, self.lid(&l.layer)?), self.lid(&to)?, r);
        self.push(&name, w, t0);
        Ok(())
    }
}

fn client(id: usize, rng: Rng, cfg: &Cfg, bk: &Bk, heads: Arc<Vec<StoreLayer>>) -> Client {
    Client {
        id,
        rng,
        cfg: cfg.clone(),
        labels: bk.labels.clone(),
        store: bk.store.clone(),
        heads,
        known: HashMap::new(),
        evs: vec![],
        index: cfg.layers.iter().enumerate().map(|(i, n)| (*n, i)).collect(),
    }
}

fn ev_json(e: &Ev) -> Value {
    use What::*;
    let w = match &e.what {
        Create(b) => json!(["create", b]),
        Get(s) => json!(["get", s]),
        Cas(x, n, r) => json!(["cas", x, n, r]),
        Delete(b) => json!(["delete", b]),
        SetHead(l, r) => json!(["sethead", l, r]),
        Force(l, r) => json!(["force", l, r]),
        ForceV(l, v, r) => json!(["forcev", l, v, r]),
    };
    json!([e.client, e.name, w, e.t0, e.t1])
}
fn json_ev(v: &Value) -> Option<Ev> {
    use What::*;
    let lid = |v: &Value| v.as_u64().map(|x| x as usize);
    let w = &v[2];
    let what = match w[0].as_str()? {
        "create" => Create(w[1].as_bool()?),
        "get" => Get(if w[1].is_null() { None } else { Some((w[1][0].as_u64()?, lid(&w[1][1]))) }),
        "cas" => Cas((w[1][0].as_u64()?, lid(&w[1][1])), lid(&w[2]), w[3].as_bool()),
        "delete" => Delete(w[1].as_bool()?),
        "sethead" => SetHead(lid(&w[1])?, w[2].as_bool()),
        "force" => Force(lid(&w[1])?, w[2].as_bool()?),
        "forcev" => ForceV(lid(&w[1])?, w[2].as_u64()?, w[3].as_bool()),
        _ => return None,
    };
    Some(Ev { client: v[0].as_u64()? as usize, name: v[1].as_str()?.into(), what, t0: v[3].as_u64()?, t1: v[4].as_u64()?, open: false })
}

/// A process of its own with some clients: `tsverif labelclient JSON OUT`.
pub fn process(arg: &str, out: &str) -> i32 {
    let a: Value = serde_json::from_str(arg).unwrap();
    let rt = tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap();
    let r = process_inner(&rt, &a);
    fsx::delays_stop();
    let v = match r {
        Ok(evs) => json!({"events": evs.iter().map(ev_json).collect::<Vec<_>>(), "delays": fsx::DELAYS.load(std::sync::atomic::Ordering::SeqCst)}),
        Err(Fail::Viol(m)) => json!({"fail": m}),
        Err(Fail::Harness(m) | Fail::Io(m)) => json!({"harness": m}),
    };
    std::fs::write(out, v.to_string()).map(|_| 0).unwrap_or(3)
}
fn process_inner(rt: &tokio::runtime::Runtime, a: &Value) -> R<Vec<Ev>> {
    let path = PathBuf::from(a["path"].as_str().unwrap());
    let bk = Bk::open(rt, arg_kind(a["kind"].as_str().unwrap()), Some(path.clone()))?;
    let strs = |v: &Value| v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect::<Vec<_>>();
    let layers: Vec<Name> = strs(&a["layers"]).iter().map(|s| terminus_store::storage::string_to_name(s).unwrap()).collect();
    let cfg = Cfg { names: strs(&a["names"]), layers, nops: a["nops"].as_u64().unwrap() as usize, graph: a["graph"] == true, listing: a["listing"] == true, deletes: a["deletes"] == true };
    let mut heads = vec![];
    if cfg.graph {
        for n in &cfg.layers {
            match rt.block_on(bk.store.get_layer_from_id(*n)).op("loading a layer in another process")? {
                Some(l) => heads.push(l),
                None => viol!("layer {} is not found by another process", short(*n)),
            }
        }
    }
    let heads = Arc::new(heads);
    let mut rng = Rng::new(a["seed"].as_u64().unwrap());
    fsx::delays_start(&path, a["pm"].as_u64().unwrap(), a["us"].as_u64().unwrap(), rng.next());
    let start = a["start"].as_u64().unwrap();
    while now() < start {
        std::hint::spin_loop();
    }
    let base = a["base"].as_u64().unwrap() as usize;
    let hs: Vec<_> = (0..a["clients"].as_u64().unwrap() as usize).map(|i| rt.spawn(client(base + i, rng.fork(), &cfg, &bk, heads.clone()).run())).collect();
    let mut evs = vec![];
    for h in hs {
        match rt.block_on(h) {
            Ok(r) => evs.extend(r?),
            Err(e) => viol!("a label operation panics: {e}: {}", crate::orch::last_panic().map(|p| p.0).unwrap_or_default()),
        }
    }
    Ok(evs)
}

/// Runs clients concurrently in this and other processes; all their events.
fn clients(ctx: &mut Ctx, bks: &[Bk], cfg: &Cfg, per: usize, procs: usize, pm: u64, us: u64) -> R<Vec<Ev>> {
    let rt = ctx.rt.clone();
    let mut kids = vec![];
    let start = now() + if procs > 0 { 60_000_000 } else { 0 };
    let mut id = 0;
    for i in 0..procs {
        let out = ctx.scratch.join(format!("lc{i}-{}.json", ctx.rng.next() % 100003));
        let arg = json!({"path": bks[0].path.as_ref().unwrap().to_string_lossy(), "kind": kind_arg(bks[0].kind), "layers": cfg.layers.iter().map(|n| hexname(*n)).collect::<Vec<_>>(),
            "names": cfg.names, "nops": cfg.nops, "graph": cfg.graph, "listing": cfg.listing, "deletes": cfg.deletes, "seed": ctx.rng.next() >> 1, "pm": pm, "us": us, "start": start, "base": 100 * (i + 1), "clients": per});
        let c = std::process::Command::new(std::env::current_exe().env("current_exe")?)
            .args(["labelclient", &arg.to_string(), &out.to_string_lossy()])
            .stderr(std::process::Stdio::piped())
            .stdout(std::process::Stdio::null())
            .spawn()
            .env("starting a client process")?;
        kids.push((c, out));
    }
    let mut evs = vec![];
    let mut failed: Option<Fail> = None;
    if pm > 0 {
        fsx::delays_start(&ctx.scratch.clone(), pm, us, ctx.rng.next());
    }
    while now() < start {
        std::thread::sleep(std::time::Duration::from_micros(200));
    }
    let mut hs = vec![];
    for bk in bks {
        let heads = if cfg.graph {
            let mut v = vec![];
            for n in &cfg.layers {
                match rt.block_on(bk.store.get_layer_from_id(*n)).op("loading a layer")? {
                    Some(l) => v.push(l),
                    None => viol!("layer {} is not found", short(*n)),
                }
            }
            Arc::new(v)
        } else {
            Arc::new(vec![])
        };
        for _ in 0..per {
            hs.push(rt.spawn(client(id, ctx.rng.fork(), cfg, bk, heads.clone()).run()));
            id += 1;
        }
    }
    for h in hs {
        match rt.block_on(h) {
            Ok(Ok(e)) => evs.extend(e),
            Ok(Err(f)) => failed = failed.or(Some(f)),
            Err(e) => failed = failed.or(Some(Fail::Viol(format!("a label operation panics: {e}")))),
        }
    }
    fsx::delays_stop();
    for (c, out) in kids {
        let o = c.wait_with_output().env("waiting for a client process")?;
        let v: Option<Value> = std::fs::read(&out).ok().and_then(|b| serde_json::from_slice(&b).ok());
        let _ = std::fs::remove_file(&out);
        match v {
            None => failed = failed.or(Some(Fail::Viol(format!("a client process died: {} {}", o.status, String::from_utf8_lossy(&o.stderr).chars().take(300).collect::<String>())))),
            Some(v) => {
                if let Some(m) = v["fail"].as_str() {
                    failed = failed.or(Some(Fail::Viol(format!("in another process: {m}"))));
                }
                if let Some(m) = v["harness"].as_str() {
                    failed = failed.or(Some(Fail::Harness(m.into())));
                }
                evs.extend(v["events"].as_array().into_iter().flatten().filter_map(json_ev));
                ctx.stats.add("client_processes", 1);
            }
        }
    }
    match failed {
        Some(f) => Err(f),
        None => Ok(evs),
    }
}

/// All labels as they are now, read by a fresh store object where possible.
fn settle(ctx: &mut Ctx, bk: &Bk, cfg: &Cfg, evs: &mut Vec<Ev>) -> R<()> {
    let rt = ctx.rt.clone();
    let index: HashMap<Name, usize> = cfg.layers.iter().enumerate().map(|(i, n)| (*n, i)).collect();
    let b2 = bk.reopen(&rt, false)?;
    for b in [bk, &b2] {
        for n in &cfg.names {
            let t0 = now();
            let l = rt.block_on(b.labels.get_label(n)).op("reading a label at the end")?;
            let st = l.map(|l| (l.version, l.layer.map(|x| index.get(&x).copied().unwrap_or(usize::MAX))));
            evs.push(Ev { client: 999, name: n.clone(), what: What::Get(st), t0, t1: now(), open: false });
        }
    }
    Ok(())
}

fn rand_names(rng: &mut Rng, n: usize) -> Vec<Name> {
    (0..n).map(|_| [rng.next() as u32, rng.next() as u32, rng.next() as u32, rng.next() as u32, rng.next() as u32]).collect()
}

fn c10(ctx: &mut Ctx) -> R<()> {
    if ctx.rng.chance(1, 12) {
        return c10_sequential(ctx);
    }
    let kind = *ctx.rng.pick(&[Kind::Dir, Kind::Dir, Kind::Dir, Kind::Dir, Kind::Mem, Kind::DirCachedLabels]);
    let shared = kind == Kind::Dir;
    let w = World::new(ctx, kind)?;
    let nn = ctx.rng.range(1, 3);
    let nl = ctx.rng.range(1, 3);
    let cfg = Cfg {
        names: ["one", "two labels", "日本.x"][..nn].iter().map(|s| s.to_string()).collect(),
        layers: rand_names(&mut ctx.rng, nl),
        nops: ctx.rng.range(6, 22),
        graph: false,
        listing: ctx.rng.chance(2, 3),
        deletes: ctx.rng.chance(2, 3),
    };
    let mut bks = vec![w.bk.clone()];
    if (shared || kind == Kind::Mem) && ctx.rng.chance(1, 2) {
        bks.push(w.bk.reopen(&ctx.rt, false)?);
    }
    let procs = if shared && ctx.rng.chance(1, 3) { ctx.rng.range(1, 3) } else { 0 };
    let per = if procs > 0 { 1 } else { ctx.rng.range(2, 4) };
    let (pm, us) = *ctx.rng.pick(&[(0, 0), (100, 300), (400, 500), (30, 4000)]);
    let mut starts = BTreeMap::new();
    for n in &cfg.names {
        if ctx.rng.chance(2, 3) {
            ctx.rt.block_on(w.bk.labels.create_label(n)).op("creating a label")?;
            starts.insert(n.clone(), Some((0, None)));
        }
    }
    ctx.t(format!("{kind:?}: {} labels, {} store objects, {procs} other processes, {per} clients each, {} calls each, delays {pm}/1000 of up to {us} us", nn, bks.len(), cfg.nops));
    let mut evs = clients(ctx, &bks, &cfg, per, procs, pm, us)?;
    settle(ctx, &w.bk, &cfg, &mut evs)?;
    judge(ctx, &starts, &evs, &|_, _| true)?;
    if kind != Kind::Mem {
        ctx.stats.add("file_backed_histories", 1);
    }
    // nothing is left behind but the labels
    w.cleanup();
    Ok(())
}

/// Every single operation against the model, with unusual names.
fn c10_sequential(ctx: &mut Ctx) -> R<()> {
    let kind = *ctx.rng.pick(&[Kind::Dir, Kind::Mem, Kind::DirCachedLabels]);
    let mut w = World::new(ctx, kind)?;
    let mut lm = LabelModel::default();
    for _ in 0..ctx.rng.range(1, 4) {
        history::step(ctx, &mut w, &history::Mix { commit: 1, ..history::NOTHING })?;
    }
    for i in 0..60 {
        lm.step(ctx, &mut w)?;
        if i % 10 == 9 {
            lm.check(ctx, &w)?;
        }
        if ctx.rng.chance(1, 25) {
            w.reopen(ctx)?;
            lm.handles.clear();
        }
    }
    lm.check(ctx, &w)?;
    ctx.stats.add("sequential_histories", 1);
    w.cleanup();
    Ok(())
}

fn c11(ctx: &mut Ctx) -> R<()> {
    match ctx.rng.below(4) {
        0 => c11_committers(ctx),
        1 => c11_model(ctx),
        _ => c11_heads(ctx),
    }
}

fn grow(ctx: &mut Ctx, kind: Kind, n: usize) -> R<World> {
    let mut w = World::new(ctx, kind)?;
    let m = history::Mix { commit: 10, rollup: 2, rollup_upto: 2, imprecise: 2, squash: 1, squash_upto: 1, ..history::NOTHING };
    for _ in 0..n {
        history::step(ctx, &mut w, &m)?;
    }
    if w.layers.is_empty() {
        history::step(ctx, &mut w, &history::Mix { commit: 1, ..history::NOTHING })?;
    }
    Ok(w)
}

/// Head updates by many clients at once, judged by linearizability.
fn c11_heads(ctx: &mut Ctx) -> R<()> {
    let kind = *ctx.rng.pick(&[Kind::Mem, Kind::Dir, Kind::Dir, Kind::Raw, Kind::Lru(1), Kind::DirCachedLabels]);
    let n = ctx.rng.range(3, 9);
    let w = grow(ctx, kind, n)?;
    let shared = matches!(kind, Kind::Dir | Kind::Raw | Kind::Lru(_));
    let nn = ctx.rng.range(1, 2);
    let cfg = Cfg {
        names: ["head", "other"][..nn].iter().map(|s| s.to_string()).collect(),
        layers: w.layers.iter().map(|l| l.name).collect(),
        nops: ctx.rng.range(5, 16),
        graph: true,
        listing: false,
        deletes: ctx.rng.chance(1, 2),
    };
    let mut starts = BTreeMap::new();
    for n in &cfg.names {
        ctx.rt.block_on(w.bk.store.create(n)).op("creating a database")?;
        starts.insert(n.clone(), Some((0, None)));
    }
    let mut bks = vec![w.bk.clone()];
    if shared && ctx.rng.chance(1, 2) {
        bks.push(w.bk.reopen(&ctx.rt, false)?);
    }
    let procs = if shared && ctx.rng.chance(1, 4) { 2 } else { 0 };
    let per = if procs > 0 { 1 } else { ctx.rng.range(1, 3) };
    let (pm, us) = *ctx.rng.pick(&[(0, 0), (100, 300), (400, 500), (30, 3000)]);
    ctx.t(format!("{kind:?}: {} store objects, {procs} other processes, {per} clients each, {} calls each", bks.len(), cfg.nops));
    let mut evs = clients(ctx, &bks, &cfg, per, procs, pm, us)?;
    settle(ctx, &w.bk, &cfg, &mut evs)?;
    for e in &evs {
        match &e.what {
            What::SetHead(_, Some(true)) => ctx.stats.add("heads_moved", 1),
            What::SetHead(_, Some(false)) => ctx.stats.add("head_moves_refused", 1),
            What::ForceV(_, _, Some(true)) => ctx.stats.add("versioned_forces_done", 1),
            What::ForceV(_, _, Some(false)) => ctx.stats.add("versioned_forces_refused", 1),
            What::Force(..) => ctx.stats.add("forces", 1),
            _ => {}
        }
    }
    let stacks: Vec<Vec<usize>> = (0..w.layers.len()).map(|i| w.stack(i)).collect();
    judge(ctx, &starts, &evs, &|l, h| h < stacks.len() && stacks[l].contains(&h))?;
    w.cleanup();
    Ok(())
}

/// Committers that build on the head and advance it: none may be lost.
fn c11_committers(ctx: &mut Ctx) -> R<()> {
    let kind = *ctx.rng.pick(&[Kind::Mem, Kind::Dir, Kind::Raw, Kind::Lru(1), Kind::DirCachedLabels]);
    let w = World::new(ctx, kind)?;
    let rt = ctx.rt.clone();
    let shared = matches!(kind, Kind::Dir | Kind::Raw | Kind::Lru(_));
    rt.block_on(w.bk.store.create("main")).op("creating a database")?;
    let nc = ctx.rng.range(2, 5);
    let rounds = ctx.rng.range(2, 5);
    let (pm, us) = *ctx.rng.pick(&[(0, 0), (100, 300), (300, 800)]);
    if pm > 0 {
        fsx::delays_start(&ctx.scratch.clone(), pm, us, ctx.rng.next());
    }
    let mut hs = vec![];
    for c in 0..nc {
        let b = if shared && ctx.rng.chance(1, 2) { w.bk.reopen(&rt, false)? } else { w.bk.clone() };
        let mut rng = ctx.rng.fork();
        hs.push(rt.spawn(async move {
            let mut won: Vec<(Name, String)> = vec![];
            let mut lost = 0u64;
            let g = match b.store.open("main").await.op("opening a database")? {
                Some(g) => g,
                None => viol!("the database is gone"),
            };
            for r in 0..rounds {
                let head = g.head().await.op("reading the head")?;
                let t = format!("client{c}-{r}");
                let bl = match &head {
                    Some(h) => h.open_write().await.op("open_write")?,
                    None => b.store.create_base_layer().await.op("create_base_layer")?,
                };
                bl.add_value_triple(terminus_store::layer::ValueTriple::new_string_value(&t, "p", &t)).op("adding a triple")?;
                if rng.chance(1, 4) {
                    tokio::time::sleep(std::time::Duration::from_micros(rng.next() % 2000)).await;
                }
                let l = bl.commit().await.op("commit")?;
                if rng.chance(1, 5) {
                    l.rollup().await.op("rollup")?;
                }
                if g.set_head(&l).await.op("set_head")? {
                    won.push((l.name(), t));
                } else {
                    lost += 1;
                }
            }
            Ok::<_, Fail>((won, lost))
        }));
    }
    let mut all = vec![];
    let mut res = Ok(());
    for h in hs {
        match rt.block_on(h) {
            Ok(Ok((won, lost))) => {
                all.extend(won);
                ctx.stats.add("races_lost", lost);
            }
            Ok(Err(f)) => res = Err(f),
            Err(e) => res = Err(Fail::Viol(format!("a committer panics: {e}"))),
        }
    }
    fsx::delays_stop();
    res?;
    ctx.t(format!("{kind:?}: {nc} committers, {rounds} rounds, {} acknowledged", all.len()));
    let b = w.bk.reopen(&rt, true)?;
    let g = match rt.block_on(b.store.open("main")).op("opening a database")? {
        Some(g) => g,
        None => viol!("the database is gone"),
    };
    let (h, v) = rt.block_on(g.head_version()).op("head_version")?;
    ensure!(v as usize == all.len(), "{} head updates were acknowledged, but the version is {v}", all.len());
    match h {
        None => ensure!(all.is_empty(), "head updates were acknowledged, but there is no head"),
        Some(h) => {
            let stack = rt.block_on(h.retrieve_layer_stack_names()).op("retrieve_layer_stack_names")?;
            for (n, t) in &all {
                ensure!(stack.contains(n), "the acknowledged head {} is not an ancestor of the final head", short(*n));
                ensure!(h.value_triple_exists(&terminus_store::layer::ValueTriple::new_string_value(t, "p", t)), "the triple of {t}, which was acknowledged, is lost");
            }
            ensure!(h.triple_count() == all.len() && stack.len() == all.len(), "{} updates were acknowledged, the final head has {} triples and {} layers", all.len(), h.triple_count(), stack.len());
        }
    }
    ctx.stats.add("acknowledged_commits", all.len() as u64);
    ctx.stats.add("committer_races", 1);
    w.cleanup();
    Ok(())
}

/// One client, all head operations on random layer trees, against the model.
fn c11_model(ctx: &mut Ctx) -> R<()> {
    let kind = *ctx.rng.pick(&[Kind::Mem, Kind::Dir, Kind::Raw, Kind::Lru(1), Kind::DirCachedLabels]);
    let n = ctx.rng.range(3, 10);
    let mut w = grow(ctx, kind, n)?;
    let mut lm = LabelModel::default();
    let m = history::Mix { commit: 3, rollup: 2, rollup_upto: 2, imprecise: 2, squash: 1, squash_upto: 1, ..history::NOTHING };
    for _ in 0..ctx.rng.range(30, 80) {
        lm.step(ctx, &mut w)?;
        if ctx.rng.chance(1, 10) {
            history::step(ctx, &mut w, &m)?;
        }
        if ctx.rng.chance(1, 25) {
            w.reopen(ctx)?;
            lm.handles.clear();
        }
    }
    lm.check(ctx, &w)?;
    w.cleanup();
    Ok(())
}

pub fn register(v: &mut Vec<Prop>) {
    v.push(Prop {
        id: "C10",
        case: c10,
        concurrent: true,
        rule: "histories of concurrent label calls by tasks, store objects and processes with delays injected into file system calls, each judged by a linearizability checker; distinct by the order found and all results",
        must_observe: &["label_calls", "overlapping_pairs", "linearized_histories", "client_processes", "sequential_histories", "file_backed_histories"],
        ..BASE
    });
    v.push(Prop {
        id: "C11",
        case: c11,
        concurrent: true,
        rule: "head updates on random layer trees: concurrent ones judged by a linearizability checker that knows the ancestry, racing committers by the acknowledged updates found in the final head, sequential ones by a model; distinct by the order found and all results",
        must_observe: &["label_calls", "overlapping_pairs", "linearized_histories", "heads_moved", "head_moves_refused", "versioned_forces_refused", "acknowledged_commits", "races_lost", "label_set_heads_refused"],
        ..BASE
    });
}
