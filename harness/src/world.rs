//! Backends, and a history of layers together with its model.
use crate::check::*;
use crate::gen::*;
use crate::util::*;
use crate::{ensure, viol};
use std::collections::BTreeSet;
use std::path::PathBuf;
use std::sync::Arc;
use terminus_store::layer::{Layer, ObjectType};
use terminus_store::storage::archive::{ArchiveLayerStore, DirectoryArchiveBackend, LruArchiveBackend};
use terminus_store::storage::directory::{CachedDirectoryLabelStore, DirectoryLabelStore, DirectoryLayerStore};
use terminus_store::storage::memory::{MemoryLabelStore, MemoryLayerStore};
use terminus_store::storage::{CachedLayerStore, Label, LabelStore, LayerStore, LockingHashMapLayerCache};
use terminus_store::store::sync::{SyncStore, SyncStoreLayer};
use terminus_store::store::{open_archive_store, open_directory_store, open_raw_archive_store, Store, StoreLayer};

pub type Name = [u32; 5];

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Kind {
    Mem,
    Dir,
    /// directory layers, labels cached in memory
    DirCachedLabels,
    Raw,
    Lru(usize),
}
pub const KINDS: [Kind; 5] = [Kind::Mem, Kind::Dir, Kind::Raw, Kind::Lru(0), Kind::Lru(1)];
pub const DISK_KINDS: [Kind; 5] = [Kind::Dir, Kind::Raw, Kind::Lru(0), Kind::Lru(2), Kind::DirCachedLabels];

/// One store with the two layer store interfaces behind it.
#[derive(Clone)]
pub struct Bk {
    pub kind: Kind,
    pub path: Option<PathBuf>,
    mem: Option<(MemoryLabelStore, MemoryLayerStore)>,
    pub store: Store,
    /// the layer store inside `store`
    pub inner: Arc<dyn LayerStore>,
    /// a layer store over the same data without the layer cache
    pub direct: Arc<dyn LayerStore>,
    pub labels: Arc<dyn LabelStore>,
}

/// A label store that can be shared between the store and the monitor.
pub struct SharedLabels(pub Arc<dyn LabelStore>);
#[async_trait::async_trait]
impl LabelStore for SharedLabels {
    async fn labels(&self) -> std::io::Result<Vec<Label>> {
        self.0.labels().await
    }
    async fn create_label(&self, name: &str) -> std::io::Result<Label> {
        self.0.create_label(name).await
    }
    async fn get_label(&self, name: &str) -> std::io::Result<Option<Label>> {
        self.0.get_label(name).await
    }
    async fn set_label_option(&self, label: &Label, layer: Option<Name>) -> std::io::Result<Option<Label>> {
        self.0.set_label_option(label, layer).await
    }
    async fn delete_label(&self, name: &str) -> std::io::Result<bool> {
        self.0.delete_label(name).await
    }
}

fn cached<L: LayerStore>(l: L) -> CachedLayerStore {
    CachedLayerStore::new(l, LockingHashMapLayerCache::new())
}

impl Bk {
    pub fn open(ctx_rt: &tokio::runtime::Runtime, kind: Kind, path: Option<PathBuf>) -> R<Bk> {
        if kind == Kind::Mem {
            return Ok(Self::open_mem((MemoryLabelStore::new(), MemoryLayerStore::new())));
        }
        let p = path.unwrap();
        let labels: Arc<dyn LabelStore> = match kind {
            Kind::DirCachedLabels => Arc::new(ctx_rt.block_on(CachedDirectoryLabelStore::open(&p)).op("opening the cached label store")?),
            _ => Arc::new(DirectoryLabelStore::new(&p)),
        };
        let l2 = SharedLabels(labels.clone());
        let (store, inner, direct): (Store, Arc<dyn LayerStore>, Arc<dyn LayerStore>) = match kind {
            Kind::Mem | Kind::Dir | Kind::DirCachedLabels => {
                let d = DirectoryLayerStore::new(&p);
                let c = cached(d.clone());
                (Store::new(l2, c.clone()), Arc::new(c), Arc::new(d))
            }
            Kind::Raw => {
                let b = DirectoryArchiveBackend::new(p.clone());
                let a = ArchiveLayerStore::new(b.clone(), b);
                let c = cached(a.clone());
                (Store::new(l2, c.clone()), Arc::new(c), Arc::new(a))
            }
            Kind::Lru(n) => {
                let b = DirectoryArchiveBackend::new(p.clone());
                let l = LruArchiveBackend::new(b.clone(), b, n);
                let a = ArchiveLayerStore::new(l.clone(), l);
                let c = cached(a.clone());
                (Store::new(l2, c.clone()), Arc::new(c), Arc::new(a))
            }
        };
        Ok(Bk { kind, path: Some(p), mem: None, store, inner, direct, labels })
    }
    fn open_mem(m: (MemoryLabelStore, MemoryLayerStore)) -> Bk {
        let c = cached(m.1.clone());
        let store = Store::new(m.0.clone(), c.clone());
        Bk { kind: Kind::Mem, path: None, store, inner: Arc::new(c), direct: Arc::new(m.1.clone()), labels: Arc::new(m.0.clone()), mem: Some(m) }
    }
    /// A new store object over the same data, as after a restart.
    pub fn reopen(&self, rt: &tokio::runtime::Runtime, default_ctor: bool) -> R<Bk> {
        if let Some(m) = &self.mem {
            return Ok(Self::open_mem(m.clone()));
        }
        let mut b = Bk::open(rt, self.kind, self.path.clone())?;
        if default_ctor {
            let p = self.path.clone().unwrap();
            b.store = match self.kind {
                Kind::Dir => open_directory_store(p),
                Kind::Raw => open_raw_archive_store(p),
                Kind::Lru(n) => open_archive_store(p, n),
                _ => b.store,
            };
        }
        Ok(b)
    }
}

#[derive(Clone)]
pub struct MLayer {
    pub name: Name,
    pub parent: Option<usize>,
    pub triples: Arc<BTreeSet<VT>>,
    pub adds: Arc<BTreeSet<VT>>,
    pub removes: Arc<BTreeSet<VT>>,
    /// everything this layer could possibly know about
    pub mention_o: Arc<BTreeSet<ObjectType>>,
    pub mention_p: Arc<BTreeSet<String>>,
    pub view: Option<Arc<IdView>>,
    pub kept: Vec<StoreLayer>,
    pub origin: &'static str,
    pub rolled: bool,
}

pub fn parts(ts: &BTreeSet<VT>, o: &mut BTreeSet<ObjectType>, p: &mut BTreeSet<String>) {
    for t in ts {
        o.insert(ObjectType::Node(t.subject.clone()));
        o.insert(t.object.clone());
        p.insert(t.predicate.clone());
    }
}

#[derive(Clone, Copy)]
pub struct Focus {
    pub contents: bool,
    pub delta: bool,
    pub history: bool,
    pub unknown: bool,
    /// also ask through the blocking interface
    pub sync: bool,
    pub cap: usize,
}
impl Focus {
    pub const ALL: Focus = Focus { contents: true, delta: true, history: true, unknown: true, sync: true, cap: 12 };
    pub const LIGHT: Focus = Focus { contents: true, delta: true, history: true, unknown: false, sync: false, cap: 5 };
}

pub struct World {
    pub bk: Bk,
    pub layers: Vec<MLayer>,
    pub pool: Pool,
    pub rollups_done: usize,
    /// number of builders opened but not committed
    pub abandoned: usize,
    pub tag: String,
}

pub fn join_viol(e: tokio::task::JoinError) -> Fail {
    Fail::Viol(format!("the operation did not complete: {e}"))
}

pub struct BuilderOps {
    pub ops: Vec<(bool, VT, bool)>, // (add?, triple, by id)
}

impl World {
    pub fn new(ctx: &mut Ctx, kind: Kind) -> R<World> {
        let path = if kind == Kind::Mem { None } else { Some(ctx.fresh_dir("store")?) };
        let bk = Bk::open(&ctx.rt, kind, path)?;
        let pool = Pool::random(&mut ctx.rng);
        ctx.t(format!("store {kind:?} pool {:?} {}/{}/{}", pool.flavor, pool.nodes.len(), pool.preds.len(), pool.values.len()));
        Ok(World { bk, layers: vec![], pool, rollups_done: 0, abandoned: 0, tag: String::new() })
    }

    pub fn cleanup(&self) {
        if let Some(p) = &self.bk.path {
            let _ = std::fs::remove_dir_all(p);
        }
    }

    /// The same history seen through another store object.
    pub fn fork(&self, bk: Bk, upto: usize, tag: &str) -> World {
        let mut layers: Vec<MLayer> = self.layers[..upto].to_vec();
        for l in &mut layers {
            l.kept.clear();
        }
        World { bk, layers, pool: self.pool.clone(), rollups_done: self.rollups_done, abandoned: self.abandoned, tag: tag.to_string() }
    }

    pub fn ancestors(&self, i: usize) -> Vec<usize> {
        let mut v = vec![];
        let mut c = self.layers[i].parent;
        while let Some(p) = c {
            v.push(p);
            c = self.layers[p].parent;
        }
        v
    }
    pub fn stack(&self, i: usize) -> Vec<usize> {
        let mut v = self.ancestors(i);
        v.reverse();
        v.push(i);
        v
    }

    pub fn by_name(&self, n: Name) -> Option<usize> {
        self.layers.iter().position(|l| l.name == n)
    }

    /// The layer as the store gives it now (or a handle kept from earlier).
    pub fn get(&self, ctx: &mut Ctx, i: usize) -> R<StoreLayer> {
        let l = &self.layers[i];
        if !l.kept.is_empty() && ctx.rng.chance(1, 2) {
            return Ok(l.kept[ctx.rng.below(l.kept.len())].clone());
        }
        self.load(ctx, i)
    }
    pub fn load(&self, ctx: &mut Ctx, i: usize) -> R<StoreLayer> {
        let l = &self.layers[i];
        let r = ctx.rt.block_on(self.bk.store.get_layer_from_id(l.name)).op("loading a committed layer")?;
        match r {
            Some(s) => Ok(s),
            None => viol!("layer {} ({}) was committed but is not found", short(l.name), l.origin),
        }
    }
    pub fn sync_store(&self) -> SyncStore {
        SyncStore::wrap(self.bk.store.clone())
    }
    pub fn sync_get(&self, i: usize) -> R<SyncStoreLayer> {
        let l = &self.layers[i];
        match self.sync_store().get_layer_from_id(l.name).op("loading a committed layer (blocking)")? {
            Some(s) => Ok(s),
            None => viol!("layer {} ({}) was committed but is not found (blocking)", short(l.name), l.origin),
        }
    }

    /// Random changes for a builder on `parent`.
    pub fn gen_ops(&self, ctx: &mut Ctx, parent: Option<usize>, n: usize) -> BuilderOps {
        let mut ops: Vec<(bool, VT, bool)> = Vec::with_capacity(n);
        let existing: Vec<&VT> = match parent {
            Some(p) => self.layers[p].triples.iter().collect(),
            None => vec![],
        };
        let rng = &mut ctx.rng;
        let removal = [2, 5, 8][rng.below(3)];
        for _ in 0..n {
            let k = rng.below(10);
            let t = if k < 3 && !existing.is_empty() {
                (*rng.pick(&existing)).clone()
            } else if k < 4 && !ops.is_empty() {
                rng.pick(&ops).1.clone()
            } else {
                self.pool.triple(rng)
            };
            let add = rng.below(10) >= removal;
            let byid = rng.chance(1, 4);
            ops.push((add, t, byid));
        }
        BuilderOps { ops }
    }

    /// Adds the layer that results from the changes to the model.
    pub fn model_commit(&mut self, name: Name, parent: Option<usize>, ops: &BuilderOps, origin: &'static str) -> usize {
        let empty = Arc::new(BTreeSet::new());
        let ptriples = parent.map(|p| self.layers[p].triples.clone()).unwrap_or(empty);
        let mut a = BTreeSet::new();
        let mut r = BTreeSet::new();
        for (add, t, _) in &ops.ops {
            if *add {
                a.insert(t.clone());
            } else {
                r.insert(t.clone());
            }
        }
        let adds: BTreeSet<VT> = a.iter().filter(|t| !r.contains(*t) && !ptriples.contains(*t)).cloned().collect();
        let removes: BTreeSet<VT> = r.iter().filter(|t| !a.contains(*t) && ptriples.contains(*t)).cloned().collect();
        let mut triples = (*ptriples).clone();
        for t in &removes {
            triples.remove(t);
        }
        for t in &adds {
            triples.insert(t.clone());
        }
        let (mut mo, mut mp) = match parent {
            Some(p) => ((*self.layers[p].mention_o).clone(), (*self.layers[p].mention_p).clone()),
            None => Default::default(),
        };
        parts(&a, &mut mo, &mut mp);
        self.layers.push(MLayer {
            name,
            parent,
            triples: Arc::new(triples),
            adds: Arc::new(adds),
            removes: Arc::new(removes),
            mention_o: Arc::new(mo),
            mention_p: Arc::new(mp),
            view: None,
            kept: vec![],
            origin,
            rolled: false,
        });
        self.layers.len() - 1
    }

    pub fn model_derived(&mut self, name: Name, parent: Option<usize>, triples: BTreeSet<VT>, mo: BTreeSet<ObjectType>, mp: BTreeSet<String>, origin: &'static str) -> usize {
        let empty = Arc::new(BTreeSet::new());
        let pt = parent.map(|p| self.layers[p].triples.clone()).unwrap_or(empty);
        let adds = triples.difference(&pt).cloned().collect();
        let removes = pt.difference(&triples).cloned().collect();
        self.layers.push(MLayer {
            name,
            parent,
            triples: Arc::new(triples),
            adds: Arc::new(adds),
            removes: Arc::new(removes),
            mention_o: Arc::new(mo),
            mention_p: Arc::new(mp),
            view: None,
            kept: vec![],
            origin,
            rolled: false,
        });
        self.layers.len() - 1
    }

    fn keep(&mut self, ctx: &mut Ctx, i: usize, l: StoreLayer) {
        if ctx.rng.chance(1, 3) && self.layers[i].kept.len() < 3 {
            self.layers[i].kept.push(l);
        }
    }

    /// Commits a layer with `n` random changes.
    pub fn op_commit(&mut self, ctx: &mut Ctx, parent: Option<usize>, n: usize) -> R<usize> {
        let ops = self.gen_ops(ctx, parent, n);
        self.commit_ops(ctx, parent, ops)
    }

    pub fn commit_ops(&mut self, ctx: &mut Ctx, parent: Option<usize>, ops: BuilderOps) -> R<usize> {
        let sync = ctx.rng.chance(1, 4);
        let pview = match parent {
            Some(p) => Some(self.view_of(ctx, p)?),
            None => None,
        };
        ctx.t(format!(
            "commit{} on {} with {} changes{}",
            if sync { " (blocking)" } else { "" },
            parent.map(|p| format!("#{p}")).unwrap_or("nothing".into()),
            ops.ops.len(),
            if ops.ops.len() <= 24 {
                format!(": {}", ops.ops.iter().map(|(a, t, i)| format!("{}{}{}", if *a { "+" } else { "-" }, if *i { "#" } else { "" }, show(t))).collect::<Vec<_>>().join(" "))
            } else {
                String::new()
            }
        ));
        ctx.stats.add("commits", 1);
        ctx.stats.add("builder_changes", ops.ops.len() as u64);
        let name;
        if sync {
            let b = match parent {
                None => self.sync_store().create_base_layer().op("create_base_layer")?,
                Some(p) => self.sync_get(p)?.open_write().op("open_write")?,
            };
            for (add, t, byid) in &ops.ops {
                let id = if *byid { pview.as_ref().and_then(|v| v.to_id(t)) } else { None };
                match (add, id) {
                    (true, Some(i)) => b.add_id_triple(i),
                    (false, Some(i)) => b.remove_id_triple(i),
                    (true, None) => b.add_value_triple(t.clone()),
                    (false, None) => b.remove_value_triple(t.clone()),
                }
                .op("a builder change")?;
            }
            name = b.name();
            if ctx.rng.chance(1, 2) {
                let l = b.commit().op("commit")?;
                ensure!(l.name() == name, "commit returned layer {} for builder {}", short(l.name()), short(name));
            } else {
                b.commit_no_load().op("commit_no_load")?;
            }
            ensure!(b.committed(), "committed() is false after a commit");
            let i = self.model_commit(name, parent, &ops, "commit");
            Ok(i)
        } else {
            let b = match parent {
                None => ctx.rt.block_on(self.bk.store.create_base_layer()).op("create_base_layer")?,
                Some(p) => {
                    let l = self.get(ctx, p)?;
                    ctx.rt.block_on(l.open_write()).op("open_write")?
                }
            };
            name = b.name();
            let on = b.parent().map(|p| p.name());
            ensure!(on == parent.map(|p| self.layers[p].name), "a builder says it builds on {:?}", on.map(short));
            ensure!(!b.committed(), "committed() is true before the commit");
            for (add, t, byid) in &ops.ops {
                let id = if *byid { pview.as_ref().and_then(|v| v.to_id(t)) } else { None };
                match (add, id) {
                    (true, Some(i)) => b.add_id_triple(i),
                    (false, Some(i)) => b.remove_id_triple(i),
                    (true, None) => b.add_value_triple(t.clone()),
                    (false, None) => b.remove_value_triple(t.clone()),
                }
                .op("a builder change")?;
            }
            let mut handle = None;
            if ctx.rng.chance(1, 2) {
                let l = ctx.rt.block_on(b.commit()).op("commit")?;
                ensure!(l.name() == name, "commit returned layer {} for builder {}", short(l.name()), short(name));
                handle = Some(l);
            } else {
                ctx.rt.block_on(b.commit_no_load()).op("commit_no_load")?;
            }
            let i = self.model_commit(name, parent, &ops, "commit");
            if let Some(h) = handle {
                self.keep(ctx, i, h);
            }
            Ok(i)
        }
    }

    /// The ids of layer `i` (recorded on first use).
    pub fn view_of(&mut self, ctx: &mut Ctx, i: usize) -> R<Arc<IdView>> {
        if let Some(v) = &self.layers[i].view {
            return Ok(v.clone());
        }
        let l = self.load(ctx, i)?;
        let v = Arc::new(snapshot(&l)?);
        self.check_view(i, &v)?;
        self.layers[i].view = Some(v.clone());
        Ok(v)
    }

    fn check_view(&self, i: usize, v: &IdView) -> R<()> {
        let m = &self.layers[i];
        let ln = short(m.name);
        if let Some(p) = m.parent {
            if let Some(pv) = &self.layers[p].view {
                ids_extend(pv, v, &format!("layer {ln} on {}", short(self.layers[p].name)))?;
            }
        }
        for o in &v.objs {
            ensure!(m.mention_o.contains(o), "layer {ln} ({}) knows {o:?}, which was never added to it or its ancestors", m.origin);
        }
        for p in &v.preds {
            ensure!(m.mention_p.contains(p), "layer {ln} ({}) knows predicate {p:?}, which was never added to it or its ancestors", m.origin);
        }
        Ok(())
    }

    pub fn op_rollup(&mut self, ctx: &mut Ctx, i: usize) -> R<()> {
        let sync = ctx.rng.chance(1, 4);
        ctx.t(format!("rollup #{i}"));
        ctx.stats.add("rollups", 1);
        if sync {
            self.sync_get(i)?.rollup().op("rollup (blocking)")?;
        } else {
            let l = self.get(ctx, i)?;
            ctx.rt.block_on(l.rollup()).op("rollup")?;
        }
        self.layers[i].rolled = true;
        self.rollups_done += 1;
        Ok(())
    }
    pub fn op_rollup_upto(&mut self, ctx: &mut Ctx, i: usize, upto: usize, imprecise: bool) -> R<()> {
        let sync = ctx.rng.chance(1, 4);
        ctx.t(format!("{}rollup #{i} upto #{upto}", if imprecise { "imprecise " } else { "" }));
        ctx.stats.add(if imprecise { "imprecise_rollups" } else { "rollups_upto" }, 1);
        if sync {
            let (l, u) = (self.sync_get(i)?, self.sync_get(upto)?);
            if imprecise { l.imprecise_rollup_upto(&u) } else { l.rollup_upto(&u) }.op("rollup_upto (blocking)")?;
        } else {
            let l = self.get(ctx, i)?;
            let u = self.get(ctx, upto)?;
            if imprecise { ctx.rt.block_on(l.imprecise_rollup_upto(&u)) } else { ctx.rt.block_on(l.rollup_upto(&u)) }
                .op(if imprecise { "imprecise_rollup_upto" } else { "rollup_upto" })?;
        }
        self.layers[i].rolled = true;
        self.rollups_done += 1;
        Ok(())
    }
    pub fn op_squash(&mut self, ctx: &mut Ctx, i: usize) -> R<usize> {
        let sync = ctx.rng.chance(1, 4);
        ctx.t(format!("squash #{i}"));
        ctx.stats.add("squashes", 1);
        let (name, h) = if sync {
            (self.sync_get(i)?.squash().op("squash (blocking)")?.name(), None)
        } else {
            let l = self.get(ctx, i)?;
            let n = ctx.rt.block_on(l.squash()).op("squash")?;
            (n.name(), Some(n))
        };
        ensure!(self.by_name(name).is_none(), "squash returned an existing layer");
        let t = (*self.layers[i].triples).clone();
        let (mut mo, mut mp) = Default::default();
        parts(&t, &mut mo, &mut mp);
        let n = self.model_derived(name, None, t, mo, mp, "squash");
        if let Some(h) = h {
            self.keep(ctx, n, h);
        }
        Ok(n)
    }
    pub fn op_squash_upto(&mut self, ctx: &mut Ctx, i: usize, upto: usize) -> R<usize> {
        let sync = ctx.rng.chance(1, 4);
        ctx.t(format!("squash #{i} upto #{upto}"));
        ctx.stats.add("squashes_upto", 1);
        let name = if sync {
            let u = self.sync_get(upto)?;
            self.sync_get(i)?.squash_upto(&u).op("squash_upto (blocking)")?.name()
        } else {
            let l = self.get(ctx, i)?;
            let u = self.get(ctx, upto)?;
            ctx.rt.block_on(l.squash_upto(&u)).op("squash_upto")?.name()
        };
        ensure!(self.by_name(name).is_none(), "squash_upto returned an existing layer");
        let t = (*self.layers[i].triples).clone();
        let mut mo = (*self.layers[upto].mention_o).clone();
        let mut mp = (*self.layers[upto].mention_p).clone();
        parts(&t, &mut mo, &mut mp);
        Ok(self.model_derived(name, Some(upto), t, mo, mp, "squash_upto"))
    }
    pub fn op_merge(&mut self, ctx: &mut Ctx, which: &[usize]) -> R<usize> {
        let tmp = ctx.fresh_dir("tmp")?;
        let sync = ctx.rng.chance(1, 4);
        ctx.t(format!("merge {which:?}"));
        ctx.stats.add("merges", 1);
        let names: Vec<Name> = which.iter().map(|i| self.layers[*i].name).collect();
        let name = if sync {
            self.sync_store().merge_base_layers(&names, &tmp).op("merge_base_layers (blocking)")?
        } else {
            ctx.rt.block_on(self.bk.store.merge_base_layers(&names, &tmp)).op("merge_base_layers")?
        };
        let left: Vec<_> = crate::fsx::own(|| Ok(std::fs::read_dir(&tmp).env("reading tmp")?.filter_map(|e| e.ok()).map(|e| e.file_name()).collect()))?;
        ensure!(left.is_empty() || FAULTS.load(std::sync::atomic::Ordering::SeqCst), "merge_base_layers left files in the temporary directory: {left:?}");
        let _ = std::fs::remove_dir_all(&tmp);
        ensure!(self.by_name(name).is_none(), "merge_base_layers returned an existing layer");
        let mut t = BTreeSet::new();
        let (mut mo, mut mp) = (BTreeSet::new(), BTreeSet::new());
        for i in which {
            t.extend(self.layers[*i].triples.iter().cloned());
            mo.extend(self.layers[*i].mention_o.iter().cloned());
            mp.extend(self.layers[*i].mention_p.iter().cloned());
        }
        Ok(self.model_derived(name, None, t, mo, mp, "merge"))
    }

    pub fn reopen(&mut self, ctx: &mut Ctx) -> R<()> {
        for l in &mut self.layers {
            l.kept.clear();
        }
        let def = ctx.rng.chance(1, 2);
        ctx.t(format!("reopen{}", if def { " (open_*)" } else { "" }));
        ctx.stats.add("reopens", 1);
        self.bk = self.bk.reopen(&ctx.rt, def)?;
        Ok(())
    }

    /// Everything that can be asked about layer `i` against the model.
    pub fn check(&mut self, ctx: &mut Ctx, i: usize, f: Focus) -> R<()> {
        let l = self.get(ctx, i)?;
        self.check_handle(ctx, i, &l, f)
    }

    pub fn check_handle(&mut self, ctx: &mut Ctx, i: usize, l: &StoreLayer, f: Focus) -> R<()> {
        ctx.stats.add("layer_checks", 1);
        let rt = ctx.rt.clone();
        let m = &self.layers[i];
        let ln = format!("{}#{i}({})", self.tag, m.origin);
        ensure!(l.name() == m.name, "{ln}: layer name changed");
        let pname = m.parent.map(|p| self.layers[p].name);
        ensure!(l.parent_name() == pname, "{ln}: parent is {:?}, expected {:?}", l.parent_name().map(short), pname.map(short));
        // ids
        let v = snapshot(l)?;
        match &m.view {
            Some(old) => ids_equal(old, &v, &ln)?,
            None => {
                self.check_view(i, &v)?;
            }
        }
        let v = Arc::new(v);
        if self.layers[i].view.is_none() {
            self.layers[i].view = Some(v.clone());
        }
        let m = &self.layers[i];
        if let Some(p) = m.parent {
            if let Some(pv) = &self.layers[p].view {
                ids_extend(pv, &v, &ln)?;
            }
        }
        let (triples, adds, removes) = (m.triples.clone(), m.adds.clone(), m.removes.clone());
        if f.contents {
            check_contents(l, &v, &triples, &mut ctx.rng, f.cap, &mut ctx.stats)?;
        }
        if f.unknown {
            let mut us: Vec<String> = (0..3).map(|_| self.pool.unknown_string(&mut ctx.rng)).collect();
            us.push(format!("{}\u{2}", self.pool.nodes[0]));
            let uv: Vec<_> = (0..3).map(|_| self.pool.unknown_value(&mut ctx.rng)).collect();
            check_unknown(l, &us, &uv)?;
            // names of the vocabulary this line of history has not seen
            for n in self.pool.nodes.iter().take(30) {
                let o = ObjectType::Node(n.clone());
                let g = l.subject_id(n);
                ensure!(g == v.omap.get(&o).copied(), "{ln}: subject_id({n:?}) gives {g:?}, expected {:?}", v.omap.get(&o));
                ensure!(l.object_node_id(n) == g, "{ln}: object_node_id({n:?}) and subject_id disagree");
            }
            for p in self.pool.preds.iter().take(30) {
                let g = l.predicate_id(p);
                ensure!(g == v.pmap.get(p).copied(), "{ln}: predicate_id({p:?}) gives {g:?}, expected {:?}", v.pmap.get(p));
            }
            for x in self.pool.values.iter().take(30) {
                let o = ObjectType::Value(x.clone());
                let g = l.object_value_id(x);
                ensure!(g == v.omap.get(&o).copied(), "{ln}: object_value_id({x:?}) gives {g:?}, expected {:?}", v.omap.get(&o));
            }
        }
        if f.delta {
            let (d, cap) = match ctx.rng.below(5) {
                0 => (D::Store(&rt, self.bk.direct.clone(), m.name), f.cap.min(4)),
                1 => (D::Store(&rt, self.bk.inner.clone(), m.name), f.cap.min(4)),
                _ => (D::Async(&rt, l), f.cap),
            };
            check_delta(&d, &ln, &v, &adds, &removes, &mut ctx.rng, cap, &mut ctx.stats)?;
        }
        if f.sync {
            let s = self.sync_get(i)?;
            ensure!(s.name() == l.name() && s.parent_name() == l.parent_name(), "{ln}: the blocking handle has another identity");
            let v2 = snapshot(&s)?;
            ids_equal(&v, &v2, &format!("{ln} (blocking)"))?;
            if f.contents {
                check_contents(&s, &v, &triples, &mut ctx.rng, f.cap, &mut ctx.stats)?;
            }
            if f.delta {
                check_delta(&D::Sync(&s), &ln, &v, &adds, &removes, &mut ctx.rng, f.cap, &mut ctx.stats)?;
            }
            ctx.stats.add("blocking_api_checks", 1);
        }
        if f.history {
            self.check_history(ctx, i, l)?;
        }
        Ok(())
    }

    pub fn check_history(&mut self, ctx: &mut Ctx, i: usize, l: &StoreLayer) -> R<()> {
        let rt = ctx.rt.clone();
        let m = &self.layers[i];
        let ln = format!("{}#{i}({})", self.tag, m.origin);
        let stack = self.stack(i);
        let names: Vec<Name> = stack.iter().map(|j| self.layers[*j].name).collect();
        let show = |v: &[Name]| v.iter().map(|n| self.by_name(*n).map(|i| format!("#{i}")).unwrap_or(short(*n))).collect::<Vec<_>>();
        let got = rt.block_on(l.retrieve_layer_stack_names()).op("retrieve_layer_stack_names")?;
        ensure!(got == names, "{ln}: layer stack is {:?}, expected {:?}", show(&got), show(&names));
        let ls = if ctx.rng.chance(1, 2) { &self.bk.direct } else { &self.bk.inner };
        let p = rt.block_on(ls.get_layer_parent_name(m.name)).op("get_layer_parent_name")?;
        let pname = m.parent.map(|p| self.layers[p].name);
        ensure!(p == pname, "{ln}: stored parent is {:?}, expected {:?}", p.map(short), pname.map(short));
        let ph = rt.block_on(l.parent()).op("parent()")?;
        ensure!(ph.as_ref().map(|p| p.name()) == pname, "{ln}: parent() gives {:?}, expected {:?}", ph.map(|p| short(p.name())), pname.map(short));
        let mut cand: Vec<usize> = (0..6).map(|_| ctx.rng.below(self.layers.len())).collect();
        cand.push(i);
        if let Some(p) = m.parent {
            cand.push(p);
        }
        let upto_ok: Vec<usize> = stack.clone();
        cand.push(upto_ok[ctx.rng.below(upto_ok.len())]);
        for j in cand {
            let ls = if ctx.rng.chance(1, 2) { &self.bk.direct } else { &self.bk.inner };
            let other = self.layers[j].name;
            let exp = stack.contains(&j);
            let got = rt.block_on(ls.layer_is_ancestor_of(m.name, other)).op("layer_is_ancestor_of")?;
            ensure!(got == exp, "{ln}: layer_is_ancestor_of(#{i}, #{j}) says {got}, expected {exp}");
            if j == i {
                // the stack above itself is not defined
            } else if exp {
                let pos = stack.iter().position(|k| *k == j).unwrap();
                let want = &names[pos + 1..];
                let got = rt.block_on(ls.retrieve_layer_stack_names_upto(m.name, other)).op("retrieve_layer_stack_names_upto")?;
                ensure!(got == want, "{ln}: stack above #{j} is {:?}, expected {:?}", show(&got), show(want));
            } else {
                let got = rt.block_on(ls.retrieve_layer_stack_names_upto(m.name, other));
                ensure!(got.is_err(), "{ln}: stack above #{j}, which is no ancestor, is {:?}", got.map(|g| show(&g)));
            }
        }
        ctx.stats.add("history_checks", 1);
        Ok(())
    }

    pub fn check_all(&mut self, ctx: &mut Ctx, f: Focus) -> R<()> {
        for i in 0..self.layers.len() {
            self.check(ctx, i, f)?;
        }
        Ok(())
    }

    /// Commits the changes of layer `src` on top of `target`.
    pub fn op_apply_delta(&mut self, ctx: &mut Ctx, target: Option<usize>, src: usize) -> R<usize> {
        let rt = ctx.rt.clone();
        let before = ctx.rng.chance(1, 4);
        ctx.t(format!("apply changes of #{src} to {target:?}"));
        ctx.stats.add("deltas_applied", 1);
        let mut ops = BuilderOps { ops: vec![] };
        if before {
            // changes of our own in the same commit
            ops = self.gen_ops(ctx, target, 3);
            for o in &mut ops.ops {
                o.2 = false;
            }
            let s = &self.layers[src];
            ops.ops.retain(|(_, t, _)| !s.adds.contains(t) && !s.removes.contains(t));
        }
        let b = match target {
            None => rt.block_on(self.bk.store.create_base_layer()).op("create_base_layer")?,
            Some(p) => {
                let l = self.get(ctx, p)?;
                rt.block_on(l.open_write()).op("open_write")?
            }
        };
        for (add, t, _) in &ops.ops {
            if *add { b.add_value_triple(t.clone()) } else { b.remove_value_triple(t.clone()) }.op("a builder change")?;
        }
        let l = self.get(ctx, src)?;
        rt.block_on(b.apply_delta(&l)).op("apply_delta")?;
        let name = b.name();
        rt.block_on(b.commit_no_load()).op("commit after apply_delta")?;
        for t in self.layers[src].adds.iter() {
            ops.ops.push((true, t.clone(), false));
        }
        for t in self.layers[src].removes.iter() {
            ops.ops.push((false, t.clone(), false));
        }
        Ok(self.model_commit(name, target, &ops, "apply_delta"))
    }

    /// Commits on top of `target` what is needed to get the contents of `src`.
    pub fn op_apply_diff(&mut self, ctx: &mut Ctx, target: Option<usize>, src: usize) -> R<usize> {
        let rt = ctx.rt.clone();
        ctx.t(format!("apply difference to #{src} to {target:?}"));
        ctx.stats.add("diffs_applied", 1);
        let name;
        if ctx.rng.chance(1, 4) {
            let b = match target {
                None => self.sync_store().create_base_layer().op("create_base_layer")?,
                Some(p) => self.sync_get(p)?.open_write().op("open_write")?,
            };
            b.apply_diff(&self.sync_get(src)?).op("apply_diff (blocking)")?;
            name = b.name();
            b.commit_no_load().op("commit after apply_diff")?;
        } else {
            let b = match target {
                None => rt.block_on(self.bk.store.create_base_layer()).op("create_base_layer")?,
                Some(p) => {
                    let l = self.get(ctx, p)?;
                    rt.block_on(l.open_write()).op("open_write")?
                }
            };
            let l = self.get(ctx, src)?;
            b.apply_diff(&l).op("apply_diff")?;
            name = b.name();
            rt.block_on(b.commit_no_load()).op("commit after apply_diff")?;
        }
        let empty = Arc::new(BTreeSet::new());
        let pt = target.map(|p| self.layers[p].triples.clone()).unwrap_or(empty);
        let st = self.layers[src].triples.clone();
        let mut ops = BuilderOps { ops: vec![] };
        for t in st.difference(&pt) {
            ops.ops.push((true, t.clone(), false));
        }
        for t in pt.difference(&st) {
            ops.ops.push((false, t.clone(), false));
        }
        Ok(self.model_commit(name, target, &ops, "apply_diff"))
    }

    /// Exports some layers and imports them again into the same store.
    pub fn op_selfpack(&mut self, ctx: &mut Ctx) -> R<()> {
        let n = ctx.rng.range(1, self.layers.len().min(4));
        let ids: Vec<usize> = (0..n).map(|_| ctx.rng.below(self.layers.len())).collect::<BTreeSet<_>>().into_iter().collect();
        ctx.t(format!("export and import {ids:?} into the same store"));
        ctx.stats.add("self_imports", 1);
        let names: Vec<Name> = ids.iter().map(|i| self.layers[*i].name).collect();
        let st = self.bk.store.clone();
        let n2 = names.clone();
        let pack = ctx.rt.block_on(async move { tokio::spawn(async move { st.export_layers(Box::new(n2.into_iter())).await }).await }).map_err(join_viol)?.op("export_layers")?;
        let st = self.bk.store.clone();
        ctx.rt.block_on(async move { tokio::spawn(async move { st.import_layers(&pack, Box::new(names.into_iter())).await }).await }).map_err(join_viol)?.op("import_layers of layers the store has")?;
        Ok(())
    }

    /// Creates, moves and deletes databases that point at the layers.
    pub fn op_label_noise(&mut self, ctx: &mut Ctx) -> R<()> {
        let name = format!("db{}", ctx.rng.below(3));
        let i = ctx.rng.below(self.layers.len());
        ctx.t(format!("database {name} to #{i}"));
        ctx.stats.add("label_updates", 1);
        let l = self.load(ctx, i)?;
        let rt = ctx.rt.clone();
        if ctx.rng.chance(1, 4) {
            rt.block_on(self.bk.store.delete(&name)).op("delete")?;
            return Ok(());
        }
        let g = match rt.block_on(self.bk.store.open(&name)).op("open")? {
            Some(g) => g,
            None => rt.block_on(self.bk.store.create(&name)).op("create")?,
        };
        if ctx.rng.chance(1, 2) {
            rt.block_on(g.force_set_head(&l)).op("force_set_head")?;
        } else {
            rt.block_on(g.set_head(&l)).op("set_head")?;
        }
        Ok(())
    }

    /// What the storage interface says about the dictionaries of one layer.
    pub fn check_storage_counts(&mut self, ctx: &mut Ctx, i: usize) -> R<()> {
        let ln = format!("{}#{i}({})", self.tag, self.layers[i].origin);
        let v = self.view_of(ctx, i)?;
        let (pn, pp) = match self.layers[i].parent {
            Some(p) => {
                let pv = self.view_of(ctx, p)?;
                (pv.objs.len(), pv.preds.len())
            }
            None => (0, 0),
        };
        let new = &v.objs[pn..];
        let nodes: BTreeSet<String> = new.iter().filter_map(|o| if let ObjectType::Node(n) = o { Some(n.clone()) } else { None }).collect();
        let values = new.len() - nodes.len();
        let preds: BTreeSet<String> = v.preds[pp..].iter().cloned().collect();
        let name = self.layers[i].name;
        for (w, ls) in [("storage", self.bk.direct.clone()), ("cached storage", self.bk.inner.clone())] {
            let rt = &ctx.rt;
            let c = rt.block_on(ls.get_node_count(name)).op("get_node_count")?;
            ensure!(c == Some(nodes.len() as u64), "{ln}: get_node_count ({w}) is {c:?}, expected {}", nodes.len());
            let c = rt.block_on(ls.get_predicate_count(name)).op("get_predicate_count")?;
            ensure!(c == Some(preds.len() as u64), "{ln}: get_predicate_count ({w}) is {c:?}, expected {}", preds.len());
            let c = rt.block_on(ls.get_value_count(name)).op("get_value_count")?;
            ensure!(c == Some(values as u64), "{ln}: get_value_count ({w}) is {c:?}, expected {values}");
            let d = rt.block_on(ls.get_node_dictionary(name)).op("get_node_dictionary")?;
            match d {
                None => viol!("{ln}: get_node_dictionary ({w}) gives nothing"),
                Some(d) => {
                    let got: BTreeSet<String> = (1..=d.num_entries() as usize).filter_map(|i| d.get(i)).collect();
                    ensure!(got == nodes, "{ln}: the node dictionary ({w}) has {} entries, expected {}", got.len(), nodes.len());
                }
            }
            match rt.block_on(ls.get_predicate_dictionary(name)).op("get_predicate_dictionary")? {
                None => viol!("{ln}: get_predicate_dictionary ({w}) gives nothing"),
                Some(d) => {
                    let got: BTreeSet<String> = (1..=d.num_entries() as usize).filter_map(|i| d.get(i)).collect();
                    ensure!(got == preds, "{ln}: the predicate dictionary ({w}) has {} entries, expected {}", got.len(), preds.len());
                }
            }
            match rt.block_on(ls.get_value_dictionary(name)).op("get_value_dictionary")? {
                None => viol!("{ln}: get_value_dictionary ({w}) gives nothing"),
                Some(d) => ensure!(d.num_entries() == values, "{ln}: the value dictionary ({w}) has {} entries, expected {values}", d.num_entries()),
            }
            // the id maps place the sorted entries where the layer has them
            let im = rt.block_on(ls.get_node_value_idmap(name)).op("get_node_value_idmap")?;
            let nd = rt.block_on(ls.get_node_dictionary(name)).op("get_node_dictionary")?;
            if let (Some(im), Some(nd)) = (im, nd) {
                for k in 0..nd.num_entries() as u64 {
                    let id = im.inner_to_outer(k) as usize;
                    let want = nd.get(k as usize + 1).map(ObjectType::Node);
                    ensure!(new.get(id) == want.as_ref(), "{ln}: the node id map ({w}) places {want:?} at {}", id + pn + 1);
                }
            }
            let im = rt.block_on(ls.get_predicate_idmap(name)).op("get_predicate_idmap")?;
            let pd = rt.block_on(ls.get_predicate_dictionary(name)).op("get_predicate_dictionary")?;
            if let (Some(im), Some(pd)) = (im, pd) {
                for k in 0..pd.num_entries() as u64 {
                    let id = im.inner_to_outer(k) as usize;
                    let want = pd.get(k as usize + 1);
                    ensure!(v.preds.get(pp + id) == want.as_ref(), "{ln}: the predicate id map ({w}) places {want:?} at {}", id + pp + 1);
                }
            }
        }
        ctx.stats.add("storage_counts_compared", 1);
        Ok(())
    }

    /// Changes over a range of history against the difference of its ends.
    pub fn check_range_changes(&mut self, ctx: &mut Ctx, i: usize) -> R<()> {
        use terminus_store::layer::IdTriple;
        let ln = format!("{}#{i}({})", self.tag, self.layers[i].origin);
        let v = self.view_of(ctx, i)?;
        let ls = if ctx.rng.chance(1, 2) { self.bk.direct.clone() } else { self.bk.inner.clone() };
        let anc = self.ancestors(i);
        let upto = if anc.is_empty() || ctx.rng.chance(1, 3) { None } else { Some(*ctx.rng.pick(&anc)) };
        let it = match upto {
            None => ctx.rt.block_on(ls.layer_changes(self.layers[i].name)).op("layer_changes")?,
            Some(u) => ctx.rt.block_on(ls.layer_changes_upto(self.layers[i].name, self.layers[u].name)).op("layer_changes_upto")?,
        };
        let empty = Arc::new(BTreeSet::new());
        let from = upto.map(|u| self.layers[u].triples.clone()).unwrap_or(empty);
        let to = self.layers[i].triples.clone();
        let plus: BTreeSet<VT> = to.difference(&from).cloned().collect();
        let minus: BTreeSet<VT> = from.difference(&to).cloned().collect();
        let ep = ids_of(&v, &plus, &ln, "the triple")?;
        let em = ids_of(&v, &minus, &ln, "the removed triple")?;
        let (mut gp, mut gm): (BTreeSet<IdTriple>, BTreeSet<IdTriple>) = Default::default();
        let limit = (to.len() + from.len()) * 2 + 64;
        for (n, (c, t)) in it.enumerate() {
            ensure!(n < limit, "{ln}: the changes of a range do not end");
            // TripleChange is not exported
            let new = if format!("{c:?}") == "Addition" { gp.insert(t) } else { gm.insert(t) };
            ensure!(new, "{ln}: the changes of a range list {t:?} twice");
        }
        let w = match upto {
            Some(u) => format!("{ln}: changes since #{u}"),
            None => format!("{ln}: changes since the beginning"),
        };
        diff_sets(&gp, &ep, &v, &format!("{w}, additions"))?;
        diff_sets(&gm, &em, &v, &format!("{w}, removals"))?;
        ctx.stats.add("range_changes_compared", 1);
        Ok(())
    }

    /// Layers that do not exist.
    pub fn check_unknown_layers(&mut self, ctx: &mut Ctx) -> R<()> {
        let r = &mut ctx.rng;
        let mut n: Name = [r.next() as u32, r.next() as u32, r.next() as u32, r.next() as u32, r.next() as u32];
        if r.chance(1, 2) {
            // only slightly different from an existing one
            n = self.layers[r.below(self.layers.len())].name;
            n[r.below(5)] ^= 1 << r.below(32);
        }
        if self.by_name(n).is_some() {
            return Ok(());
        }
        let i = r.below(self.layers.len());
        let rt = ctx.rt.clone();
        let g = rt.block_on(self.bk.store.get_layer_from_id(n)).op("get_layer_from_id of an unknown layer")?;
        ensure!(g.is_none(), "get_layer_from_id finds layer {}, which was never created", short(n));
        let name = self.layers[i].name;
        for ls in [self.bk.direct.clone(), self.bk.inner.clone()] {
            if let Ok(p) = rt.block_on(ls.get_layer_parent_name(n)) {
                ensure!(p.is_none(), "the parent of an unknown layer is {p:?}");
            }
            if let Ok(a) = rt.block_on(ls.layer_is_ancestor_of(name, n)) {
                ensure!(!a, "an unknown layer is reported as an ancestor of #{i}");
            }
            if let Ok(a) = rt.block_on(ls.layer_is_ancestor_of(n, name)) {
                ensure!(!a, "#{i} is reported as an ancestor of an unknown layer");
            }
            if let Ok(s) = rt.block_on(ls.retrieve_layer_stack_names(n)) {
                ensure!(s == vec![n] || s.is_empty(), "an unknown layer has the history {s:?}");
            }
            let s = rt.block_on(ls.retrieve_layer_stack_names_upto(name, n));
            ensure!(s.is_err(), "the stack of #{i} above an unknown layer is {s:?}");
            let s = rt.block_on(ls.retrieve_layer_stack_names_upto(n, name));
            ensure!(s.is_err(), "the stack of an unknown layer above #{i} is {s:?}");
            if let Ok(c) = rt.block_on(ls.get_node_count(n)) {
                ensure!(c.is_none(), "an unknown layer has {c:?} nodes");
            }
        }
        ctx.stats.add("unknown_layers_asked", 1);
        Ok(())
    }

    /// The list of layers is what was written, plus the rollups' own.
    pub fn check_listing(&mut self, ctx: &mut Ctx) -> R<()> {
        for (w, ls) in [("direct", self.bk.direct.clone()), ("cached", self.bk.inner.clone())] {
            let l = ctx.rt.block_on(ls.layers()).op("layers()")?;
            let set: BTreeSet<Name> = l.iter().cloned().collect();
            ensure!(set.len() == l.len(), "layers() ({w}) lists a layer twice");
            for (i, m) in self.layers.iter().enumerate() {
                ensure!(set.contains(&m.name), "layers() ({w}) does not list #{i} ({})", m.origin);
            }
            let extra = set.len() - self.layers.len();
            ensure!(extra <= self.rollups_done + self.abandoned, "layers() ({w}) lists {extra} layers too many");
        }
        ctx.stats.add("listings", 1);
        Ok(())
    }
}
