//! The oracle for one layer: compares everything a layer reports with the
//! contents it is supposed to have.
use crate::gen::{show, VT};
use crate::util::*;
use crate::{ensure, viol};
use std::collections::{BTreeSet, HashMap};
use std::io;
use std::sync::Arc;
use tdb_succinct::{Datatype, TdbDataType, TypedDictEntry};
use terminus_store::layer::{IdTriple, Layer, ObjectType, PossiblyResolved};
use terminus_store::storage::LayerStore;
use terminus_store::store::sync::SyncStoreLayer;
use terminus_store::store::StoreLayer;

pub type IT = IdTriple;
pub type Iter = Box<dyn Iterator<Item = IdTriple> + Send>;

/// The complete dictionary of a layer as it was first observed.
pub struct IdView {
    pub objs: Vec<ObjectType>,
    pub preds: Vec<String>,
    pub omap: HashMap<ObjectType, u64>,
    pub pmap: HashMap<String, u64>,
}

impl IdView {
    pub fn to_id(&self, t: &VT) -> Option<IT> {
        let s = *self.omap.get(&ObjectType::Node(t.subject.clone()))?;
        let p = *self.pmap.get(&t.predicate)?;
        let o = *self.omap.get(&t.object)?;
        Some(IdTriple::new(s, p, o))
    }
    pub fn to_val(&self, t: &IT) -> Option<VT> {
        let s = match self.objs.get((t.subject as usize).checked_sub(1)?)? {
            ObjectType::Node(n) => n.clone(),
            _ => return None,
        };
        Some(VT {
            subject: s,
            predicate: self.preds.get((t.predicate as usize).checked_sub(1)?)?.clone(),
            object: self.objs.get((t.object as usize).checked_sub(1)?)?.clone(),
        })
    }
    pub fn digest(&self) -> u64 {
        let mut h = 17u64;
        for o in &self.objs {
            let b = match o {
                ObjectType::Node(n) => format!("node {n}").into_bytes(),
                ObjectType::Value(v) => [format!("value {:?} ", v.datatype()).as_bytes(), &v.to_bytes()].concat(),
            };
            h = h.wrapping_mul(31).wrapping_add(hash64(&b));
        }
        for o in &self.preds {
            h = h.wrapping_mul(37).wrapping_add(hash64(o.as_bytes()));
        }
        h
    }
}

fn obj_short(o: &ObjectType) -> String {
    match o {
        ObjectType::Node(n) => format!("node {:?}", n.chars().take(30).collect::<String>()),
        ObjectType::Value(v) => format!("value {:?} {}", v.datatype(), hex::encode(&v.to_bytes()[..v.to_bytes().len().min(20)])),
    }
}

/// Reads the whole dictionary of a layer and checks that it is one to one.
pub fn snapshot(layer: &dyn Layer) -> R<IdView> {
    let ln = short(layer.name());
    let n = layer.node_and_value_count();
    let np = layer.predicate_count();
    ensure!(n < 50_000_000 && np < 50_000_000, "layer {ln}: absurd counts {n} {np}");
    let mut objs = Vec::with_capacity(n);
    let mut omap = HashMap::with_capacity(n);
    let (mut nodes, mut values) = (0, 0);
    for id in 1..=n as u64 {
        let o = match layer.id_object(id) {
            Some(o) => o,
            None => viol!("layer {ln}: id {id} of {n} known objects resolves to nothing"),
        };
        let sub = layer.id_subject(id);
        let isnode = layer.id_object_is_node(id);
        let isval = layer.id_object_is_value(id);
        match &o {
            ObjectType::Node(s) => {
                nodes += 1;
                ensure!(sub.as_ref() == Some(s), "layer {ln}: id {id} is node {s:?} as object but {sub:?} as subject");
                ensure!(isnode == Some(true) && isval == Some(false), "layer {ln}: id {id} is a node, is_node={isnode:?} is_value={isval:?}");
                ensure!(layer.id_object_node(id).as_ref() == Some(s), "layer {ln}: id_object_node({id}) differs");
                let back = layer.subject_id(s);
                ensure!(back == Some(id), "layer {ln}: id {id} is node {s:?}, but subject_id gives {back:?}");
                let back = layer.object_node_id(s);
                ensure!(back == Some(id), "layer {ln}: id {id} is node {s:?}, but object_node_id gives {back:?}");
            }
            ObjectType::Value(v) => {
                values += 1;
                ensure!(sub.is_none(), "layer {ln}: id {id} is a value but id_subject gives {sub:?}");
                ensure!(isnode == Some(false) && isval == Some(true), "layer {ln}: id {id} is a value, is_node={isnode:?} is_value={isval:?}");
                ensure!(layer.id_object_value(id).as_ref() == Some(v), "layer {ln}: id_object_value({id}) differs");
                let back = layer.object_value_id(v);
                ensure!(back == Some(id), "layer {ln}: id {id} is {}, but object_value_id gives {back:?}", obj_short(&o));
            }
        }
        if let Some(prev) = omap.insert(o.clone(), id) {
            viol!("layer {ln}: {} has two ids, {prev} and {id}", obj_short(&o));
        }
        objs.push(o);
    }
    let mut preds = Vec::with_capacity(np);
    let mut pmap = HashMap::with_capacity(np);
    for id in 1..=np as u64 {
        let p = match layer.id_predicate(id) {
            Some(p) => p,
            None => viol!("layer {ln}: predicate id {id} of {np} resolves to nothing"),
        };
        let back = layer.predicate_id(&p);
        ensure!(back == Some(id), "layer {ln}: predicate id {id} is {p:?}, but predicate_id gives {back:?}");
        if let Some(prev) = pmap.insert(p.clone(), id) {
            viol!("layer {ln}: predicate {p:?} has two ids, {prev} and {id}");
        }
        preds.push(p);
    }
    for id in [0, n as u64 + 1, n as u64 + 2, n as u64 + 1000] {
        ensure!(layer.id_object(id).is_none(), "layer {ln} knows {n} objects, but id_object({id}) gives {:?}", layer.id_object(id).map(|o| obj_short(&o)));
        ensure!(layer.id_subject(id).is_none(), "layer {ln} knows {n} objects, but id_subject({id}) gives something");
        ensure!(layer.id_object_is_node(id).is_none(), "layer {ln} knows {n} objects, but id_object_is_node({id}) gives something");
    }
    for id in [0, np as u64 + 1, np as u64 + 2, np as u64 + 1000] {
        ensure!(layer.id_predicate(id).is_none(), "layer {ln} knows {np} predicates, but id_predicate({id}) gives something");
    }
    let c = layer.all_counts();
    ensure!(
        c.node_count == nodes && c.value_count == values && c.predicate_count == np,
        "layer {ln}: all_counts says {}/{}/{}, but {nodes} nodes, {values} values, {np} predicates resolve",
        c.node_count,
        c.value_count,
        c.predicate_count
    );
    Ok(IdView { objs, preds, omap, pmap })
}

/// Every id of `old` keeps its meaning in `new`.
pub fn ids_extend(old: &IdView, new: &IdView, what: &str) -> R<()> {
    ensure!(new.objs.len() >= old.objs.len() && new.preds.len() >= old.preds.len(), "{what}: a descendant knows fewer ids");
    for (i, o) in old.objs.iter().enumerate() {
        ensure!(&new.objs[i] == o, "{what}: id {} changed its meaning from {} to {}", i + 1, obj_short(o), obj_short(&new.objs[i]));
    }
    for (i, o) in old.preds.iter().enumerate() {
        ensure!(&new.preds[i] == o, "{what}: predicate id {} changed its meaning from {o:?} to {:?}", i + 1, new.preds[i]);
    }
    Ok(())
}

pub fn ids_equal(old: &IdView, new: &IdView, what: &str) -> R<()> {
    ensure!(
        new.objs.len() == old.objs.len() && new.preds.len() == old.preds.len(),
        "{what}: known ids changed from {}/{} to {}/{}",
        old.objs.len(),
        old.preds.len(),
        new.objs.len(),
        new.preds.len()
    );
    ids_extend(old, new, what)
}

fn collect(it: Iter, limit: usize, what: &str) -> R<BTreeSet<IT>> {
    let mut out = BTreeSet::new();
    let mut n = 0usize;
    for t in it {
        n += 1;
        if n > limit {
            viol!("{what}: yields more than {limit} triples");
        }
        if !out.insert(t) {
            viol!("{what}: yields ({} {} {}) twice", t.subject, t.predicate, t.object);
        }
    }
    Ok(out)
}

pub fn diff_sets(got: &BTreeSet<IT>, exp: &BTreeSet<IT>, view: &IdView, what: &str) -> R<()> {
    if got == exp {
        return Ok(());
    }
    let miss: Vec<_> = exp.difference(got).collect();
    let extra: Vec<_> = got.difference(exp).collect();
    let f = |v: &[&IT]| {
        v.iter()
            .take(3)
            .map(|t| format!("{:?}={}", (t.subject, t.predicate, t.object), view.to_val(t).map(|t| show(&t)).unwrap_or("?".into())))
            .collect::<Vec<_>>()
            .join(", ")
    };
    viol!("{what}: expected {} triples, got {}; missing {} [{}]; unexpected {} [{}]", exp.len(), got.len(), miss.len(), f(&miss), extra.len(), f(&extra))
}

fn sub<'a, F: Fn(&IT) -> bool>(exp: &BTreeSet<IT>, f: F) -> BTreeSet<IT> {
    exp.iter().filter(|t| f(t)).cloned().collect()
}
fn sub_s(exp: &BTreeSet<IT>, s: u64) -> BTreeSet<IT> {
    exp.range(IT::new(s, 0, 0)..=IT::new(s, u64::MAX, u64::MAX)).cloned().collect()
}
fn sub_sp(exp: &BTreeSet<IT>, s: u64, p: u64) -> BTreeSet<IT> {
    exp.range(IT::new(s, p, 0)..=IT::new(s, p, u64::MAX)).cloned().collect()
}

/// ids worth asking about: known ones (all or a sample) plus unknown ones
fn probes(rng: &mut Rng, n: usize, cap: usize) -> Vec<u64> {
    let mut v: Vec<u64> = if n <= cap {
        (1..=n as u64).collect()
    } else {
        let mut v: Vec<u64> = (0..cap).map(|_| 1 + rng.below(n) as u64).collect();
        v.push(1);
        v.push(n as u64);
        v
    };
    v.push(0);
    v.push(n as u64 + 1);
    v.push(n as u64 + 2 + rng.below(300) as u64);
    v
}

pub fn ids_of(view: &IdView, triples: &BTreeSet<VT>, ln: &str, what: &str) -> R<BTreeSet<IT>> {
    let mut out = BTreeSet::new();
    for t in triples {
        match view.to_id(t) {
            Some(i) => {
                out.insert(i);
            }
            None => viol!("layer {ln}: {what} {} has a part the layer does not know", show(t)),
        }
    }
    Ok(out)
}

/// Compares every way of querying the contents of `layer` with `triples`.
pub fn check_contents(layer: &dyn Layer, view: &IdView, triples: &BTreeSet<VT>, rng: &mut Rng, cap: usize, stats: &mut Stats) -> R<()> {
    let ln = short(layer.name());
    let exp = ids_of(view, triples, &ln, "the triple")?;
    let limit = exp.len() * 2 + 64;
    let all = collect(layer.triples(), limit, &format!("layer {ln} triples()"))?;
    diff_sets(&all, &exp, view, &format!("layer {ln} triples()"))?;
    let tc = layer.triple_count();
    ensure!(tc == exp.len(), "layer {ln}: triple_count is {tc}, but it has {} triples", exp.len());
    let n = view.objs.len();
    let np = view.preds.len();
    let mut q = 3u64;
    let ss = probes(rng, n, cap);
    let ps = probes(rng, np, cap);
    for &s in &ss {
        let w = format!("layer {ln} triples_s({s})");
        diff_sets(&collect(layer.triples_s(s), limit, &w)?, &sub_s(&exp, s), view, &w)?;
        q += 1;
    }
    for &o in &ss {
        let w = format!("layer {ln} triples_o({o})");
        diff_sets(&collect(layer.triples_o(o), limit, &w)?, &sub(&exp, |t| t.object == o), view, &w)?;
        q += 1;
    }
    for &p in &ps {
        let w = format!("layer {ln} triples_p({p})");
        diff_sets(&collect(layer.triples_p(p), limit, &w)?, &sub(&exp, |t| t.predicate == p), view, &w)?;
        q += 1;
    }
    // subject and predicate: the pairs that exist (or a sample) and random pairs
    let mut pairs: Vec<(u64, u64)> = exp.iter().map(|t| (t.subject, t.predicate)).collect();
    pairs.dedup();
    if pairs.len() > cap * 2 {
        rng.shuffle(&mut pairs);
        pairs.truncate(cap * 2);
    }
    for _ in 0..cap.min(n * np + 4) {
        pairs.push((*rng.pick(&ss), *rng.pick(&ps)));
    }
    for &(s, p) in &pairs {
        let w = format!("layer {ln} triples_sp({s},{p})");
        let e = sub_sp(&exp, s, p);
        diff_sets(&collect(layer.triples_sp(s, p), limit, &w)?, &e, view, &w)?;
        match layer.single_triple_sp(s, p) {
            None => ensure!(e.is_empty(), "layer {ln} single_triple_sp({s},{p}) gives nothing, but {} triples match", e.len()),
            Some(t) => ensure!(e.contains(&t), "layer {ln} single_triple_sp({s},{p}) gives {t:?}, which is not in the layer"),
        }
        q += 2;
    }
    let mut members: Vec<IT> = exp.iter().cloned().collect();
    if members.len() > cap * 4 {
        rng.shuffle(&mut members);
        members.truncate(cap * 4);
    }
    for t in &members {
        ensure!(layer.triple_exists(t.subject, t.predicate, t.object), "layer {ln}: triple_exists denies {t:?}");
        ensure!(layer.id_triple_exists(*t), "layer {ln}: id_triple_exists denies {t:?}");
        let vt = match view.to_val(t) {
            Some(v) => v,
            None => viol!("layer {ln}: triple {t:?} has ids without meaning"),
        };
        ensure!(layer.value_triple_exists(&vt), "layer {ln}: value_triple_exists denies {}", show(&vt));
        ensure!(layer.id_triple_to_string(t).as_ref() == Some(&vt), "layer {ln}: id_triple_to_string({t:?}) is wrong");
        ensure!(layer.value_triple_to_id(&vt) == Some(*t), "layer {ln}: value_triple_to_id is wrong for {}", show(&vt));
        q += 4;
        // near misses
        let mut m = *t;
        match rng.below(3) {
            0 => m.subject = *rng.pick(&ss),
            1 => m.predicate = *rng.pick(&ps),
            _ => m.object = *rng.pick(&ss),
        }
        let e = exp.contains(&m);
        let g = layer.triple_exists(m.subject, m.predicate, m.object);
        ensure!(g == e, "layer {ln}: triple_exists({m:?}) says {g}, expected {e}");
        q += 1;
    }
    for _ in 0..cap {
        let m = IT::new(*rng.pick(&ss), *rng.pick(&ps), *rng.pick(&ss));
        let e = exp.contains(&m);
        let g = layer.triple_exists(m.subject, m.predicate, m.object);
        ensure!(g == e, "layer {ln}: triple_exists({m:?}) says {g}, expected {e}");
        q += 1;
    }
    for _ in 0..cap.min(12) {
        check_resolving(layer, view, &exp, rng)?;
        q += 3;
    }
    let copy = layer.clone_boxed();
    ensure!(copy.name() == layer.name() && copy.parent_name() == layer.parent_name(), "layer {ln}: a copy has another name or parent");
    let (s, o) = (*rng.pick(&ss), *rng.pick(&ss));
    let w = format!("a copy of layer {ln}");
    diff_sets(&collect(copy.triples_s(s), limit, &w)?, &sub_s(&exp, s), view, &w)?;
    diff_sets(&collect(copy.triples_o(o), limit, &w)?, &sub(&exp, |t| t.object == o), view, &w)?;
    // the iterators do not depend on the layer staying around
    let it = copy.triples();
    drop(copy);
    diff_sets(&collect(it, limit, &w)?, &exp, view, &w)?;
    stats.add("content_queries_compared", q);
    stats.max("largest_layer_triples", exp.len() as u64);
    Ok(())
}

/// A triple of known and unknown names is resolved as far as the names are known.
fn check_resolving(layer: &dyn Layer, view: &IdView, exp: &BTreeSet<IT>, rng: &mut Rng) -> R<()> {
    if view.objs.is_empty() || view.preds.is_empty() {
        return Ok(());
    }
    let ln = short(layer.name());
    let name = |rng: &mut Rng| match &view.objs[rng.below(view.objs.len())] {
        ObjectType::Node(n) => n.clone(),
        ObjectType::Value(_) => "?".to_string(),
    };
    let mut vt = VT { subject: name(rng), predicate: rng.pick(&view.preds).clone(), object: rng.pick(&view.objs).clone() };
    if !exp.is_empty() && rng.chance(1, 2) {
        let k = IT::new(rng.below(view.objs.len() + 1) as u64, 0, 0);
        let t = exp.range(k..).next().unwrap_or_else(|| exp.iter().next().unwrap());
        vt = view.to_val(t).unwrap();
    }
    if rng.chance(1, 4) {
        vt.subject = if rng.chance(1, 2) { format!("{}!", vt.subject) } else { vt.predicate.clone() };
    }
    if rng.chance(1, 4) {
        vt.predicate = if rng.chance(1, 2) { format!("{}!", vt.predicate) } else { vt.subject.clone() };
    }
    if rng.chance(1, 4) {
        // the text of a node as a value, and the other way round
        vt.object = match vt.object {
            ObjectType::Node(n) => ObjectType::Value(String::make_entry(&n)),
            ObjectType::Value(v) => ObjectType::Node(match v.datatype() {
                Datatype::String => v.as_val::<String, String>(),
                _ => format!("{}!", vt.subject),
            }),
        };
    }
    let s = view.omap.get(&ObjectType::Node(vt.subject.clone())).copied();
    let p = view.pmap.get(&vt.predicate).copied();
    let o = view.omap.get(&vt.object).copied();
    let g = layer.value_triple_to_partially_resolved(vt.clone());
    fn want<T: Clone + PartialEq + Eq + PartialOrd + Ord + std::hash::Hash>(id: Option<u64>, v: T) -> PossiblyResolved<T> {
        id.map(PossiblyResolved::Resolved).unwrap_or(PossiblyResolved::Unresolved(v))
    }
    ensure!(
        g.subject == want(s, vt.subject.clone()) && g.predicate == want(p, vt.predicate.clone()) && g.object == want(o, vt.object.clone()),
        "layer {ln}: {} is resolved to {:?} {:?} {:?}, its parts are known as {s:?} {p:?} {o:?}",
        show(&vt),
        g.subject.is_resolved(),
        g.predicate.is_resolved(),
        g.object.is_resolved()
    );
    let id = view.to_id(&vt);
    ensure!(g.as_resolved() == id, "layer {ln}: {} is resolved to {:?}, expected {id:?}", show(&vt), g.as_resolved());
    ensure!(layer.value_triple_to_id(&vt) == id, "layer {ln}: value_triple_to_id of {} is {:?}, expected {id:?}", show(&vt), layer.value_triple_to_id(&vt));
    let e = id.map(|i| exp.contains(&i)).unwrap_or(false);
    ensure!(layer.value_triple_exists(&vt) == e, "layer {ln}: value_triple_exists says {} of {}", !e, show(&vt));
    Ok(())
}

/// Names the layer must not know.
pub fn check_unknown(layer: &dyn Layer, strings: &[String], values: &[TypedDictEntry]) -> R<()> {
    let ln = short(layer.name());
    for s in strings {
        ensure!(layer.subject_id(s).is_none(), "layer {ln}: subject_id knows {s:?}, which never occurred");
        ensure!(layer.object_node_id(s).is_none(), "layer {ln}: object_node_id knows {s:?}, which never occurred");
        ensure!(layer.predicate_id(s).is_none(), "layer {ln}: predicate_id knows {s:?}, which never occurred");
        ensure!(!layer.value_triple_exists(&VT::new_node(s, s, s)), "layer {ln}: unknown triple of {s:?} exists");
    }
    for v in values {
        ensure!(layer.object_value_id(v).is_none(), "layer {ln}: object_value_id knows {v:?}, which never occurred");
    }
    Ok(())
}

pub enum D<'a> {
    Async(&'a tokio::runtime::Runtime, &'a StoreLayer),
    Sync(&'a SyncStoreLayer),
    Store(&'a tokio::runtime::Runtime, Arc<dyn LayerStore>, [u32; 5]),
}

macro_rules! disp {
    ($self:ident, $f:ident ( $($a:ident),* ), $g:ident, $conv:expr) => {
        match $self {
            D::Async(rt, l) => rt.block_on(l.$f($($a),*)),
            D::Sync(l) => l.$f($($a),*),
            D::Store(rt, ls, n) => rt.block_on(ls.$g(*n, $($a),*)).map($conv),
        }
    };
}

impl<'a> D<'a> {
    fn label(&self) -> &'static str {
        match self {
            D::Async(..) => "async",
            D::Sync(..) => "blocking",
            D::Store(..) => "storage",
        }
    }
    pub fn all(&self, neg: bool) -> io::Result<Iter> {
        if neg {
            disp!(self, triple_removals(), triple_removals, |i| Box::new(i) as Iter)
        } else {
            disp!(self, triple_additions(), triple_additions, |i| Box::new(i) as Iter)
        }
    }
    fn s(&self, neg: bool, s: u64) -> io::Result<Iter> {
        if neg {
            disp!(self, triple_removals_s(s), triple_removals_s, |i| i)
        } else {
            disp!(self, triple_additions_s(s), triple_additions_s, |i| i)
        }
    }
    fn sp(&self, neg: bool, s: u64, p: u64) -> io::Result<Iter> {
        if neg {
            disp!(self, triple_removals_sp(s, p), triple_removals_sp, |i| i)
        } else {
            disp!(self, triple_additions_sp(s, p), triple_additions_sp, |i| i)
        }
    }
    fn p(&self, neg: bool, p: u64) -> io::Result<Iter> {
        if neg {
            disp!(self, triple_removals_p(p), triple_removals_p, |i| i)
        } else {
            disp!(self, triple_additions_p(p), triple_additions_p, |i| i)
        }
    }
    fn o(&self, neg: bool, o: u64) -> io::Result<Iter> {
        if neg {
            disp!(self, triple_removals_o(o), triple_removals_o, |i| i)
        } else {
            disp!(self, triple_additions_o(o), triple_additions_o, |i| i)
        }
    }
    fn exists(&self, neg: bool, s: u64, p: u64, o: u64) -> io::Result<bool> {
        if neg {
            disp!(self, triple_removal_exists(s, p, o), triple_removal_exists, |i| i)
        } else {
            disp!(self, triple_addition_exists(s, p, o), triple_addition_exists, |i| i)
        }
    }
    fn count(&self, neg: bool) -> io::Result<usize> {
        if neg {
            disp!(self, triple_layer_removal_count(), triple_layer_removal_count, |i| i)
        } else {
            disp!(self, triple_layer_addition_count(), triple_layer_addition_count, |i| i)
        }
    }
}

/// Compares every way of querying the recorded changes of a layer.
#[allow(clippy::too_many_arguments)]
pub fn check_delta(d: &D, ln: &str, view: &IdView, adds: &BTreeSet<VT>, removes: &BTreeSet<VT>, rng: &mut Rng, cap: usize, stats: &mut Stats) -> R<()> {
    let n = view.objs.len();
    let np = view.preds.len();
    let mut q = 0;
    let ea = ids_of(view, adds, ln, "the added triple")?;
    let er = ids_of(view, removes, ln, "the removed triple")?;
    for (neg, exp, other) in [(false, &ea, &er), (true, &er, &ea)] {
        let w0 = format!("layer {ln} ({}) {}", d.label(), if neg { "removals" } else { "additions" });
        let limit = exp.len() * 2 + 64;
        let all = collect(d.all(neg).op(&w0)?, limit, &w0)?;
        diff_sets(&all, exp, view, &w0)?;
        let c = d.count(neg).op(&w0)?;
        ensure!(c == exp.len(), "{w0}: count says {c}, but there are {}", exp.len());
        let mut ss = probes(rng, n, cap);
        for t in exp.iter().take(cap / 2) {
            ss.push(t.subject);
            ss.push(t.object);
        }
        let ps = probes(rng, np, cap);
        for &s in &ss {
            let w = format!("{w0} of subject {s}");
            diff_sets(&collect(d.s(neg, s).op(&w)?, limit, &w)?, &sub_s(exp, s), view, &w)?;
            let w = format!("{w0} of object {s}");
            diff_sets(&collect(d.o(neg, s).op(&w)?, limit, &w)?, &sub(exp, |t| t.object == s), view, &w)?;
        }
        for &p in &ps {
            let w = format!("{w0} of predicate {p}");
            diff_sets(&collect(d.p(neg, p).op(&w)?, limit, &w)?, &sub(exp, |t| t.predicate == p), view, &w)?;
        }
        let mut pairs: Vec<(u64, u64)> = exp.iter().map(|t| (t.subject, t.predicate)).collect();
        pairs.dedup();
        pairs.truncate(cap);
        for _ in 0..cap / 2 + 2 {
            pairs.push((*rng.pick(&ss), *rng.pick(&ps)));
        }
        for &(s, p) in &pairs {
            let w = format!("{w0} of subject {s} predicate {p}");
            diff_sets(&collect(d.sp(neg, s, p).op(&w)?, limit, &w)?, &sub_sp(exp, s, p), view, &w)?;
        }
        let mut probe: Vec<IT> = exp.iter().take(cap).cloned().collect();
        probe.extend(other.iter().take(cap).cloned());
        for _ in 0..cap / 2 + 2 {
            probe.push(IT::new(*rng.pick(&ss), *rng.pick(&ps), *rng.pick(&ss)));
        }
        for t in probe {
            let g = d.exists(neg, t.subject, t.predicate, t.object).op(&w0)?;
            let e = exp.contains(&t);
            ensure!(g == e, "{w0}: existence of {t:?} says {g}, expected {e}");
            q += 1;
        }
        q += 2 + 2 * ss.len() as u64 + ps.len() as u64 + pairs.len() as u64;
    }
    stats.add("delta_queries_compared", q);
    Ok(())
}
