//! C21: layers written through the public file builders, and the ordered
//! iterators and streams over their files.
use super::*;
use crate::check::*;
use crate::gen::*;
use crate::world::Name;
use crate::{ensure, viol};
use bytes::Bytes;
use futures::{Stream, StreamExt};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use tdb_succinct::storage::{FileLoad, FileStore};
use tdb_succinct::TypedDictEntry;
use terminus_store::layer::base_merge::merge_base_layers;
use terminus_store::layer::*;
use terminus_store::storage::archive::{ArchiveLayerStore, DirectoryArchiveBackend, LruArchiveBackend};
use terminus_store::storage::directory::DirectoryLayerStore;
use terminus_store::storage::memory::MemoryLayerStore;
use terminus_store::storage::{BaseLayerFiles, ChildLayerFiles, LayerStore, PersistentLayerStore};

type Rt = Arc<tokio::runtime::Runtime>;

struct L {
    name: Name,
    parent: Option<usize>,
    view: Arc<IdView>,
    own: (usize, usize, usize),
    triples: BTreeSet<IT>,
    adds: BTreeSet<IT>,
    removes: BTreeSet<IT>,
}

/// What goes into one layer, in the order the builders ask for.
struct Content {
    nodes: Vec<String>,
    preds: Vec<String>,
    values: Vec<TypedDictEntry>,
}

fn subset<T: Clone + Ord>(rng: &mut Rng, v: &[T], none: usize) -> Vec<T> {
    if rng.chance(none, 12) {
        return vec![];
    }
    let d = rng.range(1, 6);
    let mut o: Vec<T> = v.iter().filter(|_| d == 1 || !rng.chance(1, d)).cloned().collect();
    o.sort();
    o.dedup();
    o
}

fn extend(view: &IdView, c: &Content) -> (IdView, (usize, usize, usize)) {
    let (mut objs, mut preds) = (view.objs.clone(), view.preds.clone());
    let mut own = (0, 0, 0);
    for n in &c.nodes {
        let o = ObjectType::Node(n.clone());
        if !view.omap.contains_key(&o) {
            objs.push(o);
            own.0 += 1;
        }
    }
    for v in &c.values {
        let o = ObjectType::Value(v.clone());
        if !view.omap.contains_key(&o) {
            objs.push(o);
            own.2 += 1;
        }
    }
    for p in &c.preds {
        if !view.pmap.contains_key(p) {
            preds.push(p.clone());
            own.1 += 1;
        }
    }
    let omap = objs.iter().enumerate().map(|(i, o)| (o.clone(), i as u64 + 1)).collect();
    let pmap = preds.iter().enumerate().map(|(i, o)| (o.clone(), i as u64 + 1)).collect();
    (IdView { objs, preds, omap, pmap }, own)
}

fn nothing() -> IdView {
    IdView { objs: vec![], preds: vec![], omap: Default::default(), pmap: Default::default() }
}

/// Splits a sequence into runs, to be handed over one by one or in bulk.
fn runs<T: Clone>(rng: &mut Rng, v: &[T]) -> Vec<Vec<T>> {
    let mut out = vec![];
    let mut i = 0;
    let k = *rng.pick(&[1, 3, 1000]);
    while i < v.len() {
        let n = rng.range(1, k).min(v.len() - i);
        out.push(v[i..i + n].to_vec());
        i += n;
    }
    if rng.chance(1, 3) {
        let at = rng.below(out.len() + 1);
        out.insert(at, vec![]);
    }
    out
}

fn gen_triples(rng: &mut Rng, view: &IdView, n: usize) -> BTreeSet<IT> {
    let nodes: Vec<u64> = view.objs.iter().enumerate().filter(|(_, o)| matches!(o, ObjectType::Node(_))).map(|(i, _)| i as u64 + 1).collect();
    let mut s = BTreeSet::new();
    if nodes.is_empty() || view.preds.is_empty() {
        return s;
    }
    let few = 1 + rng.below(nodes.len());
    for _ in 0..n {
        let k = if rng.chance(1, 2) { few } else { nodes.len() };
        s.insert(IT::new(nodes[rng.below(k)], 1 + rng.below(view.preds.len()) as u64, 1 + rng.below(view.objs.len()) as u64));
    }
    s
}

fn build_base<F: 'static + FileLoad + FileStore + Clone>(rt: &Rt, rng: &mut Rng, files: &BaseLayerFiles<F>, c: &Content, triples: &BTreeSet<IT>) -> R<()> {
    let mut b = rt.block_on(BaseLayerFileBuilder::from_files(files)).op("BaseLayerFileBuilder::from_files")?;
    // nodes, predicates and values can be given interleaved
    let mut todo: Vec<u8> = vec![];
    let (rn, rp, rv) = (runs(rng, &c.nodes), runs(rng, &c.preds), runs(rng, &c.values));
    todo.extend(rn.iter().map(|_| 0u8));
    todo.extend(rp.iter().map(|_| 1u8));
    todo.extend(rv.iter().map(|_| 2u8));
    if rng.chance(1, 2) {
        rng.shuffle(&mut todo);
    }
    let (mut rn, mut rp, mut rv) = (rn.into_iter(), rp.into_iter(), rv.into_iter());
    let (mut nid, mut pid) = (0u64, 0u64);
    for k in todo {
        let raw = rng.chance(1, 2);
        match k {
            0 => {
                let r = rn.next().unwrap();
                let n = r.len() as u64;
                let ids = match (r.len(), raw) {
                    (1, false) => vec![b.add_node(&r[0])],
                    (1, true) => vec![b.add_node_bytes(Bytes::copy_from_slice(r[0].as_bytes()))],
                    (_, false) => b.add_nodes(r),
                    (_, true) => b.add_nodes_bytes(r.into_iter().map(|s| Bytes::from(s.into_bytes())).collect::<Vec<_>>()),
                };
                ensure!(ids == (nid + 1..=nid + n).collect::<Vec<_>>(), "the nodes {}..{} got the ids {ids:?}", nid + 1, nid + n);
                nid += n;
            }
            1 => {
                let r = rp.next().unwrap();
                let n = r.len() as u64;
                let ids = match (r.len(), raw) {
                    (1, false) => vec![b.add_predicate(&r[0])],
                    (1, true) => vec![b.add_predicate_bytes(Bytes::copy_from_slice(r[0].as_bytes()))],
                    (_, false) => b.add_predicates(r),
                    (_, true) => b.add_predicates_bytes(r.into_iter().map(|s| Bytes::from(s.into_bytes())).collect::<Vec<_>>()),
                };
                ensure!(ids == (pid + 1..=pid + n).collect::<Vec<_>>(), "the predicates {}..{} got the ids {ids:?}", pid + 1, pid + n);
                pid += n;
            }
            _ => {
                let mut r = rv.next().unwrap();
                let n = r.len();
                let ids = if n == 1 { vec![b.add_value(r.pop().unwrap())] } else { b.add_values(r) };
                ensure!(ids.len() == n, "{n} values got {} ids", ids.len());
            }
        }
    }
    let ts: Vec<IT> = triples.iter().cloned().collect();
    let chunks = runs(rng, &ts);
    let one = rng.chance(1, 2);
    rt.block_on(async {
        let mut b = b.into_phase2().await?;
        for r in chunks {
            if one || r.len() == 1 {
                for t in r {
                    b.add_triple(t.subject, t.predicate, t.object).await?;
                }
            } else {
                b.add_id_triples(r).await?;
            }
        }
        b.finalize().await
    })
    .op("building a base layer")
}

fn build_child<F: 'static + FileLoad + FileStore + Clone>(rt: &Rt, rng: &mut Rng, files: &ChildLayerFiles<F>, parent: Arc<dyn Layer>, pview: &IdView, c: &Content, add: &BTreeSet<IT>, remove: &BTreeSet<IT>) -> R<()> {
    let mut b = rt.block_on(ChildLayerFileBuilder::from_files(parent, files)).op("ChildLayerFileBuilder::from_files")?;
    let known = |id: u64, exp: Option<&u64>, what: &str| match exp {
        Some(e) => {
            ensure!(id == *e, "{what} has the id {e} in the parent, but the builder of the child says {id}");
            Ok(())
        }
        None => Ok(()),
    };
    let mut order = [0, 1, 2];
    rng.shuffle(&mut order);
    for k in order {
        match k {
            0 => {
                for r in runs(rng, &c.nodes) {
                    let ids = if r.len() == 1 { vec![b.add_node(&r[0])] } else { b.add_nodes(r.clone()) };
                    ensure!(ids.len() == r.len(), "{} nodes got {} ids", r.len(), ids.len());
                    for (s, id) in r.iter().zip(ids) {
                        known(id, pview.omap.get(&ObjectType::Node(s.clone())), s)?;
                    }
                }
            }
            1 => {
                for r in runs(rng, &c.preds) {
                    let ids = if r.len() == 1 { vec![b.add_predicate(&r[0])] } else { b.add_predicates(r.clone()) };
                    ensure!(ids.len() == r.len(), "{} predicates got {} ids", r.len(), ids.len());
                    for (s, id) in r.iter().zip(ids) {
                        known(id, pview.pmap.get(s), s)?;
                    }
                }
            }
            _ => {
                for r in runs(rng, &c.values) {
                    let ids = if r.len() == 1 { vec![b.add_value(r[0].clone())] } else { b.add_values(r.clone()) };
                    ensure!(ids.len() == r.len(), "{} values got {} ids", r.len(), ids.len());
                    for (s, id) in r.iter().zip(ids) {
                        known(id, pview.omap.get(&ObjectType::Value(s.clone())), "a value")?;
                    }
                }
            }
        }
    }
    // additions and removals are each in order, but otherwise in any order
    let a = runs(rng, &add.iter().cloned().collect::<Vec<_>>());
    let r = runs(rng, &remove.iter().cloned().collect::<Vec<_>>());
    let mut todo: Vec<bool> = a.iter().map(|_| true).collect();
    todo.extend(r.iter().map(|_| false));
    match rng.below(3) {
        0 => todo.reverse(),
        1 => rng.shuffle(&mut todo),
        _ => {}
    }
    let (mut a, mut r) = (a.into_iter(), r.into_iter());
    let one = rng.chance(1, 2);
    rt.block_on(async {
        let mut b = b.into_phase2().await?;
        for add in todo {
            let run = if add { a.next().unwrap() } else { r.next().unwrap() };
            match (add, one || run.len() == 1) {
                (true, true) => {
                    for t in run {
                        b.add_triple(t.subject, t.predicate, t.object).await?
                    }
                }
                (false, true) => {
                    for t in run {
                        b.remove_triple(t.subject, t.predicate, t.object).await?
                    }
                }
                (true, false) => b.add_id_triples(run).await?,
                (false, false) => b.remove_id_triples(run).await?,
            }
        }
        b.finalize().await
    })
    .op("building a child layer")
}

type Order = fn(&IT) -> (u64, u64, u64);
fn by_subject(t: &IT) -> (u64, u64, u64) {
    (t.subject, t.predicate, t.object)
}
fn by_object(t: &IT) -> (u64, u64, u64) {
    (t.object, t.subject, t.predicate)
}

fn same<I: Iterator<Item = IT>>(got: I, exp: &[IT], what: &str, st: &mut Stats) -> R<()> {
    let got: Vec<IT> = got.take(exp.len() + 8).collect();
    if let Some(i) = (0..got.len().max(exp.len())).find(|i| got.get(*i) != exp.get(*i)) {
        viol!("{what}: entry {i} of {} is {:?}, expected {:?}", exp.len(), got.get(i), exp.get(i));
    }
    st.add("ordered_iterations_compared", 1);
    Ok(())
}

/// The parts iterators share.
trait It: Iterator<Item = IT> {
    fn pk(&mut self) -> Option<IT>;
    /// go to the first triple not before the position
    fn to(&mut self, _at: (u64, u64)) -> bool {
        false
    }
    fn dup(&self) -> Option<Box<dyn Iterator<Item = IT>>> {
        None
    }
}
impl It for OptInternalLayerTripleSubjectIterator {
    fn pk(&mut self) -> Option<IT> {
        self.peek().cloned()
    }
    fn to(&mut self, at: (u64, u64)) -> bool {
        if at.1 == 0 {
            self.seek_subject_ref(at.0);
        } else {
            self.seek_subject_predicate_ref(at.0, at.1);
        }
        true
    }
    fn dup(&self) -> Option<Box<dyn Iterator<Item = IT>>> {
        Some(Box::new(self.clone()))
    }
}
impl It for OptInternalLayerTripleObjectIterator {
    fn pk(&mut self) -> Option<IT> {
        self.peek().cloned()
    }
    fn to(&mut self, at: (u64, u64)) -> bool {
        self.seek_object_ref(at.0);
        at.1 == 0
    }
}
impl It for OptInternalLayerTriplePredicateIterator {
    fn pk(&mut self) -> Option<IT> {
        self.peek().cloned()
    }
    fn dup(&self) -> Option<Box<dyn Iterator<Item = IT>>> {
        Some(Box::new(self.clone()))
    }
}

/// Walks over an iterator, looking ahead and going elsewhere at times.
fn walk<I: It>(mut it: I, exp: &[IT], order: Order, max: (u64, u64), seek2: bool, rng: &mut Rng, what: &str, st: &mut Stats) -> R<()> {
    let mut at = 0;
    let mut seeks = rng.below(8);
    let mut steps = 0;
    loop {
        steps += 1;
        match rng.below(8) {
            0..=2 => {
                let p = it.pk();
                ensure!(p.as_ref() == exp.get(at), "{what}: at entry {at} of {} looking ahead shows {p:?}, expected {:?}", exp.len(), exp.get(at));
                st.add("entries_looked_at_ahead", 1);
            }
            3 if seeks > 0 && max.0 > 0 => {
                seeks -= 1;
                let near = exp.get(rng.below(exp.len() + 1)).map(order);
                let mut s = match near {
                    Some(k) if rng.chance(2, 3) => k,
                    _ => (rng.below(max.0 as usize + 3) as u64, rng.below(max.1 as usize + 3) as u64, 0),
                };
                if rng.chance(1, 3) {
                    s.0 += 1;
                }
                if rng.chance(1, 3) {
                    s.1 = rng.below(max.1 as usize + 3) as u64;
                }
                if !seek2 || rng.chance(1, 3) {
                    s.1 = 0;
                }
                if it.to((s.0, s.1)) {
                    if s.0 == 0 {
                        s.1 = 0;
                    }
                    at = exp.partition_point(|t| {
                        let k = order(t);
                        (k.0, k.1) < (s.0, s.1)
                    });
                    st.add("seeks", 1);
                    let p = it.pk();
                    ensure!(p.as_ref() == exp.get(at), "{what}: going to {:?} shows {p:?}, expected {:?}", (s.0, s.1), exp.get(at));
                }
            }
            4 if steps % 7 == 0 => {
                if let Some(d) = it.dup() {
                    same(d, &exp[at..], &format!("{what}: a copy made at entry {at}"), st)?;
                }
            }
            _ => {
                let n = it.next();
                ensure!(n.as_ref() == exp.get(at), "{what}: entry {at} of {} is {n:?}, expected {:?}", exp.len(), exp.get(at));
                if n.is_none() {
                    st.add("ordered_iterations_compared", 1);
                    return Ok(());
                }
                at += 1;
            }
        }
    }
}

/// What one layer adds or removes, in all its orders.
fn check_side(l: &InternalLayer, neg: bool, exp: &BTreeSet<IT>, view: &IdView, rng: &mut Rng, st: &mut Stats) -> R<()> {
    let ln = short(l.name());
    let w = if neg { "removals" } else { "additions" };
    let max = (view.objs.len() as u64, view.preds.len() as u64);
    let v: Vec<IT> = exp.iter().cloned().collect();
    let by_s = || if neg { l.internal_triple_removals() } else { l.internal_triple_additions() };
    let by_o = || if neg { l.internal_triple_removals_by_object() } else { l.internal_triple_additions_by_object() };
    same(by_s(), &v, &format!("layer {ln}: {w} by subject"), st)?;
    let mut o = v.clone();
    o.sort_by_key(by_object);
    same(by_o(), &o, &format!("layer {ln}: {w} by object"), st)?;
    for _ in 0..6 {
        walk(by_s(), &v, by_subject, max, true, rng, &format!("layer {ln}: {w} by subject"), st)?;
        walk(by_o(), &o, by_object, (max.0, 0), false, rng, &format!("layer {ln}: {w} by object"), st)?;
        let p = rng.below(max.1 as usize + 2) as u64;
        let it = if neg { l.internal_triple_removals_p(p) } else { l.internal_triple_additions_p(p) };
        let e: Vec<IT> = v.iter().filter(|t| t.predicate == p).cloned().collect();
        walk(it, &e, by_subject, (0, 0), false, rng, &format!("layer {ln}: {w} of predicate {p}"), st)?;
        // the forms that hand the iterator over
        let s = (rng.below(max.0 as usize + 3) as u64, 1 + rng.below(max.1 as usize + 2) as u64);
        let f: Vec<IT> = v.iter().filter(|t| t.subject >= s.0).cloned().collect();
        same(by_s().seek_subject(s.0), &f, &format!("layer {ln}: {w} from subject {}", s.0), st)?;
        let f: Vec<IT> = v.iter().filter(|t| s.0 == 0 || (t.subject, t.predicate) >= s).cloned().collect();
        same(by_s().seek_subject_predicate(s.0, s.1), &f, &format!("layer {ln}: {w} from subject and predicate {s:?}"), st)?;
        let f: Vec<IT> = o.iter().filter(|t| t.object >= s.0).cloned().collect();
        same(by_o().seek_object(s.0), &f, &format!("layer {ln}: {w} from object {}", s.0), st)?;
        let t = match rng.below(2) {
            0 if !v.is_empty() => *rng.pick(&v),
            _ => IT::new(s.0, s.1, rng.below(max.0 as usize + 2) as u64),
        };
        let g = if neg { l.internal_triple_removal_exists(t.subject, t.predicate, t.object) } else { l.internal_triple_addition_exists(t.subject, t.predicate, t.object) };
        ensure!(g == exp.contains(&t), "layer {ln}: whether {t:?} is among the {w}: {g}");
    }
    let n = if neg { l.internal_triple_layer_removal_count() } else { l.internal_triple_layer_addition_count() };
    ensure!(n == exp.len(), "layer {ln}: counts {n} {w}, but it has {}", exp.len());
    Ok(())
}

/// The iterators over everything a layer and its ancestors say.
fn check_stack(l: &InternalLayer, layers: &[L], i: usize, rng: &mut Rng, st: &mut Stats) -> R<()> {
    let ln = short(l.name());
    let m = &layers[i];
    let v: Vec<IT> = m.triples.iter().cloned().collect();
    let mut o = v.clone();
    o.sort_by_key(by_object);
    same(InternalTripleSubjectIterator::from_layer(l), &v, &format!("layer {ln}: all triples by subject"), st)?;
    same(InternalTripleObjectIterator::from_layer(l), &o, &format!("layer {ln}: all triples by object"), st)?;
    let max = (m.view.objs.len(), m.view.preds.len());
    for _ in 0..8 {
        let mut s = (rng.below(max.0 + 3) as u64, 1 + rng.below(max.1 + 2) as u64);
        if !v.is_empty() && rng.chance(1, 2) {
            let t = rng.pick(&v);
            s.0 = t.subject;
            if rng.chance(1, 2) {
                s.1 = t.predicate;
            }
        }
        let f: Vec<IT> = v.iter().filter(|t| t.subject >= s.0).cloned().collect();
        let it = InternalTripleSubjectIterator::from_layer(l).seek_subject(s.0);
        same(it.clone(), &f, &format!("layer {ln}: all triples from subject {}", s.0), st)?;
        let mut it2 = it;
        let k = rng.below(f.len() + 1);
        for t in &f[..k] {
            ensure!(it2.next() == Some(*t), "layer {ln}: all triples from subject {}: expected {t:?}", s.0);
        }
        same(it2.clone(), &f[k..], &format!("layer {ln}: a copy of the iterator from subject {} made at entry {k}", s.0), st)?;
        same(it2, &f[k..], &format!("layer {ln}: all triples from subject {} from entry {k}", s.0), st)?;
        let f: Vec<IT> = v.iter().filter(|t| s.0 == 0 || (t.subject, t.predicate) >= s).cloned().collect();
        same(InternalTripleSubjectIterator::from_layer(l).seek_subject_predicate(s.0, s.1), &f, &format!("layer {ln}: all triples from subject and predicate {s:?}"), st)?;
        let f: Vec<IT> = o.iter().filter(|t| t.object >= s.0).cloned().collect();
        same(InternalTripleObjectIterator::from_layer(l).seek_object(s.0), &f, &format!("layer {ln}: all triples from object {}", s.0), st)?;
        let p = rng.below(max.1 + 2) as u64;
        let f: Vec<IT> = v.iter().filter(|t| t.predicate == p).cloned().collect();
        same(InternalTriplePredicateIterator::from_layer(l, p), &f, &format!("layer {ln}: all triples of predicate {p}"), st)?;
    }
    // the ancestors that are reached without passing a rollup
    let mut chain: Vec<&InternalLayer> = vec![l];
    while let Some(p) = chain.last().unwrap().immediate_parent() {
        chain.push(p);
    }
    ensure!(l.layer_stack_size() == chain.len(), "layer {ln}: a stack of {} layers has the size {}", chain.len(), l.layer_stack_size());
    let names: Vec<Name> = l.immediate_layers().iter().map(|l| l.name()).collect();
    ensure!(names.iter().rev().cloned().eq(chain.iter().map(|l| l.name())), "layer {ln}: its immediate layers are in another order than its parents");
    let mut anc = vec![];
    let mut at = Some(i);
    for c in &chain {
        let Some(k) = at else { viol!("layer {ln}: more immediate parents than ancestors") };
        ensure!(c.name() == layers[k].name, "layer {ln}: {} is among its parents in place of {}", short(c.name()), short(layers[k].name));
        anc.push(k);
        if c.is_rollup() {
            break;
        }
        at = layers[k].parent;
    }
    for d in 1..anc.len() {
        let a = &layers[anc[d]];
        let net = |from: &L, to: &L| {
            let mut e: BTreeMap<IT, TripleChange> = BTreeMap::new();
            e.extend(to.triples.difference(&from.triples).map(|t| (*t, TripleChange::Addition)));
            e.extend(from.triples.difference(&to.triples).map(|t| (*t, TripleChange::Removal)));
            e.into_iter().map(|(t, c)| (c, t)).collect::<Vec<_>>()
        };
        let what = format!("layer {ln}: changes since {}", short(a.name));
        let changes = |l: &InternalLayer, n: Name| match InternalTripleStackIterator::from_layer_stack(l, n) {
            Ok(i) => Ok(i),
            Err(e) => viol!("layer {ln}: changes since its ancestor {}: {e}", short(n)),
        };
        let it = changes(l, a.name)?;
        let e = net(a, m);
        let got: Vec<_> = it.take(e.len() + 8).collect();
        ensure!(got == e, "{what}: {} reported, expected {}; first difference {:?}", got.len(), e.len(), got.iter().zip(&e).find(|(a, b)| a != b));
        st.add("stack_changes_compared", 1);
        st.add("stack_changes", e.len() as u64);
        let upto: Vec<Name> = l.immediate_layers_upto(a.name).iter().map(|l| l.name()).collect();
        ensure!(upto.iter().rev().cloned().eq(chain[..d].iter().map(|l| l.name())), "{what}: the layers above it are wrong");
        if d > 1 {
            let mid = rng.range(1, d - 1);
            let parts = [changes(l, layers[anc[mid]].name)?, changes(chain[mid], a.name)?];
            let got: Vec<_> = InternalTripleStackIterator::merge(parts).take(e.len() + 8).collect();
            ensure!(got == e, "{what}, merged from two parts: {} reported, expected {}", got.len(), e.len());
            st.add("stacks_merged", 1);
        }
    }
    // a layer that is no ancestor
    let k = rng.below(layers.len());
    if !chain[1..].iter().any(|c| c.name() == layers[k].name) {
        ensure!(InternalTripleStackIterator::from_layer_stack(l, layers[k].name).is_err(), "layer {ln}: has changes since {}, which is not among its parents", short(layers[k].name));
        st.add("unknown_ancestors_refused", 1);
    }
    Ok(())
}

fn stream<S: Stream<Item = std::io::Result<(u64, u64, u64)>> + Unpin>(rt: &Rt, s: std::io::Result<S>, exp: &BTreeSet<IT>, what: &str, st: &mut Stats) -> R<()> {
    let mut s = s.op(what)?;
    let mut got = vec![];
    rt.block_on(async {
        while let Some(t) = s.next().await {
            got.push(t?);
            if got.len() > exp.len() + 8 {
                break;
            }
        }
        Ok(())
    })
    .op(what)?;
    same(got.into_iter().map(|t| IT::new(t.0, t.1, t.2)), &exp.iter().cloned().collect::<Vec<_>>(), what, st)?;
    st.add("streams_compared", 1);
    Ok(())
}

fn streams_base<F: 'static + FileLoad + FileStore + Clone>(rt: &Rt, f: &BaseLayerFiles<F>, m: &L, st: &mut Stats) -> R<()> {
    let s = rt.block_on(open_base_triple_stream(f.s_p_adjacency_list_files.clone(), f.sp_o_adjacency_list_files.clone()));
    stream(rt, s, &m.adds, &format!("layer {}: the stream of triples", short(m.name)), st)
}
fn streams_child<F: 'static + FileLoad + FileStore + Clone>(rt: &Rt, f: &ChildLayerFiles<F>, m: &L, st: &mut Stats) -> R<()> {
    let s = rt.block_on(open_child_triple_stream(f.pos_subjects_file.clone(), f.pos_s_p_adjacency_list_files.clone(), f.pos_sp_o_adjacency_list_files.clone()));
    stream(rt, s, &m.adds, &format!("layer {}: the stream of additions", short(m.name)), st)?;
    let s = rt.block_on(open_child_triple_stream(f.neg_subjects_file.clone(), f.neg_s_p_adjacency_list_files.clone(), f.neg_sp_o_adjacency_list_files.clone()));
    stream(rt, s, &m.removes, &format!("layer {}: the stream of removals", short(m.name)), st)
}

/// One loaded layer against its description.
fn check_layer(ctx: &mut Ctx, l: &InternalLayer, layers: &[L], i: usize, whole: bool) -> R<()> {
    let m = &layers[i];
    let Ctx { rng, stats, .. } = ctx;
    let ln = short(m.name);
    ensure!(l.name() == m.name, "layer {ln}: calls itself {}", short(l.name()));
    let pn = m.parent.map(|p| layers[p].name);
    ensure!(l.parent_name() == pn, "layer {ln}: calls {:?} its parent", l.parent_name().map(short));
    if whole {
        let v = snapshot(l)?;
        ids_equal(&m.view, &v, &format!("layer {ln}"))?;
        let ts: BTreeSet<VT> = m.triples.iter().map(|t| m.view.to_val(t).unwrap()).collect();
        check_contents(l, &m.view, &ts, rng, 10, stats)?;
    }
    if !l.is_rollup() {
        check_side(l, false, &m.adds, &m.view, rng, stats)?;
        check_side(l, true, &m.removes, &m.view, rng, stats)?;
        let own = (l.node_dict_len(), l.predicate_dict_len(), l.value_dict_len());
        ensure!(own == m.own, "layer {ln}: has {own:?} nodes, predicates and values of its own, expected {:?}", m.own);
    } else {
        stats.add("rolled_up_layers_checked", 1);
    }
    check_stack(l, layers, i, rng, stats)?;
    stats.add("layers_checked", 1);
    Ok(())
}

fn content(rng: &mut Rng, pool: &Pool) -> Content {
    Content { nodes: subset(rng, &pool.nodes, 1), preds: subset(rng, &pool.preds, 1), values: subset(rng, &pool.values, 2) }
}

fn run<S: PersistentLayerStore>(ctx: &mut Ctx, store: S, kind: &str) -> R<()> {
    let rt = ctx.rt.clone();
    let pool = if ctx.rng.chance(1, 25) {
        let (a, b, c) = (ctx.rng.range(300, 2500), ctx.rng.range(1, 300), ctx.rng.range(10, 2000));
        Pool::new(&mut ctx.rng, Flavor::Bulk, a, b, c)
    } else {
        Pool::random(&mut ctx.rng)
    };
    let mut layers: Vec<L> = vec![];
    let mut loaded: Vec<Arc<InternalLayer>> = vec![];
    let mut shape = vec![];
    let n = ctx.rng.range(1, 7);
    let mut bases = 0;
    let size = |rng: &mut Rng, pool: &Pool| match rng.below(8) {
        0 => 0,
        1 => 1,
        2..=5 => rng.range(1, 20),
        _ => rng.range(5, 40 + 3 * pool.nodes.len().min(800)),
    };
    while layers.len() < n {
        let i = layers.len();
        let dir = rt.block_on(store.create_directory()).op("create_directory")?;
        let c = content(&mut ctx.rng, &pool);
        if i == 0 || ctx.rng.chance(1, 5) {
            let (view, own) = extend(&nothing(), &c);
            let k = size(&mut ctx.rng, &pool);
            let triples = gen_triples(&mut ctx.rng, &view, k);
            ctx.t(format!("base {} with {own:?} names and {} triples", short(dir), triples.len()));
            shape.push((0, own.0, triples.len(), 0));
            let files = rt.block_on(store.base_layer_files(dir)).op("base_layer_files")?;
            build_base(&rt, &mut ctx.rng, &files, &c, &triples)?;
            layers.push(L { name: dir, parent: None, view: Arc::new(view), own, adds: triples.clone(), triples, removes: BTreeSet::new() });
            bases += 1;
        } else {
            let p = if ctx.rng.chance(2, 3) { i - 1 } else { ctx.rng.below(i) };
            let (pt, pv, pn) = (layers[p].triples.clone(), layers[p].view.clone(), layers[p].name);
            if ctx.rng.chance(1, 4) {
                let l = loaded[p].clone();
                if !l.is_rollup() {
                    let r = rt.block_on(store.perform_rollup(l)).op("perform_rollup")?;
                    if r != pn {
                        rt.block_on(store.register_rollup(pn, r)).op("register_rollup")?;
                        ctx.t(format!("rollup of {}", short(pn)));
                        ctx.stats.add("rollups", 1);
                    }
                    if ctx.rng.chance(1, 2) {
                        loaded[p] = rt.block_on(store.get_layer(pn)).op("get_layer")?.ok_or_else(|| Fail::Viol(format!("layer {} is gone after a rollup", short(pn))))?;
                    }
                }
            }
            let (view, own) = extend(&pv, &c);
            let k = size(&mut ctx.rng, &pool);
            let mut add = gen_triples(&mut ctx.rng, &view, k);
            let k = size(&mut ctx.rng, &pool);
            let mut remove = gen_triples(&mut ctx.rng, &view, k / 2);
            // what the parent has, or an ancestor had
            let mut seen: Vec<IT> = pt.iter().cloned().collect();
            for l in &layers {
                seen.extend(l.triples.iter().filter(|t| (t.subject as usize) <= view.objs.len() && (t.object as usize) <= view.objs.len() && (t.predicate as usize) <= view.preds.len()).filter(|t| view.to_val(t).is_some()));
            }
            let share = ctx.rng.range(2, 5);
            for t in &pt {
                if ctx.rng.chance(1, share) {
                    remove.insert(*t);
                }
            }
            if !seen.is_empty() {
                for _ in 0..ctx.rng.below(12) {
                    add.insert(*ctx.rng.pick(&seen));
                    remove.insert(*ctx.rng.pick(&seen));
                }
            }
            let adds: BTreeSet<IT> = add.difference(&pt).cloned().collect();
            let removes: BTreeSet<IT> = remove.intersection(&pt).cloned().collect();
            let triples = pt.difference(&removes).cloned().chain(adds.iter().cloned()).collect();
            ctx.t(format!("child {} of {} with {own:?} new names, {}-{} additions, {}-{} removals", short(dir), short(pn), adds.len(), add.len(), removes.len(), remove.len()));
            shape.push((p + 1, own.0, adds.len(), removes.len()));
            ctx.stats.add("additions_the_parent_has", (add.len() - adds.len()) as u64);
            ctx.stats.add("removals_the_parent_lacks", (remove.len() - removes.len()) as u64);
            rt.block_on(store.write_parent_file(dir, pn)).op("write_parent_file")?;
            let files = rt.block_on(store.child_layer_files(dir)).op("child_layer_files")?;
            build_child(&rt, &mut ctx.rng, &files, loaded[p].clone(), &pv, &c, &add, &remove)?;
            layers.push(L { name: dir, parent: Some(p), view: Arc::new(view), own, triples, adds, removes });
        }
        rt.block_on(PersistentLayerStore::finalize(&store, dir)).op("finalize")?;
        let m = &layers[i];
        let got = if ctx.rng.chance(1, 2) {
            let got = rt.block_on(store.get_layer(dir)).op("get_layer")?;
            got.ok_or_else(|| Fail::Viol(format!("the layer {} that was written is not found", short(dir))))?
        } else {
            Arc::new(match m.parent {
                None => rt.block_on(async { BaseLayer::load_from_files(dir, &store.base_layer_files(dir).await?).await }).op("BaseLayer::load_from_files")?,
                Some(p) => rt.block_on(async { ChildLayer::load_from_files(dir, loaded[p].clone(), &store.child_layer_files(dir).await?).await }).op("ChildLayer::load_from_files")?,
            })
        };
        check_layer(ctx, &got, &layers, i, true)?;
        loaded.push(got);
        ctx.stats.add("layers_written", 1);
    }
    let other = MemoryLayerStore::new();
    for i in 0..layers.len() {
        let l = loaded[i].clone();
        check_layer(ctx, &l, &layers, i, false)?;
        let m = &layers[i];
        // the files: streams, and copies elsewhere
        match m.parent {
            None => {
                let f = rt.block_on(store.base_layer_files(m.name)).op("base_layer_files")?;
                streams_base(&rt, &f, m, &mut ctx.stats)?;
                if ctx.rng.chance(1, 3) {
                    let to = rt.block_on(async { other.base_layer_files(other.create_directory().await?).await }).op("base_layer_files")?;
                    rt.block_on(to.copy_from(&f)).op("copying the files of a base layer")?;
                    let l = rt.block_on(BaseLayer::load_from_files(m.name, &to)).op("loading a copied base layer")?;
                    ctx.stats.add("layers_copied", 1);
                    check_layer(ctx, &l, &layers, i, true)?;
                }
            }
            Some(p) => {
                let f = rt.block_on(store.child_layer_files(m.name)).op("child_layer_files")?;
                streams_child(&rt, &f, m, &mut ctx.stats)?;
                if ctx.rng.chance(1, 3) {
                    let to = rt.block_on(async { other.child_layer_files(other.create_directory().await?).await }).op("child_layer_files")?;
                    rt.block_on(to.copy_from(&f)).op("copying the files of a child layer")?;
                    let l = rt.block_on(ChildLayer::load_from_files(m.name, loaded[p].clone(), &to)).op("loading a copied child layer")?;
                    ctx.stats.add("layers_copied", 1);
                    check_layer(ctx, &l, &layers, i, true)?;
                }
            }
        }
    }
    // a merge of the files of some base layers
    if bases > 1 || ctx.rng.chance(1, 4) {
        let mut which: Vec<usize> = (0..layers.len()).filter(|i| layers[*i].parent.is_none()).collect();
        ctx.rng.shuffle(&mut which);
        which.truncate(ctx.rng.range(1, 4));
        ctx.t(format!("merge of {which:?}"));
        let mut c = Content { nodes: vec![], preds: vec![], values: vec![] };
        let mut inputs = vec![];
        let mut vts: BTreeSet<VT> = BTreeSet::new();
        for i in &which {
            let m = &layers[*i];
            inputs.push(rt.block_on(store.base_layer_files(m.name)).op("base_layer_files")?);
            vts.extend(m.triples.iter().map(|t| m.view.to_val(t).unwrap()));
            for o in &m.view.objs {
                match o {
                    ObjectType::Node(n) => c.nodes.push(n.clone()),
                    ObjectType::Value(v) => c.values.push(v.clone()),
                }
            }
            c.preds.extend(m.view.preds.iter().cloned());
        }
        c.nodes.sort();
        c.nodes.dedup();
        c.preds.sort();
        c.preds.dedup();
        c.values.sort();
        c.values.dedup();
        let (view, own) = extend(&nothing(), &c);
        let dir = rt.block_on(store.create_directory()).op("create_directory")?;
        let temp = ctx.fresh_dir("merge")?;
        let out = rt.block_on(store.base_layer_files(dir)).op("base_layer_files")?;
        rt.block_on(merge_base_layers(&inputs, out, &temp)).op("merge_base_layers")?;
        rt.block_on(PersistentLayerStore::finalize(&store, dir)).op("finalize")?;
        let left = std::fs::read_dir(&temp).map(|d| d.count()).unwrap_or(0);
        ensure!(left == 0, "a merge left {left} entries in its temporary directory");
        let triples: BTreeSet<IT> = vts.iter().map(|t| view.to_id(t).unwrap()).collect();
        let i = layers.len();
        layers.push(L { name: dir, parent: None, view: Arc::new(view), own, adds: triples.clone(), triples, removes: BTreeSet::new() });
        let l = rt.block_on(store.get_layer(dir)).op("get_layer")?.ok_or_else(|| Fail::Viol("the merged layer is not found".into()))?;
        check_layer(ctx, &l, &layers, i, true)?;
        let f = rt.block_on(store.base_layer_files(dir)).op("base_layer_files")?;
        streams_base(&rt, &f, &layers[i], &mut ctx.stats)?;
        ctx.stats.add("files_merged", which.len() as u64);
        shape.push((99, which.len(), own.0, 0));
    }
    ctx.stats.hashes.insert(hash64(format!("{kind}{shape:?}").as_bytes()));
    Ok(())
}

fn c21(ctx: &mut Ctx) -> R<()> {
    match ctx.rng.below(6) {
        0..=2 => {
            ctx.t("memory".into());
            run(ctx, MemoryLayerStore::new(), "m")
        }
        3 => {
            ctx.t("directory".into());
            let d = ctx.fresh_dir("low")?;
            run(ctx, DirectoryLayerStore::new(d), "d")
        }
        4 => {
            ctx.t("archive".into());
            let b = DirectoryArchiveBackend::new(ctx.fresh_dir("low")?);
            run(ctx, ArchiveLayerStore::new(b.clone(), b), "a")
        }
        _ => {
            ctx.t("cached archive".into());
            let b = DirectoryArchiveBackend::new(ctx.fresh_dir("low")?);
            let n = ctx.rng.below(3);
            let l = LruArchiveBackend::new(b.clone(), b, n);
            run(ctx, ArchiveLayerStore::new(l.clone(), l), "l")
        }
    }
}

pub fn register(v: &mut Vec<Prop>) {
    v.push(Prop {
        id: "C21",
        case: c21,
        rule: "random stacks of up to 7 layers written through the public file builders (names and triples one by one or in bulk, as text or bytes, with names the parent has, additions it has and removals it lacks, over rolled up parents too) in the memory, directory and archive stores; every layer is loaded from its files, through the store or from a copy of the files, and its names with their exact ids, contents, streams and ordered iterators (walked with looking ahead, going elsewhere and copies made on the way), the net changes over parts of the stack, and direct merges of base layer files are compared with the description. A case is distinct by its store and the sizes of its layers",
        assumptions: &["names and triples are handed over in the order the builders ask for and without repetition"],
        must_observe: &["layers_written", "layers_checked", "layers_copied", "files_merged", "streams_compared", "ordered_iterations_compared", "seeks", "entries_looked_at_ahead", "stack_changes_compared", "stack_changes", "stacks_merged", "unknown_ancestors_refused", "rolled_up_layers_checked", "rollups", "additions_the_parent_has", "removals_the_parent_lacks"],
        ..BASE
    });
}
