//! A small workload over the public interface for the undefined-behaviour interpreter Miri.
//! tsmiri SEED PART...
//! It prints what it did; Miri ends it when it sees undefined behaviour or a data race.
mod mem;
use mem::MemArchives;
use std::sync::Arc;
use tdb_succinct::TdbDataType;
use terminus_store::layer::*;
use terminus_store::storage::archive::{Archive, ArchiveLayerStore, LruArchiveBackend};
use terminus_store::storage::memory::MemoryLabelStore;
use terminus_store::storage::{CachedLayerStore, LockingHashMapLayerCache};
use terminus_store::store::{open_memory_store, Store, StoreLayer};

/// A store over archives in memory, kept in memory once more by the archive cache.
fn archive_store() -> (Store, MemArchives) {
    let m = MemArchives::default();
    let lru = LruArchiveBackend::new(m.clone(), m.clone(), 1);
    let l = CachedLayerStore::new(ArchiveLayerStore::new(lru.clone(), lru), LockingHashMapLayerCache::new());
    (Store::new(MemoryLabelStore::new(), l), m)
}

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
}

fn triple(r: &mut Rng) -> ValueTriple {
    let s = format!("n{}", r.below(6));
    let p = format!("p{}", r.below(3));
    match r.below(6) {
        0 | 1 => ValueTriple::new_node(&s, &p, &format!("n{}", r.below(7))),
        2 | 3 => ValueTriple::new_string_value(&s, &p, &"v".repeat(r.below(20))),
        4 => ValueTriple::new_value(&s, &p, u32::make_entry(&(r.below(9) as u32))),
        _ => ValueTriple::new_value(&s, &p, f64::make_entry(&(r.below(9) as f64 / 3.0))),
    }
}

/// Reads a good part of what there is in a layer.
fn read(l: &StoreLayer) -> usize {
    let mut n = 0;
    let mut last = None;
    for t in l.triples() {
        n += 1;
        last = Some(t);
    }
    if let Some(t) = last {
        let v = l.id_triple_to_string(&t).expect("a listed triple has a text");
        assert!(l.triple_exists(t.subject, t.predicate, t.object));
        assert!(l.value_triple_exists(&v));
        n += l.triples_s(t.subject).count() + l.triples_o(t.object).count() + l.triples_p(t.predicate).count();
        n += l.triples_sp(t.subject, t.predicate).count() + l.single_triple_sp(t.subject, t.predicate).is_some() as usize;
    }
    for id in 1..=l.node_and_value_count() as u64 {
        match l.id_object(id) {
            Some(ObjectType::Node(s)) => assert!(l.object_node_id(&s).is_some()),
            Some(ObjectType::Value(v)) => assert!(l.object_value_id(&v).is_some()),
            None => (),
        }
    }
    n + l.triple_count()
}

async fn read_changes(l: &StoreLayer) -> usize {
    let mut n = l.triple_additions().await.unwrap().count() + l.triple_removals().await.unwrap().count();
    let id = 2;
    n += l.triple_additions_s(id).await.unwrap().count() + l.triple_removals_s(id).await.unwrap().count();
    n += l.triple_additions_p(id).await.unwrap().count() + l.triple_removals_p(id).await.unwrap().count();
    n += l.triple_additions_o(id).await.unwrap().count() + l.triple_removals_o(id).await.unwrap().count();
    n += l.triple_additions_sp(id, 1).await.unwrap().count() + l.triple_removals_sp(id, 1).await.unwrap().count();
    n + l.triple_layer_addition_count().await.unwrap()
}

async fn build(st: &Store, parent: Option<&StoreLayer>, r: &mut Rng, k: usize) -> StoreLayer {
    let b = match parent {
        None => st.create_base_layer().await.unwrap(),
        Some(p) => p.open_write().await.unwrap(),
    };
    if let Some(p) = parent {
        let ts: Vec<_> = p.triples().collect();
        for t in ts {
            if r.below(4) == 0 {
                b.remove_id_triple(t).unwrap();
            }
        }
        b.remove_value_triple(triple(r)).unwrap();
    }
    for _ in 0..k {
        b.add_value_triple(triple(r)).unwrap();
    }
    b.commit().await.unwrap()
}

/// One history of every layer operation; the number of things read.
async fn layers(st: &Store, r: &mut Rng) -> usize {
    let g = st.create("main").await.unwrap();
    let base = build(st, None, r, 6).await;
    g.set_head(&base).await.unwrap();
    let c1 = build(st, Some(&base), r, 3).await;
    let c2 = build(st, Some(&c1), r, 2).await;
    let mut n = read(&base) + read(&c2) + read_changes(&c1).await;
    match r.below(5) {
        0 => c2.rollup().await.unwrap(),
        1 => c2.rollup_upto(&base).await.unwrap(),
        2 => c2.imprecise_rollup_upto(&base).await.unwrap(),
        3 => n += read(&c2.squash().await.unwrap()),
        _ => n += read(&c2.squash_upto(&base).await.unwrap()),
    }
    n += read(&st.get_layer_from_id(c2.name()).await.unwrap().unwrap());
    n += c2.retrieve_layer_stack_names().await.unwrap().len();
    let c3 = build(st, Some(&c2), r, 2).await;
    let b = c3.open_write().await.unwrap();
    match r.below(2) {
        0 => b.apply_diff(&base).unwrap(),
        _ => b.apply_delta(&c1).await.unwrap(),
    }
    let c4 = b.commit().await.unwrap();
    n += read(&c4);
    let _ = g.set_head(&c4).await.unwrap();
    n += read(&g.head().await.unwrap().unwrap());
    n
}

async fn packs(a: &Store, b: &Store, r: &mut Rng) -> usize {
    let x = build(a, None, r, 3).await;
    let y = build(a, Some(&x), r, 2).await;
    let names = vec![x.name(), y.name()];
    let pack = a.export_layers(Box::new(names.clone().into_iter())).await.unwrap();
    b.import_layers(&pack, Box::new(names.into_iter())).await.unwrap();
    read(&b.get_layer_from_id(y.name()).await.unwrap().unwrap())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[1].parse().unwrap();
    let single = || tokio::runtime::Builder::new_current_thread().build().unwrap();
    let multi = || tokio::runtime::Builder::new_multi_thread().worker_threads(2).max_blocking_threads(3).build().unwrap();
    for part in &a[2..] {
        let mut r = Rng(seed ^ part.len() as u64);
        let n = match part.as_str() {
            "layers" => single().block_on(layers(&open_memory_store(), &mut r)),
            "packs" => {
                let rt = multi();
                let (x, y) = (open_memory_store(), open_memory_store());
                rt.block_on(async move { tokio::spawn(async move { packs(&x, &y, &mut r).await }).await.unwrap() })
            }
            "archives" => {
                let (s, _) = archive_store();
                single().block_on(layers(&s, &mut r))
            }
            "threads" | "archive-threads" => {
                let st = if part == "threads" { open_memory_store() } else { archive_store().0 };
                let rt = multi();
                let base = rt.block_on(build(&st, None, &mut r, 4));
                let g = rt.block_on(st.create("g")).unwrap();
                rt.block_on(g.set_head(&base)).unwrap();
                let shared = Arc::new(rt.block_on(base.open_write()).unwrap());
                let hs: Vec<_> = (0..3)
                    .map(|i| {
                        let (st, base, shared, h) = (st.clone(), base.clone(), shared.clone(), rt.handle().clone());
                        let mut r = Rng(seed * 7 + i);
                        std::thread::spawn(move || {
                            h.block_on(async {
                                let c = build(&st, Some(&base), &mut r, 2).await;
                                let _ = shared.add_value_triple(triple(&mut r));
                                let mut n = read(&c);
                                if i == 1 {
                                    let _ = shared.commit_no_load().await;
                                }
                                if i == 2 {
                                    let _ = c.rollup().await;
                                }
                                let g = st.open("g").await.unwrap().unwrap();
                                let _ = g.set_head(&c).await;
                                if let Some(l) = g.head().await.unwrap() {
                                    n += read(&l);
                                }
                                drop(c);
                                n += read(&st.get_layer_from_id(base.name()).await.unwrap().unwrap());
                                n
                            })
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).sum()
            }
            "parse" => {
                // the bytes of an archive, whole and short, read back
                single().block_on(async {
                    let (s, m) = archive_store();
                    let l = build(&s, None, &mut r, 3).await;
                    let bytes = m.files.lock().unwrap().get(&l.name()).unwrap().clone();
                    let mut n = 0;
                    let whole = Archive::parse_from_reader(&mut &bytes[..]).await.unwrap();
                    n += whole.data.iter().map(|b| *b as usize).sum::<usize>();
                    for i in 0..6 {
                        let k = match i {
                            0..=2 => bytes.len() - 1 - r.below(bytes.len() / 2),
                            3 => bytes.len() - 1,
                            4 => 16 + r.below(60),
                            _ => r.below(16),
                        };
                        match Archive::parse_from_reader(&mut &bytes[..k]).await {
                            Ok(a) => n += a.data.iter().map(|b| *b as usize).sum::<usize>(),
                            Err(_) => n += 1,
                        }
                    }
                    n
                })
            }
            p => panic!("no part {p}"),
        };
        println!("part {part} seed {seed}: read {n}");
    }
}
