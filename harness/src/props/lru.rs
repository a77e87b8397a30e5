//! C17: the archive cache returns what the uncached archives contain, and keeps within its limit.
use super::*;
use crate::orch;
use crate::{ensure, viol};
use async_trait::async_trait;
use bytes::Bytes;
use std::collections::BTreeMap;
use std::io::{self, ErrorKind};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use terminus_store::storage::archive::*;
use terminus_store::storage::consts::{LayerFileEnum, FILENAME_ENUM_MAP};
use terminus_store::storage::{name_to_string, string_to_name, FileLoad, PersistentLayerStore};
use tokio::io::AsyncReadExt;

type Name = [u32; 5];

/// Bytes that are counted as long as they are held by anyone.
struct Held {
    data: Vec<u8>,
    live: Arc<AtomicUsize>,
}
impl AsRef<[u8]> for Held {
    fn as_ref(&self) -> &[u8] {
        &self.data
    }
}
impl Drop for Held {
    fn drop(&mut self) {
        self.live.fetch_sub(self.data.len(), SeqCst);
    }
}
fn held(data: &[u8], live: &Arc<AtomicUsize>) -> Bytes {
    live.fetch_add(data.len(), SeqCst);
    Bytes::from_owner(Held { data: data.to_vec(), live: live.clone() })
}

#[derive(Default)]
struct Hooks {
    loads: AtomicUsize,
    calls: AtomicUsize,
    delay: AtomicU64,
    seed: AtomicU64,
    /// how many loads are to fail yet, and how
    fail: Mutex<Option<(usize, ErrorKind)>>,
    failed: AtomicUsize,
    now: AtomicUsize,
    overlaps: AtomicUsize,
}

/// The archives behind the cache: real ones, with delays and failures on demand.
#[derive(Clone)]
struct Origin {
    inner: DirectoryArchiveBackend,
    live: Arc<AtomicUsize>,
    h: Arc<Hooks>,
}
impl Origin {
    async fn enter(&self, load: bool) -> io::Result<()> {
        self.h.calls.fetch_add(1, SeqCst);
        let d = self.h.delay.load(SeqCst);
        if d > 0 {
            let r = splitmix(self.h.seed.fetch_add(0x9e3779b97f4a7c15, SeqCst));
            match r % 4 {
                0 => (),
                1 => tokio::task::yield_now().await,
                2 => tokio::time::sleep(std::time::Duration::from_micros((r >> 8) % d)).await,
                _ => {
                    for _ in 0..(r >> 8) % 6 {
                        tokio::task::yield_now().await;
                    }
                }
            }
        }
        if load {
            self.h.loads.fetch_add(1, SeqCst);
            let mut f = self.h.fail.lock().unwrap();
            if let Some((n, k)) = *f {
                *f = if n > 1 { Some((n - 1, k)) } else { None };
                self.h.failed.fetch_add(1, SeqCst);
                return Err(io::Error::new(k, "injected"));
            }
        }
        Ok(())
    }
}
fn splitmix(x: u64) -> u64 {
    let mut z = x.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

#[async_trait]
impl ArchiveBackend for Origin {
    type Read = ArchiveSliceReader;
    async fn get_layer_bytes(&self, id: Name) -> io::Result<Bytes> {
        if self.h.now.fetch_add(1, SeqCst) > 0 {
            self.h.overlaps.fetch_add(1, SeqCst);
        }
        struct G<'a>(&'a Hooks);
        impl Drop for G<'_> {
            fn drop(&mut self) {
                self.0.now.fetch_sub(1, SeqCst);
            }
        }
        let _g = G(&self.h);
        self.enter(true).await?;
        let b = self.inner.get_layer_bytes(id).await?;
        let b = held(&b, &self.live);
        self.enter(false).await?;
        Ok(b)
    }
    async fn get_layer_structure_bytes(&self, id: Name, t: LayerFileEnum) -> io::Result<Option<Bytes>> {
        self.enter(true).await?;
        self.inner.get_layer_structure_bytes(id, t).await
    }
    async fn store_layer_file(&self, id: Name, bytes: Bytes) -> io::Result<()> {
        self.enter(true).await?;
        let r = self.inner.store_layer_file(id, bytes).await;
        self.enter(false).await?;
        r
    }
    async fn read_layer_structure_bytes_from(&self, id: Name, t: LayerFileEnum, from: usize) -> io::Result<Self::Read> {
        self.enter(true).await?;
        self.inner.read_layer_structure_bytes_from(id, t, from).await
    }
}
#[async_trait]
impl ArchiveMetadataBackend for Origin {
    async fn get_layer_names(&self) -> io::Result<Vec<Name>> {
        self.enter(false).await?;
        self.inner.get_layer_names().await
    }
    async fn layer_exists(&self, id: Name) -> io::Result<bool> {
        self.enter(false).await?;
        self.inner.layer_exists(id).await
    }
    async fn layer_size(&self, id: Name) -> io::Result<u64> {
        self.enter(false).await?;
        self.inner.layer_size(id).await
    }
    async fn layer_file_exists(&self, id: Name, t: LayerFileEnum) -> io::Result<bool> {
        self.enter(false).await?;
        self.inner.layer_file_exists(id, t).await
    }
    async fn get_layer_structure_size(&self, id: Name, t: LayerFileEnum) -> io::Result<usize> {
        self.enter(false).await?;
        self.inner.get_layer_structure_size(id, t).await
    }
    async fn get_rollup(&self, id: Name) -> io::Result<Option<Name>> {
        self.enter(false).await?;
        self.inner.get_rollup(id).await
    }
    async fn set_rollup(&self, id: Name, rollup: Name) -> io::Result<()> {
        self.enter(false).await?;
        self.inner.set_rollup(id, rollup).await
    }
    async fn get_parent(&self, id: Name) -> io::Result<Option<Name>> {
        self.enter(false).await?;
        self.inner.get_parent(id).await
    }
}

type Lru = LruArchiveBackend<Origin, Origin>;

/// What one archive contains.
struct Arch {
    id: Name,
    files: BTreeMap<LayerFileEnum, Vec<u8>>,
    bytes: Vec<u8>,
    rollup: Option<Name>,
    parent: Option<Name>,
}

fn types() -> Vec<(&'static str, LayerFileEnum)> {
    let mut v: Vec<_> = FILENAME_ENUM_MAP.iter().map(|(n, t)| (*n, *t)).filter(|x| x.1 != LayerFileEnum::Rollup).collect();
    v.sort_by_key(|x| x.0);
    v
}

fn some_files(rng: &mut Rng, parents: &[Name], size: usize) -> (BTreeMap<LayerFileEnum, Vec<u8>>, Option<Name>) {
    let all = types();
    let mut files = BTreeMap::new();
    let mut parent = None;
    let n = *rng.pick(&[1, 2, 3, 8, all.len()]);
    let big = rng.below(n);
    for k in 0..n {
        let t = if n == all.len() { all[k].1 } else { rng.pick(&all).1 };
        if t == LayerFileEnum::Parent {
            continue;
        }
        let len = if k == big {
            size
        } else {
            match rng.below(4) {
                0 => 0,
                1 => rng.below(10),
                2 => rng.below(200),
                _ => rng.below(3000),
            }
        };
        let x = rng.next();
        files.insert(t, (0..len).map(|i| splitmix(x ^ (i as u64 / 8)).to_le_bytes()[i % 8]).collect());
    }
    if rng.chance(1, 2) || files.is_empty() {
        let p = if parents.is_empty() || rng.chance(1, 3) { std::array::from_fn(|_| rng.next() as u32) } else { *rng.pick(parents) };
        let mut s = name_to_string(p).into_bytes();
        s.push(b'\n');
        files.insert(LayerFileEnum::Parent, s);
        parent = Some(p);
    }
    (files, parent)
}

/// Has the library write an archive, in the directory `tmp`, and returns its bytes.
fn archive(ctx: &mut Ctx, tmp: &std::path::Path, id: Name, files: &BTreeMap<LayerFileEnum, Vec<u8>>) -> R<Vec<u8>> {
    let back = DirectoryArchiveBackend::new(tmp.to_path_buf());
    let store = ArchiveLayerStore::new(back.clone(), back.clone());
    let rt = ctx.rt.clone();
    rt.block_on(async {
        store.create_named_directory(id).await?;
        let mut v: Vec<_> = files.iter().collect();
        let k = ctx.rng.below(v.len());
        v.rotate_left(k);
        for (t, d) in v {
            store.write_bytes(id, *t, Bytes::copy_from_slice(d));
        }
        store.finalize(id).await?;
        let b = back.get_layer_bytes(id).await?;
        Ok::<_, io::Error>(b.to_vec())
    })
    .op("writing an archive")
}

struct Case {
    lru: Lru,
    origin: Origin,
    archs: Vec<Arch>,
    tmp: std::path::PathBuf,
    limit: usize,
}

/// What an operation has to give.
#[derive(Clone)]
enum Expect {
    Bytes(Vec<u8>),
    Nothing,
    Fails,
    Flag(bool),
    Size(usize),
    Id(Option<Name>),
}

#[derive(Clone, Copy, Debug)]
enum Q {
    Whole,
    Part(LayerFileEnum),
    From(LayerFileEnum, usize, usize),
    Exists,
    LayerSize,
    FileExists(LayerFileEnum),
    Size(LayerFileEnum),
    Parent,
    Rollup,
}

fn pick_q(rng: &mut Rng, a: Option<&Arch>) -> Q {
    let all = types();
    let t = match a {
        Some(a) if rng.chance(4, 5) => *a.files.keys().nth(rng.below(a.files.len())).unwrap(),
        _ => rng.pick(&all).1,
    };
    match rng.below(14) {
        0 | 1 => Q::Whole,
        2..=4 => Q::Part(t),
        5..=8 => {
            let len = a.and_then(|a| a.files.get(&t)).map(|f| f.len()).unwrap_or(0);
            let off = match rng.below(8) {
                0 => 0,
                1 => len,
                2 => len.saturating_sub(1),
                3 => len + 1,
                4 => len + 1 + rng.below(5000),
                5 => usize::MAX - rng.below(10),
                6 => rng.below(len.min(20) + 1),
                _ => rng.below(len + 1),
            };
            Q::From(t, off, *rng.pick(&[1, 7, 100, 4096, usize::MAX]))
        }
        9 => Q::Exists,
        10 => Q::LayerSize,
        11 => Q::FileExists(t),
        12 => Q::Size(t),
        _ => {
            if rng.chance(1, 2) {
                Q::Parent
            } else {
                Q::Rollup
            }
        }
    }
}

fn expect(a: Option<&Arch>, q: Q) -> Expect {
    let a = match a {
        Some(a) => a,
        None => {
            return match q {
                Q::Exists | Q::FileExists(_) => Expect::Flag(false),
                Q::Rollup => Expect::Id(None),
                _ => Expect::Fails,
            }
        }
    };
    match q {
        Q::Whole => Expect::Bytes(a.bytes.clone()),
        Q::Part(t) => a.files.get(&t).map(|b| Expect::Bytes(b.clone())).unwrap_or(Expect::Nothing),
        Q::From(t, off, _) => match a.files.get(&t) {
            None => Expect::Fails,
            Some(b) if off > b.len() => Expect::Fails,
            Some(b) => Expect::Bytes(b[off..].to_vec()),
        },
        Q::Exists => Expect::Flag(true),
        Q::LayerSize => Expect::Size(a.bytes.len()),
        Q::FileExists(t) => Expect::Flag(a.files.contains_key(&t)),
        Q::Size(t) => a.files.get(&t).map(|b| Expect::Size(b.len())).unwrap_or(Expect::Fails),
        Q::Parent => Expect::Id(a.parent),
        Q::Rollup => Expect::Id(a.rollup),
    }
}

enum Got {
    Bytes(Vec<u8>),
    Nothing,
    Flag(bool),
    Size(usize),
    Id(Option<Name>),
}

async fn read_all<Rd: tokio::io::AsyncRead + Unpin>(mut r: Rd, chunk: usize) -> io::Result<Vec<u8>> {
    let mut v = Vec::new();
    if chunk == usize::MAX {
        r.read_to_end(&mut v).await?;
        return Ok(v);
    }
    // a few small reads, then bigger ones
    let mut k = 0;
    loop {
        let mut b = vec![0; if k < 50 { chunk } else { chunk.max(8192) }];
        let n = r.read(&mut b).await?;
        if n == 0 {
            return Ok(v);
        }
        v.extend_from_slice(&b[..n]);
        k += 1;
    }
}

async fn ask<B: ArchiveBackend + ArchiveMetadataBackend>(b: &B, id: Name, q: Q) -> io::Result<Got> {
    Ok(match q {
        Q::Whole => Got::Bytes(b.get_layer_bytes(id).await?.to_vec()),
        Q::Part(t) => match b.get_layer_structure_bytes(id, t).await? {
            Some(x) => Got::Bytes(x.to_vec()),
            None => Got::Nothing,
        },
        Q::From(t, off, chunk) => {
            let r = b.read_layer_structure_bytes_from(id, t, off).await?;
            Got::Bytes(read_all(r, chunk).await?)
        }
        Q::Exists => Got::Flag(b.layer_exists(id).await?),
        Q::LayerSize => Got::Size(b.layer_size(id).await? as usize),
        Q::FileExists(t) => Got::Flag(b.layer_file_exists(id, t).await?),
        Q::Size(t) => Got::Size(b.get_layer_structure_size(id, t).await?),
        Q::Parent => Got::Id(b.get_parent(id).await?),
        Q::Rollup => Got::Id(b.get_rollup(id).await?),
    })
}

/// The same through the files that a layer store hands out.
async fn ask_file<S: PersistentLayerStore>(s: &S, id: Name, q: Q) -> io::Result<Got> {
    let name = |t: LayerFileEnum| types().into_iter().find(|x| x.1 == t).unwrap().0;
    Ok(match q {
        Q::Part(t) => match s.get_file(id, name(t)).await?.map_if_exists().await? {
            Some(x) => Got::Bytes(x.to_vec()),
            None => Got::Nothing,
        },
        Q::From(t, off, chunk) => {
            let r = s.get_file(id, name(t)).await?.open_read_from(off).await?;
            Got::Bytes(read_all(r, chunk).await?)
        }
        Q::FileExists(t) => Got::Flag(s.get_file(id, name(t)).await?.exists().await?),
        Q::Size(t) => Got::Size(s.get_file(id, name(t)).await?.size().await?),
        Q::Exists => Got::Flag(s.directory_exists(id).await?),
        Q::Rollup => {
            let f = s.get_file(id, "rollup.hex").await?;
            if !f.exists().await? {
                return Ok(Got::Id(None));
            }
            let b = f.map().await?;
            let size = f.size().await?;
            if size != b.len() {
                return Err(io::Error::new(ErrorKind::InvalidData, format!("WRONG: the size of the rollup file is {size}, but it has {} bytes", b.len())));
            }
            let r = read_all(f.open_read_from(2).await?, 7).await?;
            if r != b[2..] {
                return Err(io::Error::new(ErrorKind::InvalidData, "WRONG: the rollup file differs when read from an offset"));
            }
            let s = String::from_utf8_lossy(&b).lines().nth(1).unwrap_or("").to_string();
            Got::Id(Some(string_to_name(&s)?))
        }
        _ => return Err(ErrorKind::Unsupported.into()),
    })
}

fn judge(what: &str, got: io::Result<Got>, exp: &Expect) -> R<()> {
    let bad = |g: String| -> R<()> {
        let e = match exp {
            Expect::Bytes(b) => format!("{} bytes", b.len()),
            Expect::Nothing => "nothing".into(),
            Expect::Fails => "an error".into(),
            Expect::Flag(b) => format!("{b}"),
            Expect::Size(n) => format!("{n}"),
            Expect::Id(n) => format!("{:?}", n.map(name_to_string)),
        };
        Err(Fail::Viol(format!("{what}: {g} instead of {e}")))
    };
    match (got, exp) {
        (Ok(Got::Bytes(a)), Expect::Bytes(b)) => {
            if a == *b {
                return Ok(());
            }
            let d = a.iter().zip(b.iter()).position(|(x, y)| x != y);
            bad(format!("{} bytes, different from byte {:?} on", a.len(), d))
        }
        (Ok(Got::Nothing), Expect::Nothing) | (Err(_), Expect::Fails) => Ok(()),
        (Ok(Got::Flag(a)), Expect::Flag(b)) if a == *b => Ok(()),
        (Ok(Got::Size(a)), Expect::Size(b)) if a == *b => Ok(()),
        (Ok(Got::Id(a)), Expect::Id(b)) if a == *b => Ok(()),
        (Ok(Got::Bytes(a)), _) => bad(format!("{} bytes", a.len())),
        (Ok(Got::Nothing), _) => bad("nothing".into()),
        (Ok(Got::Flag(a)), _) => bad(format!("{a}")),
        (Ok(Got::Size(a)), _) => bad(format!("{a}")),
        (Ok(Got::Id(a)), _) => bad(format!("{:?}", a.map(name_to_string))),
        (Err(e), _) => bad(format!("{:?} error ({e})", e.kind())),
    }
}

impl Case {
    fn new(ctx: &mut Ctx) -> R<Case> {
        let dir = ctx.fresh_dir("archives")?;
        let tmp = ctx.fresh_dir("tmp")?;
        let live = Arc::new(AtomicUsize::new(0));
        let h = Arc::new(Hooks::default());
        h.seed.store(ctx.rng.next(), SeqCst);
        let origin = Origin { inner: DirectoryArchiveBackend::new(dir), live, h };
        let limit = *ctx.rng.pick(&[0, 1, 1, 1, 2, 2, 3]);
        ctx.t(format!("limit {limit} MB"));
        let lru = LruArchiveBackend::new(origin.clone(), origin.clone(), limit);
        let mut c = Case { lru, origin, archs: vec![], tmp, limit };
        for _ in 0..ctx.rng.range(1, 7) {
            let cached = ctx.rng.chance(1, 3);
            c.add(ctx, cached)?;
        }
        Ok(c)
    }
    fn pick_size(&self, rng: &mut Rng) -> usize {
        match rng.below(12) {
            0 => 0,
            1 | 2 => rng.range(0, 500),
            3 => 1024 * 1024 - rng.below(3000),
            4 => 1024 * 1024 + rng.below(300_000),
            5 | 6 => rng.range(500_000, 600_000),
            _ => rng.range(100_000, 450_000),
        }
    }
    /// A new archive, stored through the cache or behind its back.
    fn add(&mut self, ctx: &mut Ctx, through: bool) -> R<usize> {
        let id: Name = std::array::from_fn(|_| ctx.rng.next() as u32);
        let parents: Vec<Name> = self.archs.iter().map(|a| a.id).collect();
        let size = self.pick_size(&mut ctx.rng);
        let (files, parent) = some_files(&mut ctx.rng, &parents, size);
        let bytes = archive(ctx, &self.tmp.clone(), id, &files)?;
        self.put(ctx, id, &bytes, through)?;
        ctx.t(format!("{} #{} of {} bytes", if through { "store" } else { "have" }, self.archs.len(), bytes.len()));
        self.archs.push(Arch { id, files, bytes, rollup: None, parent });
        Ok(self.archs.len() - 1)
    }
    fn put(&self, ctx: &mut Ctx, id: Name, bytes: &[u8], through: bool) -> R<()> {
        if through {
            let b = held(bytes, &self.origin.live);
            ctx.stats.add("stored", 1);
            ctx.rt.block_on(self.lru.store_layer_file(id, b)).op("storing an archive")
        } else {
            ctx.rt.block_on(self.origin.inner.store_layer_file(id, Bytes::copy_from_slice(bytes))).op("storing an archive")
        }
    }
    fn settle(&self) {
        let t0 = std::time::Instant::now();
        while self.origin.h.now.load(SeqCst) > 0 && t0.elapsed().as_secs() < 20 {
            std::thread::sleep(std::time::Duration::from_micros(100));
        }
    }
    fn memory(&self, ctx: &mut Ctx, when: &str) -> R<()> {
        self.settle();
        let live = self.origin.live.load(SeqCst);
        ctx.stats.max("most_bytes_retained", live as u64);
        ctx.stats.add("memory_checks", 1);
        if live > 0 {
            ctx.stats.add("memory_checks_with_something_retained", 1);
        }
        ensure!(live <= self.limit << 20, "{when}, the cache retains {live} bytes, but its limit is {} MB", self.limit);
        Ok(())
    }
    fn one(&self, ctx: &mut Ctx) -> R<()> {
        let unknown = ctx.rng.chance(1, 12);
        let i = ctx.rng.below(self.archs.len());
        let a = if unknown { None } else { Some(&self.archs[i]) };
        let id = a.map(|a| a.id).unwrap_or_else(|| std::array::from_fn(|_| ctx.rng.next() as u32));
        let q = pick_q(&mut ctx.rng, a);
        let exp = expect(a, q);
        let what = format!("{q:?} of {}", a.map(|_| format!("#{i} ({} bytes)", self.archs[i].bytes.len())).unwrap_or("an unknown layer".into()));
        ctx.t(what.clone());
        ctx.stats.add("questions", 1);
        let rt = ctx.rt.clone();
        if ctx.rng.chance(1, 4) {
            judge(&format!("{what}, uncached"), rt.block_on(ask(&self.origin.inner, id, q)), &exp)?;
        }
        let through_files = ctx.rng.chance(1, 3) && !matches!(q, Q::Whole | Q::LayerSize | Q::Parent) && !(a.is_none() && !matches!(q, Q::Exists | Q::FileExists(_) | Q::Rollup));
        let loads = self.origin.h.loads.load(SeqCst);
        if through_files {
            let s = ArchiveLayerStore::new(self.lru.clone(), self.lru.clone());
            judge(&format!("{what}, as a file"), rt.block_on(ask_file(&s, id, q)), &exp)?;
        } else {
            judge(&what, rt.block_on(ask(&self.lru, id, q)), &exp)?;
        }
        if matches!(q, Q::Whole | Q::Part(_) | Q::From(..)) && !unknown {
            ctx.stats.add(if self.origin.h.loads.load(SeqCst) == loads { "answered_from_the_cache" } else { "loaded" }, 1);
        }
        if let Expect::Bytes(b) = &exp {
            ctx.stats.add("bytes_compared", b.len() as u64);
        }
        Ok(())
    }
}

const KINDS: [ErrorKind; 4] = [ErrorKind::Other, ErrorKind::PermissionDenied, ErrorKind::NotFound, ErrorKind::TimedOut];

fn c17(ctx: &mut Ctx) -> R<()> {
    if ctx.rng.chance(1, 2) {
        return many(ctx);
    }
    let mut c = Case::new(ctx)?;
    let rounds = ctx.rng.range(5, 40);
    let rt = ctx.rt.clone();
    for _ in 0..rounds {
        match ctx.rng.below(24) {
            0 => {
                let through = ctx.rng.chance(2, 3);
                c.add(ctx, through)?;
            }
            1 => {
                // re-point the rollup
                let i = ctx.rng.below(c.archs.len());
                let r: Name = std::array::from_fn(|_| ctx.rng.next() as u32);
                rt.block_on(c.lru.set_rollup(c.archs[i].id, r)).op("setting a rollup")?;
                ctx.t(format!("set rollup of #{i}"));
                c.archs[i].rollup = Some(r);
            }
            2 => {
                // store it once more, possibly with other contents
                let i = ctx.rng.below(c.archs.len());
                let id = c.archs[i].id;
                if ctx.rng.chance(1, 2) {
                    let size = c.pick_size(&mut ctx.rng);
                    let (files, parent) = some_files(&mut ctx.rng, &[], size);
                    c.archs[i].bytes = archive(ctx, &c.tmp.clone(), std::array::from_fn(|k| id[k] ^ 1), &files)?;
                    std::fs::remove_dir_all(&c.tmp).env("removing scratch")?;
                    std::fs::create_dir_all(&c.tmp).env("creating scratch")?;
                    c.archs[i].files = files;
                    c.archs[i].parent = parent;
                    ctx.stats.add("stored_other_contents", 1);
                }
                let bytes = c.archs[i].bytes.clone();
                c.put(ctx, id, &bytes, true)?;
                ctx.t(format!("store #{i} again ({} bytes)", bytes.len()));
                ctx.stats.add("stored_again", 1);
            }
            3 | 4 => {
                // the next loads fail
                let i = ctx.rng.below(c.archs.len());
                let k = *ctx.rng.pick(&KINDS);
                let n = ctx.rng.range(1, 2);
                let a = &c.archs[i];
                let q = loop {
                    let q = pick_q(&mut ctx.rng, Some(a));
                    if matches!(q, Q::Whole | Q::Part(_) | Q::From(..)) {
                        break q;
                    }
                };
                *c.origin.h.fail.lock().unwrap() = Some((n, k));
                let failed = c.origin.h.failed.load(SeqCst);
                let exp = expect(Some(a), q);
                let what = format!("{q:?} of #{i} while {n} loads fail");
                ctx.t(what.clone());
                for j in 0..3 {
                    let before = c.origin.h.failed.load(SeqCst);
                    let r = rt.block_on(ask(&c.lru, a.id, q));
                    let hit = c.origin.h.failed.load(SeqCst) > before;
                    match r {
                        Err(e) if hit => {
                            ensure!(e.kind() == k, "{what}: the error is {:?} instead of {k:?}", e.kind());
                            ctx.stats.add("failing_loads_reported", 1);
                        }
                        Ok(_) if hit => viol!("{what}: the load failed, but no error is reported"),
                        r => judge(&format!("{what}, time {j}"), r, &exp)?,
                    }
                }
                *c.origin.h.fail.lock().unwrap() = None;
                let _ = failed;
            }
            5 | 6 => {
                // a reader that gives up
                let i = ctx.rng.below(c.archs.len());
                let a = &c.archs[i];
                let q = pick_q(&mut ctx.rng, Some(a));
                let k = ctx.rng.below(8);
                c.origin.h.delay.store(300, SeqCst);
                let r = crate::props::crash::abandon(&rt, ask(&c.lru, a.id, q), k);
                c.origin.h.delay.store(0, SeqCst);
                ctx.t(format!("{q:?} of #{i}, given up after {k} polls: {}", if r.is_some() { "finished" } else { "abandoned" }));
                match r {
                    Some(r) => judge(&format!("{q:?} of #{i}"), r, &expect(Some(a), q))?,
                    None => ctx.stats.add("readers_abandoned", 1),
                }
                let exp = expect(Some(a), Q::Whole);
                judge(&format!("reading #{i} after a reader has given up"), rt.block_on(ask(&c.lru, a.id, Q::Whole)), &exp)?;
            }
            7 => {
                let mut names = rt.block_on(c.lru.get_layer_names()).op("listing the archives")?;
                names.sort();
                let mut exp: Vec<Name> = c.archs.iter().map(|a| a.id).collect();
                exp.sort();
                ensure!(names == exp, "{} layers are listed, expected {}", names.len(), exp.len());
            }
            8 => {
                // everything, in a random order, so that everything is loaded and evicted
                for _ in 0..ctx.rng.range(1, 3) {
                    let k = ctx.rng.below(c.archs.len());
                    for j in 0..c.archs.len() {
                        let i = (j * 5 + k) % c.archs.len();
                        let a = &c.archs[i];
                        judge(&format!("reading #{i}"), rt.block_on(ask(&c.lru, a.id, Q::Whole)), &expect(Some(a), Q::Whole))?;
                    }
                    c.memory(ctx, "after reading everything")?;
                }
            }
            _ => c.one(ctx)?,
        }
        c.memory(ctx, "at rest")?;
    }
    let total: usize = c.archs.iter().map(|a| a.bytes.len()).sum();
    if total > c.limit << 20 {
        ctx.stats.add("more_than_fits", 1);
    }
    ctx.nontrivial = c.archs.len() > 1;
    let _ = std::fs::remove_dir_all(&c.tmp);
    Ok(())
}

/// Many readers at once, with writers, failing loads and readers that give up.
fn many(ctx: &mut Ctx) -> R<()> {
    let c = Case::new(ctx)?;
    ctx.t("many readers".into());
    let rt = ctx.rt.clone();
    let n = ctx.rng.range(2, 16);
    let per = ctx.rng.range(2, 12);
    let hot = ctx.rng.below(c.archs.len());
    let fails = ctx.rng.chance(1, 3);
    let give_up = ctx.rng.chance(1, 2);
    c.origin.h.delay.store(*ctx.rng.pick(&[50, 300, 1500]), SeqCst);
    // layers that are stored while others already ask for them
    let mut late: Vec<(Arch, Arc<std::sync::atomic::AtomicBool>)> = vec![];
    for _ in 0..ctx.rng.below(3) {
        let id: Name = std::array::from_fn(|_| ctx.rng.next() as u32);
        let size = c.pick_size(&mut ctx.rng);
        let (files, parent) = some_files(&mut ctx.rng, &[], size);
        let bytes = archive(ctx, &c.tmp.clone(), id, &files)?;
        late.push((Arch { id, files, bytes, rollup: None, parent }, Default::default()));
    }
    let c = Arc::new(c);
    let late = Arc::new(late);
    let panics = orch::panics();
    let loads = c.origin.h.loads.load(SeqCst);
    let mut tasks = vec![];
    for k in 0..n {
        let mut rng = Rng::new(ctx.rng.next());
        let c = c.clone();
        let late = late.clone();
        tasks.push(rt.spawn(async move {
            let mut done = 0u64;
            let mut seen_fail = 0u64;
            let mut gave_up = 0u64;
            if k < late.len() {
                let (a, stored) = &late[k];
                for _ in 0..rng.below(4) {
                    tokio::task::yield_now().await;
                }
                loop {
                    let b = held(&a.bytes, &c.origin.live);
                    match c.lru.store_layer_file(a.id, b).await {
                        Ok(()) => break,
                        Err(e) if e.to_string() == "injected" => seen_fail += 1,
                        Err(e) => viol!("storing an archive while others read: {e}"),
                    }
                }
                stored.store(true, SeqCst);
            }
            for _ in 0..per {
                if fails && rng.chance(1, 6) {
                    *c.origin.h.fail.lock().unwrap() = Some((rng.range(1, 3), *rng.pick(&KINDS)));
                }
                let l = if late.is_empty() || rng.chance(2, 3) { None } else { Some(rng.below(late.len())) };
                let i = if rng.chance(1, 2) { hot } else { rng.below(c.archs.len()) };
                let a = match l {
                    Some(l) => &late[l].0,
                    None => &c.archs[i],
                };
                let q = pick_q(&mut rng, Some(a));
                let there = match l {
                    Some(l) => late[l].1.load(SeqCst),
                    None => true,
                };
                let failed = c.origin.h.failed.load(SeqCst);
                let r = if give_up && rng.chance(1, 3) {
                    let d = std::time::Duration::from_micros(rng.below(400) as u64);
                    match tokio::time::timeout(d, ask(&c.lru, a.id, q)).await {
                        Ok(r) => r,
                        Err(_) => {
                            gave_up += 1;
                            continue;
                        }
                    }
                } else {
                    ask(&c.lru, a.id, q).await
                };
                done += 1;
                let exp = expect(Some(a), q);
                let what = format!("{q:?} of {} by one of {n} readers", if l.is_some() { "a layer stored meanwhile".into() } else { format!("#{i}") });
                match r {
                    Err(_) if c.origin.h.failed.load(SeqCst) > failed => seen_fail += 1,
                    // somebody else's load may have failed before we asked
                    Err(e) if fails && (e.to_string() == "injected" || e.to_string() == "layer resolve failed") => seen_fail += 1,
                    r if there => judge(&what, r, &exp)?,
                    r => {
                        // either as if it weren't there or as if it were
                        let old = expect(None, q);
                        if let Err(e) = r {
                            ensure!(matches!(old, Expect::Fails) || matches!(exp, Expect::Fails), "{what}: {e}");
                        } else {
                            let r2 = match &r {
                                Ok(Got::Flag(b)) => matches!(old, Expect::Flag(x) if x == *b),
                                Ok(Got::Id(b)) => matches!(old, Expect::Id(x) if x == *b),
                                _ => false,
                            };
                            if !r2 {
                                judge(&what, r, &exp)?;
                            }
                        }
                    }
                }
                if rng.chance(1, 4) {
                    tokio::task::yield_now().await;
                }
            }
            Ok::<_, Fail>((done, seen_fail, gave_up))
        }));
    }
    let mut res = Ok(());
    for t in tasks {
        match rt.block_on(t) {
            Ok(Ok((d, f, g))) => {
                ctx.stats.add("concurrent_questions", d);
                ctx.stats.add("failing_loads_reported", f);
                ctx.stats.add("readers_abandoned", g);
            }
            Ok(Err(e)) => res = Err(e),
            Err(e) => {
                if e.is_panic() {
                    let (m, ours) = orch::last_panic().unwrap_or_default();
                    if ours {
                        return Err(Fail::Harness(m));
                    }
                    res = Err(Fail::Viol(format!("a reader among {n} panicked: {m}")));
                } else {
                    return Err(Fail::Harness(format!("{e}")));
                }
            }
        }
    }
    res?;
    if orch::panics() != panics {
        let (m, _) = orch::last_panic().unwrap_or_default();
        viol!("the library panicked: {m}");
    }
    c.origin.h.delay.store(0, SeqCst);
    *c.origin.h.fail.lock().unwrap() = None;
    let loads = c.origin.h.loads.load(SeqCst) - loads;
    ctx.stats.add("concurrent_loads", loads as u64);
    ctx.stats.add("overlapping_loads", c.origin.h.overlaps.load(SeqCst) as u64);
    c.memory(ctx, "after many readers")?;
    // and now all of it is right, nothing of the failures is remembered
    for (i, a) in c.archs.iter().chain(late.iter().map(|l| &l.0)).enumerate() {
        for q in [Q::Whole, Q::Exists, Q::LayerSize, Q::Parent] {
            judge(&format!("{q:?} of #{i} after {n} readers"), rt.block_on(ask(&c.lru, a.id, q)), &expect(Some(a), q))?;
        }
        c.memory(ctx, "after many readers and one more")?;
    }
    ctx.nontrivial = n > 1;
    Ok(())
}

pub fn register(v: &mut Vec<Prop>) {
    v.push(Prop {
        id: "C17",
        case: c17,
        rule: "random sequences of reads (whole archives, parts, parts from every kind of offset, sizes, existence, parents, rollups, through the backend and through the files of a layer store), writes, rewrites, failing loads and abandoned readers on the caching backend over real archives of up to 1.3 MB with limits of 0 to 3 MB, by one reader or by 2 to 16 at once with random delays; every answer is compared with what was written and with the uncached backend; the memory retained is counted through the buffers handed to the cache. A case is distinct by its operations, sizes and limit",
        assumptions: &["memory is what the cache keeps of the buffers it was given; bookkeeping is not counted"],
        must_observe: &["questions", "answered_from_the_cache", "loaded", "memory_checks_with_something_retained", "more_than_fits", "failing_loads_reported", "readers_abandoned", "concurrent_questions", "overlapping_loads", "stored_again"],
        ..BASE
    });
}
