//! Dumps and reloads: element types, small histories, scratch directories, interposed file calls.
use crate::ctx::*;
use crate::hist::tie_free;
use crate::util::*;
use anndists::dist::distances::Distance;
use hnsw_rs::prelude::*;
use mcctl::rng;
use serde::{de::DeserializeOwned, Serialize};
use std::cell::{Cell, RefCell};
use std::mem::ManuallyDrop;
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;

pub trait El: 'static + Copy + Send + Sync + std::fmt::Debug + PartialEq + Serialize + DeserializeOwned + Default {
    fn of(x: u32) -> Self;
    fn f(self) -> f32;
    const TN: &'static str;
}
/// Sum of absolute differences (and of what one vector has beyond the other): exact on the values used.
#[derive(Clone, Copy, Default)]
pub struct G;
/// values from here on, up to the next bound, are small fractions if the type has them
pub const SMALL: u32 = 0x6000_0000;
/// values from here on stand for the extreme values of the type
pub const SPECIAL: u32 = 0x7000_0000;
macro_rules! els { ($($t:ty: $($s:expr),*;)*) => { $(
    impl El for $t {
        fn of(x: u32) -> Self {
            if x < SMALL {
                return x as $t;
            }
            if x < SPECIAL {
                // 0 for the integer types, unless the unit is 1
                let unit = if (0.5 as $t) == (0 as $t) { 1. } else { (0.5f64).powi(40) };
                return (((x - SMALL) as f64) * unit) as $t;
            }
            let s = [$($s as $t),*];
            s[(x - SPECIAL) as usize % s.len()]
        }
        fn f(self) -> f32 { self as f32 }
        const TN: &'static str = stringify!($t);
    }
    impl Distance<$t> for G {
        fn eval(&self, a: &[$t], b: &[$t]) -> f32 { gdist(a, b) }
    }
)* } }
els! {
    f32: -0.0, f32::MIN_POSITIVE, 1e-45, f32::EPSILON, -1.5, 16777217., 1e38, f32::from_bits(0x3f80_0001), f32::from_bits(0x807f_ffff);
    u8: u8::MAX, u8::MAX - 1, 128, 0;
    u16: u16::MAX, u16::MAX - 1, 0x8000, 0xff, 0x100;
    u32: u32::MAX, u32::MAX - 1, 1u32 << 31, 0xffff, 0x10000;
    i32: -1, i32::MIN, i32::MAX, -2, 0x10000;
    i16: -1, i16::MIN, i16::MAX, 0xff, 0x100;
    i8: -1, i8::MIN, i8::MAX, -127;
    f64: -0.0, f64::MIN_POSITIVE, 5e-324, f64::EPSILON, -1.5, 9007199254740993i64, 1e38, 0.1, 1. / 3.;
    u64: u64::MAX, u64::MAX - 1, 1u64 << 63, 0xffff_ffffu64, 1u64 << 32, (1u64 << 53) + 1;
    i64: -1, i64::MIN, i64::MAX, i64::MIN + 1, 1i64 << 32, (1i64 << 53) + 1;
}

pub fn gdist<T: El>(a: &[T], b: &[T]) -> f32 {
    let n = a.len().min(b.len());
    let s: f32 = a.iter().zip(b).map(|(x, y)| (x.f() - y.f()).abs()).sum();
    s + a[n..].iter().chain(&b[n..]).map(|x| x.f() + 0.5).sum::<f32>()
}

pub fn dist_name() -> &'static str {
    std::any::type_name::<G>()
}

/// runs `$f::<T>($args)` for the type with this number
macro_rules! for_type {
    ($n:expr, $f:ident ( $($a:expr),* )) => {
        match $n {
            0 => $f::<f32>($($a),*),
            1 => $f::<u8>($($a),*),
            2 => $f::<u16>($($a),*),
            3 => $f::<i32>($($a),*),
            4 => $f::<u32>($($a),*),
            5 => $f::<i8>($($a),*),
            6 => $f::<i16>($($a),*),
            7 => $f::<f64>($($a),*),
            8 => $f::<u64>($($a),*),
            _ => $f::<i64>($($a),*),
        }
    };
}
pub(crate) use for_type;
pub const NTYPES: usize = 10;
/// types whose alignment is at most 4: the first ones
pub const NTYPES_MAP: usize = 7;
pub const TNAMES: [&str; NTYPES] = ["f32", "u8", "u16", "i32", "u32", "i8", "i16", "f64", "u64", "i64"];

#[derive(Clone, Debug)]
pub struct IoHist {
    pub name: String,
    pub ty: usize,
    pub m: usize,
    pub efc: usize,
    pub ext: bool,
    pub keep: bool,
    pub scale: Option<f64>,
    /// id, values, level
    pub pts: Vec<(usize, Vec<u32>, usize)>,
    pub queries: Vec<Vec<u32>>,
    pub ties: bool,
}

pub fn conv<T: El>(v: &[u32]) -> Vec<T> {
    v.iter().map(|x| T::of(*x)).collect()
}

impl IoHist {
    pub fn key(&self) -> String {
        let lv: Vec<String> = self.pts.iter().map(|p| format!("{}@{}", p.0, p.2)).collect();
        format!("{}:{}:M{}ef{}{}{}{}:{}", self.name, TNAMES[self.ty], self.m, self.efc, if self.ext { "x" } else { "" },
            if self.keep { "k" } else { "" }, self.scale.map(|s| format!("s{}", s)).unwrap_or_default(),
            if lv.len() > 12 { format!("{}pts", lv.len()) } else { lv.join(",") })
    }
    pub fn raw(&self, i: usize) -> u64 {
        raw_level_scale(self.pts[i].2, self.m, self.scale)
    }
    pub fn empty<T: El>(&self) -> Hnsw<'static, T, G>
    where
        G: Distance<T>,
    {
        let mut h = Hnsw::<T, G>::new(self.m, self.pts.len().max(1), 16, self.efc, G);
        h.set_extend_candidates(self.ext);
        h.set_keeping_pruned(self.keep);
        if let Some(s) = self.scale {
            h.modify_level_scale(s);
        }
        h
    }
    pub fn insert<T: El>(&self, h: &Hnsw<'static, T, G>, i: usize)
    where
        G: Distance<T>,
    {
        let p = &self.pts[i];
        rng::force(Some(self.raw(i)));
        h.insert((&conv::<T>(&p.1), p.0));
        rng::force(None);
    }
    pub fn build<T: El>(&self) -> Hnsw<'static, T, G>
    where
        G: Distance<T>,
    {
        let h = self.empty::<T>();
        for i in 0..self.pts.len() {
            self.insert(&h, i);
        }
        h
    }
    pub fn queries<T: El>(&self) -> Vec<Vec<T>> {
        self.queries.iter().map(|q| conv::<T>(q)).collect()
    }
}

pub fn raw_level_scale(level: usize, m: usize, s: Option<f64>) -> u64 {
    if m == 1 {
        return raw_for_level(level, 1);
    }
    let x = (-(level as f64 + 0.5) * (m as f64).ln() / s.unwrap_or(1.).clamp(0.2, 1.)).exp();
    raw_for_xsi(x)
}

pub const IDS: [usize; 9] = [4, 0, 17, usize::MAX, 1 << 33, 9, 250, 3, 12];

fn hist(name: &str, ty: usize, m: usize, efc: usize, pts: &[Vec<u32>], levels: &[usize], order: &[usize], queries: &[Vec<u32>]) -> IoHist {
    IoHist {
        name: name.into(),
        ty,
        m,
        efc,
        ext: false,
        keep: false,
        scale: None,
        pts: order.iter().zip(levels).map(|(&i, &l)| (if i < 9 { IDS[i] } else { 1000 + i }, pts[i].clone(), l)).collect(),
        queries: queries.to_vec(),
        ties: false,
    }
}

fn v2(p: &[[f32; 2]]) -> Vec<Vec<u32>> {
    p.iter().map(|x| vec![x[0] as u32, x[1] as u32]).collect()
}

/// a longer history: dumps over several write buffers
pub fn big(ty: usize, n: usize, dim: usize, m: usize, seed: u32) -> IoHist {
    let mut x = seed.wrapping_mul(2654435761) | 1;
    let mut r = |k: u32| {
        x ^= x << 13;
        x ^= x >> 17;
        x ^= x << 5;
        (x >> 8) % k
    };
    let pts: Vec<Vec<u32>> = (0..n).map(|_| (0..dim).map(|_| r(100)).collect()).collect();
    let levels: Vec<usize> = (0..n).map(|_| if r(5) > 0 { 0 } else if r(4) > 0 { 1 } else { 2 }).collect();
    let q = (0..3).map(|_| (0..dim).map(|_| r(100)).collect()).collect::<Vec<_>>();
    let mut h = hist(&format!("big{}d{}", n, dim), ty, m, 2 * m, &pts, &levels, &(0..n).collect::<Vec<_>>(), &q);
    h.ties = true;
    h
}

/// the histories of the dump and reload checks
pub fn io_hists(thorough: bool, ntypes: usize) -> Vec<IoHist> {
    let (p, q) = tie_free(5, 2, 5);
    let (p, q) = (v2(&p), v2(&q));
    let mut v = Vec::new();
    for ty in 0..ntypes {
        let lim = |s: &[Vec<u32>]| s.iter().map(|x| x.iter().map(|y| y % 128).collect()).collect::<Vec<Vec<u32>>>();
        let (p, q) = (lim(&p), lim(&q));
        let full = thorough || ty < 2;
        for n in 1..=5usize {
            let b = match n {
                1 => 16,
                2 => 5,
                3 => if full { 4 } else { 3 },
                4 => if full { 3 } else { 2 },
                _ => if thorough { 3 } else { 2 },
            };
            let orders = if n == 3 || (full && n == 4) || (thorough && n == 5) { permutations(n) } else { vec![(0..n).collect()] };
            for o in &orders {
                for w in words(n, b) {
                    for (m, efc) in [(2usize, 4usize), (3, 8)] {
                        v.push(hist("io", ty, m, efc, &p, &w, o, &q));
                    }
                }
            }
        }
        // dimensions, vectors of different lengths
        for d in [0usize, 1, 3, 4, 7, 16] {
            let pts: Vec<Vec<u32>> = (0..4u32).map(|i| (0..d as u32).map(|j| (i * 37 + j * j * 11 + i * i * 5) % 120).collect()).collect();
            for w in words(4, if full { 2 } else { 1 }) {
                let mut h = hist(&format!("dim{}", d), ty, 4, 8, &pts, &w, &[0, 1, 2, 3], &pts[..2]);
                h.ties = true;
                v.push(h);
            }
        }
        for ls in [[1usize, 2, 3], [3, 2, 1], [2, 0, 5], [0, 3, 3], [5, 1, 0]] {
            let pts: Vec<Vec<u32>> = ls.iter().enumerate().map(|(i, &d)| (0..d as u32).map(|j| (i as u32 * 29 + j * 13 + 1) % 120).collect()).collect();
            for w in words(3, 2) {
                for o in permutations(3) {
                    let mut h = hist(&format!("len{}{}{}", ls[0], ls[1], ls[2]), ty, 3, 6, &pts, &w, &o, &pts);
                    h.ties = true;
                    v.push(h);
                }
            }
        }
        // extreme values
        for d in [1u32, 3, 9] {
            let pts: Vec<Vec<u32>> = (0..6u32).map(|i| (0..d).map(|j| if (i + j) % 3 == 0 { i * 20 + j } else { SPECIAL + i * 7 + j * 2 }).collect()).collect();
            for w in words(3, 2) {
                let w: Vec<usize> = w.iter().chain(&w).copied().collect();
                let mut h = hist(&format!("ext{}", d), ty, 4, 8, &pts, &w, &[0, 1, 2, 3, 4, 5], &pts[..3]);
                h.ties = true;
                v.push(h);
            }
        }
        if ty == 0 || ty == 7 {
            let small = |s: &[Vec<u32>]| s.iter().map(|x| x.iter().map(|y| SMALL + y).collect()).collect::<Vec<Vec<u32>>>();
            for n in [3usize, 5] {
                for w in words(n, if n == 3 { 3 } else { 2 }) {
                    v.push(hist("small", ty, 2, 6, &small(&p), &w, &(0..n).rev().collect::<Vec<_>>(), &small(&q)));
                }
            }
        }
        // level scale, settings
        for s in [1., 0.5, 0.2, 0.1, 3.] {
            for w in words(3, 2) {
                let mut h = hist("scale", ty, 4, 7, &p, &w, &[0, 1, 2], &q);
                h.scale = Some(s);
                v.push(h);
            }
        }
        for (m, efc) in [(1usize << 7, 1), (255, 400), (5, 1), (16, 3), (1, 3), (2, 0)] {
            v.push(hist("conf", ty, m, efc, &p, &[0, 1, 0, 0], &[3, 1, 2, 0], &q));
        }
        v.push(big(ty, 40, 9, 4, 7 + ty as u32));
        if full {
            v.push(big(ty, 150, 33, 8, 3));
        }
    }
    v.extend(sizes(thorough, ntypes));
    v
}

/// histories in which points share their id: what is kept must be kept by place
pub fn dup_hists(thorough: bool, ntypes: usize) -> Vec<IoHist> {
    let (p, q) = tie_free(5, 2, 5);
    let (p, q) = (v2(&p), v2(&q));
    let mut v = Vec::new();
    for ty in 0..ntypes {
        for n in 2..=if thorough { 5usize } else { 4 } {
            if ty >= 2 && n == 4 && !thorough {
                continue;
            }
            for w in words(n, if n <= 3 { 4 } else if thorough { 3 } else { 2 }) {
                for k in [1usize, 2] {
                    let mut h = hist(&format!("dup{}", k), ty, 2, 4, &p, &w, &(0..n).collect::<Vec<_>>(), &q);
                    for (i, x) in h.pts.iter_mut().enumerate() {
                        x.0 = i % k;
                    }
                    v.push(h);
                }
            }
        }
    }
    v
}

/// every number of points up to a bound, every vector length up to a bound, and some beyond
fn sizes(thorough: bool, ntypes: usize) -> Vec<IoHist> {
    let mut v = Vec::new();
    let ns: Vec<usize> = (1..=if thorough { 130 } else { 66 }).chain([100, 127, 128, 129, 130, 200, 255, 256, 257, 258, 300]).chain(if thorough { vec![512, 513, 1000] } else { vec![] }).collect();
    for n in ns {
        let m = [2, 3, 4, 5, 8, 16, 40][n % 7];
        let mut h = big(n % ntypes, n, 1 + n % 9, m, 50 + n as u32);
        h.name = format!("sz{}", n);
        h.efc = [2 * m, m, 1, m / 2 + 1, 60][n % 5];
        h.ext = n % 4 == 1;
        h.keep = n % 3 == 1;
        for (i, p) in h.pts.iter_mut().enumerate() {
            p.0 = match i % 8 {
                7 => usize::MAX - i,
                5 => (1 << 32) + i,
                3 => (1 << 16) + i,
                _ => (i * 3) ^ 1,
            };
        }
        v.push(h);
    }
    for (m, efc, n) in if thorough { vec![(130, 140, 280), (255, 300, 540), (200, 16, 300), (255, 20, 300)] } else { vec![(130, 140, 280), (255, 20, 100)] } {
        let mut h = big(n % ntypes.min(3), n, 3, m, 5 + n as u32);
        h.name = format!("wide{}", n);
        h.efc = efc;
        v.push(h);
    }
    let ds: Vec<usize> = (0..=70).chain([100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 8193, 16384, 65535, 65536, 65537]).collect();
    for d in ds {
        let pts: Vec<Vec<u32>> = (0..3u32).map(|i| (0..d as u32).map(|j| (i * 37 + (j % 1000) * (j % 1000) * 11 + i * i * 5 + j) % 120).collect()).collect();
        let mut h = hist(&format!("vec{}", d), d % ntypes, 4, 8, &pts, &[0, 1, 0], &[0, 1, 2], &pts[..2]);
        h.ties = true;
        v.push(h);
    }
    v
}

// ------------------------------------------------------------------------------------------------

static BASE: OnceLock<PathBuf> = OnceLock::new();
static NEXT: AtomicU64 = AtomicU64::new(0);

/// the scratch directory of this run, which is also the working directory
pub fn base() -> &'static Path {
    BASE.get_or_init(|| {
        for root in ["/dev/shm", "/tmp"] {
            let p = PathBuf::from(format!("{}/mc-{}-{}", root, std::process::id(), std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().subsec_nanos()));
            if std::fs::create_dir(&p).is_ok() {
                // room for the files?
                let probe = p.join("probe");
                if std::fs::write(&probe, vec![1u8; 1 << 20]).is_ok() {
                    let _ = std::fs::remove_file(&probe);
                    std::env::set_current_dir(&p).unwrap();
                    return p;
                }
                let _ = std::fs::remove_dir_all(&p);
            }
        }
        panic!("no scratch directory");
    })
}
pub fn cleanup() {
    if let Some(b) = BASE.get() {
        let _ = std::env::set_current_dir("/");
        let _ = std::fs::remove_dir_all(b);
    }
}

/// a fresh directory, removed with its content at the end of the case
pub struct Dir {
    pub rel: String,
    pub abs: PathBuf,
}
impl Dir {
    pub fn new() -> Dir {
        let rel = format!("d{}", NEXT.fetch_add(1, Ordering::Relaxed));
        let abs = base().join(&rel);
        std::fs::create_dir(&abs).unwrap();
        Dir { rel, abs }
    }
    /// a name of this directory that is not text
    pub fn odd(&self) -> PathBuf {
        use std::os::unix::ffi::OsStrExt;
        let mut n = self.rel.clone().into_bytes();
        n.extend([b'-', 0xff, 0xfe]);
        let l = base().join(std::ffi::OsStr::from_bytes(&n));
        if std::fs::symlink_metadata(&l).is_err() {
            let _ = std::os::unix::fs::symlink(&self.abs, &l);
        }
        l
    }
    pub fn graph(&self, n: &str) -> PathBuf {
        self.abs.join(format!("{}.hnsw.graph", n))
    }
    pub fn data(&self, n: &str) -> PathBuf {
        self.abs.join(format!("{}.hnsw.data", n))
    }
    pub fn put(&self, n: &str, g: &[u8], d: &[u8]) {
        std::fs::write(self.graph(n), g).unwrap();
        std::fs::write(self.data(n), d).unwrap();
    }
    pub fn get(&self, n: &str) -> (Vec<u8>, Vec<u8>) {
        (std::fs::read(self.graph(n)).unwrap_or_default(), std::fs::read(self.data(n)).unwrap_or_default())
    }
    /// names and contents of all files
    pub fn list(&self) -> std::collections::BTreeMap<String, Vec<u8>> {
        let mut m = std::collections::BTreeMap::new();
        for e in std::fs::read_dir(&self.abs).unwrap() {
            let e = e.unwrap();
            m.insert(e.file_name().to_string_lossy().into_owned(), std::fs::read(e.path()).unwrap());
        }
        m
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        if self.rel.is_empty() {
            return;
        }
        use std::os::unix::ffi::OsStrExt;
        let mut n = self.rel.clone().into_bytes();
        n.extend([b'-', 0xff, 0xfe]);
        let _ = std::fs::remove_file(base().join(std::ffi::OsStr::from_bytes(&n)));
        let _ = std::fs::remove_dir_all(&self.abs);
    }
}

/// a reloaded index with its loader
pub struct Loaded<T: El, D: Distance<T> + Send + Sync + 'static> {
    h: ManuallyDrop<Hnsw<'static, T, D>>,
    io: *mut HnswIo,
}
impl<T: El, D: Distance<T> + Send + Sync> Loaded<T, D> {
    pub fn h(&self) -> &Hnsw<'static, T, D> {
        &self.h
    }
    pub fn hm(&mut self) -> &mut Hnsw<'static, T, D> {
        &mut self.h
    }
}
impl<T: El, D: Distance<T> + Send + Sync> Drop for Loaded<T, D> {
    fn drop(&mut self) {
        unsafe {
            ManuallyDrop::drop(&mut self.h);
            drop(Box::from_raw(self.io));
        }
    }
}

/// `mmap`: None for a plain reload, or the threshold
pub fn load<T: El, D: Distance<T> + Default + Send + Sync + 'static>(dir: &Path, name: &str, mmap: Option<usize>) -> Result<Loaded<T, D>, String> {
    ctx().count("reloads", 1);
    let mut io = HnswIo::new(dir, name);
    if let Some(t) = mmap {
        io.set_options(ReloadOptions::new(true).set_mmap_threshold(t));
    }
    let io = Box::into_raw(Box::new(io));
    let r: Result<Hnsw<'static, T, D>, _> = unsafe { (*io).load_hnsw::<T, D>() };
    match r {
        Ok(h) => Ok(Loaded { h: ManuallyDrop::new(h), io }),
        Err(e) => {
            unsafe { drop(Box::from_raw(io)) };
            Err(e.to_string())
        }
    }
}
pub fn load_with<T: El, D: Distance<T> + Send + Sync + 'static>(dir: &Path, name: &str, d: D) -> Result<Loaded<T, D>, String> {
    ctx().count("reloads", 1);
    let io = Box::into_raw(Box::new(HnswIo::new(dir, name)));
    let r: Result<Hnsw<'static, T, D>, _> = unsafe { (*io).load_hnsw_with_dist::<T, D>(d) };
    match r {
        Ok(h) => Ok(Loaded { h: ManuallyDrop::new(h), io }),
        Err(e) => {
            unsafe { drop(Box::from_raw(io)) };
            Err(e.to_string())
        }
    }
}
/// reload of the graph alone
pub fn load_graph(dir: &Path, name: &str) -> Result<Hnsw<'static, NoData, NoDist>, String> {
    ctx().count("reloads", 1);
    let io: &'static mut HnswIo = Box::leak(Box::new(HnswIo::new(dir, name)));
    let p: *mut HnswIo = io;
    let r = unsafe { (*p).load_hnsw::<NoData, NoDist>() }.map_err(|e| e.to_string());
    // nothing of the loader is used by an index without data
    unsafe { drop(Box::from_raw(p)) };
    r
}

/// lists with entries at equal distances put in one order
pub fn canon<T: Clone>(s: &Snap<T>) -> Snap<T> {
    let mut s = s.clone();
    for p in s.layers.iter_mut().flatten() {
        for l in p.nb.iter_mut() {
            l.sort_by(|a, b| a.1.partial_cmp(&b.1).unwrap().then(a.2.cmp(&b.2)));
        }
    }
    s
}

pub fn same_graph<A: Clone, B: Clone>(a: &Snap<A>, b: &Snap<B>) -> R {
    let (ta, tb) = (canon(a).text(), canon(b).text());
    // lists stay in order
    for p in b.points() {
        for l in &p.nb {
            ensure!(l.windows(2).all(|w| w[0].1 <= w[1].1), "point {}: neighbours not in order after reload {:?}", p.id, l);
        }
    }
    ensure!(ta == tb, "original\n{}reloaded\n{}", short(&ta), short(&tb));
    Ok(())
}
pub fn short(s: &str) -> String {
    s.chars().take(1200).collect()
}

/// the reloaded index `b` is the index `a`
pub fn same_index<T, D1, D2>(a: &Hnsw<T, D1>, b: &Hnsw<T, D2>, queries: &[Vec<T>], ties: bool) -> R
where
    T: El,
    D1: Distance<T> + Send + Sync,
    D2: Distance<T> + Send + Sync,
{
    let (sa, sb) = (snap(a), snap(b));
    same_graph(&sa, &sb)?;
    for (x, y) in sa.points().zip(sb.points()) {
        ensure!(x.v == y.v, "point {}: vector {:?} reloaded as {:?}", x.id, x.v, y.v);
    }
    same_params(a, b)?;
    same_answers(a, b, queries, ties)
}
pub fn same_params<T1, T2, D1, D2>(a: &Hnsw<T1, D1>, b: &Hnsw<T2, D2>) -> R
where
    T1: Clone + Send + Sync,
    T2: Clone + Send + Sync,
    D1: Distance<T1> + Send + Sync,
    D2: Distance<T2> + Send + Sync,
{
    ensure!(a.get_nb_point() == b.get_nb_point(), "{} points, reloaded {}", a.get_nb_point(), b.get_nb_point());
    let (pa, pb) = (a.get_point_indexation(), b.get_point_indexation());
    ensure!(pa.get_nb_point() == pb.get_nb_point(), "{} points, reloaded {}", pa.get_nb_point(), pb.get_nb_point());
    ensure!(a.get_max_nb_connection() == b.get_max_nb_connection(), "max_nb_connection {} reloaded as {}", a.get_max_nb_connection(), b.get_max_nb_connection());
    ensure!(a.get_ef_construction() == b.get_ef_construction(), "ef_construction {} reloaded as {}", a.get_ef_construction(), b.get_ef_construction());
    ensure!(a.get_max_level() == b.get_max_level(), "number of layers {} reloaded as {}", a.get_max_level(), b.get_max_level());
    ensure!(a.get_max_level_observed() == b.get_max_level_observed(), "highest layer {} reloaded as {}", a.get_max_level_observed(), b.get_max_level_observed());
    let (la, lb) = (pa.get_level_scale(), pb.get_level_scale());
    ensure!(la == lb || (la - lb).abs() <= 1e-12 * la.abs(), "level scale {} reloaded as {}", la, lb);
    Ok(())
}
pub fn same_answers<T, D1, D2>(a: &Hnsw<T, D1>, b: &Hnsw<T, D2>, queries: &[Vec<T>], ties: bool) -> R
where
    T: El,
    D1: Distance<T> + Send + Sync,
    D2: Distance<T> + Send + Sync,
{
    let n = a.get_nb_point();
    for q in queries {
        for (k, ef) in [(1, 1), (2, 2), (n.min(10), n.min(10) + 1)] {
            let (x, y) = (nbs(&a.search(q, k, ef)), nbs(&b.search(q, k, ef)));
            let same = if ties { x.iter().map(|r| r.1).eq(y.iter().map(|r| r.1)) } else { x == y };
            ensure!(same, "query {:?} k={} ef={}: answer {:?}, after reload {:?}", q, k, ef, x, y);
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------
// file calls of the thread under test

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    None,
    /// the device is full after this number of bytes
    Full(usize),
    /// this write call fails once with this errno
    Once(usize, i32),
    /// write calls accept at most this number of bytes
    Short(usize),
    /// this open call fails with this errno
    Open(usize, i32),
}
#[derive(Clone, Debug)]
pub enum FOp {
    Open(String, bool),
    Write(usize, Vec<u8>),
}
pub struct FState {
    fault: Fault,
    bytes: usize,
    writes: usize,
    opens: usize,
    fds: Vec<i32>,
    pub log: Vec<FOp>,
    pub fired: bool,
}
thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static FS: RefCell<FState> = const { RefCell::new(FState { fault: Fault::None, bytes: 0, writes: 0, opens: 0, fds: Vec::new(), log: Vec::new(), fired: false }) };
}
pub struct FLog {
    pub log: Vec<FOp>,
    pub bytes: usize,
    pub writes: usize,
    pub opens: usize,
    pub fired: bool,
}
/// runs `f` with the fault injected in the file calls of this thread
pub fn with_fault<V>(fault: Fault, f: impl FnOnce() -> V) -> (std::thread::Result<V>, FLog) {
    FS.with(|s| *s.borrow_mut() = FState { fault, bytes: 0, writes: 0, opens: 0, fds: vec![], log: vec![], fired: false });
    ARMED.with(|a| a.set(true));
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
    ARMED.with(|a| a.set(false));
    let l = FS.with(|s| {
        let mut s = s.borrow_mut();
        FLog { log: std::mem::take(&mut s.log), bytes: s.bytes, writes: s.writes, opens: s.opens, fired: s.fired }
    });
    (r, l)
}

fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e };
}

/// file calls of controlled threads are scheduling points
pub static FILE_EVENTS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
fn file_event() {
    if FILE_EVENTS.load(Ordering::Relaxed) {
        mcctl::touch(17, mcctl::Kind::Write);
    }
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const libc::c_char, b: *const libc::c_char) -> i32 {
    file_event();
    unsafe { libc::syscall(libc::SYS_rename, a, b) as i32 }
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const libc::c_char) -> i32 {
    file_event();
    unsafe { libc::syscall(libc::SYS_unlink, a) as i32 }
}

#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
    if fd > 2 {
        file_event();
    }
    let armed = ARMED.try_with(|a| a.get()).unwrap_or(false);
    if !armed || fd <= 2 {
        return unsafe { libc::syscall(libc::SYS_write, fd, buf, n) } as isize;
    }
    ARMED.with(|a| a.set(false));
    let r = FS.with(|s| {
        let mut s = s.borrow_mut();
        let i = match s.fds.iter().position(|f| *f == fd) {
            Some(i) => i,
            None => return unsafe { libc::syscall(libc::SYS_write, fd, buf, n) } as isize,
        };
        let k = s.writes;
        s.writes += 1;
        let mut n = n;
        match s.fault {
            Fault::Full(b) => {
                if n > b - s.bytes {
                    s.fired = true;
                    n = b - s.bytes;
                    if n == 0 {
                        set_errno(libc::ENOSPC);
                        return -1;
                    }
                }
            }
            Fault::Once(j, e) if j == k => {
                s.fired = true;
                set_errno(e);
                return -1;
            }
            Fault::Short(m) => n = n.min(m),
            _ => {}
        }
        let w = unsafe { libc::syscall(libc::SYS_write, fd, buf, n) } as isize;
        if w > 0 {
            s.bytes += w as usize;
            let b = unsafe { std::slice::from_raw_parts(buf, w as usize) }.to_vec();
            s.log.push(FOp::Write(i, b));
        }
        w
    });
    ARMED.with(|a| a.set(true));
    r
}

unsafe fn do_open(dirfd: i32, path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    file_event();
    let armed = ARMED.try_with(|a| a.get()).unwrap_or(false);
    let writing = flags & (libc::O_WRONLY | libc::O_RDWR) != 0;
    if !armed || !writing {
        return unsafe { libc::syscall(libc::SYS_openat, dirfd, path, flags, mode) } as i32;
    }
    ARMED.with(|a| a.set(false));
    let r = FS.with(|s| {
        let mut s = s.borrow_mut();
        let k = s.opens;
        s.opens += 1;
        if let Fault::Open(j, e) = s.fault {
            if j == k {
                s.fired = true;
                set_errno(e);
                return -1;
            }
        }
        let fd = unsafe { libc::syscall(libc::SYS_openat, dirfd, path, flags, mode) } as i32;
        if fd >= 0 {
            let p = unsafe { std::ffi::CStr::from_ptr(path) }.to_string_lossy().into_owned();
            // a number used again: its writes belong to the new file
            for f in s.fds.iter_mut() {
                if *f == fd {
                    *f = -1;
                }
            }
            s.fds.push(fd);
            s.log.push(FOp::Open(p, flags & libc::O_TRUNC != 0));
        }
        fd
    });
    ARMED.with(|a| a.set(true));
    r
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    unsafe { do_open(libc::AT_FDCWD, path, flags, mode) }
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: i32, path: *const libc::c_char, flags: i32, mode: u32) -> i32 {
    unsafe { do_open(d, path, flags, mode) }
}
