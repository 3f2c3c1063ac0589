//! C19: the C interface, the trait and the slice variants against the core calls.
use crate::ctx::*;
use crate::iou::*;
use crate::util::*;
use anndists::dist::distances::*;
use hnsw_rs::hnswio::{load_description, HnswIo};
use hnsw_rs::libext::*;
use hnsw_rs::prelude::*;
use mcctl::rng;
use std::path::Path;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

#[repr(C)]
struct VecApi {
    len: i64,
    ptr: *const Neighbourhood_api,
}
type Loader<A> = unsafe extern "C" fn(*mut HnswIo) -> *const A;

pub trait CT: El {
    type Api;
    unsafe fn init(m: usize, ef: usize, n: &[u8]) -> *const Self::Api;
    /// with a number of elements and of layers
    unsafe fn init2(m: usize, ef: usize, n: &[u8], el: usize, la: usize) -> Option<*const Self::Api>;
    unsafe fn ptr(m: usize, ef: usize) -> *const Self::Api;
    unsafe fn insert(a: *const Self::Api, v: &[Self], id: usize);
    unsafe fn pinsert(a: *const Self::Api, v: &[(&Vec<Self>, usize)]);
    unsafe fn search(a: *const Self::Api, v: &[Self], k: usize, ef: usize) -> *const Neighbourhood_api;
    unsafe fn psearch(a: *const Self::Api, v: &[Vec<Self>], k: usize, ef: usize) -> *const std::ffi::c_void;
    /// the same calls on pointers as they are
    unsafe fn pinsert_at(a: *const Self::Api, p: &mut [*const Self], l: usize, ids: &[usize]);
    unsafe fn psearch_at(a: *const Self::Api, p: &mut [*const Self], l: usize, k: usize, ef: usize) -> *const std::ffi::c_void;
    unsafe fn dump(a: *const Self::Api, n: &[u8]) -> i64;
    fn loaders() -> Vec<(&'static str, Loader<Self::Api>)>;
    /// the distance given by a function pointer
    fn cdist() -> DistCFFI<Self>;
    unsafe fn free(a: *const Self::Api);
}
macro_rules! ct {
    ($t:ty, $api:ident, $init:ident, $init2:expr, $ptr:ident, $ins:ident, $pins:ident, $s:ident, $ps:ident, $d:ident, $cf:ident, $free:expr, [$(($n:expr, $l:ident)),*]) => {
        extern "C" fn $cf(a: *const $t, b: *const $t, n: u64) -> f32 {
            let (a, b) = unsafe { (std::slice::from_raw_parts(a, n as usize), std::slice::from_raw_parts(b, n as usize)) };
            gdist(a, b)
        }
        impl CT for $t {
            type Api = $api;
            unsafe fn init(m: usize, ef: usize, n: &[u8]) -> *const $api { unsafe { $init(m, ef, n.len(), n.as_ptr()) } }
            unsafe fn init2(m: usize, ef: usize, n: &[u8], el: usize, la: usize) -> Option<*const $api> {
                let f: Option<unsafe extern "C" fn(usize, usize, usize, *const u8, usize, usize) -> *const $api> = $init2;
                f.map(|f| unsafe { f(m, ef, n.len(), n.as_ptr(), el, la) })
            }
            unsafe fn ptr(m: usize, ef: usize) -> *const $api { $ptr(m, ef, $cf) }
            unsafe fn insert(a: *const $api, v: &[$t], id: usize) { unsafe { $ins(a as *mut _, v.len(), v.as_ptr(), id) } }
            unsafe fn pinsert(a: *const $api, v: &[(&Vec<$t>, usize)]) {
                let mut p: Vec<*const $t> = v.iter().map(|x| x.0.as_ptr()).collect();
                let i: Vec<usize> = v.iter().map(|x| x.1).collect();
                let l = v.first().map(|x| x.0.len()).unwrap_or(0);
                unsafe { $pins(a as *mut _, v.len(), l, p.as_mut_ptr(), i.as_ptr()) }
            }
            unsafe fn pinsert_at(a: *const $api, p: &mut [*const $t], l: usize, ids: &[usize]) { unsafe { $pins(a as *mut _, p.len(), l, p.as_mut_ptr(), ids.as_ptr()) } }
            unsafe fn psearch_at(a: *const $api, p: &mut [*const $t], l: usize, k: usize, ef: usize) -> *const std::ffi::c_void {
                unsafe { $ps(a, p.len(), l as _, p.as_mut_ptr(), k, ef) as *const std::ffi::c_void }
            }
            unsafe fn search(a: *const $api, v: &[$t], k: usize, ef: usize) -> *const Neighbourhood_api { unsafe { $s(a, v.len(), v.as_ptr(), k, ef) } }
            unsafe fn psearch(a: *const $api, v: &[Vec<$t>], k: usize, ef: usize) -> *const std::ffi::c_void {
                let mut p: Vec<*const $t> = v.iter().map(|x| x.as_ptr()).collect();
                let l = v.first().map(|x| x.len()).unwrap_or(0);
                unsafe { $ps(a, v.len(), l as _, p.as_mut_ptr(), k, ef) as *const std::ffi::c_void }
            }
            unsafe fn dump(a: *const $api, n: &[u8]) -> i64 { unsafe { $d(a, n.len(), n.as_ptr()) } }
            fn loaders() -> Vec<(&'static str, Loader<$api>)> { vec![$(($n, $l as Loader<$api>)),*] }
            fn cdist() -> DistCFFI<$t> { DistCFFI::<$t>::new($cf) }
            unsafe fn free(a: *const $api) {
                let f: unsafe fn(*const $api) = $free;
                unsafe { f(a) }
            }
        }
    };
}
unsafe fn own<A>(a: *const A) {
    drop(unsafe { Box::from_raw(a as *mut A) });
}
ct!(f32, HnswApif32, init_hnsw_f32, Some(new_hnsw_f32), init_hnsw_ptrdist_f32, insert_f32, parallel_insert_f32, search_neighbours_f32, parallel_search_neighbours_f32,
    file_dump_f32, cf_f32, |a| drop_hnsw_f32(a), [("DistL1", load_hnswdump_f32_DistL1), ("DistL2", load_hnswdump_f32_DistL2), ("DistCosine", load_hnswdump_f32_DistCosine),
    ("DistDot", load_hnswdump_f32_DistDot), ("DistJensenShannon", load_hnswdump_f32_DistJensenShannon), ("DistJeffreys", load_hnswdump_f32_DistJeffreys)]);
ct!(i32, HnswApii32, init_hnsw_i32, None, init_hnsw_ptrdist_i32, insert_i32, parallel_insert_i32, search_neighbours_i32, parallel_search_neighbours_i32,
    file_dump_i32, cf_i32, own::<HnswApii32>, [("DistL1", load_hnswdump_i32_DistL1), ("DistL2", load_hnswdump_i32_DistL2), ("DistHamming", load_hnswdump_i32_DistHamming)]);
ct!(u32, HnswApiu32, init_hnsw_u32, None, init_hnsw_ptrdist_u32, insert_u32, parallel_insert_u32, search_neighbours_u32, parallel_search_neighbours_u32,
    file_dump_u32, cf_u32, own::<HnswApiu32>, [("DistL1", load_hnswdump_u32_DistL1), ("DistL2", load_hnswdump_u32_DistL2), ("DistHamming", load_hnswdump_u32_DistHamming),
    ("DistJaccard", load_hnswdump_u32_DistJaccard)]);
ct!(u16, HnswApiu16, init_hnsw_u16, Some(new_hnsw_u16), init_hnsw_ptrdist_u16, insert_u16, parallel_insert_u16, search_neighbours_u16, parallel_search_neighbours_u16,
    file_dump_u16, cf_u16, |a| drop_hnsw_u16(a), [("DistL1", load_hnswdump_u16_DistL1), ("DistL2", load_hnswdump_u16_DistL2), ("DistHamming", load_hnswdump_u16_DistHamming),
    ("DistLevenshtein", load_hnswdump_u16_DistLevenshtein)]);
ct!(u8, HnswApiu8, init_hnsw_u8, None, init_hnsw_ptrdist_u8, insert_u8, parallel_insert_u8, search_neighbours_u8, parallel_search_neighbours_u8,
    file_dump_u8, cf_u8, own::<HnswApiu8>, [("DistL1", load_hnswdump_u8_DistL1), ("DistL2", load_hnswdump_u8_DistL2), ("DistHamming", load_hnswdump_u8_DistHamming),
    ("DistJaccard", load_hnswdump_u8_DistJaccard)]);

type Ans = Vec<(usize, u32)>;
fn of_core(v: &[Neighbour]) -> Ans {
    v.iter().map(|n| (n.d_id, n.distance.to_bits())).collect()
}
unsafe fn of_c(p: *const Neighbourhood_api) -> Ans {
    let n = unsafe { &*p };
    if n.nbgh == 0 {
        return vec![];
    }
    unsafe { std::slice::from_raw_parts(n.neighbours, n.nbgh as usize) }.iter().map(|x| (x.id, x.d.to_bits())).collect()
}
unsafe fn of_cs(p: *const std::ffi::c_void) -> Vec<Ans> {
    let v = unsafe { &*(p as *const VecApi) };
    (0..v.len as usize).map(|i| unsafe { of_c(v.ptr.add(i)) }).collect()
}

static N: AtomicU64 = AtomicU64::new(0);
/// a name of a dump in the working directory, whose files go away with it
struct Name(String);
impl Name {
    fn new() -> Name {
        Name(format!("c{}", N.fetch_add(1, Ordering::Relaxed)))
    }
    fn graph(&self) -> std::path::PathBuf {
        base().join(format!("{}.hnsw.graph", self.0))
    }
    fn data(&self) -> std::path::PathBuf {
        base().join(format!("{}.hnsw.data", self.0))
    }
}
impl Drop for Name {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(self.graph());
        let _ = std::fs::remove_file(self.data());
    }
}

/// how the insertions are grouped in calls: S alone, P first of a parallel call, + next one of the same call
fn groupings(n: usize) -> Vec<String> {
    let mut v = vec![String::new()];
    for _ in 0..n {
        let mut w = Vec::new();
        for s in v {
            for c in ['S', 'P', '+'] {
                if c == '+' && !s.ends_with(['P', '+']) {
                    continue;
                }
                w.push(format!("{}{}", s, c));
            }
        }
        v = w;
    }
    v
}
fn groups(g: &str) -> Vec<(bool, Vec<usize>)> {
    let mut v: Vec<(bool, Vec<usize>)> = Vec::new();
    for (i, c) in g.chars().enumerate() {
        match c {
            'S' => v.push((false, vec![i])),
            'P' => v.push((true, vec![i])),
            _ => v.last_mut().unwrap().1.push(i),
        }
    }
    v
}

/// every index that the calls of one kind build
fn core_build<T: CT, D: Distance<T> + Send + Sync + 'static>(h: &mut Hnsw<'static, T, D>, how: usize, g: &str, pts: &[Vec<T>], ids: &[usize], raws: &[u64]) {
    for (par, is) in groups(g) {
        rng::script(&is.iter().map(|i| raws[*i]).collect::<Vec<_>>());
        if par {
            let l: Vec<(&Vec<T>, usize)> = is.iter().map(|i| (&pts[*i], ids[*i])).collect();
            let s: Vec<(&[T], usize)> = is.iter().map(|i| (&pts[*i][..], ids[*i])).collect();
            match how {
                0 => h.parallel_insert(&l),
                1 => h.parallel_insert_data(&l),
                _ => h.parallel_insert_slice(&s),
            }
        } else {
            let i = is[0];
            match how {
                0 => h.insert((&pts[i], ids[i])),
                1 => h.insert_data(&pts[i], ids[i]),
                _ => h.insert_slice((&pts[i], ids[i])),
            }
        }
        rng::force(None);
    }
}

const CIDS: [usize; 5] = [7, usize::MAX, 0, 1 << 40, 3];

struct Cfg {
    m: usize,
    ef: usize,
}

fn hist_one<T: CT, D: Distance<T> + Send + Sync + 'static>(dn: Option<&str>, d: &(dyn Fn() -> D + Sync), pts: &[Vec<T>], q: &[Vec<T>], levels: &[usize], cfg: &Cfg, g: &str, layers: Option<usize>) -> R {
    let c = ctx();
    let ids = &CIDS[..pts.len()];
    let la = layers.unwrap_or(16);
    // a draw for the level in an index of these layers
    let raws: Vec<u64> = levels.iter().map(|l| raw_for_level(*l, cfg.m)).collect();
    let mut core: Vec<Hnsw<'static, T, D>> = Vec::new();
    for how in 0..3 {
        let mut h = Hnsw::<T, D>::new(cfg.m, if layers.is_some() { 50 } else { 10000 }, la, cfg.ef, d());
        core_build(&mut h, how, g, pts, ids, &raws);
        core.push(h);
    }
    c.count("insertions", 4 * pts.len() as u64);
    let h = &core[0];
    let s = snap(h);
    c.state(hash64(format!("{}{:?}{}", T::TN, dn, s.text()).as_bytes()));
    for (i, n) in [(1, "trait"), (2, "slice")] {
        same_graph(&s, &snap(&core[i])).map_err(|e| format!("{} calls: {}", n, e))?;
    }
    unsafe {
        let a = match (dn, layers) {
            (Some(n), None) => T::init(cfg.m, cfg.ef, n.as_bytes()),
            (Some(n), Some(l)) => match T::init2(cfg.m, cfg.ef, n.as_bytes(), 50, l) {
                Some(a) => a,
                None => return Ok(()),
            },
            (None, _) => T::ptr(cfg.m, cfg.ef),
        };
        ensure!(!a.is_null(), "the initialisation for {:?} gives a null pointer", dn);
        for (par, is) in groups(g) {
            rng::script(&is.iter().map(|i| raws[*i]).collect::<Vec<_>>());
            if par {
                T::pinsert(a, &is.iter().map(|i| (&pts[*i], ids[*i])).collect::<Vec<_>>());
            } else {
                T::insert(a, &pts[is[0]], ids[is[0]]);
            }
            rng::force(None);
        }
        // answers
        let n = pts.len();
        let kes = [(1, 1), (2, 1), (1, 3), (n, n + 2), (n + 3, 2 * n + 1), (0, 2)];
        let same = |a: *const T::Api, what: &str| -> R {
            for (k, ef) in kes {
                let mut all = Vec::new();
                for x in q {
                    let want = of_core(&h.search(x, k, ef));
                    let got = of_c(T::search(a, x, k, ef));
                    ensure!(want == got, "{}: query {:?} k={} ef={}: core answers {:?}, C interface {:?}", what, x, k, ef, want, got);
                    let t = of_core(&h.search_neighbours(x, k, ef));
                    ensure!(want == t, "{}: query {:?} k={} ef={}: core answers {:?}, trait {:?}", what, x, k, ef, want, t);
                    all.push(want);
                    c.count("operations", 3);
                }
                let got = of_cs(T::psearch(a, q, k, ef));
                ensure!(all == got, "{}: parallel search k={} ef={}: core answers {:?}, C interface {:?}", what, k, ef, all, got);
                let t: Vec<Ans> = h.parallel_search_neighbours(q, k, ef).iter().map(|v| of_core(v)).collect();
                ensure!(all == t, "parallel search k={} ef={}: core answers {:?}, trait {:?}", k, ef, all, t);
                let t: Vec<Ans> = h.parallel_search(q, k, ef).iter().map(|v| of_core(v)).collect();
                ensure!(all == t, "parallel search k={} ef={}: searches answer {:?}, parallel search {:?}", k, ef, all, t);
            }
            let got = of_cs(T::psearch(a, &[], 2, 3));
            ensure!(got.is_empty(), "no query, {} answers", got.len());
            Ok(())
        };
        same(a, "C index")?;
        // dump
        let nm = Name::new();
        let r = T::dump(a, nm.0.as_bytes());
        let other = Name::new();
        let rc = h.file_dump(Path::new("."), &other.0);
        ensure!((r == 1) == rc.is_ok() && (r == 1 || r == -1), "the C dump gives {}, the core dump {:?}", r, rc);
        if layers.is_none() {
            ensure!(r == 1, "the C dump gives {}", r);
        }
        if r == 1 {
            let l = load_with::<T, D>(Path::new("."), &nm.0, d())?;
            same_graph(&s, &snap(l.h())).map_err(|e| format!("C index, dumped: {}", e))?;
            for (x, y) in s.points().zip(snap(l.h()).points()) {
                ensure!(x.v == y.v, "C index, dumped: point {} has vector {:?}, core {:?}", x.id, y.v, x.v);
            }
            same_params(h, l.h()).map_err(|e| format!("C index, dumped: {}", e))?;
            let le = l.h().get_point_indexation();
            ensure!(le.get_data_dimension() == h.get_point_indexation().get_data_dimension(), "dimension");
            // the description
            let gp = nm.graph();
            let gp = gp.to_str().unwrap();
            let p = load_hnsw_description(gp.len(), gp.as_ptr());
            ensure!(!p.is_null(), "no description of a good dump");
            let f = Box::from_raw(p as *mut DescriptionFFI);
            let dist = std::str::from_utf8(std::slice::from_raw_parts(f.distname, f.distname_len)).unwrap_or("?");
            let tn = std::str::from_utf8(std::slice::from_raw_parts(f.t_name, f.t_name_len)).unwrap_or("?");
            let got = (f.max_nb_connection as usize, f.ef, f.nb_point, f.data_dimension, dist.to_string(), tn.to_string(), f.nb_layer as usize, f.dumpmode);
            let want = (cfg.m, cfg.ef, n, pts[0].len(), h.get_distance_name(), T::TN.to_string(), h.get_max_level(), 1u8);
            ensure!(got == want, "description {:?}, the index has {:?}", got, want);
            // reload through the C interface: by the right loader only
            for (ln, f) in T::loaders() {
                let io = get_hnswio(nm.0.len() as u64, nm.0.as_ptr());
                let a2 = f(io as *mut HnswIo);
                ensure!(a2.is_null() == (Some(ln) != dn), "loader of {} for {} on a dump of {:?}: {}", ln, T::TN, dn, if a2.is_null() { "null" } else { "an index" });
                if !a2.is_null() {
                    same(a2, "C index reloaded")?;
                    // and dumped again: under another name, the first dump stays
                    let before = (std::fs::read(nm.graph()).unwrap(), std::fs::read(nm.data()).unwrap());
                    let n2 = Name::new();
                    let r = T::dump(a2, n2.0.as_bytes());
                    ensure!(r == 1, "dump of the reloaded index gives {}", r);
                    let l2 = load_with::<T, D>(Path::new("."), &n2.0, d())?;
                    same_graph(&s, &snap(l2.h())).map_err(|e| format!("C index, reloaded and dumped: {}", e))?;
                    ensure!(before == (std::fs::read(nm.graph()).unwrap(), std::fs::read(nm.data()).unwrap()), "the dump of a reloaded index changed the files it came from");
                    T::free(a2);
                }
                drop(Box::from_raw(io as *mut HnswIo));
            }
            // of the other types: none; the graph alone: always
            other_types::<T>(&nm.0)?;
            let io = get_hnswio(nm.0.len() as u64, nm.0.as_ptr());
            let a3 = load_hnswdump_NoData_DistNoDist(io as *mut HnswIo);
            ensure!(!a3.is_null(), "the graph alone is not reloaded");
            own(a3);
            drop(Box::from_raw(io as *mut HnswIo));
            let _ = &l;
        }
        T::free(a);
    }
    Ok(())
}

/// vectors and queries that share memory: the same one twice, or one within another
fn c19_shared(until: Instant) {
    fn one<T: CT, D: Distance<T> + Default + Send + Sync + 'static>(dn: &'static str, until: Instant) {
        let c = ctx();
        let block: Vec<T> = [3u32, 11, 5, 2, 17, 9, 40, 1].iter().map(|x| T::of(*x)).collect();
        let dim = 3;
        // words of offsets into the block
        for w in words(4, 4) {
            if Instant::now() > until {
                c.exhaustive.store(false, std::sync::atomic::Ordering::Relaxed);
                return;
            }
            c.case(|| format!("shared:{}:{:?}", T::TN, w), || unsafe {
                let vs: Vec<Vec<T>> = w.iter().map(|o| block[*o..*o + dim].to_vec()).collect();
                let ids: Vec<usize> = (0..w.len()).map(|i| 10 + 3 * i).collect();
                let raws: Vec<u64> = (0..w.len()).map(|i| raw_for_level(w[i] % 2, 4)).collect();
                let h = Hnsw::<T, D>::new(4, 10000, 16, 8, D::default());
                rng::script(&raws);
                h.parallel_insert(&vs.iter().zip(&ids).map(|(v, i)| (v, *i)).collect::<Vec<_>>());
                rng::force(None);
                let a = T::init(4, 8, dn.as_bytes());
                ensure!(!a.is_null(), "no index");
                rng::script(&raws);
                let mut p: Vec<*const T> = w.iter().map(|o| block[*o..].as_ptr()).collect();
                T::pinsert_at(a, &mut p, dim, &ids);
                rng::force(None);
                c.count("insertions", 2 * w.len() as u64);
                c.state(hash64(format!("{}{}", T::TN, snap(&h).text()).as_bytes()));
                let nm = Name::new();
                ensure!(T::dump(a, nm.0.as_bytes()) == 1, "the C dump fails");
                let l = load_with::<T, D>(Path::new("."), &nm.0, D::default())?;
                let (s, t) = (snap(&h), snap(l.h()));
                same_graph(&s, &t).map_err(|e| format!("C index: {}", e))?;
                for (x, y) in s.points().zip(t.points()) {
                    ensure!(x.v == y.v, "C index: point {} has vector {:?}, core {:?}", x.id, y.v, x.v);
                }
                for (k, ef) in [(1, 1), (4, 8)] {
                    let all: Vec<Ans> = vs.iter().map(|v| of_core(&h.search(v, k, ef))).collect();
                    let got = of_cs(T::psearch_at(a, &mut p, dim, k, ef));
                    ensure!(all.iter().zip(&got).all(|(x, y)| x.iter().map(|e| e.1).eq(y.iter().map(|e| e.1))) && all.len() == got.len(), "queries at {:?} k={} ef={}: core answers {:?}, C interface {:?}", w, k, ef, all, got);
                }
                T::free(a);
                Ok(())
            });
        }
    }
    one::<f32, DistL2>("DistL2", until);
    one::<i32, DistL2>("DistL2", until);
    one::<u32, DistL1>("DistL1", until);
    one::<u16, DistL2>("DistL2", until);
    one::<u8, DistL1>("DistL1", until);
}

fn none_of<T: CT>(name: &str, why: &str) -> R {
    for (ln, f) in T::loaders() {
        unsafe {
            let io = get_hnswio(name.len() as u64, name.as_ptr());
            let a = f(io as *mut HnswIo);
            ensure!(a.is_null(), "loader of {} for {} on {}: an index", ln, T::TN, why);
            drop(Box::from_raw(io as *mut HnswIo));
        }
    }
    Ok(())
}
fn other_types<T: CT>(name: &str) -> R {
    let why = format!("a dump of {}", T::TN);
    macro_rules! o {
        ($($t:ty),*) => { $( if T::TN != <$t as El>::TN { none_of::<$t>(name, &why)?; } )* }
    }
    o!(f32, i32, u32, u16, u8);
    Ok(())
}

fn family<T: CT, D: Distance<T> + Send + Sync + 'static>(dn: Option<&str>, d: &(dyn Fn() -> D + Sync), pts: &[Vec<T>], q: &[Vec<T>], until: Instant) {
    let c = ctx();
    let mut items: Vec<(usize, Vec<usize>, Cfg, String, Option<usize>)> = Vec::new();
    for n in 1..=c.pick(4, 5) {
        for w in words(n, if n == 5 { 2 } else { c.pick(2, 3) }) {
            for g in groupings(n) {
                for (m, ef) in [(2usize, 3usize), (6, 5)] {
                    items.push((n, w.clone(), Cfg { m, ef }, g.clone(), None));
                    if m == 2 && dn.is_some() {
                        for l in [16, 1, 2, 5] {
                            items.push((n, w.clone(), Cfg { m, ef }, g.clone(), Some(l)));
                        }
                    }
                }
            }
        }
    }
    // more points, where lists fill up
    for w in words(5, 2) {
        for g in ["SSSSS", "P++++", "SP+S+", "P+P++", "SSP++"] {
            if groups(g).iter().map(|x| x.1.len()).sum::<usize>() == 5 && !g.contains("S+") {
                items.push((5, w.clone(), Cfg { m: 2, ef: 4 }, g.into(), None));
            }
        }
    }
    let chunks: Vec<_> = items.chunks(8).collect();
    parallel(&chunks, |_, _, ch| {
        for (n, w, cfg, g, la) in ch.iter() {
            if Instant::now() > until {
                c.exhaustive.store(false, Ordering::Relaxed);
                return;
            }
            c.case(|| format!("c:{}:{}:M{}ef{}:{}:{:?}{}", T::TN, dn.unwrap_or("pointer"), cfg.m, cfg.ef, g, w, la.map(|l| format!(":layers{}", l)).unwrap_or_default()), || {
                hist_one::<T, D>(dn, d.clone(), &pts[..*n], q, w, cfg, g, *la)
            });
        }
    });
}

pub fn c19(until: Instant) {
    base();
    c19_shared(until);
    let c = ctx();
    let fp: Vec<Vec<f32>> = vec![vec![0.5, 0.25, 0.25], vec![0.125, 0.5, 0.375], vec![0.25, 0.1875, 0.5625], vec![0.625, 0.125, 0.25], vec![0.0625, 0.75, 0.1875]];
    let fq: Vec<Vec<f32>> = vec![vec![0.3125, 0.375, 0.3125], vec![0.5, 0.25, 0.25], vec![0.125, 0.125, 0.75]];
    let norm = |p: &Vec<Vec<f32>>| -> Vec<Vec<f32>> {
        p.iter().map(|v| {
            let n = v.iter().map(|x| x * x).sum::<f32>().sqrt();
            v.iter().map(|x| x / n * 0.999).collect()
        }).collect()
    };
    let up: Vec<Vec<u32>> = vec![vec![1, 2, 3, 9], vec![1, 5, 3, 7], vec![8, 2, 6, 9], vec![3, 12, 3, 1], vec![20, 2, 31, 4]];
    let uq: Vec<Vec<u32>> = vec![vec![1, 2, 4, 9], vec![8, 2, 6, 9], vec![30, 2, 3, 5]];
    fn cv<T: El>(v: &[Vec<u32>]) -> Vec<Vec<T>> {
        v.iter().map(|p| conv(p)).collect()
    }
    macro_rules! fam {
        ($t:ty, $($d:ident),*) => { $( family::<$t, $d>(Some(stringify!($d)), &|| $d {}, &cv(&up), &cv(&uq), until); )*
            family::<$t, DistCFFI<$t>>(None, &<$t as CT>::cdist, &cv(&up), &cv(&uq), until); }
    }
    // the distance named DistDot needs unit vectors
    family::<f32, DistL1>(Some("DistL1"), &|| DistL1 {}, &fp, &fq, until);
    family::<f32, DistL2>(Some("DistL2"), &|| DistL2 {}, &fp, &fq, until);
    family::<f32, DistDot>(Some("DistDot"), &|| DistDot {}, &norm(&fp), &norm(&fq), until);
    family::<f32, DistHellinger>(Some("DistHellinger"), &|| DistHellinger {}, &fp, &fq, until);
    family::<f32, DistJeffreys>(Some("DistJeffreys"), &|| DistJeffreys {}, &fp, &fq, until);
    family::<f32, DistJensenShannon>(Some("DistJensenShannon"), &|| DistJensenShannon {}, &fp, &fq, until);
    family::<f32, DistCFFI<f32>>(None, &<f32 as CT>::cdist, &fp, &fq, until);
    fam!(i32, DistL1, DistL2, DistHamming);
    fam!(u32, DistL1, DistL2, DistHamming, DistJaccard);
    fam!(u16, DistL1, DistL2, DistHamming, DistJaccard, DistLevenshtein);
    fam!(u8, DistL1, DistL2, DistHamming, DistJaccard);

    // dumps made by the core for a distance that only a loader knows
    for w in words(4, 2) {
        c.case(|| format!("c:f32:DistCosine:{:?}", w), || {
            let h = Hnsw::<f32, DistCosine>::new(3, 100, 16, 5, DistCosine {});
            for i in 0..4 {
                rng::force(Some(raw_for_level(w[i], 3)));
                h.insert((&fp[i], CIDS[i]));
                rng::force(None);
            }
            let nm = Name::new();
            h.file_dump(Path::new("."), &nm.0).map_err(|e| e.to_string())?;
            for (ln, f) in <f32 as CT>::loaders() {
                unsafe {
                    let io = get_hnswio(nm.0.len() as u64, nm.0.as_ptr());
                    let a = f(io as *mut HnswIo);
                    ensure!(a.is_null() == (ln != "DistCosine"), "loader of {} on a dump of DistCosine: {}", ln, if a.is_null() { "null" } else { "an index" });
                    if !a.is_null() {
                        for x in &fq {
                            let (want, got) = (of_core(&h.search(x, 3, 4)), of_c(f32::search(a, x, 3, 4)));
                            ensure!(want == got, "query {:?}: core answers {:?}, C interface {:?}", x, want, got);
                        }
                        f32::free(a);
                    }
                    drop(Box::from_raw(io as *mut HnswIo));
                }
            }
            Ok(())
        });
    }
    unknown();
    unreadable(until);
}

/// names that are no distance
fn unknown() {
    fn one<T: CT>() {
        let c = ctx();
        let names: Vec<Vec<u8>> = ["", "DistL", "DistL3", "distl1", "DISTL1", " DistL1", "DistL1 ", "DistL11", "L1", "Dist", "DistHammin", "DistL2DistL1", "\0", "DistL1\0"]
            .iter().map(|s| s.as_bytes().to_vec()).chain([vec![0xff, 0xfe], b"DistL\xff".to_vec()]).collect();
        for n in names {
            c.case(|| format!("unknown:{}:{:?}", T::TN, String::from_utf8_lossy(&n)), || unsafe {
                ensure!(T::init(4, 8, &n).is_null(), "an index");
                if let Some(a) = T::init2(4, 8, &n, 10, 16) {
                    ensure!(a.is_null(), "an index");
                }
                Ok(())
            });
        }
    }
    one::<f32>();
    one::<i32>();
    one::<u32>();
    one::<u16>();
    one::<u8>();
}

/// missing, empty and cut files
fn unreadable(until: Instant) {
    fn one<T: CT, D: Distance<T> + Default + Send + Sync + 'static>(pts: &[Vec<T>], until: Instant) {
        let c = ctx();
        let h = Hnsw::<T, D>::new(3, 100, 16, 5, D::default());
        for (i, p) in pts.iter().enumerate().take(3) {
            rng::force(Some(raw_for_level(i % 2, 3)));
            h.insert((p, CIDS[i]));
            rng::force(None);
        }
        let nm = Name::new();
        if h.file_dump(Path::new("."), &nm.0).is_err() {
            return c.violation(&format!("unreadable:{}", T::TN), "dump failed");
        }
        let (g, d) = (std::fs::read(nm.graph()).unwrap(), std::fs::read(nm.data()).unwrap());
        let none = |n: &Name, why: &str| -> R {
            none_of::<T>(&n.0, why)
        };
        let desc = |n: &Name| unsafe {
            let p = n.graph();
            let p = p.to_str().unwrap().to_string();
            !load_hnsw_description(p.len(), p.as_ptr()).is_null()
        };
        c.case(|| format!("unreadable:{}:missing", T::TN), || {
            let n = Name::new();
            ensure!(!desc(&n), "description of a missing file");
            none(&n, "no files")?;
            std::fs::write(n.graph(), &g).unwrap();
            none(&n, "a missing data file")?;
            std::fs::write(n.data(), &d).unwrap();
            std::fs::remove_file(n.graph()).unwrap();
            none(&n, "a missing graph file")
        });
        let cuts: Vec<(usize, usize)> = (0..g.len()).map(|i| (i, d.len())).chain((0..d.len()).map(|j| (g.len(), j))).collect();
        let chunks: Vec<_> = cuts.chunks(16).collect();
        parallel(&chunks, |_, _, ch| {
            for &(i, j) in ch.iter() {
                if Instant::now() > until {
                    c.exhaustive.store(false, Ordering::Relaxed);
                    return;
                }
                c.case(|| format!("unreadable:{}:cut{},{}", T::TN, i, j), || {
                    let n = Name::new();
                    std::fs::write(n.graph(), &g[..i]).unwrap();
                    std::fs::write(n.data(), &d[..j]).unwrap();
                    c.state(hash64(format!("{}{},{}", T::TN, i, j).as_bytes()));
                    none(&n, "a cut dump")?;
                    let core = load_description(&mut &g[..i]).is_ok();
                    let here = desc(&n);
                    ensure!(core == here, "graph file cut at {}: description {}, of the core {}", i, here, core);
                    if i < g.len() {
                        unsafe {
                            let io = get_hnswio(n.0.len() as u64, n.0.as_ptr());
                            ensure!(load_hnswdump_NoData_DistNoDist(io as *mut HnswIo).is_null(), "the graph alone reloads from a cut file");
                            drop(Box::from_raw(io as *mut HnswIo));
                        }
                    }
                    Ok(())
                });
            }
        });
        // an index without points cannot be dumped
        c.case(|| format!("unreadable:{}:empty", T::TN), || unsafe {
            let n = Name::new();
            let a = T::init(4, 8, b"DistL1");
            ensure!(!a.is_null(), "no index");
            let core = Hnsw::<T, D>::new(4, 10000, 16, 8, D::default());
            let n2 = Name::new();
            let (x, y) = (T::dump(a, n.0.as_bytes()), core.file_dump(Path::new("."), &n2.0));
            ensure!((x == 1) == y.is_ok(), "dump of an empty index gives {}, of the core {:?}", x, y);
            ensure!(of_c(T::search(a, &pts[0], 2, 3)).is_empty(), "an empty index answers");
            T::free(a);
            Ok(())
        });
    }
    let p = |n: usize| -> Vec<Vec<u32>> { (0..4).map(|i| (0..n as u32).map(|j| (i * 7 + j * 3) % 50).collect()).collect() };
    fn cv<T: El>(v: &[Vec<u32>]) -> Vec<Vec<T>> {
        v.iter().map(|p| conv(p)).collect()
    }
    one::<f32, DistL1>(&cv(&p(2)), until);
    one::<i32, DistL1>(&cv(&p(2)), until);
    one::<u32, DistL1>(&cv(&p(2)), until);
    one::<u16, DistL1>(&cv(&p(2)), until);
    one::<u8, DistL1>(&cv(&p(2)), until);
}
