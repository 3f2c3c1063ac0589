//! C10, C11, C12, C14, C15, C16, C17, C21: dump and reload.
use crate::ctx::*;
use crate::hist::tie_free;
use crate::iou::*;
use crate::util::*;
use anndists::dist::distances::*;
use hnsw_rs::datamap::DataMap;
use hnsw_rs::flatten::FlatNeighborhood;
use hnsw_rs::hnswio::load_description;
use hnsw_rs::prelude::*;
use mcctl::rng;
use std::path::{Path, PathBuf};
use std::time::Instant;

pub fn each_io(v: &[IoHist], until: Instant, f: impl Fn(&IoHist) -> R + Sync) {
    base();
    let c = ctx();
    let chunks: Vec<&[IoHist]> = v.chunks(4).collect();
    parallel(&chunks, |_, _, ch| {
        for h in ch.iter() {
            if Instant::now() > until {
                c.exhaustive.store(false, std::sync::atomic::Ordering::Relaxed);
                return;
            }
            c.case(|| h.key(), || f(h));
            c.count("insertions", h.pts.len() as u64);
        }
    });
}

// ------------------------------------------------------------------------------------------------
pub fn c10(until: Instant) {
    crate::large::c10(until);
    let c = ctx();
    each_io(&dup_hists(c.thorough, NTYPES), until, |h| for_type!(h.ty, c10_one(h)));
    each_io(&io_hists(c.thorough, NTYPES), until, |h| for_type!(h.ty, c10_one(h)));
    c10_names(until);
    crate::names::c10_name_lengths(until);
    c10_distances(until);
}

fn c10_one<T: El>(hi: &IoHist) -> R
where
    G: Distance<T>,
{
    let h = hi.build::<T>();
    ctx().state(hash64(format!("{}{}", T::TN, snap(&h).text()).as_bytes()));
    let d = Dir::new();
    let n = h.file_dump(&d.abs, "a").map_err(|e| format!("dump failed: {}", e))?;
    ensure!(n == "a", "dumped under the name {}", n);
    check_description(&d, "a", &h)?;
    let q = hi.queries::<T>();
    let l = load::<T, G>(&d.abs, "a", None).map_err(|e| format!("reload failed: {}", e))?;
    over_longer(&d, "a", &h)?;
    same_index(&h, l.h(), &q, hi.ties).map_err(|e| format!("reload: {}", e))?;
    dims_agree(&h, l.h())?;
    ensure!(l.h().get_distance_name() == h.get_distance_name(), "distance {} reloaded as {}", h.get_distance_name(), l.h().get_distance_name());
    let w = load_with::<T, G>(&d.abs, "a", G).map_err(|e| format!("reload with the distance given failed: {}", e))?;
    same_index(&h, w.h(), &q, hi.ties).map_err(|e| format!("reload with the distance given: {}", e))?;
    // once more
    let n2 = l.h().file_dump(&d.abs, "a").map_err(|e| format!("second dump failed: {}", e))?;
    let l2 = load::<T, G>(&d.abs, &n2, None).map_err(|e| format!("second reload failed: {}", e))?;
    same_index(&h, l2.h(), &q, hi.ties).map_err(|e| format!("second reload: {}", e))?;
    let n3 = w.h().file_dump(&d.abs, "b").map_err(|e| format!("third dump failed: {}", e))?;
    let l3 = load::<T, G>(&d.abs, &n3, None).map_err(|e| format!("third reload failed: {}", e))?;
    same_index(&h, l3.h(), &q, hi.ties).map_err(|e| format!("third reload: {}", e))
}

/// a dump written over files that were there, longer ones or shorter ones, is what it is written alone as `name`
fn over_longer<T: El>(d: &Dir, name: &str, h: &Hnsw<'static, T, G>) -> R
where
    G: Distance<T>,
{
    let (g, b) = d.get(name);
    for (x, y) in [(7, 300), (300, 7), (0, 0)] {
        // what was there: an end of the same dump after all of it, or something else
        let (mut og, mut ob) = (g.clone(), b.clone());
        og.extend_from_slice(&g[g.len() - g.len().min(x)..]);
        ob.extend_from_slice(&b[b.len() - b.len().min(y)..]);
        if x == 0 {
            og.truncate(g.len() / 2);
            ob.truncate(b.len() / 2);
        }
        d.put("over", &og, &ob);
        let n = h.file_dump(&d.abs, "over").map_err(|e| format!("dump over another failed: {}", e))?;
        ensure!(n == "over", "dumped as {}", n);
        let (g2, b2) = d.get("over");
        ensure!(g2.len() == g.len() && b2.len() == b.len(), "dumped over files of {} and {} bytes: {} and {} bytes, alone {} and {}", og.len(), ob.len(), g2.len(), b2.len(), g.len(), b.len());
    }
    Ok(())
}

fn dims_agree<T: El, D1: Distance<T> + Send + Sync, D2: Distance<T> + Send + Sync>(a: &Hnsw<T, D1>, b: &Hnsw<T, D2>) -> R {
    let (x, y) = (a.get_point_indexation().get_data_dimension(), b.get_point_indexation().get_data_dimension());
    ensure!(x == y, "dimension {} reloaded as {}", x, y);
    Ok(())
}

pub fn check_description<T: El, D: Distance<T> + Send + Sync>(d: &Dir, n: &str, h: &Hnsw<T, D>) -> R {
    let mut f = std::io::BufReader::new(std::fs::File::open(d.graph(n)).map_err(|e| format!("no graph file: {}", e))?);
    let s = load_description(&mut f).map_err(|e| format!("description not readable: {}", e))?;
    ensure!(s.max_nb_connection == h.get_max_nb_connection(), "description: max_nb_connection {}", s.max_nb_connection);
    ensure!(s.ef == h.get_ef_construction(), "description: ef_construction {}", s.ef);
    ensure!(s.nb_layer as usize == h.get_max_level(), "description: nb_layer {}", s.nb_layer);
    ensure!(s.nb_point == h.get_nb_point(), "description: nb_point {}", s.nb_point);
    let dim = h.get_point_indexation().get_data_dimension();
    ensure!(s.dimension == dim && s.get_dimension() == dim, "description: dimension {} of {}", s.dimension, dim);
    ensure!(s.level_scale == h.get_point_indexation().get_level_scale(), "description: level scale {}", s.level_scale);
    ensure!(s.dumpmode == 1, "description: mode {}", s.dumpmode);
    ensure!(s.distname == h.get_distance_name(), "description: distance {}", s.distname);
    ensure!(s.distname == std::any::type_name::<D>(), "description: distance {}", s.distname);
    ensure!(s.t_name == std::any::type_name::<T>() && s.get_typename() == s.t_name, "description: type {}", s.t_name);
    Ok(())
}

/// file names and directories
fn c10_names(until: Instant) {
    let h = small_hist(0);
    let c = ctx();
    for name in ["a", "a.b", "hnsw.data", "with space", "é—x", "-0", "x-17", "a.hnsw.graph", "a.hnsw", "0", ".", "a.", ".a", "A", "*", "a%20", "~", "\\", "a\nb"] {
        if Instant::now() > until {
            c.exhaustive.store(false, std::sync::atomic::Ordering::Relaxed);
            return;
        }
        c.case(|| format!("name:{}", name), || {
            let x = h.build::<f32>();
            let d = Dir::new();
            for dir in namings(&d) {
                let n = x.file_dump(&dir, name).map_err(|e| format!("{:?}: {}", dir, e))?;
                ensure!(n == name, "{:?}: dumped as {}", dir, n);
                let l = load::<f32, G>(&dir, name, None).map_err(|e| format!("{:?}: {}", dir, e))?;
                same_index(&x, l.h(), &h.queries::<f32>(), false)?;
                ensure!(d.list().len() == 2, "{:?}: files {:?}", dir, d.list().keys());
                let l = load::<f32, G>(&dir, name, Some(1)).map_err(|e| format!("{:?}: {}", dir, e))?;
                same_index(&x, l.h(), &h.queries::<f32>(), false)?;
            }
            Ok(())
        });
    }
}

/// ways of naming a directory
pub fn namings(d: &Dir) -> Vec<PathBuf> {
    let (r, a) = (&d.rel, d.abs.to_string_lossy().into_owned());
    let mut v: Vec<PathBuf> = vec![a.clone().into(), r.into(), format!("./{}", r).into(), format!("{}/", r).into(), format!("{}/../{}", r, r).into(), format!("{}/.", a).into()];
    let up = base().file_name().unwrap().to_string_lossy().into_owned();
    v.push(format!("../{}/{}", up, r).into());
    v.push(d.odd());
    v
}

pub fn small_hist(ty: usize) -> IoHist {
    io_hists(false, NTYPES).into_iter().find(|h| h.ty == ty && h.pts.len() == 4 && h.pts.iter().filter(|p| p.2 == 1).count() == 2 && h.name == "io").unwrap()
}

/// the distances of anndists and other element types
fn c10_distances(until: Instant) {
    fn one<T: El, D: Distance<T> + Default + Clone + Send + Sync + 'static>(pts: &[Vec<T>], levels: &[usize], tn: &str, until: Instant) {
        let c = ctx();
        if Instant::now() > until {
            c.exhaustive.store(false, std::sync::atomic::Ordering::Relaxed);
            return;
        }
        c.case(|| format!("dist:{}:{}:{:?}", tn, std::any::type_name::<D>(), levels), || {
            let h = Hnsw::<T, D>::new(4, 10, 16, 8, D::default());
            for (i, p) in pts.iter().enumerate() {
                rng::force(Some(raw_for_level(levels[i], 4)));
                h.insert((p, IDS[i]));
                rng::force(None);
            }
            c.state(hash64(format!("{} {} {}", tn, std::any::type_name::<D>(), snap(&h).text()).as_bytes()));
            let d = Dir::new();
            h.file_dump(&d.abs, "a").map_err(|e| e.to_string())?;
            check_description(&d, "a", &h)?;
            let l = load::<T, D>(&d.abs, "a", None)?;
            same_index(&h, l.h(), pts, true)?;
            let l = load_with::<T, D>(&d.abs, "a", D::default())?;
            same_index(&h, l.h(), pts, true)?;
            if std::mem::align_of::<T>() <= 4 {
                let l = load::<T, D>(&d.abs, "a", Some(1))?;
                same_index(&h, l.h(), pts, true)?;
            }
            Ok(())
        });
    }
    let fp: Vec<Vec<f32>> = vec![vec![0.5, 0.25, 0.25], vec![0.125, 0.5, 0.375], vec![0.25, 0.25, 0.5], vec![0.625, 0.125, 0.25]];
    let up: Vec<Vec<u32>> = vec![vec![1, 2, 3, 9], vec![1, 5, 3, 7], vec![8, 2, 6, 9], vec![0, 2, 3, 1]];
    fn cv<T: El>(v: &[Vec<u32>]) -> Vec<Vec<T>> {
        v.iter().map(|p| conv(p)).collect()
    }
    for w in words(4, ctx().pick(2, 3)) {
        // unit vectors for the distances that need them
        let norm = |v: &Vec<f32>| {
            let n = v.iter().map(|x| x * x).sum::<f32>().sqrt();
            v.iter().map(|x| x / n * 0.999).collect::<Vec<f32>>()
        };
        let np: Vec<Vec<f32>> = fp.iter().map(norm).collect();
        one::<f32, DistL1>(&fp, &w, "f32", until);
        one::<f32, DistL2>(&fp, &w, "f32", until);
        one::<f32, DistCosine>(&fp, &w, "f32", until);
        one::<f32, DistDot>(&np, &w, "f32", until);
        one::<f32, DistHellinger>(&fp, &w, "f32", until);
        one::<f32, DistJeffreys>(&fp, &w, "f32", until);
        one::<f32, DistJensenShannon>(&fp, &w, "f32", until);
        one::<i32, DistL1>(&cv(&up), &w, "i32", until);
        one::<i32, DistL2>(&cv(&up), &w, "i32", until);
        one::<i32, DistHamming>(&cv(&up), &w, "i32", until);
        one::<u32, DistL1>(&cv(&up), &w, "u32", until);
        one::<u32, DistJaccard>(&cv(&up), &w, "u32", until);
        one::<u16, DistL2>(&cv(&up), &w, "u16", until);
        one::<u16, DistLevenshtein>(&cv(&up), &w, "u16", until);
        one::<u8, DistHamming>(&cv(&up), &w, "u8", until);
        one::<u8, DistL1>(&cv(&up), &w, "u8", until);
        one::<f64, DistL2>(&cv(&up), &w, "f64", until);
        one::<f64, DistHamming>(&cv(&up), &w, "f64", until);
    }
    // distances that have no default value
    fn myf(a: &[f32], b: &[f32]) -> f32 {
        a.iter().zip(b).map(|(x, y)| (x - y).abs()).sum()
    }
    let c = ctx();
    for w in words(4, 3) {
        c.case(|| format!("distptr:{:?}", w), || {
            let h = Hnsw::<f32, DistPtr<f32, f32>>::new(4, 10, 16, 8, DistPtr::<f32, f32>::new(myf));
            for (i, p) in fp.iter().enumerate() {
                rng::force(Some(raw_for_level(w[i], 4)));
                h.insert((p, IDS[i]));
                rng::force(None);
            }
            let d = Dir::new();
            h.file_dump(&d.abs, "a").map_err(|e| e.to_string())?;
            check_description(&d, "a", &h)?;
            let l = load_with::<f32, _>(&d.abs, "a", DistPtr::<f32, f32>::new(myf))?;
            same_index(&h, l.h(), &fp, true)
        });
    }
}

// ------------------------------------------------------------------------------------------------
pub fn c11(until: Instant) {
    crate::large::c11(until);
    let c = ctx();
    crate::seqs::loaders(until);
    each_io(&io_hists(c.thorough, NTYPES_MAP), until, |h| for_type!(h.ty, c11_one(h)));
    c11_here();
    c11_wide();
}

fn check_datamap<T: El, D: Distance<T> + Send + Sync>(h: &Hnsw<T, D>, dir: &Path, name: &str) -> R {
    let dm = DataMap::from_hnswdump::<T>(dir, name).map_err(|e| format!("data map of {:?}: {}", dir, e))?;
    let s = snap(h);
    let mut order = Vec::new();
    for p in s.points() {
        match dm.get_data::<T>(&p.id) {
            Some(v) => ensure!(v == &p.v[..], "data map: id {} has {:?}, stored {:?}", p.id, v, p.v),
            None => return Err(format!("data map: nothing for id {}", p.id)),
        }
        order.push(p.id);
    }
    for p in s.points() {
        for o in [p.id.wrapping_add(1), p.id.wrapping_sub(1), p.id ^ (1 << 32), p.id ^ (1 << 63), s.len()] {
            if !order.contains(&o) {
                ensure!(dm.get_data::<T>(&o).is_none(), "data map: something for id {} which is not stored", o);
            }
        }
    }
    let keys: Vec<usize> = dm.get_dataid_iter().copied().collect();
    ensure!(keys == order, "data map: ids {:?}, dumped in the order {:?}", keys, order);
    ensure!(dm.get_nb_data() == order.len(), "data map: {} vectors of {}", dm.get_nb_data(), order.len());
    ensure!(dm.get_data_typename() == std::any::type_name::<T>(), "data map: type {}", dm.get_data_typename());
    ensure!(dm.get_distname() == h.get_distance_name(), "data map: distance {}", dm.get_distname());
    ensure!(dm.check_data_type::<T>(), "data map: type refused");
    Ok(())
}

fn c11_one<T: El>(hi: &IoHist) -> R
where
    G: Distance<T>,
{
    let h = hi.build::<T>();
    ctx().state(hash64(format!("{}{}", T::TN, snap(&h).text()).as_bytes()));
    let d = Dir::new();
    h.file_dump(&d.abs, "a").map_err(|e| format!("dump failed: {}", e))?;
    let q = hi.queries::<T>();
    let plain = load::<T, G>(&d.abs, "a", None).map_err(|e| format!("reload failed: {}", e))?;
    let nm = namings(&d);
    over_longer(&d, "a", &h)?;
    let m = load::<T, G>(&d.abs, "over", Some(0)).map_err(|e| format!("dumped over a longer dump: {}", e))?;
    same_index(plain.h(), m.h(), &q, hi.ties).map_err(|e| format!("dumped over a longer dump: {}", e))?;
    drop(m);
    check_datamap(&h, &d.abs, "over").map_err(|e| format!("dumped over a longer dump: {}", e))?;
    let n = hi.pts.len();
    let ths: Vec<usize> = if n <= 24 { (0..=n + 1).collect() } else { vec![0, 1, n / 2, n - 1, n, n + 1, 10 * n] };
    for (i, t) in ths.iter().enumerate() {
        let dir = &nm[(i + n) % nm.len()];
        let bad = |e: String| format!("directory {:?} threshold {}: {}", dir, t, e);
        let m = load::<T, G>(dir, "a", Some(*t)).map_err(bad)?;
        same_index(plain.h(), m.h(), &q, hi.ties).map_err(bad)?;
        dims_agree(&h, m.h()).map_err(bad)?;
        same_index(&h, m.h(), &q, hi.ties).map_err(bad)?;
    }
    if n <= 6 {
        for dir in &nm {
            check_datamap(&h, dir, "a")?;
        }
    } else {
        check_datamap(&h, &d.abs, "a")?;
    }
    Ok(())
}

/// the working directory itself
fn c11_here() {
    let c = ctx();
    for ty in 0..NTYPES_MAP {
        fn one<T: El>(hi: &IoHist) -> R
        where
            G: Distance<T>,
        {
            let h = hi.build::<T>();
            let d = Dir::new();
            h.file_dump(&d.abs, "a").map_err(|e| e.to_string())?;
            std::env::set_current_dir(&d.abs).unwrap();
            let r = (|| {
                for dir in [".", "", "./.", "././"] {
                    let dir = Path::new(dir);
                    for t in 0..=hi.pts.len() {
                        let m = load::<T, G>(dir, "a", Some(t)).map_err(|e| format!("{:?}: {}", dir, e))?;
                        same_index(&h, m.h(), &hi.queries::<T>(), false)?;
                    }
                    check_datamap(&h, dir, "a")?;
                }
                Ok(())
            })();
            std::env::set_current_dir(base()).unwrap();
            r
        }
        c.case(|| format!("here:{}", TNAMES[ty]), || {
            let h = small_hist(ty);
            for_type!(ty, one(&h))
        });
    }
}

/// element types of 8 bytes, in a child: their vectors are not aligned in the file
fn c11_wide() {
    let c = ctx();
    for ty in NTYPES_MAP..NTYPES {
        for part in ["reload", "datamap"] {
            fn one<T: El>(hi: &IoHist, part: &str, d: &Dir) -> R
            where
                G: Distance<T>,
            {
                let h = hi.build::<T>();
                h.file_dump(&d.abs, "a").map_err(|e| e.to_string())?;
                if part == "datamap" {
                    return check_datamap(&h, &d.abs, "a");
                }
                let m = load::<T, G>(&d.abs, "a", Some(1))?;
                same_index(&h, m.h(), &hi.queries::<T>(), false)
            }
            let key = format!("wide:{}:{}", TNAMES[ty], part);
            c.case(|| key.clone(), || {
                let h = small_hist(ty);
                let d = Dir::new();
                in_child(|| for_type!(ty, one(&h, part, &d)))
            });
        }
    }
}

/// runs `f` in a child process
pub fn in_child(f: impl FnOnce() -> R) -> R {
    unsafe {
        let mut fds = [0i32; 2];
        libc::pipe(fds.as_mut_ptr());
        let pid = libc::fork();
        if pid == 0 {
            libc::close(fds[0]);
            for s in [libc::SIGSEGV, libc::SIGBUS, libc::SIGABRT, libc::SIGILL, libc::SIGFPE] {
                libc::signal(s, libc::SIG_DFL);
            }
            let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
            libc::setrlimit(libc::RLIMIT_CORE, &l);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            let e = match r {
                Ok(Ok(())) => String::new(),
                Ok(Err(e)) => e,
                Err(p) => format!("panic: {}", mcctl::panic_message(&*p)),
            };
            let e: String = e.chars().take(1500).collect();
            libc::syscall(libc::SYS_write, fds[1], e.as_ptr(), e.len());
            libc::_exit(if e.is_empty() { 0 } else { 1 });
        }
        libc::close(fds[1]);
        let mut buf = vec![0u8; 8192];
        let n = libc::read(fds[0], buf.as_mut_ptr() as *mut _, buf.len()).max(0) as usize;
        libc::close(fds[0]);
        let mut st = 0;
        libc::waitpid(pid, &mut st, 0);
        if libc::WIFSIGNALED(st) {
            return Err(format!("the process is brought down by signal {}", libc::WTERMSIG(st)));
        }
        if libc::WEXITSTATUS(st) == 0 {
            Ok(())
        } else {
            Err(String::from_utf8_lossy(&buf[..n]).into_owned())
        }
    }
}

// ------------------------------------------------------------------------------------------------
/// the raw value for which gen_range(0..10000) over usize gives `x`
fn raw_for_name(x: u64) -> u64 {
    ((x as u128 * (1u128 << 64)) / 10000 + (1 << 40)) as u64
}

pub fn c12(until: Instant) {
    base();
    let c = ctx();
    let nums: &[u64] = &[0, 1, 9999];
    // what exists already beside "a" for each number (nothing, a dump, one of its files only),
    // which numbers are drawn
    let mut items: Vec<(usize, u32, Vec<usize>, usize)> = Vec::new();
    for ty in [0usize, 1, 4] {
        for mask in 0..4u32.pow(nums.len() as u32) {
            let free: Vec<usize> = (0..nums.len()).filter(|i| mask >> (2 * i) & 3 == 0).collect();
            let taken: Vec<usize> = (0..nums.len()).filter(|i| mask >> (2 * i) & 3 != 0).collect();
            // draws of taken numbers before a free one (or a number beyond)
            let mut seqs: Vec<Vec<usize>> = vec![vec![]];
            for n in 1..=c.pick(2, 3) {
                for w in words(n, taken.len().max(1)) {
                    if !taken.is_empty() {
                        seqs.push(w.iter().map(|x| taken[*x]).collect());
                    }
                }
            }
            for s in seqs {
                for last in free.iter().copied().chain([nums.len()]) {
                    let mut s = s.clone();
                    s.push(last);
                    for mode in 0..6 {
                        items.push((ty, mask, s.clone(), mode));
                    }
                }
            }
        }
    }
    let chunks: Vec<&[(usize, u32, Vec<usize>, usize)]> = items.chunks(4).collect();
    parallel(&chunks, |_, _, ch| {
        for (ty, mask, draws, mode) in ch.iter() {
            if Instant::now() > until {
                c.exhaustive.store(false, std::sync::atomic::Ordering::Relaxed);
                return;
            }
            c.case(|| format!("redump:{}:taken{:06b}:draws{:?}:mode{}", TNAMES[*ty], mask, draws, mode), || for_type!(*ty, c12_one(*ty, nums, *mask, draws, *mode)));
        }
    });
    c12_overwrite(until);
}

fn c12_one<T: El>(ty: usize, nums: &[u64], mask: u32, draws: &[usize], mode: usize) -> R
where
    G: Distance<T>,
{
    let c = ctx();
    let hi = small_hist(ty);
    let h = hi.build::<T>();
    let d = Dir::new();
    h.file_dump(&d.abs, "a").map_err(|e| e.to_string())?;
    // other dumps, of another index
    let mut o = hi.clone();
    o.pts.truncate(2);
    let other = o.build::<T>();
    for (i, n) in nums.iter().enumerate() {
        let name = format!("a-{}", n);
        if mask >> (2 * i) & 3 != 0 {
            other.file_dump(&d.abs, &name).map_err(|e| e.to_string())?;
        }
        match mask >> (2 * i) & 3 {
            2 => std::fs::remove_file(d.graph(&name)).unwrap(),
            3 => std::fs::remove_file(d.data(&name)).unwrap(),
            _ => {}
        }
    }
    other.file_dump(&d.abs, "a-").map_err(|e| e.to_string())?;
    other.file_dump(&d.abs, "b").map_err(|e| e.to_string())?;
    let mut l = load::<T, G>(&d.abs, "a", match mode { 0 | 5 => None, 1 | 4 => Some(0), 2 => Some(1), _ => Some(3) })?;
    // one file of the dump is gone since it was read: the other one still stands
    match mode {
        4 => std::fs::remove_file(d.data("a")).unwrap(),
        5 => std::fs::remove_file(d.graph("a")).unwrap(),
        _ => {}
    }
    let before = d.list();
    // growing the reloaded index changes nothing
    if mode == 2 {
        rng::force(Some(raw_for_level(0, hi.m)));
        l.hm().insert((&conv::<T>(&[5, 9]), 77));
        rng::force(None);
    }
    let script: Vec<u64> = draws.iter().map(|i| raw_for_name(nums.get(*i).copied().unwrap_or(1234))).collect();
    let dir = if mode == 3 { PathBuf::from(&d.rel) } else { d.abs.clone() };
    rng::script(&script);
    let r = l.h().file_dump(&dir, "a");
    rng::force(None);
    let n = r.map_err(|e| e.to_string())?;
    let after = d.list();
    for (f, x) in &before {
        match after.get(f) {
            Some(y) => ensure!(x == y, "file {} was altered by the dump named {}", f, n),
            None => return Err(format!("file {} was removed by the dump named {}", f, n)),
        }
    }
    ensure!(!before.contains_key(&format!("{}.hnsw.data", n)) && !before.contains_key(&format!("{}.hnsw.graph", n)), "the name {} returned existed", n);
    ensure!(after.len() == before.len() + 2, "files {:?} after the dump, {:?} before", after.keys(), before.keys());
    c.state(hash64(format!("{:?}{}", after.keys().collect::<Vec<_>>(), mode).as_bytes()));
    let l2 = load::<T, G>(&d.abs, &n, None).map_err(|e| format!("dump named {}: {}", n, e))?;
    same_index(l.h(), l2.h(), &hi.queries::<T>(), true)?;
    // and again, with the new dump in place
    let b2 = d.list();
    let n2 = l2.h().file_dump(&d.abs, "a").map_err(|e| e.to_string())?;
    let a2 = d.list();
    ensure!(b2.iter().all(|(f, x)| a2.get(f) == Some(x)), "a file was altered by the dump named {}", n2);
    ensure!(n2 != n && n2 != "a", "the name {} was returned again", n2);
    // the index which may still be mapped on the first dump is intact
    same_index(l.h(), l2.h(), &hi.queries::<T>(), true)
}

/// an index built in memory overwrites its own name only
fn c12_overwrite(until: Instant) {
    let c = ctx();
    let hs: Vec<IoHist> = io_hists(false, 2).into_iter().filter(|h| h.name == "io" && h.pts.len() <= 3 && h.m == 2 && h.pts.iter().all(|p| p.2 < 3)).step_by(3).collect();
    let hs = &hs;
    let n = c.pick(40, 150).min(hs.len());
    let idx: Vec<usize> = (0..n).collect();
    parallel(&idx, |_, _, &i| {
        if Instant::now() > until {
            c.exhaustive.store(false, std::sync::atomic::Ordering::Relaxed);
            return;
        }
        for j in 0..n {
            let (a, b) = (&hs[i], &hs[j]);
            if a.ty != b.ty {
                continue;
            }
            c.case(|| format!("overwrite:{}>{}", a.key(), b.key()), || {
                fn one<T: El>(a: &IoHist, b: &IoHist) -> R
                where
                    G: Distance<T>,
                {
                    let d = Dir::new();
                    let (x, y) = (a.build::<T>(), b.build::<T>());
                    for n in ["ab", "a-1", "b", "a.hnsw.data"] {
                        x.file_dump(&d.abs, n).map_err(|e| e.to_string())?;
                    }
                    let before = d.list();
                    let n = x.file_dump(&d.abs, "a").map_err(|e| e.to_string())?;
                    ensure!(n == "a", "dumped as {}", n);
                    let n = y.file_dump(&d.abs, "a").map_err(|e| e.to_string())?;
                    ensure!(n == "a", "dumped as {}", n);
                    let after = d.list();
                    ensure!(before.iter().all(|(f, x)| after.get(f) == Some(x)), "a file of another name was altered");
                    ensure!(after.len() == before.len() + 2, "files {:?} after the dump", after.keys());
                    let l = load::<T, G>(&d.abs, "a", None)?;
                    same_index(&y, l.h(), &b.queries::<T>(), b.ties)?;
                    let l = load::<T, G>(&d.abs, "a", Some(0))?;
                    same_index(&y, l.h(), &b.queries::<T>(), b.ties)
                }
                for_type!(a.ty, one(a, b))
            });
        }
    });
}

// ------------------------------------------------------------------------------------------------
/// C14: every pair of element types, every pair of distances
pub fn c14() {
    base();
    let c = ctx();
    for from in 0..NTYPES {
        for to in 0..NTYPES {
            for w in words(2, 2) {
                c.case(|| format!("type:{}>{}:{:?}", TNAMES[from], TNAMES[to], w), || {
                    let d = Dir::new();
                    let mut hi = small_hist(from);
                    hi.pts.truncate(2);
                    for (p, l) in hi.pts.iter_mut().zip(&w) {
                        p.2 = *l;
                    }
                    for_type!(from, c14_dump(&hi, &d))?;
                    let r = for_type!(to, c14_load(&d, from == to, to < NTYPES_MAP));
                    c.state(hash64(format!("{}{}{:?}", from, to, w).as_bytes()));
                    r
                });
            }
        }
    }
    fn c14_dump<T: El>(hi: &IoHist, d: &Dir) -> R
    where
        G: Distance<T>,
    {
        hi.build::<T>().file_dump(&d.abs, "a").map_err(|e| e.to_string()).map(|_| ())
    }
    fn c14_load<T: El>(d: &Dir, same: bool, map: bool) -> R
    where
        G: Distance<T>,
    {
        if same && !map {
            ensure!(load::<T, G>(&d.abs, "a", None).is_ok(), "the dumped type is refused");
            return Ok(());
        }
        for mm in [None, Some(0), Some(1), Some(2)] {
            let r = load::<T, G>(&d.abs, "a", mm);
            ensure!(r.is_ok() == same, "reload as {} with map {:?}: {}", T::TN, mm, if same { "refused" } else { "an index is returned" });
        }
        let r = load_with::<T, G>(&d.abs, "a", G);
        ensure!(r.is_ok() == same, "reload as {} with the distance given: {}", T::TN, if same { "refused" } else { "an index is returned" });
        let r = DataMap::from_hnswdump::<T>(&d.abs, "a");
        ensure!(r.is_ok() == same, "data map as {}: {}", T::TN, if same { "refused" } else { "accepted" });
        Ok(())
    }
    // check_data_type, for every pair
    for from in 0..NTYPES {
        c.case(|| format!("check_data_type:{}", TNAMES[from]), || {
            fn one<T: El>(from: usize) -> R
            where
                G: Distance<T>,
            {
                let d = Dir::new();
                let mut hi = small_hist(from);
                hi.pts.truncate(2);
                hi.build::<T>().file_dump(&d.abs, "a").map_err(|e| e.to_string())?;
                let dm = DataMap::from_hnswdump::<T>(&d.abs, "a")?;
                fn is<U: El>(dm: &DataMap) -> bool {
                    dm.check_data_type::<U>()
                }
                for to in 0..NTYPES {
                    let r = for_type!(to, is(&dm));
                    ensure!(r == (from == to), "check_data_type of {} for a dump of {} answers {}", TNAMES[to], TNAMES[from], r);
                }
                ensure!(!dm.check_data_type::<String>() && !dm.check_data_type::<Vec<f32>>() && !dm.check_data_type::<usize>() && !dm.check_data_type::<bool>(), "check_data_type accepts other types");
                Ok(())
            }
            for_type!(from, one(from))
        });
    }
    // distances
    fn pairs<T: El>(pts: &[Vec<T>], all: &[(&'static str, fn(&Dir, &[Vec<T>]) -> R, fn(&Dir, Option<usize>) -> bool)]) {
        let c = ctx();
        for (nf, dump, _) in all {
            for (nt, _, ld) in all {
                c.case(|| format!("dist:{}:{}>{}", T::TN, nf, nt), || {
                    let d = Dir::new();
                    dump(&d, pts)?;
                    for mm in [None, Some(0), Some(1), Some(usize::MAX)] {
                        if mm.is_some() && mm != Some(usize::MAX) && std::mem::align_of::<T>() > 4 {
                            continue;
                        }
                        let ok = ld(&d, mm);
                        ensure!(ok == (nf == nt), "reload with {} ({:?}) of a dump with {}: {}", nt, mm, nf, if ok { "an index is returned" } else { "refused" });
                    }
                    c.state(hash64(format!("{}{}{}", T::TN, nf, nt).as_bytes()));
                    Ok(())
                });
            }
        }
    }
    fn dump_d<T: El, D: Distance<T> + Default + Send + Sync + 'static>(d: &Dir, pts: &[Vec<T>]) -> R {
        let h = Hnsw::<T, D>::new(4, 10, 16, 8, D::default());
        for (i, p) in pts.iter().enumerate() {
            h.insert((p, i));
        }
        h.file_dump(&d.abs, "a").map_err(|e| e.to_string()).map(|_| ())
    }
    fn ld<T: El, D: Distance<T> + Default + Send + Sync + 'static>(d: &Dir, mm: Option<usize>) -> bool {
        if mm == Some(usize::MAX) {
            load_with::<T, D>(&d.abs, "a", D::default()).is_ok()
        } else {
            load::<T, D>(&d.abs, "a", mm).is_ok()
        }
    }
    macro_rules! ds { ($t:ty, $pts:expr; $($d:ty),*) => {
        pairs::<$t>(&$pts, &[$((stringify!($d), dump_d::<$t, $d>, ld::<$t, $d>)),*])
    } }
    let f: Vec<Vec<f32>> = vec![vec![0.5, 0.25, 0.25], vec![0.125, 0.5, 0.375], vec![0.25, 0.25, 0.5]];
    ds!(f32, f; DistL1, DistL2, DistCosine, DistDot, DistHellinger, DistJeffreys, DistJensenShannon, G, XG, GX, DistL12, MyDistL1, L1, distl2, Gen1<Arg>, Gen2<Arg>, Gen1<Arg2>, Gen1<Gen2<Arg>>);
    let i: Vec<Vec<u32>> = vec![vec![1, 2, 3], vec![1, 5, 3], vec![8, 2, 6]];
    fn cv<T: El>(v: &[Vec<u32>]) -> Vec<Vec<T>> {
        v.iter().map(|p| conv(p)).collect()
    }
    ds!(i32, cv::<i32>(&i); DistL1, DistL2, DistHamming, DistJaccard2, G, GX, XG, MyDistL1, DistL12, L1);
    ds!(u32, cv::<u32>(&i); DistL1, DistL2, DistHamming, DistJaccard, G);
    ds!(u16, cv::<u16>(&i); DistL1, DistL2, DistHamming, DistJaccard, DistLevenshtein, G);
    ds!(u8, cv::<u8>(&i); DistL1, DistL2, DistHamming, DistJaccard, G);
    ds!(f64, cv::<f64>(&i); DistL1, DistL2, DistHamming, G);
    c14_elements();
}
/// a distance whose name extends that of another one
#[derive(Clone, Copy, Default)]
pub struct DistJaccard2;
impl Distance<i32> for DistJaccard2 {
    fn eval(&self, a: &[i32], b: &[i32]) -> f32 {
        gdist(a, b)
    }
}

/// element types that are not numbers: of the same name in other modules, with arguments, compound
mod ela {
    #[derive(Clone, Copy, Debug, Default, PartialEq, serde::Serialize, serde::Deserialize)]
    pub struct E(pub u32);
    #[derive(Clone, Copy, Debug, Default, PartialEq, serde::Serialize, serde::Deserialize)]
    pub struct W<A>(pub A);
}
mod elb {
    #[derive(Clone, Copy, Debug, Default, PartialEq, serde::Serialize, serde::Deserialize)]
    pub struct E(pub u32);
    #[derive(Clone, Copy, Debug, Default, PartialEq, serde::Serialize, serde::Deserialize)]
    pub struct V<A>(pub A);
}
#[derive(Clone, Copy, Default)]
struct Any;
impl<T: Send + Sync> Distance<T> for Any {
    fn eval(&self, a: &[T], b: &[T]) -> f32 {
        (a.len() as f32 - b.len() as f32).abs()
    }
}
fn c14_elements() {
    trait X: 'static + Clone + Send + Sync + std::fmt::Debug + Default + serde::Serialize + serde::de::DeserializeOwned {}
    impl<T: 'static + Clone + Send + Sync + std::fmt::Debug + Default + serde::Serialize + serde::de::DeserializeOwned> X for T {}
    type Dump = fn(&Dir) -> R;
    type Load = fn(&Dir, Option<usize>) -> bool;
    type Check = fn(&DataMap) -> bool;
    type Map = fn(&Dir) -> Option<DataMap>;
    fn dump<T: X>(d: &Dir) -> R {
        let h = Hnsw::<T, Any>::new(4, 10, 16, 8, Any);
        for i in 1..4 {
            h.insert((&vec![T::default(); i], i));
        }
        h.file_dump(&d.abs, "a").map_err(|e| e.to_string()).map(|_| ())
    }
    fn ld<T: X>(d: &Dir, mm: Option<usize>) -> bool {
        let mut io = HnswIo::new(&d.abs, "a");
        if let Some(t) = mm {
            let o = ReloadOptions::new(true).set_mmap_threshold(t);
            io.set_options(o);
        }
        let r = if mm == Some(9) { io.load_hnsw_with_dist::<T, Any>(Any) } else { io.load_hnsw::<T, Any>() };
        r.is_ok()
    }
    fn ck<T: X>(m: &DataMap) -> bool {
        m.check_data_type::<T>()
    }
    fn map<T: X>(d: &Dir) -> Option<DataMap> {
        DataMap::from_hnswdump::<T>(&d.abs, "a").ok()
    }
    macro_rules! list { ($($t:ty),*) => { [$((std::any::type_name::<$t>(), std::mem::align_of::<$t>(), dump::<$t> as Dump, ld::<$t> as Load, ck::<$t> as Check, map::<$t> as Map)),*] } }
    let all = list!(ela::E, elb::E, ela::W<ela::E>, elb::V<ela::E>, ela::W<elb::E>, ela::W<u32>, elb::V<u32>, (u32, ela::E), (i32, ela::E), [ela::E; 2], [ela::E; 3], [elb::E; 2], u32, i32, f32, char, bool);
    let c = ctx();
    for (na, al, dump, _, _, map) in all {
        for (nb, _, _, ld, ck, mapb) in all {
            c.case(|| format!("element:{}>{}", na, nb), || {
                let d = Dir::new();
                dump(&d)?;
                for mm in [None, Some(0), Some(9)] {
                    let ok = ld(&d, mm);
                    ensure!(ok == (na == nb), "reload as {} ({:?}) of a dump of {}: {}", nb, mm, na, if ok { "an index is returned" } else { "refused" });
                }
                if al <= 4 {
                    let m = map(&d).ok_or("the data map of the dumped type is refused")?;
                    ensure!(ck(&m) == (na == nb), "check_data_type of {} for a dump of {} answers {}", nb, na, !(na == nb));
                    ensure!(mapb(&d).is_some() == (na == nb), "data map as {} of a dump of {}", nb, na);
                }
                c.state(hash64(format!("{}{}", na, nb).as_bytes()));
                Ok(())
            });
        }
    }
}

/// distances whose names contain the names of others, or have arguments
macro_rules! named { ($($n:ident),*) => { $(
    #[derive(Clone, Copy, Default)]
    #[allow(non_camel_case_types)]
    pub struct $n;
    impl<T: El> Distance<T> for $n {
        fn eval(&self, a: &[T], b: &[T]) -> f32 {
            gdist(a, b)
        }
    }
)* } }
named!(XG, GX, DistL12, MyDistL1, L1, distl2, Arg, Arg2);
macro_rules! named_gen { ($($n:ident),*) => { $(
    #[derive(Clone, Copy, Default)]
    pub struct $n<A>(std::marker::PhantomData<A>);
    impl<T: El, A: Send + Sync> Distance<T> for $n<A> {
        fn eval(&self, a: &[T], b: &[T]) -> f32 {
            gdist(a, b)
        }
    }
)* } }
named_gen!(Gen1, Gen2);

// ------------------------------------------------------------------------------------------------
/// the dump formats, written from what an index stores
pub fn encode<T: El>(s: &Snap<T>, version: usize, m: u8, ef: usize, dim: usize, scale: f64, dist: &str) -> (Vec<u8>, Vec<u8>) {
    let (mut g, mut d) = (Vec::new(), Vec::new());
    let magic: u32 = match version {
        2 => 0x002a677f,
        3 => 0x002a6771,
        _ => 0x002a6779,
    };
    g.extend(magic.to_ne_bytes());
    g.push(1u8);
    g.push(m);
    if version >= 4 {
        g.extend(scale.to_ne_bytes());
    }
    g.push(16u8);
    g.extend(ef.to_ne_bytes());
    g.extend(s.len().to_ne_bytes());
    g.extend(dim.to_ne_bytes());
    for n in [dist, std::any::type_name::<T>()] {
        g.extend(n.len().to_ne_bytes());
        g.extend(n.as_bytes());
    }
    d.extend(0xa67f0000u32.to_ne_bytes());
    d.extend(dim.to_ne_bytes());
    g.push(16u8);
    for l in 0..16usize {
        g.extend(0x000a676fu32.to_ne_bytes());
        let pts: &[PSnap<T>] = s.layers.get(l).map(|x| &x[..]).unwrap_or(&[]);
        g.extend(pts.len().to_ne_bytes());
        for p in pts {
            g.extend(0x000a678fu32.to_ne_bytes());
            g.extend(p.id.to_ne_bytes());
            g.push(p.pid.0);
            g.extend(p.pid.1.to_ne_bytes());
            for l in 0..16 {
                let nb: &[Nb] = p.nb.get(l).map(|x| &x[..]).unwrap_or(&[]);
                g.extend(nb.len().to_ne_bytes());
                for n in nb {
                    g.extend(n.0.to_ne_bytes());
                    g.push(n.2 .0);
                    g.extend(n.2 .1.to_ne_bytes());
                    g.extend(n.1.to_ne_bytes());
                }
            }
            d.extend(0xa67f0000u32.to_ne_bytes());
            d.extend((p.id as u64).to_ne_bytes());
            let bytes: Vec<u8> = if version == 2 {
                bincode::serialize(&p.v).unwrap()
            } else {
                unsafe { std::slice::from_raw_parts(p.v.as_ptr() as *const u8, std::mem::size_of_val(&p.v[..])) }.to_vec()
            };
            d.extend((bytes.len() as u64).to_ne_bytes());
            d.extend(bytes);
        }
    }
    let top = s.layers.iter().rposition(|l| !l.is_empty()).unwrap();
    let ep = &s.layers[top][0];
    g.extend(ep.id.to_ne_bytes());
    g.push(ep.pid.0);
    g.extend(ep.pid.1.to_ne_bytes());
    (g, d)
}

pub fn c15(until: Instant) {
    crate::large::c15(until);
    let c = ctx();
    let hs: Vec<IoHist> = io_hists(c.thorough, NTYPES).into_iter().filter(|h| h.scale.is_none()).collect();
    each_io(&dup_hists(c.thorough, 3), until, |h| for_type!(h.ty, c15_one(h)));
    each_io(&hs, until, |h| for_type!(h.ty, c15_one(h)));
}
fn c15_one<T: El>(hi: &IoHist) -> R
where
    G: Distance<T>,
{
    let c = ctx();
    let h = hi.build::<T>();
    let s = snap(&h);
    c.state(hash64(format!("{}{}", T::TN, s.text()).as_bytes()));
    let d = Dir::new();
    let dim = h.get_point_indexation().get_data_dimension();
    let scale = 1. / (hi.m as f64).ln();
    let q = hi.queries::<T>();
    // the data map finds vectors by id
    let mappable = std::mem::align_of::<T>() <= 4 && !hi.name.starts_with("dup");
    for v in [2, 3, 4] {
        let (g, b) = encode(&s, v, hi.m as u8, hi.efc, dim, scale, dist_name());
        d.put("old", &g, &b);
        let bad = |e: String| format!("version {}: {}", v, e);
        let ds = load_description(&mut &g[..]).map_err(|e| bad(e.to_string()))?;
        ensure!(
            ds.format_version == v && ds.nb_point == s.len() && ds.dimension == dim && ds.ef == hi.efc && ds.max_nb_connection as usize == hi.m && ds.distname == dist_name() && ds.t_name == std::any::type_name::<T>() && ds.nb_layer == 16,
            "version {}: description not as written", v
        );
        let l = load::<T, G>(&d.abs, "old", None).map_err(bad)?;
        same_index(&h, l.h(), &q, hi.ties).map_err(bad)?;
        dims_agree(&h, l.h()).map_err(bad)?;
        let l = load_with::<T, G>(&d.abs, "old", G).map_err(bad)?;
        same_index(&h, l.h(), &q, hi.ties).map_err(bad)?;
        let l = load_graph(&d.abs, "old").map_err(bad)?;
        same_graph(&s, &snap(&l)).map_err(bad)?;
        if mappable || v == 2 {
            for t in [0, 1, s.len()] {
                let l = load::<T, G>(&d.abs, "old", Some(t)).map_err(|e| format!("version {} mapped, threshold {}: {}", v, t, e))?;
                same_index(&h, l.h(), &q, hi.ties).map_err(|e| format!("version {} mapped, threshold {}: {}", v, t, e))?;
            }
        }
        if v == 2 {
            ensure!(DataMap::from_hnswdump::<T>(&d.abs, "old").is_err(), "a data map of a version 2 dump is returned");
        } else if mappable {
            check_datamap(&h, &d.abs, "old").map_err(bad)?;
        }
        // a reloaded old dump is dumped in the current format
        let l = load::<T, G>(&d.abs, "old", None).map_err(bad)?;
        let n = l.h().file_dump(&d.abs, "old").map_err(|e| bad(e.to_string()))?;
        let l2 = load::<T, G>(&d.abs, &n, None).map_err(bad)?;
        same_index(&h, l2.h(), &q, hi.ties).map_err(bad)?;
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------
pub fn c16(until: Instant) {
    crate::large::c16(until);
    let c = ctx();
    c.case(|| "empty".into(), || {
        let h = Hnsw::<f32, G>::new(4, 10, 16, 8, G);
        let f = FlatNeighborhood::from(&h);
        for id in [0, 1, usize::MAX] {
            ensure!(f.get_neighbours(id).is_none(), "an empty index has a neighbourhood for {}", id);
        }
        Ok(())
    });
    each_io(&io_hists(c.thorough, NTYPES), until, |h| for_type!(h.ty, c16_one(h)));
}
pub fn check_flat<T: Clone>(s: &Snap<T>, f: &FlatNeighborhood) -> R {
    for p in s.points() {
        let got = match f.get_neighbours(p.id) {
            Some(v) => nbs(&v),
            None => return Err(format!("no neighbourhood for id {}", p.id)),
        };
        ensure!(got.windows(2).all(|w| w[0].1 <= w[1].1), "neighbourhood of {} not sorted: {:?}", p.id, got);
        let mut want: Vec<Nb> = p.nb.iter().flatten().copied().collect();
        let mut g = got.clone();
        let cmp = |a: &Nb, b: &Nb| a.1.partial_cmp(&b.1).unwrap().then(a.2.cmp(&b.2)).then(a.0.cmp(&b.0));
        want.sort_by(cmp);
        g.sort_by(cmp);
        ensure!(want == g, "neighbourhood of {} is {:?}, links {:?}", p.id, g, want);
    }
    let ids: std::collections::HashSet<usize> = s.points().map(|p| p.id).collect();
    for p in s.points() {
        for o in [p.id.wrapping_add(1), p.id.wrapping_sub(1), p.id ^ 64] {
            ensure!(ids.contains(&o) || f.get_neighbours(o).is_none(), "a neighbourhood for the unknown id {}", o);
        }
    }
    Ok(())
}
fn c16_one<T: El>(hi: &IoHist) -> R
where
    G: Distance<T>,
{
    // while it is built
    let h = hi.empty::<T>();
    for i in 0..hi.pts.len() {
        hi.insert(&h, i);
        if hi.pts.len() < 10 || i % 16 == 0 {
            check_flat(&snap(&h), &FlatNeighborhood::from(&h))?;
        }
    }
    let s = snap(&h);
    check_flat(&s, &FlatNeighborhood::from(&h))?;
    ctx().state(hash64(format!("{}{}", T::TN, s.text()).as_bytes()));
    let d = Dir::new();
    h.file_dump(&d.abs, "a").map_err(|e| e.to_string())?;
    let l = load_graph(&d.abs, "a").map_err(|e| format!("reload of the graph: {}", e))?;
    same_graph(&s, &snap(&l)).map_err(|e| format!("reload of the graph: {}", e))?;
    same_params(&h, &l)?;
    check_flat(&s, &FlatNeighborhood::from(&l)).map_err(|e| format!("reload of the graph: {}", e))?;
    let l = load::<T, G>(&d.abs, "a", None)?;
    check_flat(&s, &FlatNeighborhood::from(l.h())).map_err(|e| format!("reload: {}", e))
}

// ------------------------------------------------------------------------------------------------
/// C21: the reloaded index goes on like the original
pub fn c21(until: Instant) {
    crate::large::c21(until);
    let c = ctx();
    let mut v: Vec<IoHist> = Vec::new();
    let (p, q) = tie_free(5, 2, 5);
    let pts: Vec<Vec<u32>> = p.iter().map(|x| vec![x[0] as u32, x[1] as u32]).collect();
    let qs: Vec<Vec<u32>> = q.iter().map(|x| vec![x[0] as u32, x[1] as u32]).collect();
    let ns: &[usize] = &[2, 3, 4, 5];
    for &n in ns {
        let b = match n {
            2 => 4,
            3 => 3,
            _ => c.pick(2, 3),
        };
        let orders: Vec<Vec<usize>> = permutations(n).into_iter().step_by(if n == 5 { c.pick(12, 1) } else if n == 4 { c.pick(2, 1) } else { 1 }).collect();
        for o in &orders {
            for w in words(n, b) {
                for (i, (m, efc, ext, keep)) in [(2, 4, false, false), (2, 2, true, true), (3, 8, true, false), (4, 1, false, false)].into_iter().enumerate() {
                    let mut pp: Vec<(usize, Vec<u32>, usize)> = Vec::new();
                    for (x, l) in o.iter().zip(&w) {
                        pp.push((IDS[*x], pts[*x].clone(), *l));
                    }
                    v.push(IoHist { name: format!("on{}", o.iter().map(|x| x.to_string()).collect::<String>()), ty: (i + n) % 3, m, efc, ext, keep,
                        scale: [None, Some(0.5), None][(i + w[0]) % 3], pts: pp, queries: qs.clone(), ties: false });
                }
            }
        }
    }
    // longer ones: lists fill up after the reload
    for seed in 0..c.pick(6, 40) {
        for (m, efc, ext, keep) in [(2, 6, false, false), (3, 6, true, false), (4, 9, false, true), (8, 2, false, false), (5, 3, true, true), (16, 1, false, false)] {
            let (p, q) = tie_free(14, 2, 100 + seed);
            let lv = |i: usize| [0usize, 0, 1, 0, 2, 0, 0, 1, 0, 0, 1, 0, 0, 0][(i + seed as usize) % 14];
            let pp = p.iter().enumerate().map(|(i, x)| (7 * i + 3, vec![x[0] as u32, x[1] as u32], lv(i))).collect();
            v.push(IoHist { name: format!("long{}", seed), ty: 0, m, efc, ext, keep, scale: None, pts: pp,
                queries: q.iter().map(|x| vec![x[0] as u32, x[1] as u32]).collect(), ties: false });
        }
    }
    // many points
    for (i, (n, m, efc)) in [(60, 4, 10), (80, 8, 3), (100, 16, 40), (130, 2, 12), (70, 24, 30), (90, 3, 3)].into_iter().enumerate() {
        let mut h = crate::iou::big(i % 3, n, 3 + i, m, 900 + i as u32);
        h.name = format!("many{}", n);
        h.efc = efc;
        h.ext = i % 2 == 1;
        h.keep = i % 3 == 1;
        v.push(h);
    }
    v.extend(dup_hists(c.thorough, 3));
    each_io(&v, until, |h| for_type!(h.ty, c21_one(h)));
}
fn c21_one<T: El>(hi: &IoHist) -> R
where
    G: Distance<T>,
{
    let c = ctx();
    let q = hi.queries::<T>();
    let n = hi.pts.len();
    let cuts: Vec<usize> = if n <= 5 { (1..n).collect() } else if n < 20 { vec![1, 3, 6, 9, 13] } else { vec![hi.m.min(n - 1), n / 2, n - 3] };
    for cut in cuts {
        let mut orig = hi.empty::<T>();
        for i in 0..cut {
            hi.insert(&orig, i);
        }
        // reload gives its own settings: both go on with the same ones
        let d = Dir::new();
        orig.file_dump(&d.abs, "a").map_err(|e| e.to_string())?;
        let mut re: Vec<(&str, Loaded<T, G>)> = vec![
            ("plain", load::<T, G>(&d.abs, "a", None)?),
            ("given", load_with::<T, G>(&d.abs, "a", G)?),
        ];
        if !hi.name.starts_with("dup") {
            re.push(("mapped", load::<T, G>(&d.abs, "a", Some(0))?));
            re.push(("half mapped", load::<T, G>(&d.abs, "a", Some(1))?));
        }
        if hi.scale.is_none() {
            let dim = orig.get_point_indexation().get_data_dimension();
            for v in [2, 3] {
                let (g, b) = encode(&snap(&orig), v, hi.m as u8, hi.efc, dim, 0., dist_name());
                let n = format!("v{}", v);
                d.put(&n, &g, &b);
                re.push((if v == 2 { "version 2" } else { "version 3" }, load::<T, G>(&d.abs, &n, None)?));
            }
        }
        orig.set_extend_candidates(hi.ext);
        orig.set_keeping_pruned(hi.keep);
        for (_, l) in re.iter_mut() {
            l.hm().set_extend_candidates(hi.ext);
            l.hm().set_keeping_pruned(hi.keep);
        }
        for i in cut..n {
            hi.insert(&orig, i);
            let s = snap(&orig);
            c.state(hash64(format!("{}{}{}", T::TN, cut, s.text()).as_bytes()));
            for (w, l) in re.iter() {
                hi.insert(l.h(), i);
                let bad = |e: String| format!("{} points, dumped, reloaded ({}), {} inserted: {}", cut, w, i + 1 - cut, e);
                same_graph(&s, &snap(l.h())).map_err(bad)?;
                same_params(&orig, l.h()).map_err(bad)?;
                same_answers(&orig, l.h(), &q, hi.ties).map_err(bad)?;
                check_links(l.h(), &snap(l.h()), hi.m).map_err(bad)?;
                let (a, b): (Vec<usize>, Vec<usize>) = (
                    orig.get_point_indexation().into_iter().map(|p| p.get_origin_id()).collect(),
                    l.h().get_point_indexation().into_iter().map(|p| p.get_origin_id()).collect(),
                );
                ensure!(a == b, "{}", bad(format!("enumeration {:?}, original {:?}", b, a)));
            }
        }
        // by list
        for (w, l) in re.iter() {
            ensure!(l.h().get_nb_point() == n, "reloaded ({}): {} points", w, l.h().get_nb_point());
        }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------
/// C17: the level law
pub fn c17(until: Instant) {
    base();
    let c = ctx();
    #[derive(Clone)]
    struct L {
        m: usize,
        maxl: usize,
        scale: Option<f64>,
        /// 0 as built, 1 reloaded, 2 reloaded from version 3, 3 scale changed twice
        how: usize,
    }
    let mut items: Vec<L> = Vec::new();
    for m in [2usize, 3, 4, 8, 16, 64, 255] {
        for scale in [None, Some(1.), Some(0.5), Some(0.2), Some(0.1), Some(0.), Some(-1.), Some(1.5), Some(1e300), Some(0.75)] {
            for maxl in [16usize, 1, 2, 3, 5, 20, 300] {
                items.push(L { m, maxl, scale, how: 0 });
            }
            items.push(L { m, maxl: 16, scale, how: 1 });
            if scale.is_none() {
                items.push(L { m, maxl: 16, scale, how: 2 });
            }
        }
    }
    let bits = c.pick(10, 14);
    parallel(&items, |_, _, it| {
        if Instant::now() > until {
            c.exhaustive.store(false, std::sync::atomic::Ordering::Relaxed);
            return;
        }
        c.case(|| format!("law:M{}L{}s{:?}h{}", it.m, it.maxl, it.scale, it.how), || {
            // `draw` gives the layer in which a new point is put for a sequence of raw values
            let mk = || -> Result<(Hnsw<'static, f32, G>, Option<Loaded<f32, G>>), String> {
                let mut h = Hnsw::<f32, G>::new(it.m, 2, it.maxl, 1, G);
                if let Some(s) = it.scale {
                    h.modify_level_scale(s);
                }
                if it.how == 0 {
                    return Ok((h, None));
                }
                rng::force(Some(raw_for_xsi(0.9999999)));
                h.insert((&[1f32][..], 1));
                rng::force(None);
                let d = Dir::new();
                if it.how == 1 {
                    h.file_dump(&d.abs, "a").map_err(|e| e.to_string())?;
                } else {
                    let (g, b) = encode(&snap(&h), 3, it.m as u8, 1, 1, 0., dist_name());
                    d.put("a", &g, &b);
                }
                let l = load::<f32, G>(&d.abs, "a", None)?;
                Ok((h, Some(l)))
            };
            let s = it.scale.unwrap_or(1.).clamp(0.2, 1.);
            let nl = it.maxl.min(16);
            let rate = (it.m as f64).ln() / s;
            let (h0, l0) = mk()?;
            let cur = |x: &Hnsw<'static, f32, G>| x.get_point_indexation().get_level_scale();
            let sc = cur(l0.as_ref().map(|l| l.h()).unwrap_or(&h0));
            ensure!((sc * rate - 1.).abs() < 1e-9, "level scale {} expected {}", sc, 1. / rate);
            let mut ix = (h0, l0);
            let mut n = 0usize;
            let mut draws = 0u64;
            let mut draw = |raws: &[u64]| -> Result<usize, String> {
                // a small index each time: the law is that of the generator
                if n >= 24 {
                    ix = mk()?;
                    n = 0;
                }
                let x: &Hnsw<f32, G> = ix.1.as_ref().map(|l| l.h()).unwrap_or(&ix.0);
                let pi = x.get_point_indexation();
                let before: Vec<usize> = (0..nl).map(|l| pi.get_layer_nb_point(l)).collect();
                rng::script(raws);
                x.insert((&[n as f32][..], n + 10));
                rng::force(None);
                n += 1;
                draws += 1;
                let at: Vec<usize> = (0..nl).filter(|l| pi.get_layer_nb_point(*l) == before[*l] + 1).collect();
                ensure!(at.len() == 1, "the new point went to layers {:?} of {}", at, nl);
                Ok(at[0])
            };
            // 1. evenly spaced values: the share of the points at layer l or above
            let big = 1usize << bits;
            let mut ge = vec![0usize; nl + 1];
            for i in 0..big {
                let x = (i as f64 + 0.5) / big as f64;
                // the second draw, when the first exceeds the maximum, gives layer 0
                let l = draw(&[raw_for_xsi(x), 0])?;
                for g in ge.iter_mut().take(l + 1) {
                    *g += 1;
                }
            }
            let over = (-(nl as f64) * rate).exp();
            for (l, g) in ge.iter().enumerate().take(nl).skip(1) {
                let p = (-(l as f64) * rate).exp() - over;
                ensure!((*g as f64 - p * big as f64).abs() <= 2., "layer {} or above for {} of {} draws, probability {}", l, g, big, p);
            }
            // 2. around every threshold
            for l in 1..nl {
                let t = (-(l as f64) * rate).exp();
                if t < 1e-13 {
                    break;
                }
                // raw values have 52 bits
                let e = (t * 1e-6).max(3. / (1u64 << 52) as f64);
                let (a, b) = (draw(&[raw_for_xsi(t + e), 0])?, draw(&[raw_for_xsi((t - e).max(0.)), 0])?);
                ensure!(a == l - 1, "value {} above the threshold of layer {} gives layer {}", t + e, l, a);
                if l < nl && t > 1e-11 {
                    ensure!(b == l, "value {} below the threshold of layer {} gives layer {}", t - e, l, b);
                }
            }
            // 3. values beyond the maximum are spread over all layers: what is drawn after them runs through an evenly
            // spread sequence, and goes on in it when a value is refused (some ways to draw from a range refuse values)
            let firsts: &[u64] = if over > 1e-13 { &[0, raw_for_xsi(over * 0.5), raw_for_xsi(over * 0.99)] } else { &[0] };
            let each = if over > 1e-13 { 32 } else { 16 };
            for first in firsts {
                let mut cnt = vec![0usize; nl];
                let mut next = 0u64;
                for _ in 0..each * nl {
                    let mut raws = vec![*first];
                    raws.extend((0..12).map(|j| (next + j).wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(0x1234_5678_9ABC_DEF0)));
                    let d0 = rng::draws();
                    cnt[draw(&raws)?] += 1;
                    next += (rng::draws() - d0).saturating_sub(1).max(1);
                }
                ensure!(cnt.iter().all(|x| (*x as i64 - each as i64).abs() <= each as i64 / 4), "draws beyond the maximum are spread as {:?}", cnt);
            }
            c.state(hash64(format!("{:?}{:?}", ge, it.how).as_bytes()));
            c.count("operations", draws);
            Ok(())
        });
    });
}

// ------------------------------------------------------------------------------------------------
/// C20 for reloaded indexes: what the thread has allocated is back where it was when the index is dropped.
pub fn c20_reload(until: Instant) {
    crate::large::c20(until);
    let c = ctx();
    let hs: Vec<IoHist> = io_hists(c.thorough, NTYPES).into_iter().filter(|h| h.name == "io" && h.pts.len() >= 2 && (c.thorough || (h.pts.len() <= 4 && h.ty % 3 == 0))).collect();
    each_io(&hs, until, |h| for_type!(h.ty, c20_one(h)));
}
fn c20_one<T: El>(hi: &IoHist) -> R
where
    G: Distance<T>,
{
    let c = ctx();
    // long vectors: one of them is more than all else that may be kept for later use
    let wide = |v: &[u32]| -> Vec<T> {
        let mut w = conv::<T>(v);
        w.resize(16384, T::default());
        w
    };
    let one = (16384 * std::mem::size_of::<T>()) as isize;
    let n = hi.pts.len();
    let fill = |h: &Hnsw<'static, T, G>, from: usize, to: usize| {
        for i in from..to {
            rng::force(Some(hi.raw(i)));
            h.insert((&wide(&hi.pts[i].1), hi.pts[i].0));
            rng::force(None);
        }
    };
    let d = Dir::new();
    let h = hi.empty::<T>();
    let cut = (n + 1) / 2;
    fill(&h, 0, cut);
    h.file_dump(&d.abs, "part").map_err(|e| e.to_string())?;
    fill(&h, cut, n);
    h.file_dump(&d.abs, "all").map_err(|e| e.to_string())?;
    let (g, b) = encode(&snap(&h), 2, hi.m as u8, hi.efc, h.get_point_indexation().get_data_dimension(), 0., dist_name());
    d.put("v2", &g, &b);
    drop((g, b));
    let q = wide(&hi.queries[0]);
    let mapped: &[Option<usize>] = if std::mem::align_of::<T>() <= 4 { &[None, Some(0), Some(1), Some(2)] } else { &[None] };
    for name in ["all", "part", "v2"] {
        for mm in mapped {
            for again in 0..2 {
                let before = crate::alloc::live();
                let mut l = load::<T, G>(&d.abs, name, *mm)?;
                l.hm().set_extend_candidates(hi.ext);
                if name == "part" {
                    fill(l.h(), cut, n);
                }
                let held = crate::alloc::live() - before;
                if mm.is_none() {
                    ensure!(held >= n as isize * one, "{}: {} points of {} bytes hold {} bytes", name, n, one, held);
                }
                let _ = l.h().search(&q, 2, 4);
                let _ = l.h().get_point_indexation().get_point_data(&PointId(0, 0));
                let kept = if again == 1 && mm.is_none() { l.h().get_point_indexation().into_iter().next() } else { None };
                drop(l);
                let left = crate::alloc::live() - before;
                match kept {
                    None => ensure!(left < one, "{} reloaded {:?}: {} of {} bytes still in use after the index was dropped, a vector has {}", name, mm, left, held, one),
                    Some(p) => {
                        ensure!(left >= one && left < 2 * one, "{} reloaded, one point kept: {} bytes in use after the index was dropped, a vector has {}", name, left, one);
                        let i = hi.pts.iter().position(|x| x.0 == p.get_origin_id()).ok_or("a kept point changed its id")?;
                        ensure!(p.get_v() == &wide(&hi.pts[i].1)[..], "the vector of a kept point changed");
                        drop(p);
                        let left = crate::alloc::live() - before;
                        ensure!(left < one, "{} reloaded: {} bytes still in use after all was dropped, a vector has {}", name, left, one);
                    }
                }
                c.state(hash64(format!("{}{}{:?}", hi.key(), name, mm).as_bytes()));
            }
        }
    }
    Ok(())
}
