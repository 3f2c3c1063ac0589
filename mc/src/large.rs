//! Indexes larger than any history can build in the time there is: more points in a layer than two bytes can count.
//! They are written as dumps, by the description of the format (`iochk::encode`), and reloaded.
use crate::ctx::*;
use crate::iochk::encode;
use crate::iou::*;
use crate::util::*;
use hnsw_rs::flatten::FlatNeighborhood;
use hnsw_rs::prelude::*;
use mcctl::rng;
use std::time::Instant;

const M: usize = 16;

/// `n[l]` points in layer l; each linked to near and far ones of the layer, and to some of the layers below
fn graph(n: &[usize]) -> Snap<f32> {
    let at = |l: usize, r: usize| (4 * r + l) as f32;
    let id = |l: usize, r: usize| (r * 5 + l) ^ if r % 3 == 0 { 1 << 40 } else { 0 };
    let mut layers = Vec::new();
    for l in 0..n.len() {
        let mut v = Vec::with_capacity(n[l]);
        for r in 0..n[l] {
            let nb = (0..n.len())
                .map(|k| {
                    if k > l {
                        return vec![];
                    }
                    let m = n[k];
                    let c = r % m;
                    let mut to = vec![(c + 1) % m, (c + m - 1) % m, (c + m / 2) % m, (c + 977) % m];
                    if k < l {
                        to.push(c);
                    }
                    to.sort();
                    to.dedup();
                    let mut e: Vec<Nb> = to
                        .into_iter()
                        .filter(|t| (k, *t) != (l, r))
                        .map(|t| (id(k, t), (at(k, t) - at(l, r)).abs(), (k as u8, t as i32)))
                        .collect();
                    e.sort_by(|a, b| a.1.partial_cmp(&b.1).unwrap());
                    e
                })
                .collect();
            v.push(PSnap { id: id(l, r), pid: (l as u8, r as i32), v: vec![at(l, r)], nb });
        }
        layers.push(v);
    }
    Snap { layers }
}

/// up to 16 layers and 16 lists
fn padded(s: &Snap<f32>) -> Snap<f32> {
    let mut s = s.clone();
    s.layers.resize(16, vec![]);
    for p in s.layers.iter_mut().flatten() {
        p.nb.resize(16, vec![]);
    }
    s
}

pub fn each(until: Instant, f: impl Fn(&Snap<f32>, &Dir) -> R + Sync) {
    let c = ctx();
    let sizes: &[&[usize]] = if c.thorough { &[&[70_000, 300, 2], &[400, 66_000, 33_000], &[150_000], &[33_000, 1]] } else { &[&[70_000, 300, 2], &[400, 33_000]] };
    base();
    parallel(sizes, |_, _, n| {
        if Instant::now() > until {
            c.exhaustive.store(false, std::sync::atomic::Ordering::Relaxed);
            return;
        }
        c.case(|| format!("large:{:?}", n), || {
            let s = padded(&graph(n));
            c.state(hash64(format!("large{:?}", n).as_bytes()));
            let d = Dir::new();
            for v in [2, 3, 4] {
                let (g, b) = encode(&s, v, M as u8, 20, 1, 1. / (M as f64).ln(), dist_name());
                d.put(&format!("v{}", v), &g, &b);
            }
            f(&s, &d)
        });
    });
}

fn same(s: &Snap<f32>, t: &Snap<f32>) -> R {
    same_graph(s, t)?;
    for (x, y) in s.points().zip(t.points()) {
        ensure!(x.v == y.v, "point {}: vector {:?} reloaded as {:?}", x.id, x.v, y.v);
    }
    Ok(())
}

fn queries() -> Vec<Vec<f32>> {
    (0..40).map(|i| vec![(i * i * 173) as f32 + 0.25]).collect()
}

pub fn c10(until: Instant) {
    each(until, |s, d| {
        let l = load::<f32, G>(&d.abs, "v4", None)?;
        same(s, &snap(l.h()))?;
        ensure!(l.h().get_nb_point() == s.len(), "{} points, reloaded {}", s.len(), l.h().get_nb_point());
        let n = l.h().file_dump(&d.abs, "again").map_err(|e| e.to_string())?;
        crate::iochk::check_description(d, &n, l.h())?;
        let m = load::<f32, G>(&d.abs, &n, None)?;
        same(s, &snap(m.h()))?;
        same_params(l.h(), m.h())?;
        same_answers(l.h(), m.h(), &queries(), true)
    })
}

pub fn c11(until: Instant) {
    each(until, |s, d| {
        let l = load::<f32, G>(&d.abs, "v4", None)?;
        for t in [0, s.len() / 2, s.len() - 1] {
            let m = load::<f32, G>(&d.abs, "v4", Some(t))?;
            same(s, &snap(m.h())).map_err(|e| format!("threshold {}: {}", t, e))?;
            same_params(l.h(), m.h())?;
            same_answers(l.h(), m.h(), &queries(), true)?;
        }
        let dm = hnsw_rs::datamap::DataMap::from_hnswdump::<f32>(&d.abs, "v4")?;
        ensure!(dm.get_nb_data() == s.len(), "data map: {} vectors of {}", dm.get_nb_data(), s.len());
        ensure!(dm.get_dataid_iter().copied().eq(s.points().map(|p| p.id)), "data map: other ids, or in another order");
        for p in s.points() {
            ensure!(dm.get_data::<f32>(&p.id) == Some(&p.v[..]), "data map: id {} has {:?}", p.id, dm.get_data::<f32>(&p.id));
        }
        Ok(())
    })
}

pub fn c15(until: Instant) {
    each(until, |s, d| {
        for v in [2, 3, 4] {
            let l = load::<f32, G>(&d.abs, &format!("v{}", v), None).map_err(|e| format!("version {}: {}", v, e))?;
            same(s, &snap(l.h())).map_err(|e| format!("version {}: {}", v, e))?;
        }
        Ok(())
    })
}

pub fn c16(until: Instant) {
    each(until, |s, d| {
        let l = load_graph(&d.abs, "v4")?;
        same_graph(s, &snap(&l))?;
        crate::iochk::check_flat(s, &FlatNeighborhood::from(&l))?;
        let l = load::<f32, G>(&d.abs, "v4", None)?;
        crate::iochk::check_flat(s, &FlatNeighborhood::from(l.h()))
    })
}

pub fn c18(until: Instant) {
    each(until, |s, d| {
        let l = load::<f32, G>(&d.abs, "v4", None)?;
        let pi = l.h().get_point_indexation();
        let all: Vec<((u8, i32), usize)> = pi.into_iter().map(|p| (pid(p.get_point_id()), p.get_origin_id())).collect();
        ensure!(all.iter().copied().eq(s.points().map(|p| (p.pid, p.id))), "enumeration gives {} points of {}, or in another order", all.len(), s.len());
        for (k, y) in s.layers.iter().enumerate() {
            ensure!(pi.get_layer_nb_point(k) == y.len(), "layer {} counts {} points, has {}", k, pi.get_layer_nb_point(k), y.len());
            ensure!(pi.get_layer_iterator(k).map(|p| p.get_origin_id()).eq(y.iter().map(|p| p.id)), "layer {} enumerates other points", k);
            for r in (0..y.len() as i32 + 3).chain([-1, 65_535, 65_536, 131_072, i32::MAX, i32::MIN]) {
                let want = if r < 0 { None } else { y.get(r as usize).map(|p| p.v.clone()) };
                let got = pi.get_point_data(&PointId(k as u8, r));
                ensure!(got == want, "coordinate ({}, {}) gives {:?}, expected {:?}", k, r, got, want);
            }
        }
        Ok(())
    })
}

/// what is inserted after the reload has the next coordinates, truthful links, and is found
pub fn c21(until: Instant) {
    each(until, |s, d| {
        for (name, mm) in [("v4", None), ("v4", Some(0)), ("v2", None)] {
            let l = load::<f32, G>(&d.abs, name, mm)?;
            let h = l.h();
            let mut n: Vec<usize> = s.layers.iter().map(|l| l.len()).collect();
            for (i, lev) in [0, 1, 0, 0, 1].into_iter().enumerate() {
                rng::force(Some(raw_level_scale(lev, M, None)));
                let x = [(50_000 * i) as f32 + 2.5];
                h.insert((&x, 7_000_000 + i));
                rng::force(None);
                let a = h.search(&x, 1, 10);
                ensure!(a.len() == 1, "{} neighbours for k = 1", a.len());
                let p = h.get_point_indexation().get_layer_iterator(lev).last().ok_or("no point")?;
                ensure!((p.get_origin_id(), pid(p.get_point_id())) == (7_000_000 + i, (lev as u8, n[lev] as i32)), "point {} inserted in layer {} of {} points is {} at {:?}", 7_000_000 + i, lev, n[lev], p.get_origin_id(), p.get_point_id());
                n[lev] += 1;
                ensure!(h.get_nb_point() == n.iter().sum::<usize>(), "{} points, {} reported", n.iter().sum::<usize>(), h.get_nb_point());
                let nb = p.get_neighborhood_id();
                ensure!(!nb[lev.min(s.layers.iter().rposition(|l| !l.is_empty()).unwrap())].is_empty(), "point {} inserted without links", 7_000_000 + i);
            }
            let t = snap(h);
            check_links(h, &t, M)?;
        }
        Ok(())
    })
}

pub fn c20(until: Instant) {
    each(until, |_, d| {
        for mm in [None, Some(100)] {
            let l = load::<f32, G>(&d.abs, "v4", mm)?;
            let all: Vec<_> = l.h().get_point_indexation().into_iter().map(|p| std::sync::Arc::downgrade(&p)).collect();
            drop(l);
            let kept = all.iter().filter(|w| w.upgrade().is_some()).count();
            ensure!(kept == 0, "{} of {} points still there after the index was dropped", kept, all.len());
        }
        Ok(())
    })
}

/// answers from a large index are truthful
pub fn c05(until: Instant) {
    each(until, |s, d| {
        let l = load::<f32, G>(&d.abs, "v4", None)?;
        for q in queries() {
            for (k, ef) in [(1, 1), (5, 30), (400, 300), (3000, 10)] {
                check_answer(l.h(), s, &q, k, &l.h().search(&q, k, ef)).map_err(|e| format!("query {:?} k={} ef={}: {}", q, k, ef, e))?;
            }
        }
        Ok(())
    })
}
