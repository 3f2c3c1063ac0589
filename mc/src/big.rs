//! Long histories: every prefix of a few hundred insertions is a case of the same checks as in hist.rs, so that what depends on a size
//! (lists filling up, more points than connections, counters, blocks) is met at every size up to the bound.
use crate::ctx::*;
use crate::hist::*;
use crate::model::*;
use crate::util::*;
use hnsw_rs::prelude::*;
use mcctl::rng;
use std::time::Instant;

#[derive(Clone)]
pub struct Big {
    pub cfg: Cfg,
    pub kind: &'static str,
    pub pts: Vec<(usize, [f32; 2])>,
    pub levels: Vec<usize>,
    pub queries: Vec<[f32; 2]>,
}

pub struct Lcg(pub u64);
impl Lcg {
    pub fn next(&mut self, m: u64) -> u64 {
        self.0 ^= self.0 << 13;
        self.0 ^= self.0 >> 7;
        self.0 ^= self.0 << 17;
        (self.0 >> 16) % m
    }
}

/// points none of which has two others at the same distance, likewise the queries
fn points(n: usize, nq: usize, seed: u64) -> (Vec<[f32; 2]>, Vec<[f32; 2]>) {
    let mut r = Lcg(seed.wrapping_mul(0x9E3779B97F4A7C15) | 1);
    // sums of two coordinates are exact
    let w = if n < 700 { 1 << 20 } else { 1 << 23 };
    let mut p: Vec<[f32; 2]> = Vec::new();
    let mut d: Vec<std::collections::HashSet<u32>> = Vec::new();
    while p.len() < n {
        let c = [r.next(w) as f32, r.next(w) as f32];
        let mine: Vec<u32> = p.iter().map(|q| l1(q, &c) as u32).collect();
        let set: std::collections::HashSet<u32> = mine.iter().copied().collect();
        if set.len() < mine.len() || set.contains(&0) || mine.iter().enumerate().any(|(i, x)| d[i].contains(x)) {
            continue;
        }
        for (i, x) in mine.iter().enumerate() {
            d[i].insert(*x);
        }
        p.push(c);
        d.push(set);
    }
    let mut q = vec![p[0], p[n - 1]];
    while q.len() < nq {
        let c = [r.next(w) as f32, r.next(w) as f32];
        let set: std::collections::HashSet<u32> = p.iter().map(|x| l1(x, &c) as u32).collect();
        if set.len() == n {
            q.push(c);
        }
    }
    (p, q)
}

/// layers drawn by the level law; all in the lowest one; every layer holding points; a falling sequence; none in the two lowest
fn levels(kind: &str, n: usize, m: usize, maxl: usize) -> Vec<usize> {
    let mut r = Lcg(0x1234567 + n as u64 * 77 + m as u64);
    // the random source has 52 bits: higher layers cannot be drawn
    let cap = (35. / (m as f64).ln() - 0.5) as usize;
    (0..n)
        .map(|i| match kind {
            "law" => {
                let u = (1 + r.next(1 << 40)) as f64 / (1u64 << 40) as f64;
                ((-u.ln() / (m as f64).ln()) as usize).min(maxl - 1)
            }
            "flat" => 0,
            "mixed" => [0, 0, 1, 0, 2, 0, 1, 3, 0, 0, 5, 1, 0, 2, 0, 15][(i * 7 + i / 16) % 16] % maxl,
            "falling" => (n - 1 - i) * maxl.min(16) / n,
            "rising" => i * maxl.min(16) / n,
            _ => (2 + [0, 0, 0, 1, 0, 2, 0, 0][i % 8]).min(maxl - 1),
        })
        .map(|l: usize| l.min(cap))
        .collect()
}

pub fn bigs(thorough: bool, weight: usize) -> Vec<Big> {
    let mut specs: Vec<(usize, usize, bool, bool, usize, usize, &'static str)> = vec![
        // m, ef, extend, keep, layers, points
        (2, 1, false, false, 16, 100, "law"),
        (2, 6, true, true, 16, 120, "mixed"),
        (3, 2, true, false, 16, 120, "law"),
        (4, 12, false, true, 16, 150, "mixed"),
        (5, 5, false, false, 4, 150, "law"),
        (6, 40, true, true, 16, 150, "law"),
        (8, 3, false, false, 16, 120, "falling"),
        (8, 20, false, false, 16, 120, "rising"),
        (8, 16, true, false, 16, 120, "flat"),
        (8, 16, false, true, 16, 90, "above"),
        (16, 8, true, true, 16, 150, "law"),
        (16, 64, false, false, 16, 200, "law"),
        (24, 30, false, true, 16, 150, "flat"),
        (32, 33, false, false, 16, 140, "mixed"),
        (64, 70, false, false, 16, 200, "law"),
        (33, 100, true, true, 16, 160, "above"),
    ];
    if weight > 0 {
        specs.push((130, 140, false, false, 16, 290, "flat"));
        specs.push((150, 160, false, true, 16, 330, "mixed"));
        specs.push((8, 40, false, false, 16, 2600, "law"));
        specs.push((3, 12, true, false, 16, 2200, "mixed"));
    }
    if thorough {
        for k in ["law", "flat", "mixed", "falling", "rising", "above"] {
            for (m, e) in [(2, 1), (2, 3), (2, 9), (3, 30), (5, 4), (5, 12), (7, 7), (10, 50), (12, 12), (16, 15), (16, 17), (20, 100), (48, 20), (48, 60)] {
                specs.push((m, e, (m + e) % 2 == 0, e % 3 == 0, if e % 4 == 0 { 5 } else { 16 }, 200, k));
            }
        }
        specs.push((2, 20, false, false, 16, 1500, "law"));
        specs.push((16, 40, true, false, 16, 1000, "law"));
        if weight > 0 {
            specs.push((255, 300, false, false, 16, 560, "flat"));
            specs.push((255, 300, true, true, 16, 560, "mixed"));
            specs.push((200, 20, false, false, 16, 600, "law"));
        }
    }
    // the longest ones first
    specs.sort_by_key(|s| std::cmp::Reverse(s.0 * s.5 * s.1.max(s.0)));
    specs
        .into_iter()
        .enumerate()
        .map(|(i, (m, efc, ext, keep, maxl, n, kind))| {
            let (mut p, mut q) = points(n, 6, 1000 + i as u64);
            if i % 4 == 1 {
                // other units
                for x in p.iter_mut().chain(q.iter_mut()) {
                    *x = x.map(|c| (c - (1 << 19) as f32) * (0.5f32).powi(45));
                }
            }
            let pts = p.iter().enumerate().map(|(i, v)| (if i % 10 == 9 { usize::MAX - i } else if i % 10 == 5 { (1 << 32) + i } else { 7 * i + 3 }, *v)).collect();
            Big { cfg: Cfg { m, efc, ext, keep, maxl }, kind, pts, levels: levels(kind, n, m, maxl), queries: q }
        })
        .collect()
}

impl Big {
    pub fn key(&self) -> String {
        let c = &self.cfg;
        format!("long:{}:M{}ef{}{}{}L{}:{}pts", self.kind, c.m, c.efc, if c.ext { "x" } else { "" }, if c.keep { "k" } else { "" }, c.maxl, self.pts.len())
    }
    pub fn n(&self) -> usize {
        self.pts.len()
    }
    pub fn new_index(&self) -> H {
        let mut h = H::new(self.cfg.m, 10, self.cfg.maxl, self.cfg.efc, L1);
        h.set_extend_candidates(self.cfg.ext);
        h.set_keeping_pruned(self.cfg.keep);
        h
    }
    pub fn insert(&self, h: &H, i: usize) {
        rng::force(Some(raw_for_level(self.levels[i], self.cfg.m)));
        h.insert((&self.pts[i].1[..], self.pts[i].0));
        rng::force(None);
    }
    pub fn inserted(&self, n: usize) -> Vec<(usize, Vec<f32>)> {
        self.pts[..n].iter().map(|p| (p.0, p.1.to_vec())).collect()
    }
}

/// Runs `f(history, index, number of points)` for every prefix in which `at` says so.
pub fn each_big(v: &[Big], until: Instant, at: impl Fn(&Big, usize) -> bool + Sync, f: impl Fn(&Big, &H, usize) -> R + Sync) {
    let c = ctx();
    parallel(&v.iter().collect::<Vec<_>>(), |_, _, b| {
        c.case(|| b.key(), || {
            let x = b.new_index();
            for i in 0..b.n() {
                if Instant::now() > until || c.stopped() {
                    c.exhaustive.store(false, std::sync::atomic::Ordering::Relaxed);
                    return Ok(());
                }
                watch_begin(None);
                b.insert(&x, i);
                if at(b, i + 1) {
                    c.count("prefixes", 1);
                    f(b, &x, i + 1).map_err(|e| format!("after {} insertions: {}", i + 1, e))?;
                }
            }
            c.count("insertions", b.n() as u64);
            Ok(())
        });
    });
}

/// every prefix up to 40 points, then some, and the whole
pub fn dense(b: &Big, n: usize) -> bool {
    n <= 40 || n % (if b.n() < 700 { 5 } else { 200 }) == 0 || n == b.n()
}
/// sizes around the powers of two and the bounds of the lists, and the whole
pub fn sparse(b: &Big, n: usize) -> bool {
    let m = b.cfg.m;
    n <= 3 || n == b.n() || (n > 8 && (n - 1).is_power_of_two()) || [m, m + 1, 2 * m, 2 * m + 1, 2 * m + 2].contains(&n)
}

pub fn c03(until: Instant) {
    each_big(&bigs(ctx().thorough, 1), until, dense, |b, x, _| {
        let s = snap(x);
        ctx().state(s.fp());
        check_links(x, &s, b.cfg.m)
    });
}
pub fn c04(until: Instant) {
    each_big(&bigs(ctx().thorough, 1), until, |b, n| n <= b.cfg.m + 1 || dense(b, n), |b, x, n| {
        let s = snap(x);
        ctx().state(s.fp());
        check_linked(&s, n <= b.cfg.m && b.cfg.efc >= b.cfg.m)
    });
}
pub fn c22(until: Instant) {
    let c = ctx();
    parallel(&bigs(c.thorough, 1).iter().collect::<Vec<_>>(), |_, _, b| {
        c.case(|| b.key(), || {
            let x = b.new_index();
            let mut m = Model::new(b.cfg.m, b.cfg.efc, b.cfg.ext, b.cfg.keep, b.cfg.maxl);
            for i in 0..b.n() {
                if Instant::now() > until || c.stopped() {
                    c.exhaustive.store(false, std::sync::atomic::Ordering::Relaxed);
                    return Ok(());
                }
                watch_begin(None);
                b.insert(&x, i);
                m.insert(b.pts[i].0, b.pts[i].1, b.levels[i]);
                if !dense(b, i + 1) {
                    continue;
                }
                let s = snap(&x);
                let (ta, tb) = (s.text(), m.text());
                if ta != tb {
                    let d = ta.lines().zip(tb.lines()).find(|(p, q)| p != q);
                    return Err(format!("after {} insertions: index and model differ: {:?}", i + 1, d));
                }
                if sparse(b, i + 1) {
                    c.state(s.fp());
                    for q in &b.queries {
                        for (k, ef) in [(1, 1), (3, 2), (10, 10), (5, 40), (i + 1, 1), (20, 300)] {
                            let a: Vec<(f32, usize)> = x.search(&q[..], k, ef).iter().map(|n| (n.distance, n.d_id)).collect();
                            let w: Vec<(f32, usize)> = m.search(q, k, ef).iter().map(|n| (n.0, m.pts[n.1].id)).collect();
                            ensure!(a == w, "after {} insertions, query {:?} k={} ef={}: answer {:?}, model {:?}", i + 1, q, k, ef, a, w);
                        }
                    }
                }
            }
            c.count("insertions", b.n() as u64);
            Ok(())
        });
    });
}
fn sizes(n: usize) -> Vec<usize> {
    let mut v = vec![0, 1, 2, 3, 5, 8, 13, 16, 17, 31, 32, 33, 63, 64, 65, n / 2, n - 1, n, n + 1, 2 * n + 5, 300, 1000, 5000];
    v.sort();
    v.dedup();
    v
}
pub fn c05(until: Instant) {
    crate::large::c05(until);
    each_big(&bigs(ctx().thorough, 1), until, sparse, |b, x, n| {
        let s = snap(x);
        ctx().state(s.fp());
        for q in &b.queries {
            for k in sizes(n) {
                for ef in [0, 1, 2, 7, 16, 33, 64, 100, n, n + 1, 300, 2000] {
                    let a = x.search(&q[..], k, ef);
                    ctx().count("operations", 1);
                    check_answer(x, &s, &q[..], k, &a).map_err(|e| format!("query {:?} k={} ef={}: {}", q, k, ef, e))?;
                }
            }
        }
        Ok(())
    });
}
pub fn c06(until: Instant) {
    each_big(&bigs(ctx().thorough, 1), until, sparse, |b, x, n| {
        let s = snap(x);
        ctx().state(s.fp());
        let ks: Vec<usize> = sizes(n).into_iter().filter(|k| *k > 0 && (*k < 40 || *k >= n - 1)).collect();
        let mut w = Vec::new();
        for k in ks {
            for ef in [1, 2, 7, 16, 33, 64, n, n + 1, 300] {
                w.push((k, ef));
            }
        }
        ctx().count("operations", (w.len() * b.queries.len()) as u64);
        adjacent(x, &s, &b.queries, &w)
    });
}
pub fn c07(until: Instant) {
    c07_long(until);
    let c = ctx();
    each_big(&bigs(c.thorough, 0), until, |b, n| n == b.n() || n == 2 * b.cfg.m + 2 || n == 17, |b, x, n| {
        let s = snap(x);
        c.state(s.fp());
        let mut ids: Vec<usize> = s.points().map(|p| p.id).collect();
        ids.sort();
        let mut fil: Vec<Vec<usize>> = vec![vec![], ids.clone(), vec![1, 2, 4]];
        for i in 0..n {
            if i % 3 == 0 || n < 40 {
                fil.push(vec![ids[i]]);
                fil.push(ids.iter().enumerate().filter(|(j, _)| *j != i).map(|x| *x.1).collect());
                fil.push(ids[..i].to_vec());
                fil.push(ids[i..].to_vec());
            }
        }
        for m in 2..8 {
            for r in 0..m.min(3) {
                fil.push(ids.iter().enumerate().filter(|(j, _)| j % m == r).map(|x| *x.1).collect());
            }
        }
        // ids which are not there
        fil.push(ids.iter().flat_map(|i| [*i, i.saturating_add(1)]).collect::<std::collections::BTreeSet<_>>().into_iter().collect());
        let plain: Vec<Vec<Nb>> = b.queries.iter().map(|q| nbs(&x.search(&q[..], n, n))).collect();
        for (fi, list) in fil.iter().enumerate() {
            for (qi, q) in b.queries.iter().enumerate() {
                if qi % 3 != fi % 3 && !c.thorough {
                    continue;
                }
                for (k, ef) in [(1, 1), (5, n), (n, n), (1, n + 7), (n + 3, 2), (3, 20), (10, 4)] {
                    filtered(x, &s, q, k, ef, list, fi + k, &plain[qi])?;
                }
                c.count("operations", 7);
            }
        }
        Ok(())
    });
}
/// C07 on long histories with a few filters
pub fn c07_long(until: Instant) {
    let c = ctx();
    let v: Vec<Big> = bigs(c.thorough, 1).into_iter().filter(|b| b.n() > 1000).collect();
    each_big(&v, until, |b, n| n == b.n() || n == 1100, |b, x, n| {
        let s = snap(x);
        c.state(s.fp());
        let mut ids: Vec<usize> = s.points().map(|p| p.id).collect();
        ids.sort();
        let every = |m: usize, r: usize| ids.iter().enumerate().filter(|(j, _)| j % m == r).map(|x| *x.1).collect::<Vec<usize>>();
        let fil = [vec![], ids.clone(), every(2, 1), every(3, 0), every(97, 5), every(500, 499), vec![ids[n / 2]], ids[n / 2..].to_vec(), ids[..10].to_vec(), ids[1..].to_vec(), ids[..n - 1].to_vec()];
        let plain: Vec<Vec<Nb>> = b.queries.iter().map(|q| nbs(&x.search(&q[..], n, n))).collect();
        for (fi, list) in fil.iter().enumerate() {
            watch_begin(None);
            for (qi, q) in b.queries.iter().enumerate().take(3) {
                for (k, ef) in [(5, n), (n, n), (1, n + 7), (10, 4), (200, 50), (n + 3, 2)] {
                    filtered(x, &s, q, k, ef, list, fi + qi, &plain[qi])?;
                }
                c.count("operations", 6);
            }
        }
        Ok(())
    });
}
pub fn c18(until: Instant) {
    crate::large::c18(until);
    let c = ctx();
    each_big(&bigs(c.thorough, 1), until, sparse, |b, x, n| {
        c.state(snap(x).fp());
        check_contents(x, &b.inserted(n))?;
        check_coords(x, &stored(b, n))
    });
    // as many points as fit in 16 bits, and more
    c.case(|| "many".into(), || {
        let n = 66_000usize;
        let x = H::new(2, 10, 16, 1, L1);
        let mut want: Vec<(u8, i32, usize, Vec<f32>)> = Vec::new();
        let lev = |i: usize| if i % 1000 == 999 { 1 } else { 0 };
        let mut ranks = [0i32; 2];
        for i in 0..n {
            if i % 500 == 0 {
                if Instant::now() > until {
                    c.exhaustive.store(false, std::sync::atomic::Ordering::Relaxed);
                    return Ok(());
                }
                watch_begin(None);
            }
            let v = [i as f32, (i % 7) as f32];
            rng::force(Some(raw_for_level(lev(i), 2)));
            x.insert((&v[..], i));
            want.push((lev(i) as u8, ranks[lev(i)], i, v.to_vec()));
            ranks[lev(i)] += 1;
        }
        rng::force(None);
        c.count("insertions", n as u64);
        want.sort_by_key(|w| (w.0, w.1));
        check_contents(&x, &(0..n).map(|i| (i, vec![i as f32, (i % 7) as f32])).collect::<Vec<_>>())?;
        let pi = x.get_point_indexation();
        let mut i = 0;
        for p in pi {
            let g = (p.get_point_id().0, p.get_point_id().1, p.get_origin_id(), p.get_v().to_vec());
            ensure!(g == want[i], "place {} of the enumeration holds {:?}, expected {:?}", i, g, want[i]);
            i += 1;
        }
        for l in 0..2u8 {
            let w: Vec<_> = want.iter().filter(|w| w.0 == l).collect();
            ensure!(pi.get_layer_nb_point(l as usize) == w.len(), "layer {} counts {} points of {}", l, pi.get_layer_nb_point(l as usize), w.len());
            let mut i = 0;
            for p in pi.get_layer_iterator(l as usize) {
                ensure!(i < w.len() && p.get_origin_id() == w[i].2 && p.get_point_id().1 == w[i].1, "place {} of layer {}: id {}", i, l, p.get_origin_id());
                i += 1;
            }
            ensure!(i == w.len(), "layer {} enumerates {} points of {}", l, i, w.len());
        }
        Ok(())
    });
}
/// what is stored where, from the history
pub fn stored(b: &Big, n: usize) -> Vec<(u8, i32, usize, Vec<f32>)> {
    let mut ranks = vec![0; 16.max(b.cfg.maxl)];
    let mut want: Vec<(u8, i32, usize, Vec<f32>)> = (0..n)
        .map(|j| {
            let l = b.levels[j];
            ranks[l] += 1;
            (l as u8, ranks[l] - 1, b.pts[j].0, b.pts[j].1.to_vec())
        })
        .collect();
    want.sort_by_key(|w| (w.0, w.1));
    want
}
pub fn c20(until: Instant) {
    use crate::conc::{E, HE, L1E};
    use std::sync::Arc;
    let c = ctx();
    parallel(&bigs(c.thorough, 1).iter().collect::<Vec<_>>(), |_, _, b| {
        for n in (1..=b.n()).filter(|n| sparse(b, *n) && *n > 7) {
            if Instant::now() > until {
                c.exhaustive.store(false, std::sync::atomic::Ordering::Relaxed);
                return;
            }
            c.case(|| format!("{}:first{}", b.key(), n), || {
                let token = Arc::new(());
                let mut x = HE::new(b.cfg.m, 10, b.cfg.maxl, b.cfg.efc, L1E);
                x.set_extend_candidates(b.cfg.ext);
                x.set_keeping_pruned(b.cfg.keep);
                for i in 0..n {
                    let v = b.pts[i].1;
                    rng::force(Some(raw_for_level(b.levels[i], b.cfg.m)));
                    x.insert((&[E(v[0], token.clone()), E(v[1], token.clone())], b.pts[i].0));
                    rng::force(None);
                }
                let held = Arc::strong_count(&token) - 1;
                ensure!(held == 2 * n, "{} points of 2 elements hold {} elements", n, held);
                drop(x);
                let left = Arc::strong_count(&token) - 1;
                ensure!(left == 0, "{} of {} elements still held after the index was dropped", left, held);
                Ok(())
            });
        }
    });
    // a long chain of points on a small stack
    c.case(|| "chain".into(), || {
        let r = std::thread::Builder::new().stack_size(256 << 10).spawn(move || -> R {
            let token = Arc::new(());
            let x = HE::new(2, 10, 16, 1, L1E);
            let n = 5000;
            for i in 0..n {
                rng::force(Some(raw_for_level(if i % 100 == 7 { 1 } else { 0 }, 2)));
                x.insert((&[E(i as f32, token.clone())], i));
                rng::force(None);
            }
            drop(x);
            let left = Arc::strong_count(&token) - 1;
            ensure!(left == 0, "{} of {} elements still held after the index was dropped", left, n);
            Ok(())
        });
        r.unwrap().join().unwrap_or_else(|p| Err(mcctl::panic_message(&*p)))
    });
}

/// C08: lists of every length
pub fn c08(until: Instant) {
    let c = ctx();
    let mut lens: Vec<usize> = (0..=c.pick(140, 300)).collect();
    lens.extend([199, 200, 255, 256, 257, 300, 400, 500, 511, 512, 513, 767, 999, 1000, 1001, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 4097, 5000]);
    if c.thorough {
        lens.extend([8191, 8192, 8193, 10_000, 10_001, 16_385, 20_001]);
    }
    lens.sort();
    lens.dedup();
    lens.reverse();
    let (p, q) = points(9, 7, 4);
    let base = |n: usize| {
        let x = H::new(2, 10, 16, 2, L1);
        for i in 0..n {
            rng::force(Some(raw_for_level([1, 0, 2, 0][i % 4], 2)));
            x.insert((&p[i][..], 1_000_000 + i));
        }
        rng::force(None);
        x
    };
    parallel(&lens.iter().copied().collect::<Vec<usize>>(), |_, _, &len| {
        if Instant::now() > until {
            c.exhaustive.store(false, std::sync::atomic::Ordering::Relaxed);
            return;
        }
        c.case(|| format!("list:search:{}", len), || {
            let x = base(9);
            for (k, ef) in [(3, 9), (1, 1)] {
                let single: Vec<_> = q.iter().map(|q| nbs(&x.search(&q[..], k, ef))).collect();
                let pick = |i: usize| (i * i + i / 7) % q.len();
                let l: Vec<Vec<f32>> = (0..len).map(|i| q[pick(i)].to_vec()).collect();
                for by_trait in [false, true] {
                    let a = if by_trait { AnnT::parallel_search_neighbours(&x, &l, k, ef) } else { x.parallel_search(&l, k, ef) };
                    ensure!(a.len() == len, "{} queries, {} answers", len, a.len());
                    for (i, r) in a.iter().enumerate() {
                        ensure!(nbs(r) == single[pick(i)], "list of {}, place {}: {:?}, search answers {:?}", len, i, nbs(r), single[pick(i)]);
                    }
                }
            }
            c.count("operations", 4);
            Ok(())
        });
        c.case(|| format!("list:insert:{}", len), || {
            for how in 0..3 {
                for pre in [0, 3] {
                    if len > 2100 && (how + pre) % 2 == 1 {
                        continue;
                    }
                    watch_begin(None);
                    let mut x = base(pre);
                    let own: Vec<(Vec<f32>, usize)> = (0..len).map(|i| (vec![(i % 50) as f32, (i / 50) as f32], i)).collect();
                    rng::force(Some(raw_for_level(0, 2)));
                    match how {
                        0 => x.parallel_insert(&own.iter().map(|o| (&o.0, o.1)).collect::<Vec<_>>()),
                        1 => x.parallel_insert_slice(&own.iter().map(|o| (&o.0[..], o.1)).collect()),
                        _ => AnnT::parallel_insert_data(&mut x, &own.iter().map(|o| (&o.0, o.1)).collect::<Vec<_>>()),
                    }
                    rng::force(None);
                    let mut want: Vec<(usize, Vec<f32>)> = (0..pre).map(|i| (1_000_000 + i, p[i].to_vec())).collect();
                    want.extend(own.into_iter().map(|o| (o.1, o.0)));
                    check_contents(&x, &want).map_err(|e| format!("variant {}, {} points, then {} in one call: {}", how, pre, len, e))?;
                    c.count("insertions", len as u64);
                }
            }
            Ok(())
        });
    });
}
