//! All short histories of insertions over small point sets, and the checks that run over them.
use crate::ctx::*;
use crate::model::*;
use crate::util::*;
use hnsw_rs::prelude::*;
use mcctl::rng;
use std::time::Instant;

pub type H = Hnsw<'static, f32, L1>;

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Cfg {
    pub m: usize,
    pub efc: usize,
    pub ext: bool,
    pub keep: bool,
    pub maxl: usize,
}
pub const fn cfg(m: usize, efc: usize, ext: bool, keep: bool) -> Cfg {
    Cfg { m, efc, ext, keep, maxl: 16 }
}

#[derive(Clone)]
pub struct Family {
    pub name: &'static str,
    /// (id, point)
    pub pts: Vec<(usize, [f32; 2])>,
    pub orders: Vec<Vec<usize>>,
    pub levels: Vec<Vec<usize>>,
    pub cfgs: Vec<Cfg>,
    pub queries: Vec<[f32; 2]>,
}

pub struct Hist<'a> {
    pub fam: &'a Family,
    pub cfg: Cfg,
    pub order: &'a [usize],
    pub levels: &'a [usize],
}

fn digits(v: &[usize]) -> String {
    v.iter().map(|x| char::from_digit(*x as u32, 36).unwrap_or('?')).collect()
}

impl Hist<'_> {
    pub fn key(&self) -> String {
        let c = &self.cfg;
        format!(
            "hist:{}:M{}ef{}{}{}L{}:order={}:levels={}",
            self.fam.name,
            c.m,
            c.efc,
            if c.ext { "x" } else { "" },
            if c.keep { "k" } else { "" },
            c.maxl,
            digits(self.order),
            digits(self.levels)
        )
    }
    pub fn point(&self, i: usize) -> (usize, [f32; 2]) {
        self.fam.pts[self.order[i]]
    }
    pub fn new_index(&self) -> H {
        let mut h = H::new(self.cfg.m, 10, self.cfg.maxl, self.cfg.efc, L1);
        h.set_extend_candidates(self.cfg.ext);
        h.set_keeping_pruned(self.cfg.keep);
        h
    }
    pub fn insert(&self, h: &H, i: usize) {
        let (id, v) = self.point(i);
        rng::force(Some(raw_for_level(self.levels[i], self.cfg.m)));
        h.insert((&v[..], id));
        rng::force(None);
    }
    pub fn build(&self) -> H {
        let h = self.new_index();
        for i in 0..self.order.len() {
            self.insert(&h, i);
        }
        h
    }
    pub fn n(&self) -> usize {
        self.order.len()
    }
    pub fn inserted(&self) -> Vec<(usize, Vec<f32>)> {
        (0..self.n()).map(|i| self.point(i)).map(|(i, v)| (i, v.to_vec())).collect()
    }
}

/// Points with all mutual distances different, queries with all distances to them different.
pub fn tie_free(n: usize, nq: usize, seed: u64) -> (Vec<[f32; 2]>, Vec<[f32; 2]>) {
    let mut x = seed.wrapping_mul(0x9E3779B97F4A7C15) | 1;
    let mut r = |m: u64| {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        ((x >> 20) % m) as f32
    };
    let w = if n <= 9 { 64 } else { 4096 };
    let mut p: Vec<[f32; 2]> = Vec::new();
    let mut d: Vec<f32> = Vec::new();
    while p.len() < n {
        let c = [r(w), r(w)];
        let nd: Vec<f32> = p.iter().map(|q| l1(q, &c)).collect();
        let mut all = d.clone();
        all.extend(&nd);
        all.push(0.);
        all.sort_by(|a, b| a.partial_cmp(b).unwrap());
        if all.windows(2).all(|w| w[0] != w[1]) {
            d.extend(nd);
            p.push(c);
        }
    }
    let mut q = Vec::new();
    while q.len() < nq {
        let c = [r(w), r(w)];
        let mut nd: Vec<f32> = p.iter().map(|x| l1(x, &c)).collect();
        nd.sort_by(|a, b| a.partial_cmp(b).unwrap());
        if nd.windows(2).all(|w| w[0] != w[1]) {
            q.push(c);
        }
    }
    // some points themselves
    for i in 0..n.min(2) {
        q.push(p[i]);
    }
    (p, q)
}

fn ids(p: &[[f32; 2]]) -> Vec<(usize, [f32; 2])> {
    let ids = [4usize, 0, 17, usize::MAX, 1 << 33, 9, 250, 3, 12];
    p.iter().enumerate().map(|(i, p)| (ids[i], *p)).collect()
}

/// level words of length n over 0..b in which the points from `free` on are at level 0
fn words_head(n: usize, b: usize, free: usize) -> Vec<Vec<usize>> {
    words(free.min(n), b)
        .into_iter()
        .map(|mut w| {
            w.resize(n, 0);
            w
        })
        .collect()
}
/// words with at most `up` points above level 0
fn words_up(n: usize, b: usize, up: usize) -> Vec<Vec<usize>> {
    words(n, b).into_iter().filter(|w| w.iter().filter(|x| **x > 0).count() <= up).collect()
}

pub fn families(thorough: bool) -> Vec<Family> {
    let (p4, q4) = tie_free(4, 3, 11);
    let (p5, q5) = tie_free(5, 3, 5);
    let (p6, q6) = tie_free(6, 3, 7);
    let (p7, q7) = tie_free(7, 2, 23);
    let ties = vec![[0., 0.], [1., 0.], [0., 1.], [1., 1.]];
    let qt = vec![[0., 0.], [1., 1.], [0.5, 0.5], [9., 0.]];
    let dup = vec![[2., 2.], [2., 2.], [3., 2.], [2., 2.]];
    let line: Vec<[f32; 2]> = (0..5).map(|i| [i as f32, 0.]).collect();
    let ql = vec![[0., 0.], [2., 0.], [4., 1.], [9., 0.]];
    let perms = permutations;
    let mut v = vec![
        Family { name: "one", pts: ids(&p4[..1]), orders: perms(1), levels: words(1, 5), cfgs: vec![cfg(2, 2, false, false), cfg(4, 1, true, true)], queries: q4.clone() },
        Family { name: "two", pts: ids(&p4[..2]), orders: perms(2), levels: words(2, 5), cfgs: vec![cfg(2, 2, false, false), cfg(4, 1, true, true)], queries: q4.clone() },
        Family { name: "three", pts: ids(&p4[..3]), orders: perms(3), levels: words(3, 4),
            cfgs: vec![cfg(2, 2, false, false), cfg(2, 1, true, false), cfg(3, 4, true, true), cfg(4, 8, false, true), cfg(1, 3, false, false), cfg(1, 1, true, true), cfg(2, 0, false, false), cfg(2, usize::MAX, false, false)], queries: q4.clone() },
        Family { name: "four", pts: ids(&p4), orders: perms(4), levels: words(4, 3),
            cfgs: vec![cfg(2, 2, false, false), cfg(2, 4, false, true), cfg(2, 1, true, false), cfg(3, 4, true, true), cfg(4, 8, false, false), cfg(1, 4, false, false)], queries: q4.clone() },
        Family { name: "ties", pts: ids(&ties), orders: perms(4), levels: words(4, 3),
            cfgs: vec![cfg(2, 4, false, false), cfg(2, 2, true, true), cfg(4, 8, false, false)], queries: qt.clone() },
        Family { name: "dup", pts: ids(&dup), orders: perms(4), levels: words(4, 2),
            cfgs: vec![cfg(2, 4, false, false), cfg(2, 2, true, true), cfg(4, 8, false, false)], queries: qt.clone() },
        Family { name: "line", pts: ids(&line), orders: perms(5), levels: if thorough { words(5, 3) } else { words(5, 2) },
            cfgs: vec![cfg(2, 5, false, false), cfg(2, 2, true, false), cfg(5, 8, false, false)], queries: ql.clone() },
        Family { name: "five", pts: ids(&p5), orders: perms(5), levels: if thorough { words(5, 3) } else { words_up(5, 3, 2) },
            cfgs: vec![cfg(2, 3, false, false), cfg(2, 6, false, true), cfg(2, 2, true, false)], queries: q5.clone() },
        Family { name: "six", pts: ids(&p6), orders: perms(6), levels: if thorough { words_up(6, 3, 2) } else { words_up(6, 2, 1) },
            cfgs: vec![cfg(2, 6, false, false), cfg(2, 6, true, true)], queries: q6.clone() },
        // more layer occupation patterns, with holes
        Family { name: "layers", pts: ids(&p5), orders: perms(5).into_iter().take(if thorough { 120 } else { 1 }).collect(), levels: words(5, if thorough { 4 } else { 5 }),
            cfgs: vec![cfg(3, 4, false, false)], queries: q5.clone() },
        Family { name: "lowmax", pts: ids(&p4), orders: perms(4).into_iter().take(4).collect(), levels: words(4, 3),
            cfgs: vec![Cfg { maxl: 3, ..cfg(2, 4, false, false) }, Cfg { maxl: 4, ..cfg(3, 2, true, false) }], queries: q4.clone() },
    ];
    let o7: Vec<Vec<usize>> = perms(7);
    v.push(Family {
        name: "seven",
        pts: ids(&p7),
        orders: if thorough { o7 } else { o7.into_iter().step_by(5).collect() },
        levels: if thorough { words_head(7, 3, 3) } else { vec![vec![0; 7], vec![1, 0, 0, 0, 0, 0, 0]] },
        cfgs: if thorough {
            vec![cfg(2, 7, false, false), cfg(2, 3, false, false), cfg(2, 7, true, true), cfg(3, 8, false, true)]
        } else {
            vec![cfg(2, 7, false, false), cfg(2, 7, true, true)]
        },
        queries: q7.clone(),
    });
    if thorough {
        let (p8, q8) = tie_free(8, 2, 31);
        v.push(Family { name: "eight", pts: ids(&p8), orders: perms(8), levels: vec![vec![0; 8], vec![0, 1, 0, 0, 1, 0, 0, 0]],
            cfgs: vec![cfg(2, 8, false, false), cfg(2, 4, true, true)], queries: q8 });
    }
    // the same in other units, around the origin: comparisons are of any size
    let unit = |f: &Family, name: &'static str, u: f32| {
        let conv = |p: &[f32; 2]| [(p[0] - 20.) * u, (p[1] - 20.) * u];
        Family { name, pts: f.pts.iter().map(|p| (p.0, conv(&p.1))).collect(), queries: f.queries.iter().map(conv).collect(), cfgs: f.cfgs[..2].to_vec(), ..f.clone() }
    };
    let get = |n: &str| v.iter().find(|f| f.name == n).unwrap().clone();
    let (a, b, t) = (get("four"), get("five"), get("ties"));
    let mut b = Family { orders: b.orders.into_iter().step_by(if thorough { 1 } else { 7 }).collect(), ..b };
    v.push(unit(&a, "four-small", (0.5f32).powi(40)));
    v.push(unit(&b, "five-tiny", (0.5f32).powi(110)));
    b.orders = b.orders.into_iter().skip(1).step_by(2).collect();
    v.push(unit(&b, "five-huge", (2f32).powi(90)));
    v.push(unit(&t, "ties-small", (0.5f32).powi(40)));
    v
}

/// Runs `f` on every history of the families, over all cores.
pub fn each<F>(fams: &[Family], until: Instant, f: F)
where
    F: Fn(&Hist) -> R + Sync,
{
    let c = ctx();
    let mut items: Vec<(usize, usize, usize)> = Vec::new();
    for (fi, fam) in fams.iter().enumerate() {
        for ci in 0..fam.cfgs.len() {
            for oi in 0..fam.orders.len() {
                items.push((fi, ci, oi));
            }
        }
    }
    let chunks: Vec<&[(usize, usize, usize)]> = items.chunks(8).collect();
    parallel(&chunks, |_, _, ch| {
        let mut ops = 0;
        for &(fi, ci, oi) in ch.iter() {
            let fam = &fams[fi];
            for levels in &fam.levels {
                if Instant::now() > until {
                    c.exhaustive.store(false, std::sync::atomic::Ordering::Relaxed);
                    return;
                }
                let h = Hist { fam, cfg: fam.cfgs[ci], order: &fam.orders[oi], levels };
                c.case(|| h.key(), || f(&h));
                ops += h.n() as u64;
            }
        }
        c.count("insertions", ops);
    });
}

pub fn c03(until: Instant) {
    each(&families(ctx().thorough), until, |h| {
        let x = h.new_index();
        for i in 0..h.n() {
            h.insert(&x, i);
            let s = snap(&x);
            if i + 1 == h.n() {
                ctx().state(s.fp());
            }
            check_links(&x, &s, h.cfg.m)?;
        }
        Ok(())
    });
}

pub fn c04(until: Instant) {
    each(&families(ctx().thorough), until, |h| {
        let x = h.new_index();
        for i in 0..h.n() {
            h.insert(&x, i);
            let s = snap(&x);
            if i + 1 == h.n() {
                ctx().state(s.fp());
            }
            check_linked(&s, i < h.cfg.m && h.cfg.efc > i)?;
        }
        Ok(())
    });
}

pub fn c22(until: Instant) {
    let c = ctx();
    let fams: Vec<Family> = families(c.thorough).into_iter().filter(|f| !["ties", "ties-small", "dup", "line"].contains(&f.name)).collect();
    each(&fams, until, |h| {
        let x = h.new_index();
        let mut m = Model::new(h.cfg.m, h.cfg.efc, h.cfg.ext, h.cfg.keep, h.cfg.maxl);
        for i in 0..h.n() {
            h.insert(&x, i);
            let (id, v) = h.point(i);
            m.insert(id, v, h.levels[i]);
        }
        let s = snap(&x);
        c.state(s.fp());
        let (a, b) = (s.text(), m.text());
        ensure!(a == b, "index\n{}model\n{}", a, b);
        for q in &h.fam.queries {
            for (k, ef) in [(1, 1), (1, 3), (2, 2), (h.n(), h.n()), (usize::MAX, 1), (2, usize::MAX)] {
                let a: Vec<(f32, usize)> = x.search(&q[..], k, ef).iter().map(|n| (n.distance, n.d_id)).collect();
                let b: Vec<(f32, usize)> = m.search(q, k, ef).iter().map(|n| (n.0, m.pts[n.1].id)).collect();
                ensure!(a == b, "query {:?} k={} ef={}: answer {:?}, model {:?}\nindex\n{}", q, k, ef, a, b, s.text());
            }
        }
        Ok(())
    });
}

fn link_of<'a>(s: &'a Snap<f32>, n: &Nb) -> &'a PSnap<f32> {
    s.at(n.2).unwrap()
}

/// k and width pairs
fn widths(n: usize) -> Vec<(usize, usize)> {
    let mut v = Vec::new();
    for k in 0..=n + 1 {
        for ef in 0..=n + 1 {
            v.push((k, ef));
        }
    }
    // all there are
    v.extend([(n, usize::MAX), (usize::MAX, 0), (usize::MAX, usize::MAX), (1 << 14, 1 << 14)]);
    v
}

pub fn c05(until: Instant) {
    let c = ctx();
    {
        let h = H::new(4, 10, 16, 8, L1);
        c.case(|| "empty".into(), || {
            for (k, ef) in widths(2) {
                ensure!(h.search(&[1., 1.], k, ef).is_empty(), "an empty index answers");
                ensure!(h.search_filter(&[1., 1.], k, ef, Some(&vec![1usize])).is_empty(), "an empty index answers");
                ensure!(h.search_possible_filter(&[1., 1.], k, ef, None).is_empty(), "an empty index answers");
                let p = h.parallel_search(&[vec![1., 1.], vec![2., 2.]], k, ef);
                ensure!(p.len() == 2 && p.iter().all(|a| a.is_empty()), "an empty index answers");
            }
            Ok(())
        });
    }
    each(&families(c.thorough), until, |h| {
        let x = h.build();
        let s = snap(&x);
        c.state(s.fp());
        let mut nops = 0;
        for q in &h.fam.queries {
            for (k, ef) in widths(h.n()) {
                let a = x.search(&q[..], k, ef);
                nops += 1;
                if let Err(e) = check_answer(&x, &s, &q[..], k, &a) {
                    return Err(format!("query {:?} k={} ef={}: {}\n{}", q, k, ef, e, s.text()));
                }
            }
        }
        c.count("operations", nops);
        Ok(())
    });
}

/// Lists of queries, lists of insertions; the lists are worked off in one thread here (schedules: conc::c08_conc).
pub fn c08(until: Instant) {
    let c = ctx();
    let fams: Vec<Family> = families(false)
        .into_iter()
        .filter(|f| c.thorough || ["one", "two", "three", "four", "ties", "dup"].contains(&f.name))
        .map(|mut f| {
            f.orders = f.orders.into_iter().step_by(c.pick(5, 2)).collect();
            if c.thorough && f.orders.len() > 60 {
                f.orders.truncate(60);
            }
            f.cfgs.truncate(c.pick(2, 3));
            f
        })
        .collect();
    each(&fams, until, |h| {
        let x = h.build();
        let s = snap(&x);
        c.state(s.fp());
        let n = s.len();
        let mut nops = 0;
        // all lists
        for (k, ef) in [(1, 1), (2, n + 1), (n + 2, 2)] {
            let single: Vec<_> = h.fam.queries.iter().map(|q| nbs(&x.search(&q[..], k, ef))).collect();
            for len in 0..=c.pick(3, 4) {
                for w in words(len, h.fam.queries.len()) {
                    let l: Vec<Vec<f32>> = w.iter().map(|i| h.fam.queries[*i].to_vec()).collect();
                    let a = x.parallel_search(&l, k, ef);
                    nops += 1;
                    ensure!(a.len() == len, "{} queries, {} answers", len, a.len());
                    for (i, r) in w.iter().zip(&a) {
                        ensure!(nbs(r) == single[*i], "list {:?} k={} ef={}: query {} answered by {:?}, search answers {:?}", w, k, ef, i, nbs(r), single[*i]);
                    }
                }
            }
            // long lists
            for len in [17usize, 100] {
                let l: Vec<Vec<f32>> = (0..len).map(|i| h.fam.queries[i * i % h.fam.queries.len()].to_vec()).collect();
                let a = x.parallel_search(&l, k, ef);
                ensure!(a.len() == len, "{} queries, {} answers", len, a.len());
                for (i, r) in a.iter().enumerate() {
                    let j = i * i % h.fam.queries.len();
                    ensure!(nbs(r) == single[j], "list of {}, place {}: {:?}, search answers {:?}", len, i, nbs(r), single[j]);
                }
            }
        }
        // the last points of the history inserted by one parallel call
        for cut in 0..n {
            for slice in [false, true] {
                let y = h.new_index();
                for i in 0..cut {
                    h.insert(&y, i);
                }
                let own: Vec<(Vec<f32>, usize)> = (cut..n).map(|i| h.point(i)).map(|(id, v)| (v.to_vec(), id)).collect();
                rng::force(Some(raw_for_level(h.levels[cut], h.cfg.m)));
                if slice {
                    y.parallel_insert_slice(&own.iter().map(|o| (&o.0[..], o.1)).collect());
                } else {
                    y.parallel_insert(&own.iter().map(|o| (&o.0, o.1)).collect::<Vec<_>>());
                }
                rng::force(None);
                nops += 1;
                check_contents(&y, &h.inserted()).map_err(|e| format!("{} points, then {} in one call: {}", cut, n - cut, e))?;
            }
        }
        c.count("operations", nops);
        Ok(())
    });
}

pub fn c06(until: Instant) {
    let c = ctx();
    each(&families(c.thorough), until, |h| {
        let x = h.build();
        let s = snap(&x);
        c.state(s.fp());
        let w: Vec<(usize, usize)> = widths(s.len()).into_iter().filter(|w| w.0 > 0).collect();
        c.count("operations", (w.len() * h.fam.queries.len()) as u64);
        adjacent(&x, &s, &h.fam.queries, &w)
    });
}

/// what is linked to an answer
pub fn adjacent(x: &H, s: &Snap<f32>, queries: &[[f32; 2]], widths: &[(usize, usize)]) -> R {
    let n = s.len();
    let low = match s.layers.iter().position(|l| !l.is_empty()) {
        Some(l) => l,
        None => return Ok(()),
    };
    let occupied = s.layers.iter().filter(|l| !l.is_empty()).count();
    let full = occupied == 1 && s.points().all(|p| p.nb[low].len() == n - 1);
    // the first point of the highest layer is where every descent starts
    let top = s.layers.iter().rposition(|l| !l.is_empty()).unwrap();
    let ep = &s.layers[top][0];
    for q in queries {
        let d = |p: &PSnap<f32>| l1(q, &[p.v[0], p.v[1]]);
        let mut all: Vec<f32> = s.points().map(d).collect();
        all.sort_by(|a, b| a.partial_cmp(b).unwrap());
        for &(k, ef) in widths {
            let a = nbs(&x.search(&q[..], k, ef));
            let text = || if n < 20 { s.text() } else { String::new() };
            let far = match a.last() {
                Some(l) => l.1,
                None => return Err(format!("query {:?} k={} ef={}: empty answer", q, k, ef)),
            };
            let got: std::collections::HashSet<(u8, i32)> = a.iter().map(|y| y.2).collect();
            for r in &a {
                for e in &link_of(s, r).nb[low] {
                    if got.contains(&e.2) {
                        continue;
                    }
                    let de = d(link_of(s, e));
                    ensure!(
                        de >= far && a.len() >= k,
                        "query {:?} k={} ef={}: point {} at {} is linked from the returned point {} but not returned; answer {:?}\n{}",
                        q, k, ef, e.0, de, r.0, a, text()
                    );
                }
            }
            if top > 0 {
                for e in ep.nb[top].iter().map(|e| link_of(s, e)).chain([ep]) {
                    ensure!(
                        a[0].1 <= d(e),
                        "query {:?} k={} ef={}: nearest returned is at {}, but the top layer has point {} at {}\n{}",
                        q, k, ef, a[0].1, e.id, d(e), text()
                    );
                }
            }
            if full && ef >= n {
                let got: Vec<f32> = a.iter().map(|r| r.1).collect();
                ensure!(got[..] == all[..k.min(n)], "query {:?} k={} ef={}: answer {:?}, distances {:?}", q, k, ef, a, all);
            }
        }
    }
    Ok(())
}

pub fn c07(until: Instant) {
    let c = ctx();
    let mut fams = families(c.thorough);
    for f in fams.iter_mut() {
        if !c.thorough {
            match f.name {
                "seven" => f.orders = f.orders.iter().step_by(40).cloned().collect(),
                "six" => f.orders = f.orders.iter().step_by(12).cloned().collect(),
                "five" => f.orders = f.orders.iter().step_by(4).cloned().collect(),
                "four" | "ties" => f.orders = f.orders.iter().step_by(2).cloned().collect(),
                "line" => f.orders = f.orders.iter().step_by(3).cloned().collect(),
                "layers" => f.levels = words(5, 4),
                _ => {}
            }
        } else if f.pts.len() >= 6 {
            f.orders = f.orders.iter().step_by(3).cloned().collect();
        }
    }
    each(&fams, until, |h| {
        let x = h.build();
        let s = snap(&x);
        c.state(s.fp());
        let n = s.len();
        let mut idl: Vec<usize> = s.points().map(|p| p.id).collect();
        idl.sort();
        let mut nops = 0;
        let wid: Vec<(usize, usize)> =
            if c.thorough || n < 5 { widths(n) } else { widths(n).into_iter().filter(|w| [0, 1, 2, n, usize::MAX].contains(&w.0) && [0, 1, 2, 3, n, usize::MAX].contains(&w.1)).collect() };
        for q in &h.fam.queries {
            let plain = nbs(&x.search(&q[..], n, n));
            for mask in 0u32..(1 << n) {
                let list: Vec<usize> = (0..n).filter(|i| mask >> i & 1 == 1).map(|i| idl[i]).collect();
                for &(k, ef) in &wid {
                    nops += 1;
                    filtered(&x, &s, q, k, ef, &list, (mask as usize).wrapping_add(k), &plain)?;
                }
            }
        }
        c.count("operations", nops);
        Ok(())
    });
}

/// one filtered search, the filter given as a list or as a predicate
#[allow(clippy::too_many_arguments)]
pub fn filtered(x: &H, s: &Snap<f32>, q: &[f32; 2], k: usize, ef: usize, list: &Vec<usize>, form: usize, plain: &[Nb]) -> R {
    let n = s.len();
    let set: std::collections::HashSet<usize> = list.iter().copied().collect();
    let pred = |id: &usize| set.contains(id);
    let fil: &dyn FilterT = if form % 2 == 0 { list } else { &pred };
    let a = x.search_filter(&q[..], k, ef, Some(fil));
    let bad = |e: String| {
        if n < 20 {
            Err(format!("query {:?} k={} ef={} filter {:?}: {}\nanswer {:?}\nunfiltered {:?}\n{}", q, k, ef, list, e, nbs(&a), plain, s.text()))
        } else {
            Err(format!("query {:?} k={} ef={} filter {:?}: {}", q, k, ef, list, e))
        }
    };
    if let Some(r) = a.iter().find(|r| !set.contains(&r.d_id)) {
        return bad(format!("returned point {} is refused by the filter", r.d_id));
    }
    if a.len() > k {
        return bad(format!("{} neighbours", a.len()));
    }
    if !a.is_empty() {
        if let Err(e) = check_answer(x, s, &q[..], k, &a) {
            return bad(e);
        }
    }
    let got: Vec<f32> = a.iter().map(|r| r.distance).collect();
    if ef >= n {
        // exactly the admissible ones of the unfiltered answer, up to ties
        let want: Vec<f32> = plain.iter().filter(|r| set.contains(&r.0)).take(k).map(|r| r.1).collect();
        if want != got {
            return bad(format!("distances {:?}, {:?} expected", got, want));
        }
    }
    if s.points().all(|p| set.contains(&p.id)) {
        let b: Vec<f32> = x.search(&q[..], k, ef).iter().map(|r| r.distance).collect();
        if b != got {
            return bad(format!("distances {:?}, without filter {:?}", got, b));
        }
    }
    Ok(())
}

pub fn c18(until: Instant) {
    let c = ctx();
    let mut fams = families(c.thorough);
    for f in fams.iter_mut() {
        if f.pts.len() > 5 {
            f.orders.truncate(c.pick(20, 200));
        }
    }
    // an index without points
    c.case(|| "empty".into(), || {
        for maxl in [1, 2, 16] {
            let h = H::new(4, 10, maxl, 8, L1);
            check_contents(&h, &[])?;
            check_coords(&h, &[])?;
        }
        Ok(())
    });
    each(&fams, until, |h| {
        let x = h.new_index();
        for i in 0..h.n() {
            h.insert(&x, i);
            // what is stored where follows from the history
            let mut want: Vec<(u8, i32, usize, Vec<f32>)> = Vec::new();
            for j in 0..=i {
                let l = h.levels[j] as u8;
                let r = (0..j).filter(|t| h.levels[*t] == h.levels[j]).count() as i32;
                let (id, v) = h.point(j);
                want.push((l, r, id, v.to_vec()));
            }
            want.sort_by_key(|w| (w.0, w.1));
            check_contents(&x, &h.inserted()[..=i])?;
            check_coords(&x, &want)?;
        }
        c.state(snap(&x).fp());
        Ok(())
    });
}

/// enumeration order, layer enumerations and counts, coordinates in and out of range
pub fn check_coords(x: &H, want: &[(u8, i32, usize, Vec<f32>)]) -> R {
    let pi = x.get_point_indexation();
    let got: Vec<(u8, i32, usize, Vec<f32>)> = pi.into_iter().map(|p| (p.get_point_id().0, p.get_point_id().1, p.get_origin_id(), p.get_v().to_vec())).collect();
    ensure!(got == want, "enumeration gives {:?}, expected {:?}", got, want);
    // an exhausted enumeration stays exhausted
    {
        let mut it = pi.into_iter();
        for _ in 0..want.len() {
            ensure!(it.next().is_some(), "enumeration stops early");
        }
        for _ in 0..3 {
            ensure!(it.next().is_none(), "enumeration does not stop");
        }
    }
    let mut sum = 0;
    for l in 0..x.get_max_level() {
        let w: Vec<(u8, i32, usize, Vec<f32>)> = want.iter().filter(|w| w.0 as usize == l).cloned().collect();
        let g: Vec<(u8, i32, usize, Vec<f32>)> =
            pi.get_layer_iterator(l).map(|p| (p.get_point_id().0, p.get_point_id().1, p.get_origin_id(), p.get_v().to_vec())).collect();
        ensure!(g == w, "layer {} enumerates {:?}, expected {:?}", l, g, w);
        let mut it = pi.get_layer_iterator(l);
        for _ in 0..w.len() {
            it.next();
        }
        ensure!(it.next().is_none() && it.next().is_none(), "enumeration of layer {} does not stop", l);
        drop(it);
        ensure!(pi.get_layer_nb_point(l) == w.len(), "layer {} counts {} points, has {}", l, pi.get_layer_nb_point(l), w.len());
        sum += pi.get_layer_nb_point(l);
    }
    ensure!(sum == x.get_nb_point() && sum == pi.get_nb_point(), "layers count {} points, index {}", sum, x.get_nb_point());
    for l in [16usize, 17, 255, 1000] {
        if l >= x.get_max_level() {
            ensure!(pi.get_layer_nb_point(l) == 0, "layer {} counts {} points", l, pi.get_layer_nb_point(l));
        }
    }
    let n = want.len() as i32;
    for l in (0..=x.get_max_level() as i32 + 1).chain([254, 255]) {
        for r in (-2..=n + 1).chain([i32::MIN, i32::MAX]) {
            let w = want.iter().find(|w| w.0 as i32 == l && w.1 == r).map(|w| w.3.clone());
            let g = pi.get_point_data(&PointId(l as u8, r));
            ensure!(g == w, "coordinate ({}, {}) gives {:?}, expected {:?}", l, r, g, w);
        }
    }
    let top = want.iter().map(|w| w.0).max().unwrap_or(0);
    ensure!(x.get_max_level_observed() == top, "highest layer {} reported, is {}", x.get_max_level_observed(), top);
    let dim = if want.is_empty() { 0 } else { 2 };
    ensure!(pi.get_data_dimension() == dim, "dimension {} reported, is {}", pi.get_data_dimension(), dim);
    Ok(())
}

pub fn c20(until: Instant) {
    use crate::conc::{E, HE, L1E};
    use std::sync::Arc;
    let c = ctx();
    let mut fams = families(c.thorough);
    for f in fams.iter_mut() {
        if f.pts.len() > 5 && !c.thorough {
            f.orders = f.orders.iter().step_by(3).cloned().collect();
        }
    }
    each(&fams, until, |h| {
        let token = Arc::new(());
        let mut x = HE::new(h.cfg.m, 10, h.cfg.maxl, h.cfg.efc, L1E);
        x.set_extend_candidates(h.cfg.ext);
        x.set_keeping_pruned(h.cfg.keep);
        for i in 0..h.n() {
            let (id, v) = h.point(i);
            rng::force(Some(raw_for_level(h.levels[i], h.cfg.m)));
            x.insert((&[E(v[0], token.clone()), E(v[1], token.clone())], id));
            rng::force(None);
        }
        let held = Arc::strong_count(&token) - 1;
        ensure!(held == 2 * h.n(), "{} points of 2 elements hold {} elements", h.n(), held);
        c.state(snap(&x).fp());
        // searches, enumerations and coordinates hand out holders or copies: all of them are released too
        let kept = {
            let q = [E(1., token.clone()), E(2., token.clone())];
            let _ = x.search(&q, 2, 4);
            let _ = x.get_point_indexation().get_point_data(&PointId(h.levels[0] as u8, 0));
            let all: Vec<_> = x.get_point_indexation().into_iter().collect();
            all.into_iter().next().unwrap()
        };
        let v = kept.get_v().iter().map(|e| e.0).collect::<Vec<_>>();
        drop(x);
        let left = Arc::strong_count(&token) - 1;
        ensure!(left == 2, "{} of {} elements still held after the index was dropped and one point kept", left, held);
        ensure!(kept.get_v().iter().map(|e| e.0).collect::<Vec<_>>() == v, "the vector of a kept point changed");
        drop(kept);
        let left = Arc::strong_count(&token) - 1;
        ensure!(left == 0, "{} of {} elements still held after all was dropped", left, held);
        Ok(())
    });
}
