//! Sequences of operations on one index, on two indexes, on one loader (C24, C25, C11).
use crate::conc::H;
use crate::ctx::*;
use crate::hist::tie_free;
use crate::iochk::encode;
use crate::iou::*;
use crate::util::*;
use anndists::dist::distances::Distance;
use hnsw_rs::prelude::*;
use mcctl::rng;
use std::path::Path;
use std::sync::atomic::Ordering;
use std::time::Instant;

// ------------------------------------------------------------------------------------------------
// C24: operations that read

const READS: [&str; 18] = [
    "search1", "search", "searchall", "filterlist", "filterfn", "filternone", "psearch", "enum", "layers", "sizes", "coords", "flatten", "dump", "redump", "mode", "info", "modeon", "buffer",
];

/// performs a reading operation, gives what it said
fn read(op: usize, h: &mut H, qs: &[[f32; 2]], d: &Dir) -> Result<String, String> {
    Ok(match op {
        14 => {
            h.set_searching_mode(true);
            let a = nbs(&h.search(&qs[0][..], 2, 3));
            h.set_searching_mode(false);
            format!("{:?}", a)
        }
        16 => {
            // left on
            h.set_searching_mode(true);
            format!("{:?}", nbs(&h.search(&qs[1 % qs.len()][..], 2, 2)))
        }
        _ => read_shared(op, h, qs, d)?,
    })
}

fn read_shared(op: usize, h: &H, qs: &[[f32; 2]], d: &Dir) -> Result<String, String> {
    let n = h.get_nb_point();
    let (q, p) = (&qs[0][..], &qs[1 % qs.len()][..]);
    Ok(match op {
        0 => format!("{:?}", nbs(&h.search(q, 1, 1))),
        1 => format!("{:?}{:?}", nbs(&h.search(q, 2, 3)), nbs(&h.search(p, 2, 2))),
        2 => format!("{:?}", qs.iter().map(|q| nbs(&h.search(&q[..], n, 2 * n))).collect::<Vec<_>>()),
        3 => {
            let f: Vec<usize> = vec![0, 4, 9];
            format!("{:?}", nbs(&h.search_filter(q, 2, n.max(1), Some(&f))))
        }
        4 => {
            let f = |i: &usize| i % 2 == 0;
            format!("{:?}{:?}", nbs(&h.search_filter(p, 1, n.max(1), Some(&f))), nbs(&h.search_possible_filter(p, 1, n.max(1), Some(&f))))
        }
        5 => format!("{:?}", nbs(&h.search_filter(p, 2, 2, None))),
        6 => {
            let v: Vec<Vec<f32>> = qs.iter().map(|q| q.to_vec()).collect();
            format!("{:?}", h.parallel_search(&v, 2, 3).iter().map(|a| nbs(a)).collect::<Vec<_>>())
        }
        7 => format!("{:?}", h.get_point_indexation().into_iter().map(|p| (p.get_origin_id(), p.get_neighborhood_id().iter().map(|l| nbs(l)).collect::<Vec<_>>())).collect::<Vec<_>>()),
        8 => {
            let pi = h.get_point_indexation();
            // an enumeration left unfinished, then all of them
            let _ = pi.get_layer_iterator(0).next();
            let _ = pi.into_iter().next();
            format!("{:?}", (0..4).map(|l| pi.get_layer_iterator(l).map(|p| p.get_origin_id()).collect::<Vec<_>>()).collect::<Vec<_>>())
        }
        9 => {
            let pi = h.get_point_indexation();
            format!(
                "{:?}",
                (n, pi.get_nb_point(), h.get_max_level_observed(), pi.get_max_level_observed(), h.get_max_level(), h.get_max_nb_connection(), h.get_ef_construction(), h.get_distance_name(),
                    (0..16).map(|l| pi.get_layer_nb_point(l)).collect::<Vec<_>>(), if n > 0 { pi.get_data_dimension() } else { 0 }, pi.get_level_scale().to_bits())
            )
        }
        10 => {
            let pi = h.get_point_indexation();
            format!("{:?}", (0..4u8).flat_map(|l| (-1..6).map(move |r| PointId(l, r))).map(|p| pi.get_point_data(&p)).collect::<Vec<_>>())
        }
        11 => {
            let f = hnsw_rs::flatten::FlatNeighborhood::from(h);
            format!("{:?}", IDS.iter().map(|i| f.get_neighbours(*i).map(|v| nbs(&v))).collect::<Vec<_>>())
        }
        12 | 13 => {
            if n == 0 {
                return Ok(format!("{}", h.file_dump(&d.abs, "e").is_ok()));
            }
            let name = h.file_dump(&d.abs, "a").map_err(|e| e.to_string())?;
            let l = load::<f32, L1>(&d.abs, &name, if op == 12 { None } else { Some(1) })?;
            if op == 13 {
                l.h().file_dump(&d.abs, "a").map_err(|e| e.to_string())?;
            }
            let s = format!("{}{:?}", canon(&snap(l.h())).text(), nbs(&l.h().search(q, 2, 3)));
            if op == 13 {
                // the reloaded index has a life of its own
                rng::force(Some(raw_for_level(2, h.get_max_nb_connection() as usize)));
                l.h().insert((&[3., 40.], 555));
                rng::force(None);
            }
            s
        }
        17 => {
            // queries in the same memory
            let mut b = [0f32; 2];
            let mut s = String::new();
            let f = |i: &usize| i % 2 == 1;
            for q in qs.iter().chain(qs.iter().rev()) {
                b.copy_from_slice(q);
                s += &format!("{:?}{:?}", nbs(&h.search(&b, 2, 2)), nbs(&h.search_filter(&b, 1, n.max(1), Some(&f))));
            }
            s
        }
        _ => {
            h.dump_layer_info();
            let _ = h.get_distance().eval(q, p);
            String::new()
        }
    })
}

struct Rd {
    m: usize,
    efc: usize,
    ext: bool,
    keep: bool,
    pts: Vec<(usize, [f32; 2])>,
    levels: Vec<usize>,
    qs: Vec<[f32; 2]>,
}
impl Rd {
    fn new(&self) -> H {
        let mut h = H::new(self.m, 10, 16, self.efc, L1);
        h.set_extend_candidates(self.ext);
        h.set_keeping_pruned(self.keep);
        h
    }
    fn ins(&self, h: &H, i: usize) {
        rng::force(Some(raw_for_level(self.levels[i], self.m)));
        h.insert((&self.pts[i].1[..], self.pts[i].0));
        rng::force(None);
    }
    fn key(&self) -> String {
        format!("read:M{}ef{}{}{}:{}", self.m, self.efc, if self.ext { "x" } else { "" }, if self.keep { "k" } else { "" }, self.pts.iter().zip(&self.levels).map(|(p, l)| format!("{}@{}", p.0, l)).collect::<Vec<_>>().join(","))
    }
    fn state(&self, h: &H) -> String {
        format!("{}{:?}", snap(h).text(), self.qs.iter().map(|q| (nbs(&h.search(&q[..], 2, 3)), nbs(&h.search(&q[..], 1, 1)))).collect::<Vec<_>>())
    }
}

pub fn c24(until: Instant) {
    let c = ctx();
    base();
    let (p, q) = tie_free(5, 2, 11);
    let mut rds: Vec<Rd> = Vec::new();
    for n in 1..=c.pick(4, 5) {
        let b = match n {
            1 => 4,
            2 => 4,
            3 => 3,
            _ => 2,
        };
        let orders = if n == 3 { permutations(n) } else { vec![(0..n).collect::<Vec<_>>(), (0..n).rev().collect()] };
        for o in orders {
            for w in words(n, b) {
                for (m, efc, ext, keep) in [(2, 4, false, false), (3, 8, true, true)] {
                    rds.push(Rd { m, efc, ext, keep, pts: o.iter().map(|i| (IDS[*i], p[*i])).collect(), levels: w.clone(), qs: q.clone() });
                }
            }
        }
    }
    parallel(&rds, |_, _, r| {
        let n = r.pts.len();
        // what each operation says on an index that was never read before, after each insertion
        let mut fresh: Vec<Vec<Option<String>>> = vec![vec![None; READS.len()]; n + 1];
        let mut states: Vec<String> = Vec::new();
        c.case(|| format!("{}:fresh", r.key()), || {
            for at in 0..=n {
                for op in 0..READS.len() {
                    let mut h = r.new();
                    for i in 0..at {
                        r.ins(&h, i);
                    }
                    let d = Dir::new();
                    fresh[at][op] = Some(read(op, &mut h, &r.qs, &d)?);
                }
                let h = r.new();
                for i in 0..at {
                    r.ins(&h, i);
                }
                states.push(r.state(&h));
            }
            Ok(())
        });
        if states.len() != n + 1 {
            // the case reported it, or it is not the one asked for
            if c.only.is_none() {
                return;
            }
            states.clear();
            for at in 0..=n {
                for op in 0..READS.len() {
                    let mut h = r.new();
                    for i in 0..at {
                        r.ins(&h, i);
                    }
                    fresh[at][op] = read(op, &mut h, &r.qs, &Dir::new()).ok();
                }
                let h = r.new();
                for i in 0..at {
                    r.ins(&h, i);
                }
                states.push(r.state(&h));
            }
        }
        // operations placed at slots: slot i is before insertion i, slot n after the last one
        let mut plans: Vec<Vec<(usize, usize)>> = Vec::new();
        for op in 0..READS.len() {
            // the same one everywhere, twice
            plans.push((0..=n).flat_map(|s| [(s, op), (s, op)]).collect());
            // all of them everywhere, from this one on
            plans.push((0..=n).flat_map(|s| (0..READS.len()).map(move |o| (s, (o + op) % READS.len()))).collect());
        }
        let pairs = n <= 2 || (n == 3 && c.thorough);
        for a in 0..READS.len() {
            for b in 0..READS.len() {
                for s in 0..=n {
                    for t in s..=n {
                        if pairs || (t - s <= 1 && s > 0 && (a % 2 == 0 || a == b)) || (s == 1 && t == n) {
                            plans.push(vec![(s, a), (t, b)]);
                        }
                    }
                }
            }
        }
        for plan in &plans {
            if Instant::now() > until {
                c.exhaustive.store(false, Ordering::Relaxed);
                return;
            }
            let key = || format!("{}:{}", r.key(), plan.iter().map(|(s, o)| format!("{}{}", s, READS[*o])).collect::<Vec<_>>().join("."));
            c.case(key, || {
                let mut h = r.new();
                let d = Dir::new();
                for s in 0..=n {
                    if s > 0 {
                        r.ins(&h, s - 1);
                    }
                    for (_, op) in plan.iter().filter(|x| x.0 == s) {
                        let a = read(*op, &mut h, &r.qs, &d)?;
                        let f = fresh[s][*op].as_ref().ok_or("no answer of a fresh index")?;
                        ensure!(a == *f, "{} after {} insertions: {} ; on an index never read before: {}", READS[*op], s, short(&a), short(f));
                    }
                }
                let z = r.state(&h);
                ensure!(z == states[n], "index after the reading operations:\n{}index without them:\n{}", short(&z), short(&states[n]));
                Ok(())
            });
        }
        c.state(hash64(states[n].as_bytes()));
    });
    long_reads(until);
    repeats(until);
    mutating_settings(until);
    after_threads(until);
}

/// the ways searches go through the index: the ids a filter is asked about, in order
fn walks(h: &H, qs: &[[f32; 2]]) -> String {
    let n = h.get_nb_point();
    let seen = std::sync::Mutex::new(Vec::new());
    let f = |i: &usize| {
        seen.lock().unwrap().push(*i);
        true
    };
    let a: Vec<_> = qs.iter().flat_map(|q| [nbs(&h.search_filter(&q[..], n, n + 1, Some(&f))), nbs(&h.search_filter(&q[..], 1, 1, Some(&f))), nbs(&h.search(&q[..], 1, 1))]).collect();
    format!("{:?}{:?}{}", a, seen.into_inner().unwrap(), h.get_max_level_observed())
}

/// reading operations on the indexes that several threads inserting together leave behind
fn after_threads(until: Instant) {
    let c = ctx();
    let jobs = crate::conc::to_jobs(crate::conc::insert_scenarios(c.thorough), false);
    crate::conc::run(&jobs, &|sc, h, _o| {
        let qs = [[0.5f32, 0.25], [4., 6.], [20., 3.]];
        let st = || format!("{}{}", snap(h).text(), walks(h, &qs));
        let before = st();
        if !c.new_state(hash64(format!("{}{}", sc.name, before).as_bytes())) && c.only.is_none() {
            return Ok(());
        }
        let d = Dir::new();
        for op in (0..READS.len()).filter(|o| *o != 14 && *o != 16) {
            let x = read_shared(op, h, &qs, &d)?;
            let after = st();
            ensure!(before == after, "{} changes the index the threads left:\n{}into\n{}", READS[op], short(&before), short(&after));
            let y = read_shared(op, h, &qs, &d)?;
            ensure!(x == y, "{} says {} then {}", READS[op], short(&x), short(&y));
        }
        Ok(())
    }, until);
}

/// a longer life: every operation after every insertion, against an index that is never read
fn long_reads(until: Instant) {
    let c = ctx();
    let n = c.pick(60, 200);
    let seeds: Vec<(u64, usize)> = (0..c.pick(2, 6)).flat_map(|s| (0..READS.len()).map(move |o| (s, o))).collect();
    parallel(&seeds, |_, _, &(seed, op)| {
        if Instant::now() > until {
            c.exhaustive.store(false, Ordering::Relaxed);
            return;
        }
        c.case(|| format!("longread:{}:{}", seed, READS[op]), || {
            let (p, q) = tie_free(24, 2, 300 + seed);
            let mut x = seed + 7;
            let mut rnd = |k: u64| {
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                (x >> 33) % k
            };
            let mut pts: Vec<[f32; 2]> = p;
            while pts.len() < n {
                pts.push([rnd(1 << 16) as f32 + 0.25, rnd(1 << 16) as f32]);
            }
            let levels: Vec<usize> = (0..n).map(|i| [0, 0, 1, 0, 0, 2, 0, 1, 0, 0, 0, 3, 1][(i * (seed as usize + 1)) % 13]).collect();
            let m = [4, 3, 6][seed as usize % 3];
            let r = Rd { m, efc: 2 * m, ext: seed % 2 == 1, keep: seed % 3 == 1, pts: pts.into_iter().enumerate().map(|(i, p)| (if i < 9 { IDS[i] } else { 2 * i + 1 }, p)).collect(), levels, qs: q };
            let (a, mut b) = (r.new(), r.new());
            let d = Dir::new();
            for i in 0..n {
                r.ins(&a, i);
                r.ins(&b, i);
                if op < 12 || op > 13 || i % 7 == 0 {
                    let x = read(op, &mut b, &r.qs, &d)?;
                    let y = read(op, &mut b, &r.qs, &d)?;
                    ensure!(x == y, "{} twice after {} insertions: {} then {}", READS[op], i + 1, short(&x), short(&y));
                }
                ensure!(snap(&a).text() == snap(&b).text(), "{} insertions: the index read in between ({}) differs:\n{}not read:\n{}", i + 1, READS[op], short(&snap(&b).text()), short(&snap(&a).text()));
            }
            ensure!(r.state(&a) == r.state(&b), "answers of the index read in between differ");
            Ok(())
        });
    });
}

/// a read, then any number of another one at the other end of the index, then the first again
fn repeats(until: Instant) {
    let c = ctx();
    // by kind of search: at one end or the other of a line of points
    fn ask(h: &Hnsw<'static, f32, L1>, kind: usize, x: f32) -> Vec<Nb> {
        match kind {
            0 => nbs(&h.search(&[x, 0.5], 3, 4)),
            1 => nbs(&h.search(&[x, 0.5], 1, 1)),
            2 => nbs(&h.search_filter(&[x, 0.5], 2, 3, Some(&|i: &usize| *i % 2 == 0))),
            3 => h.parallel_search(&[vec![x, 0.5]], 2, 3).iter().flat_map(|a| nbs(a)).collect(),
            _ => nbs(&h.search(&[x, 0.5], 30, 60)),
        }
    }
    let mut items: Vec<(usize, usize, usize, bool)> = Vec::new();
    for shape in 0..3 {
        for (a, b) in [(0, 0), (0, 1), (1, 1), (1, 0), (2, 0), (0, 2), (4, 1), (3, 1), (2, 1)] {
            for line in [false, true] {
                items.push((shape, a, b, line));
            }
        }
    }
    let most = c.pick(300, 600);
    parallel(&items, |_, _, &(shape, ka, kb, far)| {
        if Instant::now() > until {
            c.exhaustive.store(false, Ordering::Relaxed);
            return;
        }
        c.case(|| format!("repeats:{}:{}-{}{}", shape, ka, kb, if far { ":65536" } else { "" }), || {
            let n = 60;
            let r = Rd {
                m: 2,
                efc: 4,
                ext: false,
                keep: false,
                pts: (0..n).map(|i| (7 * i + 1, [10. * i as f32 + (i * i % 7) as f32, 0.])).collect(),
                levels: (0..n).map(|i| match shape { 0 => 0, 1 => (i == 20) as usize, _ => [0, 1, 0, 0, 2, 0, 1][i % 7] }).collect(),
                qs: vec![[0., 0.]],
            };
            let h = r.new();
            for i in 0..n {
                r.ins(&h, i);
            }
            let (xa, xb) = (590., 3.);
            let (wa, wb) = (ask(&h, ka, xa), ask(&h, kb, xb));
            let gaps: Vec<usize> = if far { vec![65_533, 65_534, 65_535, 65_536] } else { (0..=most).collect() };
            for g in gaps {
                let x = ask(&h, ka, xa);
                ensure!(x == wa, "{} reads of another place, twice: {:?} then {:?}", g, wa, x);
                for i in 0..g {
                    let y = ask(&h, kb, xb);
                    ensure!(y == wb, "read {} of {} in a row: {:?} then {:?}", i, g, wb, y);
                }
            }
            let x = ask(&h, ka, xa);
            ensure!(x == wa, "at last: {:?} then {:?}", wa, x);
            Ok(())
        });
    });
}

/// the settings given last are those used, whatever they were before
fn mutating_settings(until: Instant) {
    let c = ctx();
    let (p, q) = tie_free(6, 2, 23);
    let mut items: Vec<(Vec<usize>, Vec<usize>)> = Vec::new();
    for sw in words(5, 4) {
        for lv in [vec![0, 0, 0, 0, 0, 0], vec![1, 0, 0, 1, 0, 0], vec![0, 1, 0, 0, 1, 0]] {
            items.push((sw.clone(), lv));
        }
    }
    let chunks: Vec<&[(Vec<usize>, Vec<usize>)]> = items.chunks(64).collect();
    parallel(&chunks, |_, _, ch| {
        for (sw, lv) in ch.iter() {
            if Instant::now() > until {
                c.exhaustive.store(false, Ordering::Relaxed);
                return;
            }
            c.case(|| format!("settings:{:?}:{:?}", sw, lv), || {
                let r = Rd { m: 2, efc: 6, ext: false, keep: false, pts: (0..6).map(|i| (IDS[i], p[i])).collect(), levels: lv.clone(), qs: q.clone() };
                // settings changed before every insertion, directly and through other ones
                let (mut a, mut b) = (r.new(), r.new());
                for i in 0..6 {
                    let s = sw[i.min(4)];
                    a.set_extend_candidates(s & 1 == 1);
                    a.set_keeping_pruned(s & 2 == 2);
                    b.set_keeping_pruned(s & 2 == 0);
                    b.set_extend_candidates(s & 1 == 0);
                    b.set_searching_mode(true);
                    b.set_keeping_pruned(s & 2 == 2);
                    b.set_extend_candidates(s & 1 == 1);
                    b.set_searching_mode(false);
                    r.ins(&a, i);
                    r.ins(&b, i);
                }
                let (x, y) = (r.state(&a), r.state(&b));
                ensure!(x == y, "settings set once:\n{}set back and forth:\n{}", short(&x), short(&y));
                c.state(hash64(x.as_bytes()));
                Ok(())
            });
        }
    });
}

// ------------------------------------------------------------------------------------------------
// C25: two indexes

/// one of the two indexes, with what it needs
struct Side<T: El>
where
    G: Distance<T>,
{
    hi: IoHist,
    h: Option<Hnsw<'static, T, G>>,
    re: Option<Loaded<T, G>>,
    next: usize,
    name: String,
}
const OPS: [&str; 6] = ["ins", "search", "filter", "dump", "reload", "drop"];
trait Player {
    fn step(&mut self, op: usize, d: &Dir) -> Result<String, String>;
    fn end(&mut self) -> Result<String, String>;
}
impl<T: El> Side<T>
where
    G: Distance<T>,
{
    fn start(hi: &IoHist, name: &str) -> Side<T> {
        let h = hi.empty::<T>();
        for i in 0..2 {
            hi.insert(&h, i);
        }
        Side { hi: hi.clone(), h: Some(h), re: None, next: 2, name: name.into() }
    }
    fn cur(&self) -> &Hnsw<'static, T, G> {
        match &self.re {
            Some(l) => l.h(),
            None => self.h.as_ref().unwrap(),
        }
    }
}
impl<T: El> Player for Side<T>
where
    G: Distance<T>,
{
    fn step(&mut self, op: usize, d: &Dir) -> Result<String, String> {
        let q = self.hi.queries::<T>();
        Ok(match op {
            0 => {
                if self.next < self.hi.pts.len() {
                    self.hi.insert(self.cur(), self.next);
                    self.next += 1;
                }
                String::new()
            }
            1 => format!("{:?}", q.iter().map(|q| nbs(&self.cur().search(q, 2, 3))).collect::<Vec<_>>()),
            2 => {
                let f = |i: &usize| i % 2 == 0;
                format!("{:?}{:?}", nbs(&self.cur().search_filter(&q[0], 1, 5, Some(&f))), self.cur().parallel_search(&q, 1, 2).iter().map(|a| nbs(a)).collect::<Vec<_>>())
            }
            3 => {
                let n = self.cur().file_dump(&d.abs, &self.name).map_err(|e| e.to_string())?;
                let l = load::<T, G>(&d.abs, &n, None)?;
                format!("{}{:?}", canon(&snap(l.h())).text(), nbs(&l.h().search(&q[1], 2, 2)))
            }
            4 => {
                let n = self.cur().file_dump(&d.abs, &self.name).map_err(|e| e.to_string())?;
                let mut l = load::<T, G>(&d.abs, &n, if std::mem::align_of::<T>() <= 4 { Some(1) } else { None })?;
                l.hm().set_extend_candidates(self.hi.ext);
                l.hm().set_keeping_pruned(self.hi.keep);
                self.h = None;
                self.re = Some(l);
                format!("{:?}", nbs(&self.cur().search(&q[0], 3, 3)))
            }
            _ => {
                // begins anew
                self.re = None;
                let h = self.hi.empty::<T>();
                self.hi.insert(&h, self.hi.pts.len() - 1);
                self.h = Some(h);
                self.next = 0;
                String::new()
            }
        })
    }
    fn end(&mut self) -> Result<String, String> {
        let q = self.hi.queries::<T>();
        Ok(format!("{}{:?}", canon(&snap(self.cur())).text(), q.iter().map(|q| (nbs(&self.cur().search(q, 3, 5)), nbs(&self.cur().search(q, 1, 1)))).collect::<Vec<_>>()))
    }
}

/// the histories of the two sides
fn sides() -> Vec<IoHist> {
    let (p, q) = tie_free(6, 2, 31);
    let (p2, q2) = tie_free(6, 2, 47);
    let h = |p: &[[f32; 2]], q: &[[f32; 2]], ty: usize, m: usize, efc: usize, lv: [usize; 6], ext: bool, dim3: bool, scale: Option<f64>| {
        let cv = |x: &[f32; 2]| {
            let mut v = vec![x[0] as u32, x[1] as u32];
            if dim3 {
                v.push(7);
            }
            v
        };
        IoHist { name: "side".into(), ty, m, efc, ext, keep: ext, scale, pts: (0..6).map(|i| (IDS[i], cv(&p[i]), lv[i])).collect(), queries: q.iter().map(cv).collect(), ties: false }
    };
    vec![
        h(&p, &q, 0, 2, 4, [0, 1, 0, 0, 2, 0], false, false, None),
        h(&p2, &q2, 0, 2, 4, [0, 0, 1, 0, 0, 1], false, false, None),
        h(&p2, &q2, 0, 4, 9, [1, 0, 0, 2, 0, 0], true, true, Some(0.5)),
        h(&p2, &q2, 1, 3, 2, [2, 0, 1, 0, 0, 0], false, false, Some(0.3)),
    ]
}

fn player(hi: &IoHist, name: &str) -> Box<dyn Player> {
    match hi.ty {
        0 => Box::new(Side::<f32>::start(hi, name)),
        _ => Box::new(Side::<u8>::start(hi, name)),
    }
}

pub fn c25(until: Instant) {
    let c = ctx();
    base();
    let s = sides();
    let len = 3;
    let ws = words(len, OPS.len());
    // each alone
    let mut alone: Vec<Vec<Vec<String>>> = Vec::new();
    for hi in &s {
        let mut v = Vec::new();
        for w in &ws {
            let d = Dir::new();
            let mut p = player(hi, "a");
            let mut out = Vec::new();
            let run = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> R {
                for op in w {
                    out.push(p.step(*op, &d)?);
                }
                out.push(p.end()?);
                Ok(())
            }));
            match run {
                Ok(Ok(())) => {}
                Ok(Err(e)) => c.case(|| format!("alone:{:?}:{:?}", hi.key(), w), || Err(e)),
                Err(p) => c.case(|| format!("alone:{:?}:{:?}", hi.key(), w), || Err(format!("panic: {}", mcctl::panic_message(&*p)))),
            }
            v.push(out);
        }
        alone.push(v);
    }
    if c.nviolations() > 0 {
        return;
    }
    // interleavings of two words of this length
    let inter: Vec<Vec<bool>> = words(2 * len, 2).into_iter().map(|w| w.iter().map(|x| *x == 1).collect::<Vec<bool>>()).filter(|w: &Vec<bool>| w.iter().filter(|x| **x).count() == len).collect();
    let mut items: Vec<(usize, usize, usize)> = Vec::new();
    for (a, b) in [(0usize, 1usize), (0, 2), (0, 3), (0, 0)] {
        for i in 0..ws.len() {
            for j in 0..ws.len() {
                let files = |w: &Vec<usize>| w.iter().filter(|o| **o == 3 || **o == 4).count();
                if a == b && j < i {
                    continue;
                }
                if !c.thorough && (files(&ws[i]) + files(&ws[j]) > 1 || (a, b) != (0, 2) && (i + j) % 3 > 0) {
                    continue;
                }
                items.push((a * 8 + b, i, j));
            }
        }
    }
    let chunks: Vec<&[(usize, usize, usize)]> = items.chunks(16).collect();
    parallel(&chunks, |_, _, ch| {
        for &(ab, i, j) in ch.iter() {
            let (a, b) = (ab / 8, ab % 8);
            for w in &inter {
                if Instant::now() > until {
                    c.exhaustive.store(false, Ordering::Relaxed);
                    return;
                }
                let nm = |w: &[usize]| w.iter().map(|o| OPS[*o]).collect::<Vec<_>>().join(",");
                c.case(|| format!("two:{}{}:{}:{}:{}", a, b, nm(&ws[i]), nm(&ws[j]), w.iter().map(|x| if *x { 'b' } else { 'a' }).collect::<String>()), || {
                    let d = if ws[i].iter().chain(&ws[j]).any(|o| *o == 3 || *o == 4) { Dir::new() } else { Dir { rel: String::new(), abs: "/nonexistent".into() } };
                    let mut pl = [player(&s[a], "a"), player(&s[b], "a-b")];
                    let mut at = [0usize; 2];
                    for x in w {
                        let x = *x as usize;
                        let (word, want) = if x == 0 { (&ws[i], &alone[a][i]) } else { (&ws[j], &alone[b][j]) };
                        let r = pl[x].step(word[at[x]], &d)?;
                        ensure!(r == want[at[x]], "index {}: {} says {} ; alone {}", x, OPS[word[at[x]]], short(&r), short(&want[at[x]]));
                        at[x] += 1;
                    }
                    for x in [1, 0] {
                        let e = pl[x].end()?;
                        let want = if x == 0 { &alone[a][i][len] } else { &alone[b][j][len] };
                        ensure!(e == *want, "index {} is\n{}alone\n{}", x, short(&e), short(want));
                    }
                    Ok(())
                });
            }
        }
    });
    for v in &alone {
        for w in v {
            c.state(hash64(w[len].as_bytes()));
        }
    }
    successors(until);
    crate::conc::c25_threads(until);
}

/// an index takes the place of another one, in the same memory
fn successors(until: Instant) {
    let c = ctx();
    let (p, q) = tie_free(6, 2, 31);
    let (p2, _) = tie_free(6, 2, 47);
    let rd = |p: &[[f32; 2]], shift: usize, m: usize, efc: usize, lv: [usize; 6], ext: bool| Rd { m, efc, ext, keep: ext, pts: (0..6).map(|i| (IDS[i + shift], p[i])).collect(), levels: lv.to_vec(), qs: q.clone() };
    let rds = vec![
        rd(&p, 0, 2, 4, [0, 1, 0, 0, 2, 0], false),
        rd(&p2, 0, 2, 4, [0, 1, 0, 0, 2, 0], false),
        rd(&p2, 2, 4, 9, [1, 0, 0, 2, 0, 0], true),
    ];
    let made = |r: &Rd, k: usize| {
        let h = r.new();
        for i in 0..k {
            r.ins(&h, i);
        }
        h
    };
    let kmax = c.pick(4, 6);
    // what the operations say on indexes that stay where they are: their memory is not used again
    let mut keep: Vec<Box<H>> = Vec::new();
    let mut fresh: Vec<Vec<Vec<Option<String>>>> = Vec::new();
    let mut ends: Vec<Vec<String>> = Vec::new();
    for r in &rds {
        let mut v = Vec::new();
        let mut e = Vec::new();
        for k in 0..=kmax {
            v.push(
                (0..READS.len())
                    .map(|op| {
                        let mut h = Box::new(made(r, k));
                        let x = read(op, &mut h, &r.qs, &Dir::new()).ok();
                        keep.push(h);
                        x
                    })
                    .collect::<Vec<_>>(),
            );
            let h = Box::new(made(r, k));
            e.push(r.state(&h));
            keep.push(h);
        }
        fresh.push(v);
        ends.push(e);
    }
    let mut items: Vec<(usize, usize, usize, usize)> = Vec::new();
    for a in 0..rds.len() {
        for b in 0..rds.len() {
            for k in 1..=kmax {
                for j in [k, k - 1] {
                    items.push((a, b, k, j));
                }
            }
        }
    }
    parallel(&items, |_, _, &(a, b, k, j)| {
        for op1 in 0..READS.len() {
            for op2 in 0..READS.len() {
                if Instant::now() > until {
                    c.exhaustive.store(false, Ordering::Relaxed);
                    return;
                }
                c.case(|| format!("successor:{}{}:{}{}:{}:{}", a, b, k, j, READS[op1], READS[op2]), || {
                    let d = Dir::new();
                    let mut slot = Box::new(made(&rds[a], k));
                    let x = read(op1, &mut slot, &rds[a].qs, &d)?;
                    ensure!(Some(&x) == fresh[a][k][op1].as_ref(), "{} says {} ; otherwise {:?}", READS[op1], short(&x), fresh[a][k][op1]);
                    *slot = made(&rds[b], j);
                    for op in [op2, op1] {
                        let x = read(op, &mut slot, &rds[b].qs, &d)?;
                        ensure!(Some(&x) == fresh[b][j][op].as_ref(), "{} on an index made where another one was says {} ; otherwise {:?}", READS[op], short(&x), fresh[b][j][op]);
                    }
                    let e = rds[b].state(&slot);
                    ensure!(e == ends[b][j], "index made where another one was:\n{}otherwise\n{}", short(&e), short(&ends[b][j]));
                    Ok(())
                });
            }
        }
    });
    drop(keep);
}

// ------------------------------------------------------------------------------------------------
// one loader used several times (C10, C11)

/// contents of the two files
const FILES: [&str; 5] = ["first", "second", "version2", "cut", "missing"];

pub fn loaders(until: Instant) {
    let c = ctx();
    base();
    let hs = sides();
    let (x, y) = (hs[0].build::<f32>(), hs[1].build::<f32>());
    let d0 = Dir::new();
    x.file_dump(&d0.abs, "x").unwrap();
    y.file_dump(&d0.abs, "y").unwrap();
    let (fx, fy) = (d0.get("x"), d0.get("y"));
    let v2 = encode(&snap(&y), 2, hs[1].m as u8, hs[1].efc, 2, 0., dist_name());
    let cut = (fy.0.clone(), fy.1[..fy.1.len() / 2].to_vec());
    // step: content, options, call
    let mut steps: Vec<(usize, usize, usize)> = Vec::new();
    for f in 0..FILES.len() {
        for o in 0..3 {
            for k in 0..2 {
                steps.push((f, o, k));
            }
        }
    }
    let len = 3;
    let mut seqs: Vec<(Vec<usize>, usize)> = Vec::new();
    for n in 1..=len {
        for w in words(n, steps.len()) {
            for mode in 0..if n <= 2 { 2 } else { 1 } {
                seqs.push((w.clone(), mode));
            }
        }
    }
    let (sx, sy) = (snap(&x), snap(&y));
    let (qx, qy) = (hs[0].queries::<f32>(), hs[1].queries::<f32>());
    let (rx, ry) = (answers(&x, &qx), answers(&y, &qy));
    let chunks: Vec<&[(Vec<usize>, usize)]> = seqs.chunks(32).collect();
    parallel(&chunks, |_, _, ch| {
        for (w, mode) in ch.iter() {
            if Instant::now() > until {
                c.exhaustive.store(false, Ordering::Relaxed);
                return;
            }
            let key = || format!("loader:mode{}:{}", mode, w.iter().map(|s| format!("{}-{}-{}", FILES[steps[*s].0], ["plain", "map", "map1"][steps[*s].1], ["load", "dist"][steps[*s].2])).collect::<Vec<_>>().join(","));
            c.case(key, || {
                let d = Dir::new();
                // three ways of making a loader
                let mk = |p: &Path, o: ReloadOptions| -> Result<HnswIo, String> {
                    Ok(match w.len() + w[0] % 2 {
                        1 => HnswIo::new_with_options(p, "a", o),
                        2 => {
                            let mut io = HnswIo::default();
                            io.set_values(p, "a".into(), o).map_err(|e| e.to_string())?;
                            ensure!(io.set_values(Path::new("/nowhere"), "z".into(), o).is_err(), "set_values a second time is accepted");
                            io
                        }
                        _ => {
                            let mut io = HnswIo::new(p, "a");
                            io.set_options(o);
                            io
                        }
                    })
                };
                let opt = |o: usize| match o {
                    0 => ReloadOptions::default(),
                    1 => ReloadOptions::new(true),
                    _ => ReloadOptions::default().set_mmap_threshold(1),
                };
                let io = Box::into_raw(Box::new(mk(&d.abs, opt(steps[w[0]].1))?));
                struct Free(*mut HnswIo);
                impl Drop for Free {
                    fn drop(&mut self) {
                        unsafe { drop(Box::from_raw(self.0)) }
                    }
                }
                let free = Free(io);
                for s in w {
                    let (f, o, k) = steps[*s];
                    // the files of another dump take the place of the earlier ones, in place or as new files
                    if *mode == 0 || f == 4 {
                        let _ = std::fs::remove_file(d.graph("a"));
                        let _ = std::fs::remove_file(d.data("a"));
                    }
                    match f {
                        0 => d.put("a", &fx.0, &fx.1),
                        1 => d.put("a", &fy.0, &fy.1),
                        2 => d.put("a", &v2.0, &v2.1),
                        3 => d.put("a", &cut.0, &cut.1),
                        _ => {}
                    }
                    c.count("reloads", 1);
                    unsafe { (*io).set_options(opt(o)) };
                    let r: Result<Hnsw<'static, f32, G>, _> = if k == 0 { unsafe { (*io).load_hnsw::<f32, G>() } } else { unsafe { (*io).load_hnsw_with_dist::<f32, G>(G) } };
                    ensure!(unsafe { (*io).get_basename() } == "a", "the loader's name is {}", unsafe { (*io).get_basename() });
                    match r {
                        Err(e) => ensure!(f >= 3, "{}: {}", FILES[f], e),
                        Ok(h) => {
                            ensure!(f < 3, "an index is returned from {} files", FILES[f]);
                            let (s, q, a) = if f == 0 { (&sx, &qx, &rx) } else { (&sy, &qy, &ry) };
                            same_graph(s, &snap(&h)).map_err(|e| format!("{}: {}", FILES[f], e))?;
                            for (p, z) in s.points().zip(snap(&h).points()) {
                                ensure!(p.v == z.v, "{}: point {}: vector {:?} reloaded as {:?}", FILES[f], p.id, p.v, z.v);
                            }
                            ensure!(answers(&h, q) == *a, "{}: other answers", FILES[f]);
                        }
                    }
                }
                drop(free);
                c.state(hash64(key().as_bytes()));
                Ok(())
            });
        }
    });
}
fn answers(h: &Hnsw<'_, f32, G>, q: &[Vec<f32>]) -> Vec<Vec<Nb>> {
    q.iter().flat_map(|q| [nbs(&h.search(q, 3, 4)), nbs(&h.search(q, 1, 1))]).collect()
}
