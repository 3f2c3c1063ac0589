//! Snapshots of an index through its public interface, and the oracles shared by the checks.
use anndists::dist::distances::Distance;
use hnsw_rs::hnsw::*;
use std::collections::{BTreeMap, HashMap, HashSet};

/// |x - y| summed, on small integers held in f32: exact
#[derive(Clone, Copy, Default)]
pub struct L1;
impl Distance<f32> for L1 {
    fn eval(&self, a: &[f32], b: &[f32]) -> f32 {
        a.iter().zip(b).map(|(x, y)| (x - y).abs()).sum()
    }
}

/// raw random value that the level law maps to `level` for this max_nb_connection
pub fn raw_for_level(level: usize, m: usize) -> u64 {
    if m == 1 {
        // every level exceeds the maximum (16 layers) and is drawn again, evenly
        return (((2 * level + 1) as u128) << 59) as u64;
    }
    let x = (-(level as f64 + 0.5) * (m as f64).ln()).exp();
    raw_for_xsi(x)
}
pub fn raw_for_xsi(x: f64) -> u64 {
    (((x * (1u64 << 52) as f64) as u64) & ((1 << 52) - 1)) << 12
}

pub type Nb = (usize, f32, (u8, i32));

#[derive(Clone, Debug, PartialEq)]
pub struct PSnap<T> {
    pub id: usize,
    pub pid: (u8, i32),
    pub v: Vec<T>,
    pub nb: Vec<Vec<Nb>>,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Snap<T> {
    pub layers: Vec<Vec<PSnap<T>>>,
}

pub fn pid(p: PointId) -> (u8, i32) {
    (p.0, p.1)
}
pub fn nbs(v: &[Neighbour]) -> Vec<Nb> {
    v.iter().map(|n| (n.d_id, n.distance, pid(n.p_id))).collect()
}

pub fn psnap<T: Clone + Send + Sync>(p: &Point<T>) -> PSnap<T> {
    PSnap {
        id: p.get_origin_id(),
        pid: pid(p.get_point_id()),
        v: p.get_v().to_vec(),
        nb: p.get_neighborhood_id().iter().map(|l| nbs(l)).collect(),
    }
}

/// the stored points, layer by layer
pub fn snap<T: Clone + Send + Sync, D: Distance<T> + Send + Sync>(h: &Hnsw<T, D>) -> Snap<T> {
    let pi = h.get_point_indexation();
    let layers = (0..h.get_max_level())
        .map(|l| pi.get_layer_iterator(l).map(|p| psnap(&*p)).collect())
        .collect();
    Snap { layers }
}

impl<T: Clone> Snap<T> {
    pub fn points(&self) -> impl Iterator<Item = &PSnap<T>> {
        self.layers.iter().flatten()
    }
    pub fn len(&self) -> usize {
        self.layers.iter().map(|l| l.len()).sum()
    }
    pub fn at(&self, p: (u8, i32)) -> Option<&PSnap<T>> {
        if p.1 < 0 {
            return None;
        }
        self.layers.get(p.0 as usize).and_then(|l| l.get(p.1 as usize))
    }
    /// canonical text of ids, coordinates and links
    pub fn text(&self) -> String {
        let mut s = String::new();
        for p in self.points() {
            s.push_str(&format!("{}@{}.{}", p.id, p.pid.0, p.pid.1));
            for (l, n) in p.nb.iter().enumerate() {
                if !n.is_empty() {
                    s.push_str(&format!(" {}:", l));
                    for e in n {
                        s.push_str(&format!("{}/{},", e.0, e.1));
                    }
                }
            }
            s.push('\n');
        }
        s
    }
    pub fn fp(&self) -> u64 {
        crate::ctx::hash64(self.text().as_bytes())
    }
}

pub type R = Result<(), String>;
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } }
}
pub(crate) use ensure;

/// C01: the index holds exactly the expected points
pub fn check_contents<T, D>(h: &Hnsw<T, D>, expect: &[(usize, Vec<T>)]) -> R
where
    T: Clone + Send + Sync + PartialEq + std::fmt::Debug,
    D: Distance<T> + Send + Sync,
{
    ensure!(h.get_nb_point() == expect.len(), "{} points inserted, {} reported", expect.len(), h.get_nb_point());
    let pi = h.get_point_indexation();
    let mut all: Vec<PSnap<T>> = Vec::new();
    for p in pi {
        all.push(psnap(&p));
        ensure!(all.len() <= expect.len(), "enumeration yields more than the {} points inserted", expect.len());
    }
    ensure!(all.len() == expect.len(), "{} points inserted, {} enumerated", expect.len(), all.len());
    let mut rest: HashMap<usize, Vec<&Vec<T>>> = HashMap::new();
    for e in expect {
        rest.entry(e.0).or_default().push(&e.1);
    }
    for p in &all {
        let l = rest.get_mut(&p.id);
        match l.and_then(|l| l.iter().position(|v| **v == p.v).map(|i| l.swap_remove(i))) {
            Some(_) => {}
            None => {
                return Err(format!(
                    "enumeration yields a point id {} vector {:?} at {:?} which was not inserted or was yielded already",
                    p.id, p.v, p.pid
                ))
            }
        }
    }
    let mut coords = HashSet::new();
    let mut per: BTreeMap<u8, Vec<i32>> = BTreeMap::new();
    for p in &all {
        ensure!(coords.insert(p.pid), "coordinate {:?} occupied twice", p.pid);
        per.entry(p.pid.0).or_default().push(p.pid.1);
        match pi.get_point_data(&PointId(p.pid.0, p.pid.1)) {
            Some(v) => ensure!(v == p.v, "coordinate {:?} gives vector {:?}, point has {:?}", p.pid, v, p.v),
            None => return Err(format!("nothing at coordinate {:?} of point {}", p.pid, p.id)),
        }
    }
    for (l, r) in &per {
        let mut r = r.clone();
        r.sort();
        ensure!(r.iter().enumerate().all(|(i, x)| i as i32 == *x), "ranks of layer {} are {:?}", l, r);
        ensure!(pi.get_layer_nb_point(*l as usize) == r.len(), "layer {} has {} points, reports {}", l, r.len(), pi.get_layer_nb_point(*l as usize));
    }
    let top = per.keys().last().copied().unwrap_or(0);
    ensure!(h.get_max_level_observed() == top, "highest occupied layer {}, reported {}", top, h.get_max_level_observed());
    ensure!(pi.get_max_level_observed() == top, "highest occupied layer {}, reported {}", top, pi.get_max_level_observed());
    Ok(())
}

/// C03
pub fn check_links<T, D>(h: &Hnsw<T, D>, s: &Snap<T>, m: usize) -> R
where
    T: Clone + Send + Sync,
    D: Distance<T> + Send + Sync,
{
    for p in s.points() {
        for (l, list) in p.nb.iter().enumerate() {
            let bound = if l == 0 { 2 * m } else { m };
            ensure!(list.len() <= bound, "point {} at {:?}: {} neighbours at layer {}, bound {}", p.id, p.pid, list.len(), l, bound);
            let mut seen = HashSet::new();
            let mut last = f32::NEG_INFINITY;
            for n in list {
                let q = match s.at(n.2) {
                    Some(q) => q,
                    None => return Err(format!("point {} at {:?}: neighbour {:?} at layer {} does not exist", p.id, p.pid, n, l)),
                };
                ensure!(q.pid == n.2 && q.id == n.0, "point {}: neighbour {:?} at layer {} is in fact id {}", p.id, n, l, q.id);
                ensure!(q.pid != p.pid, "point {} at {:?} is its own neighbour at layer {}", p.id, p.pid, l);
                ensure!(seen.insert(n.2), "point {}: neighbour {:?} twice at layer {}", p.id, n, l);
                let d = h.get_distance().eval(&p.v, &q.v);
                ensure!(same_dist(d, n.1), "point {}: neighbour {:?} at layer {} is at distance {}", p.id, n, l, d);
                ensure!(n.1 >= last, "point {}: neighbours at layer {} not sorted: {:?}", p.id, l, list);
                last = n.1;
            }
        }
    }
    Ok(())
}

pub fn same_dist(a: f32, b: f32) -> bool {
    a == b || (a - b).abs() <= 1e-6 * a.abs().max(b.abs()).max(1e-30)
}

/// C04: no isolated point; reciprocity and connectivity when `small`
pub fn check_linked<T: Clone>(s: &Snap<T>, small: bool) -> R {
    let n = s.len();
    if n < 2 {
        return Ok(());
    }
    for p in s.points() {
        ensure!(p.nb.iter().any(|l| !l.is_empty()), "point {} at {:?} has no neighbour ({} points)", p.id, p.pid, n);
    }
    if !small {
        return Ok(());
    }
    for p in s.points() {
        for (l, list) in p.nb.iter().enumerate() {
            if l > p.pid.0 as usize {
                continue;
            }
            for e in list {
                if let Some(q) = s.at(e.2) {
                    ensure!(
                        q.nb.iter().flatten().any(|b| b.2 == p.pid),
                        "point {} at {:?} links to {} at {:?} in layer {}, which does not link back ({} points)",
                        p.id, p.pid, q.id, q.pid, l, n
                    );
                }
            }
        }
    }
    // reachability, from every point, along stored links
    let idx: HashMap<(u8, i32), usize> = s.points().enumerate().map(|(i, p)| (p.pid, i)).collect();
    let adj: Vec<Vec<usize>> = s
        .points()
        .map(|p| p.nb.iter().flatten().filter_map(|e| idx.get(&e.2).copied()).collect())
        .collect();
    for (start, p) in s.points().enumerate() {
        let mut seen = vec![false; n];
        let mut st = vec![start];
        seen[start] = true;
        let mut c = 1;
        while let Some(x) = st.pop() {
            for &y in &adj[x] {
                if !seen[y] {
                    seen[y] = true;
                    c += 1;
                    st.push(y);
                }
            }
        }
        ensure!(c == n, "from point {} at {:?} only {} of {} points can be reached", p.id, p.pid, c, n);
    }
    Ok(())
}

/// C05: an answer is truthful
pub fn check_answer<T, D>(h: &Hnsw<T, D>, s: &Snap<T>, q: &[T], k: usize, ans: &[Neighbour]) -> R
where
    T: Clone + Send + Sync,
    D: Distance<T> + Send + Sync,
{
    ensure!(ans.len() <= k, "{} neighbours for k = {}", ans.len(), k);
    let mut seen = HashSet::new();
    let mut last = f32::NEG_INFINITY;
    for n in ans {
        let p = match s.at(pid(n.p_id)) {
            Some(p) => p,
            None => return Err(format!("returned coordinate {:?} holds no point", n.p_id)),
        };
        ensure!(p.id == n.d_id, "returned id {} with coordinate {:?} of point {}", n.d_id, n.p_id, p.id);
        ensure!(seen.insert(p.pid), "point {} returned twice", p.id);
        let d = h.get_distance().eval(q, &p.v);
        ensure!(same_dist(d, n.distance), "point {} returned with distance {}, it is at {}", p.id, n.distance, d);
        ensure!(n.distance >= last, "answer not sorted: {:?}", nbs(ans));
        last = n.distance;
    }
    ensure!(n_or(s.len(), k, ans.len()), "empty answer for k = {} from an index of {} points", k, s.len());
    Ok(())
}
fn n_or(n: usize, k: usize, got: usize) -> bool {
    if n == 0 {
        got == 0
    } else {
        k == 0 || got > 0
    }
}

/// all permutations of 0..n
pub fn permutations(n: usize) -> Vec<Vec<usize>> {
    fn rec(cur: &mut Vec<usize>, used: &mut Vec<bool>, out: &mut Vec<Vec<usize>>) {
        if cur.len() == used.len() {
            out.push(cur.clone());
            return;
        }
        for i in 0..used.len() {
            if !used[i] {
                used[i] = true;
                cur.push(i);
                rec(cur, used, out);
                cur.pop();
                used[i] = false;
            }
        }
    }
    let mut out = Vec::new();
    rec(&mut Vec::new(), &mut vec![false; n], &mut out);
    out
}

/// all words of length n over 0..b
pub fn words(n: usize, b: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for _ in 0..n {
        out = out
            .into_iter()
            .flat_map(|w: Vec<usize>| {
                (0..b).map(move |x| {
                    let mut w = w.clone();
                    w.push(x);
                    w
                })
            })
            .collect();
    }
    out
}
