//! An independent executable model of construction and search: plain vectors, no locks, no heaps.
//! Distances are assumed to be without ties.

#[derive(Clone, Debug)]
pub struct MPoint {
    pub id: usize,
    pub level: usize,
    pub rank: usize,
    pub v: [f32; 2],
    /// per layer: (distance, point)
    pub nb: Vec<Vec<(f32, usize)>>,
}

#[derive(Clone, Debug)]
pub struct Model {
    pub m: usize,
    pub efc: usize,
    pub extend: bool,
    pub keep: bool,
    pub nb_layer: usize,
    pub pts: Vec<MPoint>,
    pub entry: Option<usize>,
}

pub fn l1(a: &[f32; 2], b: &[f32; 2]) -> f32 {
    (a[0] - b[0]).abs() + (a[1] - b[1]).abs()
}

fn sort(v: &mut [(f32, usize)]) {
    v.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
}

impl Model {
    pub fn new(m: usize, efc: usize, extend: bool, keep: bool, nb_layer: usize) -> Model {
        Model { m, efc, extend, keep, nb_layer, pts: Vec::new(), entry: None }
    }
    fn bound(&self, l: usize) -> usize {
        if l == 0 {
            2 * self.m
        } else {
            self.m
        }
    }
    fn occupied(&self, l: usize) -> bool {
        self.pts.iter().any(|p| p.level == l)
    }
    /// the (at most) ef nearest points found by best-first search from `ep` in layer `l`, nearest first
    pub fn search_layer(&self, q: &[f32; 2], ep: usize, ef: usize, l: usize) -> Vec<(f32, usize)> {
        if !self.occupied(l) {
            return Vec::new();
        }
        let d0 = l1(q, &self.pts[ep].v);
        let mut seen = vec![false; self.pts.len()];
        seen[ep] = true;
        let mut todo = vec![(d0, ep)];
        let mut best = vec![(d0, ep)];
        while !todo.is_empty() {
            sort(&mut todo);
            let c = todo.remove(0);
            if c.0 > best.last().unwrap().0 {
                break;
            }
            for &(_, e) in &self.pts[c.1].nb[l] {
                if seen[e] {
                    continue;
                }
                seen[e] = true;
                let d = l1(q, &self.pts[e].v);
                if best.len() < ef || d < best.last().unwrap().0 {
                    todo.push((d, e));
                    best.push((d, e));
                    sort(&mut best);
                    best.truncate(ef.max(1));
                }
            }
        }
        best
    }
    /// which candidates (nearest first) become neighbours
    pub fn select(&self, q: &[f32; 2], cand: &[(f32, usize)], n: usize, extend: bool, l: usize) -> Vec<(f32, usize)> {
        let mut cand = cand.to_vec();
        if cand.len() <= n {
            if !extend {
                return cand;
            }
            let first: Vec<usize> = cand.iter().map(|c| c.1).collect();
            for c in first {
                for &(_, e) in &self.pts[c].nb[l] {
                    if !cand.iter().any(|x| x.1 == e) {
                        cand.push((l1(q, &self.pts[e].v), e));
                    }
                }
            }
            sort(&mut cand);
        }
        let mut kept: Vec<(f32, usize)> = Vec::new();
        let mut pruned: Vec<(f32, usize)> = Vec::new();
        for &(d, e) in &cand {
            if kept.len() >= n {
                break;
            }
            // nearer to the new point than to any neighbour kept so far
            if kept.iter().all(|k| l1(&self.pts[e].v, &self.pts[k.1].v) > d) {
                kept.push((d, e));
            } else {
                pruned.push((d, e));
            }
        }
        if self.keep {
            for p in pruned {
                if kept.len() >= n {
                    break;
                }
                kept.push(p);
            }
        }
        sort(&mut kept);
        kept
    }
    pub fn insert(&mut self, id: usize, v: [f32; 2], level: usize) {
        let rank = self.pts.iter().filter(|p| p.level == level).count();
        let me = self.pts.len();
        self.pts.push(MPoint { id, level, rank, v, nb: vec![Vec::new(); self.nb_layer] });
        let mut ep = match self.entry {
            None => {
                self.entry = Some(me);
                return;
            }
            Some(e) => e,
        };
        let top = self.pts[ep].level;
        for l in (level + 1..=top).rev() {
            if let Some(&(d, e)) = self.search_layer(&v, ep, 1, l).first() {
                self.pts[me].nb[l].push((d, e));
                ep = e;
            }
        }
        for l in (0..=level).rev() {
            let cand = self.search_layer(&v, ep, self.efc, l);
            if cand.is_empty() {
                continue;
            }
            let sel = self.select(&v, &cand, self.bound(l), self.extend && l == 0, l);
            ep = sel[0].1;
            self.pts[me].nb[l] = sel;
        }
        // every neighbour gets a link back in the layer of the new point; a full list loses its farthest entry
        for l in (0..=level).rev() {
            for (d, q) in self.pts[me].nb[l].clone() {
                let b = self.bound(level);
                let list = &mut self.pts[q].nb[level];
                if !list.iter().any(|x| x.1 == me) {
                    list.push((d, me));
                    sort(list);
                    list.truncate(b);
                }
            }
        }
        if level > top {
            self.entry = Some(me);
        }
    }
    pub fn search(&self, q: &[f32; 2], k: usize, ef: usize) -> Vec<(f32, usize)> {
        let mut ep = match self.entry {
            None => return Vec::new(),
            Some(e) => e,
        };
        let mut d = l1(q, &self.pts[ep].v);
        for l in (1..=self.pts[ep].level).rev() {
            // the nearest of the points linked in this layer, if it is nearer
            let mut n = ep;
            for &(_, e) in &self.pts[ep].nb[l] {
                let de = l1(q, &self.pts[e].v);
                if de < d {
                    d = de;
                    n = e;
                }
            }
            ep = n;
        }
        let low = (0..self.nb_layer).find(|&l| self.occupied(l)).unwrap();
        let mut r = self.search_layer(q, ep, ef.max(k), low);
        r.truncate(k);
        r
    }
    pub fn text(&self) -> String {
        let mut s = String::new();
        for l in 0..self.nb_layer {
            let mut ps: Vec<&MPoint> = self.pts.iter().filter(|p| p.level == l).collect();
            ps.sort_by_key(|p| p.rank);
            for p in ps {
                s.push_str(&format!("{}@{}.{}", p.id, p.level, p.rank));
                for (l, n) in p.nb.iter().enumerate() {
                    if !n.is_empty() {
                        s.push_str(&format!(" {}:", l));
                        for e in n {
                            s.push_str(&format!("{}/{},", self.pts[e.1].id, e.0));
                        }
                    }
                }
                s.push('\n');
            }
        }
        s
    }
}
