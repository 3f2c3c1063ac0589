//! Concurrency scenarios, explored on the real code under the controlled scheduler (C01 C02 C03 C04 C08 C09 C20).
use crate::ctx::*;
use crate::iou::{load, Dir};
use crate::util::*;
use hnsw_rs::prelude::*;
use mcctl::{explore, replay, rng, Exec, Failure, Kind, Mode, Stats};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

pub type H = Hnsw<'static, f32, L1>;

#[derive(Clone, Debug)]
pub enum Act {
    /// id, vector, level
    Ins(usize, [f32; 2], usize),
    Search([f32; 2], usize, usize),
    /// search accepting even ids only
    Filter([f32; 2], usize, usize),
    /// parallel_insert
    PIns(Vec<(usize, [f32; 2])>, usize),
    PInsSlice(Vec<(usize, [f32; 2])>, usize),
    /// parallel_search
    PSearch(Vec<[f32; 2]>, usize, usize),
    /// enumerates all points and reads their neighbourhoods
    Enum,
    /// enumerates the points of a layer, reads neighbourhoods and coordinates
    LayerEnum(usize),
    Sizes,
    Flatten,
    /// dump into the directory of the execution
    Dump(&'static str),
    /// dump, reload of it; what it holds
    Reload(&'static str),
}
use Act::*;

#[derive(Clone, Debug)]
pub struct Sc {
    pub name: &'static str,
    pub m: usize,
    pub efc: usize,
    pub extend: bool,
    pub keep: bool,
    pub prefill: Vec<(usize, [f32; 2], usize)>,
    pub threads: Vec<Vec<Act>>,
    pub rayon: usize,
    pub mode: Mode,
}

/// what the threads observed
#[derive(Default)]
pub struct Obs {
    /// ids whose insertion has completed, in order
    pub completed: Vec<usize>,
    pub started: Vec<usize>,
    pub searches: Vec<SearchObs>,
    pub dumps: Vec<DumpObs>,
    pub errors: Vec<String>,
    pub texts: Vec<String>,
    pub dir: Option<Dir>,
}
pub struct DumpObs {
    pub completed_before: Vec<usize>,
    pub started_after: Vec<usize>,
    pub result: Result<String, String>,
}
pub struct SearchObs {
    pub q: [f32; 2],
    pub k: usize,
    pub ef: usize,
    pub filtered: bool,
    pub completed_before: Vec<usize>,
    pub started_after: Vec<usize>,
    pub answer: Vec<Nb>,
}

static RUNNING: Mutex<Vec<(usize, String)>> = Mutex::new(Vec::new());
pub fn running() -> String {
    RUNNING
        .try_lock()
        .map(|v| v.iter().map(|x| x.1.clone()).collect::<Vec<_>>().join("+"))
        .unwrap_or_default()
}

const EV: usize = 16; // virtual object of the harness events

/// wraps the trace of start/completion events; `events` false: no scheduling points are added
fn run_act(h: &H, a: &Act, m: usize, obs: &Mutex<Obs>, events: bool) {
    let ev = || {
        if events {
            mcctl::touch(EV, Kind::Write)
        }
    };
    match a {
        Ins(id, v, l) => {
            ev();
            obs.lock().unwrap().started.push(*id);
            rng::force(Some(raw_for_level(*l, m)));
            h.insert((&v[..], *id));
            rng::force(None);
            ev();
            obs.lock().unwrap().completed.push(*id);
        }
        Search(q, k, ef) | Filter(q, k, ef) => {
            ev();
            let before = obs.lock().unwrap().completed.clone();
            let filtered = matches!(a, Filter(..));
            let f = |id: &usize| id % 2 == 0;
            let r = if filtered { h.search_filter(&q[..], *k, *ef, Some(&f)) } else { h.search(&q[..], *k, *ef) };
            ev();
            let mut o = obs.lock().unwrap();
            let after = o.started.clone();
            o.searches.push(SearchObs {
                q: *q,
                k: *k,
                ef: *ef,
                filtered,
                completed_before: before,
                started_after: after,
                answer: nbs(&r),
            });
        }
        PIns(l, lev) | PInsSlice(l, lev) => {
            ev();
            for x in l {
                obs.lock().unwrap().started.push(x.0);
            }
            rng::force(Some(raw_for_level(*lev, m)));
            if matches!(a, PIns(..)) {
                let vs: Vec<(Vec<f32>, usize)> = l.iter().map(|x| (x.1.to_vec(), x.0)).collect();
                let rs: Vec<(&Vec<f32>, usize)> = vs.iter().map(|x| (&x.0, x.1)).collect();
                h.parallel_insert(&rs);
            } else {
                let rs: Vec<(&[f32], usize)> = l.iter().map(|x| (&x.1[..], x.0)).collect();
                h.parallel_insert_slice(&rs);
            }
            rng::force(None);
            ev();
            for x in l {
                obs.lock().unwrap().completed.push(x.0);
            }
        }
        PSearch(qs, k, ef) => {
            ev();
            let before = obs.lock().unwrap().completed.clone();
            let v: Vec<Vec<f32>> = qs.iter().map(|q| q.to_vec()).collect();
            let r = h.parallel_search(&v, *k, *ef);
            ev();
            let mut o = obs.lock().unwrap();
            let after = o.started.clone();
            if r.len() != qs.len() {
                o.errors.push(format!("parallel_search gives {} answers to {} queries", r.len(), qs.len()));
                return;
            }
            for (q, a) in qs.iter().zip(&r) {
                o.searches.push(SearchObs {
                    q: *q,
                    k: *k,
                    ef: *ef,
                    filtered: false,
                    completed_before: before.clone(),
                    started_after: after.clone(),
                    answer: nbs(a),
                });
            }
        }
        Enum => {
            let mut n = 0;
            for p in h.get_point_indexation() {
                let _ = p.get_neighborhood_id();
                n += 1;
                if n > 1000 {
                    obs.lock().unwrap().errors.push("enumeration does not end".into());
                    break;
                }
            }
        }
        LayerEnum(l) => {
            let ps: Vec<_> = h.get_point_indexation().get_layer_iterator(*l).collect();
            for p in ps {
                let _ = p.get_neighborhood_id();
                let _ = h.get_point_indexation().get_point_data(&p.get_point_id());
            }
        }
        Sizes => {
            let pi = h.get_point_indexation();
            let _ = (h.get_nb_point(), pi.get_nb_point(), h.get_max_level_observed(), pi.get_max_level_observed());
            let _ = (pi.get_layer_nb_point(0), pi.get_layer_nb_point(1), pi.get_data_dimension(), pi.get_level_scale());
            let _ = pi.get_point_data(&PointId(0, 0));
        }
        Dump(n) => {
            ev();
            let (before, dir) = {
                let mut o = obs.lock().unwrap();
                (o.completed.clone(), o.dir.get_or_insert_with(Dir::new).abs.clone())
            };
            let result = h.file_dump(&dir, n).map_err(|e| e.to_string());
            ev();
            let mut o = obs.lock().unwrap();
            let after = o.started.clone();
            o.dumps.push(DumpObs { completed_before: before, started_after: after, result });
        }
        Reload(n) => {
            let dir = obs.lock().unwrap().dir.get_or_insert_with(Dir::new).abs.clone();
            let t = h.file_dump(&dir, n).map_err(|e| e.to_string()).and_then(|n| {
                let l = load::<f32, L1>(&dir, &n, None)?;
                Ok(format!("{}{:?}", crate::iou::canon(&snap(l.h())).text(), nbs(&l.h().search(&[1., 2.], 2, 2))))
            });
            obs.lock().unwrap().texts.push(t.unwrap_or_else(|e| e));
        }
        Flatten => {
            let _ = hnsw_rs::flatten::FlatNeighborhood::from(h);
        }
    }
}

impl Sc {
    pub fn inserted(&self) -> Vec<(usize, Vec<f32>)> {
        let mut v: Vec<(usize, Vec<f32>)> = self.prefill.iter().map(|p| (p.0, p.1.to_vec())).collect();
        for t in &self.threads {
            for a in t {
                match a {
                    Ins(id, x, _) => v.push((*id, x.to_vec())),
                    PIns(l, _) | PInsSlice(l, _) => v.extend(l.iter().map(|p| (p.0, p.1.to_vec()))),
                    _ => {}
                }
            }
        }
        v
    }
    pub fn build(&self) -> H {
        rng::force(Some(raw_for_level(0, self.m)));
        let mut h = H::new(self.m, 100, 16, self.efc, L1);
        h.set_extend_candidates(self.extend);
        h.set_keeping_pruned(self.keep);
        for (id, v, l) in &self.prefill {
            rng::force(Some(raw_for_level(*l, self.m)));
            h.insert((&v[..], *id));
        }
        rng::force(None);
        h
    }
    pub fn shape(&self) -> String {
        format!(
            "{} [M={} ef={} prefill={} threads={:?}]",
            self.name,
            self.m,
            self.efc,
            self.prefill.len(),
            self.threads
        )
    }
}

pub type Oracle<'o> = dyn Fn(&Sc, &H, &Obs) -> R + Sync + 'o;

pub type Jobs<'a> = (Vec<Box<dyn FnOnce() + Send + 'a>>, Box<dyn FnOnce(&Exec) -> Result<(), String> + 'a>);

fn mk<'a>(sc: &'a Sc, oracle: &'a Oracle<'a>, events: bool) -> Jobs<'a> {
    let h = Arc::new(sc.build());
    let obs = Arc::new(Mutex::new(Obs::default()));
    obs.lock().unwrap().completed = sc.prefill.iter().map(|p| p.0).collect();
    obs.lock().unwrap().started = sc.prefill.iter().map(|p| p.0).collect();
    let mut jobs: Vec<Box<dyn FnOnce() + Send + 'a>> = Vec::new();
    for t in &sc.threads {
        let h = h.clone();
        let obs = obs.clone();
        jobs.push(Box::new(move || {
            for a in t {
                run_act(&h, a, sc.m, &obs, events);
            }
        }));
    }
    let check = Box::new(move |_: &Exec| {
        let o = obs.lock().unwrap();
        if let Some(e) = o.errors.first() {
            return Err(e.clone());
        }
        oracle(sc, &h, &o)
    });
    (jobs, check)
}

pub struct Job {
    pub sc: Sc,
    pub events: bool,
    pub cap: u64,
    /// seconds after which a preemption bounded exploration replaces the full one
    pub limit: Option<f64>,
}

fn sched_text(s: &[u8]) -> String {
    let mut o = String::new();
    let mut i = 0;
    while i < s.len() {
        let mut j = i;
        while j < s.len() && s[j] == s[i] {
            j += 1;
        }
        if !o.is_empty() {
            o.push('.');
        }
        o.push_str(&format!("{}x{}", s[i], j - i));
        i = j;
    }
    o
}
fn sched_parse(s: &str) -> Vec<u8> {
    let mut v = Vec::new();
    for p in s.split('.') {
        if let Some((a, b)) = p.split_once('x') {
            let (a, b): (u8, usize) = (a.parse().unwrap_or(0), b.parse().unwrap_or(0));
            v.extend(std::iter::repeat(a).take(b));
        }
    }
    v
}

/// Explores the scenarios with the index of this module.
pub fn run<'a>(jobs: &'a [Job], oracle: &'a Oracle<'a>, until: Instant) {
    run_with(jobs, until, &|j| mk(&j.sc, oracle, j.events));
}

/// Explores the scenarios; `mkf` sets one execution up.
pub fn run_with<'a, F>(jobs: &'a [Job], until: Instant, mkf: &F)
where
    F: Fn(&'a Job) -> Jobs<'a> + Sync,
{
    let c = ctx();
    let nb_rayon = jobs.first().map(|j| j.sc.rayon).unwrap_or(2);
    mcctl::set_ctl_num_threads(nb_rayon);
    if let Some(o) = &c.only {
        // conc:NAME:schedule
        let mut it = o.splitn(3, ':');
        if it.next() != Some("conc") {
            return;
        }
        let (name, sched) = (it.next().unwrap_or(""), it.next().unwrap_or(""));
        for j in jobs.iter().filter(|j| j.sc.name == name) {
            let r = replay(&sched_parse(sched), || mkf(j));
            if let Err(e) = r {
                c.violation(o, &e);
            }
        }
        return;
    }
    parallel(jobs, |core, _i, j: &'a Job| {
        RUNNING.lock().unwrap().push((core, j.sc.name.to_string()));
        let t0 = Instant::now();
        let mut until = until;
        if let Some(s) = j.limit {
            until = until.min(t0 + std::time::Duration::from_secs_f64(s));
        }
        let mut mode = j.sc.mode;
        let (mut st, mut f): (Stats, Option<Failure>) = explore(Some(core), mode, j.cap, until, || {
            watch_begin(None);
            mkf(j)
        });
        if f.is_none() && !st.exhausted && j.limit.is_some() && !c.stopped() {
            // too large: all schedules with at most 2 preemptions instead
            c.count("scenarios_bounded_instead", 1);
            let st0 = st;
            let parallel_threads = j.sc.threads.iter().filter(|t| t.iter().any(|a| matches!(a, PIns(..) | PInsSlice(..) | PSearch(..)))).count();
            mode = Mode::Pb(if parallel_threads > 1 && !c.thorough { 1 } else { 2 });
            let (st1, f1) = explore(Some(core), mode, u64::MAX, c.deadline, || {
                watch_begin(None);
                mkf(j)
            });
            st = st1;
            st.executions += st0.executions;
            st.steps += st0.steps;
            f = f1;
        }
        watch_end();
        RUNNING.lock().unwrap().retain(|x| !(x.0 == core && x.1 == j.sc.name));
        c.count("schedules", st.executions);
        c.count("transitions", st.steps);
        c.count("redundant_schedules", st.redundant);
        c.maxi("longest_schedule", st.max_steps as u64);
        if st.diverged > 0 {
            c.count("diverged_schedules", st.diverged);
        }
        if f.is_none() {
            if st.exhausted {
                c.count(if mode == Mode::Dpor { "scenarios_exhausted_dpor" } else { "scenarios_exhausted_preemption_bound" }, 1);
            } else {
                c.count("scenarios_cut_by_time", 1);
                c.exhaustive.store(false, Ordering::Relaxed);
            }
            c.sample(format!(
                "{}: {:?}, {} schedules, {} steps, {} ({:.1}s)",
                j.sc.shape(),
                mode,
                st.executions,
                st.steps,
                if st.exhausted { "all explored" } else { "cut" },
                t0.elapsed().as_secs_f64()
            ));
            if std::env::var_os("MC_VERBOSE").is_some() || std::env::var_os("MC_SC").is_some() {
                say(&format!(
                    "   {:28} {:?} sched={} red={} steps={} max={} div={} {} {:.2}s",
                    j.sc.name, mode, st.executions, st.redundant, st.steps, st.max_steps, st.diverged, st.exhausted, t0.elapsed().as_secs_f64()
                ));
            }
        }
        if let Some(f) = f {
            // the schedule is run again: a failure which does not come back is not reported as such
            let again = replay(&f.schedule, || mkf(j));
            let key = format!("conc:{}:{}", j.sc.name, sched_text(&f.schedule));
            let note = match again {
                Err(e) if e == f.what => "reproduced".to_string(),
                Err(e) => format!("replay fails with: {}", e),
                Ok(()) => "replay passes (the code is not deterministic)".to_string(),
            };
            c.violation(&key, &format!("{}\nscenario {}\n{}", f.what, j.sc.shape(), note));
        }
    });
}

// ------------------------------------------------------------------------------------------------
// scenarios

fn ins(id: usize, x: f32, y: f32, l: usize) -> Act {
    Ins(id, [x, y], l)
}
pub fn sc(name: &'static str, m: usize, efc: usize, prefill: &[(usize, f32, f32, usize)], threads: Vec<Vec<Act>>, mode: Mode) -> Sc {
    Sc {
        name,
        m,
        efc,
        extend: false,
        keep: false,
        prefill: prefill.iter().map(|p| (p.0, [p.1, p.2], p.3)).collect(),
        threads,
        rayon: 2,
        mode,
    }
}

/// insertions only
pub fn insert_scenarios(thorough: bool) -> Vec<Sc> {
    let d = Mode::Dpor;
    let mut v = vec![
        sc("empty2-00", 4, 8, &[], vec![vec![ins(1, 0., 0., 0)], vec![ins(2, 3., 1., 0)]], d),
        sc("empty2-01", 4, 8, &[], vec![vec![ins(1, 0., 0., 0)], vec![ins(2, 3., 1., 1)]], d),
        sc("empty2-21", 4, 8, &[], vec![vec![ins(1, 0., 0., 2)], vec![ins(2, 3., 1., 1)]], d),
        sc("empty3-000", 4, 8, &[], vec![vec![ins(1, 0., 0., 0)], vec![ins(2, 3., 1., 0)], vec![ins(3, 1., 5., 0)]], d),
        sc("empty3-010", 4, 8, &[], vec![vec![ins(1, 0., 0., 0)], vec![ins(2, 3., 1., 1)], vec![ins(3, 1., 5., 0)]], d),
        sc("empty2x2", 4, 8, &[], vec![vec![ins(1, 0., 0., 0), ins(2, 2., 2., 1)], vec![ins(3, 3., 1., 0), ins(4, 7., 7., 0)]], d),
        sc("one2-00", 4, 8, &[(9, 5., 5., 0)], vec![vec![ins(1, 0., 0., 0)], vec![ins(2, 3., 1., 0)]], d),
        sc("one2-12", 4, 8, &[(9, 5., 5., 0)], vec![vec![ins(1, 0., 0., 1)], vec![ins(2, 3., 1., 2)]], d),
        sc("one2-22", 4, 8, &[(9, 5., 5., 1)], vec![vec![ins(1, 0., 0., 2)], vec![ins(2, 3., 1., 2)]], d),
        // a point of two layers and a point of three layers, linked through a top point
        sc("top2-21", 4, 8, &[(9, 5., 5., 2)], vec![vec![ins(1, 0., 0., 2)], vec![ins(2, 1., 0., 1)]], d),
        sc("top2-22", 4, 8, &[(9, 5., 5., 2)], vec![vec![ins(1, 0., 0., 2)], vec![ins(2, 1., 0., 2)]], d),
        sc("top2-31", 4, 8, &[(9, 5., 5., 2), (8, 6., 6., 0)], vec![vec![ins(1, 0., 0., 3)], vec![ins(2, 1., 0., 1)]], d),
        sc("top2-21z", 4, 8, &[(9, 5., 5., 2), (8, 6., 6., 0)], vec![vec![ins(1, 0., 0., 2)], vec![ins(2, 1., 0., 1)]], d),
        sc("top2-20z", 4, 8, &[(9, 5., 5., 2), (8, 6., 6., 0)], vec![vec![ins(1, 0., 0., 2)], vec![ins(2, 1., 0., 0)]], d),
        sc("top2-20", 4, 8, &[(9, 5., 5., 2)], vec![vec![ins(1, 0., 0., 2)], vec![ins(2, 1., 0., 0)]], d),
        // full lists: the reverse update drops the farthest
        sc("full-00", 2, 6, &[(11, 0., 0., 0), (12, 9., 0., 0), (13, 0., 9., 0), (14, 9., 9., 0), (15, 4., 0., 0), (16, 0., 5., 0)],
            vec![vec![ins(1, 1., 0., 0)], vec![ins(2, 0., 2., 0)]], d),
        sc("full-11", 2, 6, &[(11, 0., 0., 1), (12, 9., 0., 1), (13, 0., 9., 1), (14, 9., 9., 0)],
            vec![vec![ins(1, 1., 0., 1)], vec![ins(2, 0., 2., 1)]], d),
        sc("twin", 4, 8, &[(9, 5., 5., 0)], vec![vec![ins(1, 1., 1., 0)], vec![ins(2, 1., 1., 0)]], d),
    ];
    v.push({
        let mut s = sc("par-insert", 4, 8, &[], vec![vec![PIns(vec![(1, [0., 0.]), (2, [3., 1.])], 0)]], d);
        s.rayon = 2;
        s
    });
    v.push(sc("par-insert-1", 4, 8, &[(9, 5., 5., 0)], vec![vec![PInsSlice(vec![(1, [0., 0.]), (2, [3., 1.])], 1)]], d));
    if thorough {
        v.push(sc("empty3-211", 4, 8, &[], vec![vec![ins(1, 0., 0., 2)], vec![ins(2, 3., 1., 1)], vec![ins(3, 1., 5., 1)]], d));
        v.push(sc("top3-211", 4, 8, &[(9, 5., 5., 2)], vec![vec![ins(1, 0., 0., 2)], vec![ins(2, 1., 0., 1)], vec![ins(3, 0., 1., 1)]], Mode::Pb(3)));
        v.push(sc("top3-222", 4, 8, &[(9, 5., 5., 1)], vec![vec![ins(1, 0., 0., 2)], vec![ins(2, 1., 0., 2)], vec![ins(3, 0., 1., 2)]], Mode::Pb(3)));
        v.push(sc("empty2x3", 4, 8, &[], vec![vec![ins(1, 0., 0., 0), ins(2, 2., 2., 1), ins(3, 6., 0., 2)], vec![ins(4, 3., 1., 0), ins(5, 7., 7., 1), ins(6, 2., 6., 0)]], Mode::Pb(3)));
        v.push(sc("empty4", 4, 8, &[], vec![vec![ins(1, 0., 0., 0)], vec![ins(2, 3., 1., 1)], vec![ins(3, 1., 5., 0)], vec![ins(4, 7., 2., 1)]], Mode::Pb(3)));
        v.push(sc("full2x2", 2, 6, &[(11, 0., 0., 0), (12, 9., 0., 1), (13, 0., 9., 0), (14, 9., 9., 0), (15, 4., 0., 0), (16, 0., 5., 1)],
            vec![vec![ins(1, 1., 0., 0), ins(2, 1., 1., 1)], vec![ins(3, 0., 2., 1), ins(4, 2., 2., 0)]], Mode::Pb(3)));
        v.push(sc("par-insert-3", 4, 8, &[], vec![vec![PIns(vec![(1, [0., 0.]), (2, [3., 1.]), (3, [1., 5.])], 0)]], d));
    } else {
        v.push(sc("top3-211", 4, 8, &[(9, 5., 5., 2)], vec![vec![ins(1, 0., 0., 2)], vec![ins(2, 1., 0., 1)], vec![ins(3, 0., 1., 1)]], Mode::Pb(2)));
    }
    v
}

const SPOTS: [(f32, f32); 9] = [(5., 5.), (6., 6.), (0., 7.), (9., 0.), (9., 9.), (4., 0.), (0., 4.), (7., 3.), (3., 8.)];

/// two insertions on every kind of index: all pairs of layers, on indexes of all words of at most two layers and some longer ones, under several settings
pub fn generated_scenarios(thorough: bool) -> Vec<Sc> {
    let mut words: Vec<Vec<usize>> = vec![vec![]];
    let top = if thorough { 4 } else { 3 };
    words.extend((0..top).map(|a| vec![a]));
    words.extend((0..top).flat_map(|a| (0..top).map(move |b| vec![a, b])));
    words.extend([vec![0, 0, 0], vec![1, 1, 1], vec![2, 2, 2], vec![0, 1, 2], vec![2, 1, 0], vec![0, 0, 0, 0, 0], vec![1, 1, 0, 1, 1], vec![2, 0, 1, 1, 0, 2]]);
    // m, efc, extend, keep
    let settings: &[(usize, usize, bool, bool)] =
        if thorough { &[(4, 8, false, false), (2, 6, false, false), (2, 6, true, false), (2, 6, false, true), (3, 1, true, true)] } else { &[(4, 8, false, false), (2, 6, false, false), (2, 6, true, true)] };
    let mut v = Vec::new();
    for w in &words {
        let pre: Vec<(usize, f32, f32, usize)> = w.iter().enumerate().map(|(i, l)| (91 + i, SPOTS[i].0, SPOTS[i].1, *l)).collect();
        for (si, s) in settings.iter().enumerate() {
            if si > 0 && w.len() < 2 && !thorough {
                continue;
            }
            for a in 0..4 {
                for b in 0..4 {
                    if (a == 3 || b == 3) && (si > 0 || w.len() > 1) && !thorough {
                        continue;
                    }
                    let mut x = sc(
                        name(format!("gen/{}/m{}ef{}{}{}/{}{}", w.iter().map(|l| l.to_string()).collect::<String>(), s.0, s.1, if s.2 { "e" } else { "" }, if s.3 { "k" } else { "" }, a, b)),
                        s.0,
                        s.1,
                        &pre,
                        vec![vec![ins(1, 1., 0., a)], vec![ins(2, 0., 2., b)]],
                        Mode::Dpor,
                    );
                    x.extend = s.2;
                    x.keep = s.3;
                    v.push(x);
                }
            }
        }
    }
    v
}

/// three threads: three insertions, or two insertions and a search
fn generated_threes(thorough: bool, search: bool) -> Vec<Sc> {
    let words: Vec<Vec<usize>> = vec![vec![], vec![1], vec![2, 0], vec![0, 0], vec![1, 0, 1]];
    let mut v = Vec::new();
    for w in &words {
        let pre: Vec<(usize, f32, f32, usize)> = w.iter().enumerate().map(|(i, l)| (91 + i, SPOTS[i].0, SPOTS[i].1, *l)).collect();
        for m in [4, 2] {
            for a in 0..3 {
                for b in a..3 {
                    for k in b..3 {
                        if search && k > b || !thorough && m == 2 && w.len() != 3 {
                            continue;
                        }
                        let n = name(format!("gen3/{}/m{}/{}{}{}", w.iter().map(|l| l.to_string()).collect::<String>(), m, a, b, if search { "s".to_string() } else { k.to_string() }));
                        let third = if search { Search([1., 1.], 8, 8) } else { ins(3, 1., 1., k) };
                        v.push(sc(n, m, 8, &pre, vec![vec![ins(1, 1., 0., a)], vec![ins(2, 0., 2., b)], vec![third]], Mode::Pb(2)));
                    }
                }
            }
        }
    }
    v
}

/// one or two insertions beside a search, on every kind of index
fn generated_searches(thorough: bool) -> Vec<Sc> {
    let mut words: Vec<Vec<usize>> = vec![vec![]];
    words.extend((0..3).map(|a| vec![a]));
    words.extend((0..3).flat_map(|a| (0..3).map(move |b| vec![a, b])));
    words.extend([vec![0, 0, 0], vec![0, 1, 2], vec![2, 1, 0], vec![0, 0, 0, 0, 0], vec![2, 0, 1, 1, 0, 2]]);
    let q = [1., 1.];
    let finds = [("s8", Search(q, 8, 8)), ("s1", Search(q, 1, 1)), ("s2", Search([8., 8.], 2, 3)), ("f8", Filter(q, 8, 8)), ("f1", Filter([8., 8.], 1, 2))];
    let mut v = Vec::new();
    for w in &words {
        let pre: Vec<(usize, f32, f32, usize)> = w.iter().enumerate().map(|(i, l)| (91 + i, SPOTS[i].0, SPOTS[i].1, *l)).collect();
        for (fi, f) in finds.iter().enumerate() {
            for m in [6, 2] {
                for a in 0..4 {
                    for b in 0..4 {
                        // b = 3: one insertion
                        if !thorough && (a == 3 && b != 3 || b != 3 && (fi > 0 && fi != 3 || m == 2)) {
                            continue;
                        }
                        let mut t = vec![ins(2, 0., 0., a)];
                        if b < 3 {
                            t.push(ins(4, 3., 1., b));
                        }
                        let n = name(format!("gen/{}/m{}/{}{}/{}", w.iter().map(|l| l.to_string()).collect::<String>(), m, a, if b < 3 { b.to_string() } else { String::new() }, f.0));
                        v.push(sc(n, m, 8, &pre, vec![t, vec![f.1.clone()]], Mode::Dpor));
                    }
                }
            }
        }
    }
    v
}

/// the scenarios of C01, C03, C04, C20
fn insert_jobs(thorough: bool) -> Vec<Job> {
    let mut v = to_jobs(insert_scenarios(thorough), false);
    let lim = if thorough { 10. } else { 0.5 };
    v.extend(to_jobs(generated_threes(thorough, false), false));
    v.extend(to_jobs(generated_scenarios(thorough), false).into_iter().map(|mut j| {
        j.limit = Some(lim);
        j
    }));
    v
}

pub fn to_jobs(v: Vec<Sc>, events: bool) -> Vec<Job> {
    v.into_iter().map(|sc| Job { sc, events, cap: u64::MAX, limit: None }).collect()
}

fn note_state(sc: &Sc, h: &H) -> Snap<f32> {
    let s = snap(h);
    ctx().state(hash64(format!("{}{}", sc.name, s.text()).as_bytes()));
    s
}

pub fn c01() {
    let c = ctx();
    let jobs = insert_jobs(c.thorough);
    run(&jobs, &|sc, h, _o| {
        note_state(sc, h);
        check_contents(h, &sc.inserted())
    }, c.deadline);
}

pub fn c03(until: Instant) {
    let jobs = insert_jobs(ctx().thorough);
    run(&jobs, &|sc, h, _o| check_links(h, &note_state(sc, h), sc.m), until);
}

pub fn c04(until: Instant) {
    let jobs = insert_jobs(ctx().thorough);
    run(&jobs, &|sc, h, _o| {
        let s = note_state(sc, h);
        let n = s.len();
        check_linked(&s, n <= sc.m && sc.efc >= n)
    }, until);
}

fn name(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}

/// every pair of kinds of calls on three kinds of indexes, and some triples
fn mixed_scenarios(thorough: bool) -> Vec<Sc> {
    let kinds: Vec<(&str, fn(usize) -> Act)> = vec![
        ("ins0", |b| ins(b + 1, 0., b as f32 / 2., 0)),
        ("ins2", |b| ins(b + 2, 1., b as f32 / 2., 2)),
        ("pins", |b| PIns(vec![(b + 3, [2., b as f32]), (b + 4, [3., b as f32])], 0)),
        ("pinsl", |b| PInsSlice(vec![(b + 5, [2., b as f32]), (b + 6, [4., b as f32])], 1)),
        ("search", |_| Search([1., 1.], 2, 4)),
        ("filter", |_| Filter([1., 1.], 2, 4)),
        ("psearch", |_| PSearch(vec![[1., 1.], [5., 5.]], 2, 4)),
        ("enum", |_| Enum),
        ("lenum0", |_| LayerEnum(0)),
        ("lenum2", |_| LayerEnum(2)),
        ("sizes", |_| Sizes),
        ("flatten", |_| Flatten),
        ("dump", |_| Dump("x")),
    ];
    let pre: Vec<(&str, Vec<(usize, f32, f32, usize)>)> =
        vec![("empty", vec![]), ("one", vec![(91, 5., 5., 0)]), ("top", vec![(91, 5., 5., 2), (92, 6., 6., 0)])];
    let mut v = Vec::new();
    for (pn, p) in &pre {
        for i in 0..kinds.len() {
            for j in i..kinds.len() {
                if i >= 4 && j >= 4 && *pn != "top" {
                    continue; // two readers
                }
                v.push(sc(
                    name(format!("{}/{}+{}", pn, kinds[i].0, kinds[j].0)),
                    4,
                    8,
                    p,
                    vec![vec![kinds[i].1(10)], vec![kinds[j].1(20)]],
                    Mode::Dpor,
                ));
            }
        }
    }
    // a reader between two writers: a reader that takes a lock twice meets a waiting writer
    for (pn, p) in &pre {
        for r in 4..kinds.len() {
            for (w1, w2) in [(0, 1), (1, 1), (1, 2)] {
                if !thorough && (*pn == "one" || (w1, w2) != (0, 1)) {
                    continue;
                }
                v.push(sc(
                    name(format!("{}/{}+{}+{}", pn, kinds[w1].0, kinds[w2].0, kinds[r].0)),
                    4,
                    8,
                    p,
                    vec![vec![kinds[w1].1(10)], vec![kinds[w2].1(20)], vec![kinds[r].1(30)]],
                    Mode::Pb(if thorough { 2 } else { 1 }),
                ));
            }
        }
    }
    if thorough {
        // two calls each
        for i in 0..kinds.len() {
            for j in 0..4 {
                v.push(sc(
                    name(format!("two/{}-ins0+{}-enum", kinds[i].0, kinds[j].0)),
                    4,
                    8,
                    &pre[2].1,
                    vec![vec![kinds[i].1(10), kinds[0].1(30)], vec![kinds[j].1(20), Enum]],
                    Mode::Pb(2),
                ));
            }
        }
    }
    v
}

pub fn c02() {
    let c = ctx();
    let lim = c.pick(0.4, 20.0);
    let mut v = insert_scenarios(c.thorough);
    v.extend(mixed_scenarios(c.thorough));
    v.extend(generated_scenarios(c.thorough));
    v.extend(generated_threes(c.thorough, false));
    let jobs: Vec<Job> = v
        .into_iter()
        .map(|sc| Job { limit: if sc.mode == Mode::Dpor { Some(lim) } else { None }, sc, events: false, cap: u64::MAX })
        .collect();
    run(&jobs, &|sc, h, _o| {
        note_state(sc, h);
        Ok(())
    }, c.deadline);
}

fn check_search_obs(sc: &Sc, h: &H, s: &Snap<f32>, o: &SearchObs, concurrent: bool) -> R {
    let ans = &o.answer;
    ensure!(ans.len() <= o.k, "{} neighbours for k = {}", ans.len(), o.k);
    let mut seen = std::collections::HashSet::new();
    let mut last = f32::NEG_INFINITY;
    for n in ans {
        let p = match s.at(n.2) {
            Some(p) => p,
            None => return Err(format!("returned coordinate {:?} holds no point", n.2)),
        };
        ensure!(p.id == n.0, "returned id {} with coordinate {:?} of point {}", n.0, n.2, p.id);
        ensure!(o.started_after.contains(&n.0), "returned point {} whose insertion had not started", n.0);
        ensure!(seen.insert(n.2), "point {} returned twice: {:?}", n.0, ans);
        let d = anndists::dist::distances::Distance::eval(h.get_distance(), &o.q[..], &p.v);
        ensure!(same_dist(d, n.1), "point {} returned with distance {}, it is at {}", n.0, n.1, d);
        ensure!(n.1 >= last, "answer not sorted: {:?}", ans);
        ensure!(!o.filtered || n.0 % 2 == 0, "returned point {} is refused by the filter", n.0);
        last = n.1;
    }
    if !o.filtered {
        ensure!(o.completed_before.is_empty() || !ans.is_empty() || o.k == 0,
            "empty answer though the insertions of {:?} had completed", o.completed_before);
    }
    let total = s.len();
    let one_layer = s.layers.iter().filter(|l| !l.is_empty()).count() <= 1;
    if concurrent && one_layer && total <= sc.m && o.k >= total && o.ef >= total {
        for id in &o.completed_before {
            if !o.filtered || id % 2 == 0 {
                ensure!(ans.iter().any(|n| n.0 == *id), "point {} had been inserted before the search began and is not in its answer {:?}", id, ans);
            }
        }
    }
    Ok(())
}

pub fn c09() {
    let c = ctx();
    let d = Mode::Dpor;
    let q = [1., 1.];
    let mut v = vec![
        sc("s-empty", 6, 8, &[], vec![vec![ins(2, 0., 0., 0)], vec![Search(q, 8, 8)]], d),
        sc("s-empty-ins2", 6, 8, &[], vec![vec![ins(2, 0., 0., 0), ins(4, 3., 1., 0)], vec![Search(q, 8, 8)]], d),
        sc("s-empty-ins2-up", 6, 8, &[], vec![vec![ins(2, 0., 0., 0), ins(4, 3., 1., 2)], vec![Search(q, 8, 8)]], d),
        sc("s-empty-ins2-down", 6, 8, &[], vec![vec![ins(2, 0., 0., 2), ins(4, 3., 1., 1)], vec![Search(q, 8, 8)]], d),
        sc("s-one-ins1", 6, 8, &[(1, 5., 5., 0)], vec![vec![ins(2, 0., 0., 0)], vec![Search(q, 8, 8)]], d),
        sc("s-one-ins1-up", 6, 8, &[(1, 5., 5., 0)], vec![vec![ins(2, 0., 0., 1)], vec![Search(q, 8, 8)]], d),
        sc("s-one-ins2", 6, 8, &[(1, 5., 5., 0)], vec![vec![ins(2, 0., 0., 0), ins(4, 3., 1., 0)], vec![Search(q, 8, 8)]], d),
        sc("s-three-ins1", 6, 8, &[(1, 5., 5., 0), (3, 6., 6., 0), (5, 7., 5., 0)], vec![vec![ins(2, 0., 0., 0)], vec![Search(q, 8, 8)]], d),
        sc("s-top-ins1", 6, 8, &[(1, 5., 5., 2), (3, 6., 6., 0)], vec![vec![ins(2, 0., 0., 1)], vec![Search(q, 8, 8)]], d),
        sc("s-top-ins1-up", 6, 8, &[(1, 5., 5., 2), (3, 6., 6., 0)], vec![vec![ins(2, 0., 0., 3)], vec![Search(q, 8, 8)]], d),
        sc("s-top-k1", 6, 8, &[(1, 5., 5., 1), (3, 6., 6., 0)], vec![vec![ins(2, 0., 0., 1)], vec![Search(q, 1, 1)]], d),
        sc("f-empty", 6, 8, &[], vec![vec![ins(2, 0., 0., 0)], vec![Filter(q, 8, 8)]], d),
        sc("f-one-ins1", 6, 8, &[(1, 5., 5., 0)], vec![vec![ins(2, 0., 0., 0)], vec![Filter(q, 8, 8)]], d),
        sc("f-three-ins2", 6, 8, &[(1, 5., 5., 0), (4, 6., 6., 0), (5, 7., 5., 0)], vec![vec![ins(2, 0., 0., 0)], vec![Filter(q, 8, 8)]], d),
        sc("f-top-k1", 6, 8, &[(1, 5., 5., 1), (4, 6., 6., 0)], vec![vec![ins(2, 0., 0., 1)], vec![Filter(q, 1, 4)]], d),
        sc("full-s", 2, 6, &[(11, 0., 0., 0), (12, 9., 0., 0), (13, 0., 9., 0), (14, 9., 9., 0), (15, 4., 0., 0), (16, 0., 5., 0)],
            vec![vec![ins(2, 1., 0., 0)], vec![Search(q, 8, 8)]], d),
        sc("ins+s+ins", 6, 8, &[(1, 5., 5., 0)], vec![vec![ins(2, 0., 0., 0)], vec![ins(4, 3., 1., 0)], vec![Search(q, 8, 8)]], Mode::Pb(c.pick(3, 4))),
        sc("ins+s+ins-up", 6, 8, &[(1, 5., 5., 0)], vec![vec![ins(2, 0., 0., 1)], vec![ins(4, 3., 1., 2)], vec![Search(q, 8, 8)]], Mode::Pb(c.pick(3, 4))),
        sc("empty-ins+s+ins", 6, 8, &[], vec![vec![ins(2, 0., 0., 0)], vec![ins(4, 3., 1., 0)], vec![Search(q, 8, 8)]], Mode::Pb(c.pick(3, 4))),
        sc("empty-ins+s+ins-up", 6, 8, &[], vec![vec![ins(2, 0., 0., 2)], vec![ins(4, 3., 1., 1)], vec![Search(q, 8, 8)]], Mode::Pb(c.pick(3, 4))),
        sc("two-searches", 6, 8, &[], vec![vec![ins(2, 0., 0., 0)], vec![Search(q, 8, 8), Search(q, 8, 8)]], d),
        sc("ps-one", 6, 8, &[(1, 5., 5., 0)], vec![vec![ins(2, 0., 0., 0)], vec![PSearch(vec![q, [6., 6.]], 8, 8)]], Mode::Pb(c.pick(3, 4))),
    ];
    if c.thorough {
        v.push(sc("s+s+ins", 6, 8, &[(1, 5., 5., 1)], vec![vec![ins(2, 0., 0., 2)], vec![Search(q, 8, 8)], vec![Search(q, 8, 8)]], Mode::Pb(3)));
        v.push(sc("ins3", 6, 8, &[], vec![vec![ins(2, 0., 0., 0), ins(4, 3., 1., 0), ins(6, 2., 2., 0)], vec![Search(q, 8, 8), Filter(q, 8, 8)]], d));
        v.push(sc("ins4s2", 6, 8, &[], vec![vec![ins(2, 0., 0., 0), ins(4, 3., 1., 0)], vec![ins(6, 2., 2., 0), ins(8, 4., 4., 0)], vec![Search(q, 8, 8), Search(q, 8, 8)]], Mode::Pb(2)));
    }
    let mut jobs: Vec<Job> = to_jobs(v, true).into_iter().map(|mut j| { if j.sc.mode == d { j.limit = Some(c.pick(6., 120.)) } j }).collect();
    jobs.extend(to_jobs(generated_threes(c.thorough, true), true));
    jobs.extend(to_jobs(generated_searches(c.thorough), true).into_iter().map(|mut j| {
        j.limit = Some(c.pick(0.5, 10.));
        j
    }));
    run(&jobs, &|sc, h, o| {
        let s = note_state(sc, h);
        for x in &o.searches {
            c.state(hash64(format!("{} {:?} {:?}", sc.name, x.completed_before, x.answer).as_bytes()));
            check_search_obs(sc, h, &s, x, true)?;
        }
        ensure!(!o.searches.is_empty(), "the search did not answer");
        Ok(())
    }, c.deadline);
}

// ------------------------------------------------------------------------------------------------
// C23: dumps taken while points are inserted

fn dump_scenarios(thorough: bool) -> Vec<Job> {
    let mut words: Vec<Vec<usize>> = vec![vec![]];
    words.extend((0..3).map(|a| vec![a]));
    words.extend((0..3).flat_map(|a| (0..3).map(move |b| vec![a, b])));
    words.extend([vec![0, 0, 0], vec![0, 1, 2], vec![2, 1, 0], vec![0, 0, 0, 0, 0], vec![2, 0, 1, 1, 0, 2]]);
    let mut v = Vec::new();
    for w in &words {
        let pre: Vec<(usize, f32, f32, usize)> = w.iter().enumerate().map(|(i, l)| (91 + i, SPOTS[i].0, SPOTS[i].1, *l)).collect();
        let wn = w.iter().map(|l| l.to_string()).collect::<String>();
        for m in [8, 2] {
            for a in 0..4 {
                if a == 3 && !thorough && w.len() > 1 {
                    continue;
                }
                let d = vec![Dump("x")];
                v.push(sc(name(format!("dump/{}/m{}/{}", wn, m, a)), m, 8, &pre, vec![vec![ins(2, 0., 0., a)], d.clone()], Mode::Dpor));
                for b in 0..3 {
                    if !thorough && (m == 2 && w.len() != 2 || w.len() > 2 && a != b) {
                        continue;
                    }
                    v.push(sc(name(format!("dump/{}/m{}/{}{}", wn, m, a, b)), m, 8, &pre, vec![vec![ins(2, 0., 0., a), ins(4, 3., 1., b)], d.clone()], Mode::Dpor));
                    if b >= a && (thorough || w.len() < 2 && m == 8) {
                        v.push(sc(name(format!("dump/{}/m{}/{}+{}", wn, m, a, b)), m, 8, &pre, vec![vec![ins(2, 0., 0., a)], vec![ins(4, 3., 1., b)], d.clone()], Mode::Pb(2)));
                    }
                }
            }
        }
        if w.len() < 3 {
            // two dumps, and a dump beside a search and an insertion
            v.push(sc(name(format!("dump/{}/two", wn)), 8, 8, &pre, vec![vec![ins(2, 0., 0., 1)], vec![Dump("x"), Dump("y")]], Mode::Dpor));
            v.push(sc(name(format!("dump/{}/both", wn)), 8, 8, &pre, vec![vec![ins(2, 0., 0., 1)], vec![Dump("x")], vec![Dump("y")]], Mode::Pb(2)));
            v.push(sc(name(format!("dump/{}/pins", wn)), 8, 8, &pre, vec![vec![PIns(vec![(2, [0., 0.]), (4, [3., 1.])], 1)], vec![Dump("x")]], Mode::Pb(if thorough { 3 } else { 2 })));
        }
    }
    to_jobs(v, true)
        .into_iter()
        .map(|mut j| {
            if j.sc.mode == Mode::Dpor {
                j.limit = Some(if thorough { 10. } else { 0.6 });
            }
            j
        })
        .collect()
}

fn check_dump(sc: &Sc, dir: &Dir, d: &DumpObs) -> R {
    let n = match &d.result {
        Ok(n) => n,
        Err(e) => {
            ensure!(d.completed_before.is_empty(), "dump of an index with {} inserted points fails: {}", d.completed_before.len(), e);
            return Ok(());
        }
    };
    let known = sc.inserted();
    for mmap in [None, Some(1)] {
        let how = if mmap.is_some() { "mapped" } else { "plain" };
        let l = load::<f32, L1>(&dir.abs, n, mmap).map_err(|e| format!("the dump was reported good, its {} reload fails: {}", how, e))?;
        let h = l.h();
        let s = snap(h);
        let mut expect: Vec<(usize, Vec<f32>)> = Vec::new();
        for p in s.points() {
            ensure!(d.started_after.contains(&p.id), "point {} of the reloaded index had not been inserted when the dump ended", p.id);
            expect.extend(known.iter().filter(|k| k.0 == p.id).cloned());
        }
        for id in &d.completed_before {
            ensure!(s.points().any(|p| p.id == *id), "point {} had been inserted before the dump began and is not in the reloaded index", id);
        }
        ensure!(h.get_nb_point() == s.len(), "the reloaded index reports {} points and holds {}", h.get_nb_point(), s.len());
        ensure!(expect.len() == s.len(), "the reloaded index holds a point twice");
        for p in s.points() {
            ensure!(expect.iter().any(|e| e.0 == p.id && e.1 == p.v), "point {} is reloaded with vector {:?}", p.id, p.v);
        }
        for (i, layer) in s.layers.iter().enumerate() {
            for (r, p) in layer.iter().enumerate() {
                ensure!(p.pid == (i as u8, r as i32), "point {} of layer {} and rank {} has coordinate {:?}", p.id, i, r, p.pid);
            }
        }
        check_links(h, &s, sc.m)?;
        if d.completed_before.len() >= 2 {
            for p in s.points().filter(|p| d.completed_before.contains(&p.id)) {
                ensure!(p.nb.iter().any(|l| !l.is_empty()), "point {} had been inserted before the dump began and has no link in the reloaded index", p.id);
            }
        }
        let q = [1.0f32, 1.];
        let a = h.search(&q, 8, 8);
        check_answer(h, &s, &q, 8, &a)?;
        if s.layers.iter().filter(|l| !l.is_empty()).count() == 1 && s.len() <= sc.m {
            for id in &d.completed_before {
                ensure!(a.iter().any(|n| n.d_id == *id), "point {} had been inserted before the dump began and is not found in the reloaded index", id);
            }
        }
        let mut f = std::fs::File::open(dir.graph(n)).map_err(|e| e.to_string())?;
        let de = hnsw_rs::hnswio::load_description(&mut f).map_err(|e| e.to_string())?;
        ensure!(de.nb_point == s.len() && de.dimension == 2, "the description states {} points of dimension {}, the dump holds {} of dimension 2", de.nb_point, de.dimension, s.len());
    }
    Ok(())
}

pub fn c23() {
    let c = ctx();
    let _ = crate::iou::base();
    let jobs = dump_scenarios(c.thorough);
    run(&jobs, &|sc, h, o| {
        note_state(sc, h);
        check_contents(h, &sc.inserted())?;
        ensure!(!o.dumps.is_empty(), "the dump did not return");
        for d in &o.dumps {
            let dir = o.dir.as_ref().unwrap();
            if let Ok(n) = &d.result {
                c.state(hash64(&dir.get(n).0));
            }
            check_dump(sc, dir, d)?;
        }
        Ok(())
    }, c.deadline);
}

pub fn c08_conc(until: Instant) {
    let c = ctx();
    let b = c.pick(3, 5);
    let pre: &[(usize, f32, f32, usize)] = &[(91, 5., 5., 1), (92, 6., 6., 0), (93, 0., 0., 0)];
    let mut v = vec![
        sc("ps2", 4, 8, pre, vec![vec![PSearch(vec![[1., 1.], [5., 6.]], 2, 4)]], Mode::Pb(b)),
        sc("ps2-eq", 4, 8, pre, vec![vec![PSearch(vec![[1., 1.], [1., 1.]], 2, 4)]], Mode::Pb(b)),
        sc("ps3", 4, 8, pre, vec![vec![PSearch(vec![[1., 1.], [5., 6.], [0., 9.]], 1, 4)]], Mode::Pb(b)),
        sc("ps4", 4, 8, &pre[1..], vec![vec![PSearch(vec![[1., 1.], [5., 6.], [0., 9.], [4., 4.]], 1, 2)]], Mode::Pb(c.pick(2, 3))),
        sc("ps4-rep", 4, 8, &pre[1..], vec![vec![PSearch(vec![[1., 1.], [5., 6.], [1., 1.], [5., 6.]], 2, 2)]], Mode::Pb(c.pick(2, 3))),
        sc("ps2+ps2", 4, 8, &pre[1..], vec![vec![PSearch(vec![[1., 1.], [5., 6.]], 2, 2)], vec![PSearch(vec![[6., 6.], [0., 1.]], 2, 2)]], Mode::Pb(c.pick(2, 3))),
        sc("ps5", 4, 8, &pre[1..], vec![vec![PSearch(vec![[1., 1.], [5., 6.], [0., 9.], [4., 4.], [1., 1.]], 1, 2)]], Mode::Pb(c.pick(2, 2))),
        sc("ps6", 4, 8, &pre[1..2], vec![vec![PSearch((0..6).map(|i| [i as f32, 1.]).collect(), 1, 1)]], Mode::Pb(c.pick(1, 2))),
        sc("ps-empty-index", 4, 8, &[], vec![vec![PSearch(vec![[1., 1.], [5., 6.]], 2, 2)]], Mode::Pb(b)),
        sc("ps-empty-list", 4, 8, pre, vec![vec![PSearch(vec![], 2, 2)]], Mode::Pb(b)),
        sc("ps1", 4, 8, pre, vec![vec![PSearch(vec![[1., 1.]], 2, 2)]], Mode::Pb(b)),
        sc("pi2", 4, 8, pre, vec![vec![PIns(vec![(1, [0., 0.]), (2, [3., 1.])], 0)]], Mode::Dpor),
        sc("pi2-empty", 4, 8, &[], vec![vec![PIns(vec![(1, [0., 0.]), (2, [3., 1.])], 1)]], Mode::Dpor),
        sc("pis2-empty", 4, 8, &[], vec![vec![PInsSlice(vec![(1, [0., 0.]), (2, [3., 1.])], 0)]], Mode::Dpor),
        sc("pi3", 4, 8, &[], vec![vec![PIns(vec![(1, [0., 0.]), (2, [3., 1.]), (3, [1., 5.])], 0)]], Mode::Pb(b)),
        sc("pis3", 4, 8, &[], vec![vec![PInsSlice(vec![(1, [0., 0.]), (2, [3., 1.]), (3, [1., 5.])], 0)]], Mode::Pb(b)),
        sc("pi-same-id", 4, 8, &[], vec![vec![PIns(vec![(1, [0., 0.]), (1, [0., 0.])], 0)]], Mode::Dpor),
        sc("pi-empty-list", 4, 8, pre, vec![vec![PIns(vec![], 0)]], Mode::Dpor),
        sc("pis-empty-list", 4, 8, pre, vec![vec![PInsSlice(vec![], 0)]], Mode::Dpor),
    ];
    if c.thorough {
        v.push(sc("pi4", 4, 8, &[], vec![vec![PIns(vec![(1, [0., 0.]), (2, [3., 1.]), (3, [1., 5.]), (4, [7., 7.])], 0)]], Mode::Pb(2)));
    }
    for s in v.iter_mut() {
        s.rayon = 4;
    }
    let jobs = to_jobs(v, false);
    run(&jobs, &|sc, h, o| {
        let s = note_state(sc, h);
        check_contents(h, &sc.inserted())?;
        if sc.threads.iter().flatten().all(|a| matches!(a, PSearch(..))) {
            for x in &o.searches {
                c.state(hash64(format!("{} {:?} {:?}", sc.name, x.q, x.answer).as_bytes()));
                let single = nbs(&h.search(&x.q[..], x.k, x.ef));
                ensure!(single == x.answer, "query {:?}: parallel search answers {:?}, search answers {:?}", x.q, x.answer, single);
                check_search_obs(sc, h, &s, x, false)?;
            }
        }
        Ok(())
    }, until);
}

// ------------------------------------------------------------------------------------------------
// C20: the elements of the vectors carry a token whose holders are counted

#[derive(Clone, Debug)]
pub struct E(pub f32, pub Arc<()>);
#[derive(Clone, Copy, Default)]
pub struct L1E;
impl anndists::dist::distances::Distance<E> for L1E {
    fn eval(&self, a: &[E], b: &[E]) -> f32 {
        a.iter().zip(b).map(|(x, y)| (x.0 - y.0).abs()).sum()
    }
}
pub type HE = Hnsw<'static, E, L1E>;

pub fn c20_conc(until: Instant) {
    let c = ctx();
    let jobs = insert_jobs(c.thorough);
    run_with(&jobs, until, &|j| {
        let sc = &j.sc;
        let token = Arc::new(());
        let ev = |v: &[f32; 2], t: &Arc<()>| vec![E(v[0], t.clone()), E(v[1], t.clone())];
        let mut h = HE::new(sc.m, 100, 16, sc.efc, L1E);
        h.set_extend_candidates(sc.extend);
        h.set_keeping_pruned(sc.keep);
        for (id, v, l) in &sc.prefill {
            rng::force(Some(raw_for_level(*l, sc.m)));
            h.insert((&ev(v, &token), *id));
        }
        rng::force(None);
        let h = Arc::new(h);
        let mut jobs: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
        for t in &sc.threads {
            let h = h.clone();
            let token = token.clone();
            jobs.push(Box::new(move || {
                for a in t {
                    match a {
                        Ins(id, v, l) => {
                            rng::force(Some(raw_for_level(*l, sc.m)));
                            h.insert((&ev(v, &token), *id));
                        }
                        PIns(l, lev) | PInsSlice(l, lev) => {
                            rng::force(Some(raw_for_level(*lev, sc.m)));
                            let vs: Vec<(Vec<E>, usize)> = l.iter().map(|x| (ev(&x.1, &token), x.0)).collect();
                            let rs: Vec<(&Vec<E>, usize)> = vs.iter().map(|x| (&x.0, x.1)).collect();
                            h.parallel_insert(&rs);
                        }
                        _ => {}
                    }
                    rng::force(None);
                }
            }));
        }
        let check = Box::new(move |_: &Exec| {
            let n = h.get_nb_point();
            c.state(hash64(format!("{}{}", sc.name, snap(&h).text()).as_bytes()));
            let held = Arc::strong_count(&token) - 1;
            ensure!(held == 2 * n, "{} points of 2 elements hold {} elements", n, held);
            let h = Arc::try_unwrap(h).map_err(|_| "index still held".to_string())?;
            drop(h);
            let left = Arc::strong_count(&token) - 1;
            ensure!(left == 0, "{} of {} elements still held after the index was dropped", left, held);
            Ok(())
        });
        (jobs, check)
    });
}

/// C25: threads on indexes of their own do not meet
pub fn c25_threads(until: Instant) {
    let c = ctx();
    let acts = |t: usize| -> Vec<(&'static str, Vec<Act>)> {
        let f = 3. * t as f32;
        let i = 10 * t;
        vec![
            ("ins", vec![Ins(i + 1, [f, 4.], 0)]),
            ("ins2", vec![Ins(i + 1, [f, 4.], 1), Ins(i + 2, [8., f], 0)]),
            ("search", vec![Search([1., f], 2, 3), Search([7., 2.], 2, 2)]),
            ("filter", vec![Filter([1., f], 1, 4), Ins(i + 1, [f, 4.], 0)]),
            ("psearch", vec![PSearch(vec![[1., f], [6., 6.]], 2, 2)]),
            ("pins", vec![PIns(vec![(i + 1, [f, 4.]), (i + 2, [8., f])], 0)]),
            ("enum", vec![Enum, Ins(i + 1, [f, 4.], 2), LayerEnum(0)]),
            ("flatten", vec![Flatten, Ins(i + 1, [f, 4.], 1), Sizes]),
            ("dump", vec![Dump(if t == 1 { "x" } else { "x-y" })]),
            ("insdump", vec![Ins(i + 1, [f, 4.], 0), Dump(if t == 1 { "x" } else { "y" })]),
            ("reload", vec![Reload(if t == 1 { "x" } else { "y" }), Ins(i + 1, [f, 4.], 0)]),
        ]
    };
    let mut jobs: Vec<Job> = Vec::new();
    let (x, y) = (acts(1), acts(2));
    for (i, a) in x.iter().enumerate() {
        for (j, b) in y.iter().enumerate() {
            if j < i && !c.thorough {
                continue;
            }
            let name: &'static str = Box::leak(format!("own-{}-{}", a.0, b.0).into_boxed_str());
            let par = |n: &str| n.starts_with('p');
            let mode = if par(a.0) || par(b.0) { Mode::Pb(c.pick(2, 3)) } else { Mode::Dpor };
            jobs.push(Job { sc: sc(name, 2, 4, &[(91, 5., 5., 1), (92, 6., 6., 0)], vec![a.1.clone(), b.1.clone()], mode), events: false, cap: c.pick(20_000, 200_000), limit: Some(c.pick(1.5, 20.)) });
        }
    }
    crate::iou::FILE_EVENTS.store(true, Ordering::Relaxed);
    run_with(&jobs, until, &|j: &Job| {
        let sc = &j.sc;
        // the second index has other settings
        let mut other = sc.clone();
        other.m = 3;
        other.efc = 6;
        other.extend = true;
        let parts: Vec<(Sc, Arc<H>, Arc<Mutex<Obs>>)> = [sc.clone(), other].into_iter().map(|s| (s.clone(), Arc::new(s.build()), Arc::new(Mutex::new(Obs::default())))).collect();
        // both dump into one directory
        let files = sc.threads.iter().flatten().any(|a| matches!(a, Dump(_) | Reload(_)));
        if files {
            let d = Dir::new();
            parts[1].2.lock().unwrap().dir = Some(Dir { rel: String::new(), abs: d.abs.clone() });
            parts[0].2.lock().unwrap().dir = Some(d);
        }
        let mut threads: Vec<Box<dyn FnOnce() + Send>> = Vec::new();
        for (t, (s, h, o)) in sc.threads.iter().zip(&parts) {
            let (t, s, h, o) = (t.clone(), s.clone(), h.clone(), o.clone());
            threads.push(Box::new(move || {
                for a in &t {
                    run_act(&h, a, s.m, &o, false);
                }
            }));
        }
        let check = Box::new(move |_: &Exec| {
            for (i, (s, h, o)) in parts.iter().enumerate() {
                let alone = s.build();
                let oa = Mutex::new(Obs::default());
                let par = s.threads[i].iter().any(|a| matches!(a, PIns(..) | PInsSlice(..)));
                for a in &s.threads[i] {
                    run_act(&alone, a, s.m, &oa, false);
                }
                let (p, q) = (snap(&**h).text(), snap(&alone).text());
                let o = o.lock().unwrap();
                if par {
                    // the order within one list is free
                    let mut e: Vec<(usize, Vec<f32>)> = s.prefill.iter().map(|p| (p.0, p.1.to_vec())).collect();
                    for a in &s.threads[i] {
                        if let PIns(l, _) = a {
                            e.extend(l.iter().map(|p| (p.0, p.1.to_vec())));
                        }
                    }
                    check_contents(&**h, &e)?;
                    check_links(&**h, &snap(&**h), s.m)?;
                } else if p != q {
                    return Err(format!("index {} is\n{}alone\n{}", i, p, q));
                }
                let (x, y): (Vec<_>, Vec<_>) = (o.searches.iter().map(|s| s.answer.clone()).collect(), oa.lock().unwrap().searches.iter().map(|s| s.answer.clone()).collect());
                if x != y {
                    return Err(format!("index {} answers {:?}, alone {:?}", i, x, y));
                }
                let oa = oa.lock().unwrap();
                if o.texts != oa.texts {
                    return Err(format!("index {} dumped and reloaded {:?}, alone {:?}", i, o.texts, oa.texts));
                }
                for d in &o.dumps {
                    let n = d.result.as_ref().map_err(|e| format!("index {}: dump fails: {}", i, e))?;
                    let l = load::<f32, L1>(&o.dir.as_ref().unwrap().abs, n, None).map_err(|e| format!("index {}: reload of the dump fails: {}", i, e))?;
                    if crate::iou::canon(&snap(l.h())).text() != crate::iou::canon(&snap(&**h)).text() {
                        return Err(format!("index {} is reloaded as\n{}", i, snap(l.h()).text()));
                    }
                }
                ctx().state(hash64(p.as_bytes()));
            }
            if files {
                let d = parts[0].2.lock().unwrap();
                let n = d.dir.as_ref().unwrap().list().len();
                let want = 2 * parts.iter().enumerate().filter(|(i, p)| p.0.threads[*i].iter().any(|a| matches!(a, Dump(_) | Reload(_)))).count();
                if n != want {
                    return Err(format!("{} files, not {}: {:?}", n, want, d.dir.as_ref().unwrap().list().keys()));
                }
            }
            Ok(())
        });
        (threads, check)
    });
}
