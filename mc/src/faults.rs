//! C13: every failing write, every crash point, every truncation of a dump.
use crate::ctx::*;
use crate::iochk::*;
use crate::iou::*;
use crate::util::*;
use anndists::dist::distances::*;
use hnsw_rs::datamap::DataMap;
use hnsw_rs::prelude::*;
use std::time::Instant;

fn hists() -> Vec<IoHist> {
    let c = ctx();
    let mut v = Vec::new();
    let all = io_hists(false, NTYPES_MAP);
    // a single point, several layers, empty vectors, vectors of different lengths
    for ty in [0usize, 1] {
        let mut one = all.iter().find(|h| h.ty == ty && h.pts.len() == 1).unwrap().clone();
        one.name = "single".into();
        v.push(one);
        v.push(small_hist(ty));
    }
    v.push(all.iter().find(|h| h.name == "len302" || h.name == "len205").unwrap().clone());
    v.push(all.iter().find(|h| h.name == "dim0").unwrap().clone());
    if c.thorough {
        for ty in 2..NTYPES_MAP {
            v.push(small_hist(ty));
        }
        for n in ["len123", "len033", "len510"] {
            v.push(all.iter().find(|h| h.name == n).unwrap().clone());
        }
    }
    for (i, h) in v.iter_mut().enumerate() {
        h.name = format!("{}.{}", h.name, i);
    }
    v
}
/// dumps longer than the write buffers
fn big_hists() -> Vec<IoHist> {
    let c = ctx();
    let mut v = vec![big(0, 60, 40, 4, 11), big(1, 90, 120, 6, 5)];
    if c.thorough {
        v.push(big(0, 150, 70, 8, 3));
    }
    v
}

/// no way of reloading takes the files (cut at `what`) for a dump; `graph_cut`: the graph file itself is not complete
fn refused<T: El>(d: &Dir, n: &str, graph_cut: bool, what: &dyn Fn() -> String) -> R
where
    G: Distance<T>,
{
    ctx().count("operations", if graph_cut { 6 } else { 5 });
    ensure!(load::<T, G>(&d.abs, n, None).is_err(), "{}: reloads", what());
    ensure!(load_with::<T, G>(&d.abs, n, G).is_err(), "{}: reloads with the distance given", what());
    for t in [0usize, 1] {
        ensure!(load::<T, G>(&d.abs, n, Some(t)).is_err(), "{}: reloads mapped from {} on", what(), t);
    }
    if graph_cut {
        ensure!(load_graph(&d.abs, n).is_err(), "{}: the graph alone reloads", what());
    }
    Ok(())
}
fn no_datamap<T: El>(d: &Dir, n: &str, what: &dyn Fn() -> String) -> R {
    ensure!(DataMap::from_hnswdump::<T>(&d.abs, n).is_err(), "{}: a data map is built", what());
    Ok(())
}

pub fn c13(until: Instant) {
    let c = ctx();
    base();
    for h in hists() {
        for_type!(h.ty, one(&h, until, true));
    }
    for h in big_hists() {
        for_type!(h.ty, one(&h, until, false));
    }
}

fn one<T: El>(hi: &IoHist, until: Instant, small: bool)
where
    G: Distance<T>,
{
    let c = ctx();
    let h = hi.build::<T>();
    c.count("insertions", hi.pts.len() as u64);
    let q = hi.queries::<T>();
    // the dump without failure
    let d0 = Dir::new();
    let (r, log) = with_fault(Fault::None, || h.file_dump(&d0.abs, "a"));
    let good = matches!(&r, Ok(Ok(n)) if n == "a");
    c.case(|| format!("{}:plain", hi.key()), || {
        ensure!(good, "dump failed");
        let l = load::<T, G>(&d0.abs, "a", None)?;
        same_index(&h, l.h(), &q, hi.ties)?;
        DataMap::from_hnswdump::<T>(&d0.abs, "a").map(|_| ())
    });
    if !good || c.stopped() {
        return;
    }
    let (g, b) = d0.get("a");
    let total = log.bytes;
    // is the whole of the two files seen through the file calls?
    let seen = total == g.len() + b.len() && !log.log.is_empty();
    if !seen {
        c.note("the dump does not write through open and write only: injected failures do not reach it");
    }
    let stopped = || {
        if Instant::now() > until {
            c.exhaustive.store(false, std::sync::atomic::Ordering::Relaxed);
            return true;
        }
        c.stopped()
    };

    // quick: in the long dumps, each byte around the buffer boundaries and every 5th else
    let dense = |n: usize| small || c.thorough || n % 5 == 0 || n < 64 || (n + 24) % 4096 < 48;
    // ---- a write fails
    let mut faults: Vec<Fault> = Vec::new();
    for k in 0..log.writes {
        for e in [libc::EIO, libc::ENOSPC, libc::EINTR] {
            faults.push(Fault::Once(k, e));
        }
    }
    for k in 0..log.opens {
        for e in [libc::EACCES, libc::ENOSPC, libc::EMFILE] {
            faults.push(Fault::Open(k, e));
        }
    }
    for n in (1..=8).chain([100, 1000, 4096, 8191, 8192, 8193]) {
        faults.push(Fault::Short(n));
    }
    // the device fills up at each byte
    for n in (0..total).filter(|n| dense(*n)) {
        faults.push(Fault::Full(n));
    }
    let chunks: Vec<&[Fault]> = faults.chunks(16).collect();
    parallel(&chunks, |_, _, ch| {
        for f in ch.iter() {
            if stopped() {
                return;
            }
            // also over an earlier dump of the same name
            for over in [false, true] {
                if over && !small {
                    continue;
                }
                c.case(|| format!("{}:{:?}:{}", hi.key(), f, if over { "overwriting" } else { "new" }), || {
                    let d = Dir::new();
                    if over {
                        d.put("a", &g, &b);
                    }
                    let (r, l) = with_fault(*f, || h.file_dump(&d.abs, "a"));
                    let benign = !l.fired || matches!(f, Fault::Short(_) | Fault::Once(_, libc::EINTR));
                    let (g2, b2) = d.get("a");
                    c.state(hash64(format!("{}{:?}{:?}", hi.name, g2.len(), b2.len()).as_bytes()));
                    c.count("operations", 1);
                    match r {
                        Ok(Ok(n)) => {
                            ensure!(benign, "a write or open failed, dump reports success");
                            // success told: the dump is complete
                            let l = load::<T, G>(&d.abs, &n, None).map_err(|e| format!("dump reports success, reload fails: {}", e))?;
                            same_index(&h, l.h(), &[], hi.ties).map_err(|e| format!("dump reports success, reload: {}", e))?;
                        }
                        Ok(Err(e)) => ensure!(l.fired && !matches!(f, Fault::Short(_)), "dump fails without a failing write: {}", e),
                        Err(p) => {
                            ensure!(l.fired && !matches!(f, Fault::Short(_)), "dump panics without a failing write: {}", mcctl::panic_message(&*p));
                        }
                    }
                    // what is there is a whole dump or is refused
                    whole_or_refused::<T>(&d, "a", &g, &b)
                });
            }
        }
    });

    // ---- interrupted: each prefix of the file calls, each byte of the last write
    if seen {
        let names: Vec<String> = log.log.iter().filter_map(|o| if let FOp::Open(p, _) = o { Some(p.clone()) } else { None }).collect();
        let plain_names = names.iter().all(|p| p.ends_with("a.hnsw.graph") || p.ends_with("a.hnsw.data"));
        if !plain_names {
            c.note("the dump writes under other names first: crash points are covered by the truncations only");
        }
        if plain_names {
            // points of interruption: (operations done, bytes of the next one)
            let mut cuts: Vec<(usize, usize)> = Vec::new();
            for (i, o) in log.log.iter().enumerate() {
                match o {
                    FOp::Open(..) => cuts.push((i, 0)),
                    FOp::Write(_, b) => cuts.extend((0..b.len()).filter(|j| dense(*j)).map(|j| (i, j))),
                }
            }
            let chunks: Vec<&[(usize, usize)]> = cuts.chunks(32).collect();
            for over in [false, true] {
                // an earlier dump of another index under this name
                let old = {
                    let mut o = small_hist(hi.ty);
                    o.pts.truncate(3);
                    let x = o.build::<T>();
                    let d = Dir::new();
                    let _ = x.file_dump(&d.abs, "a");
                    d.get("a")
                };
                parallel(&chunks, |_, _, ch| {
                    let d = Dir::new();
                    for &(i, j) in ch.iter() {
                        if stopped() {
                            return;
                        }
                        c.case(|| format!("{}:crash{}+{}:{}", hi.key(), i, j, if over { "overwriting" } else { "new" }), || {
                            let mut files: [Option<Vec<u8>>; 2] = if over { [Some(old.0.clone()), Some(old.1.clone())] } else { [None, None] };
                            let mut fds: Vec<(usize, usize)> = Vec::new();
                            let which = |p: &str| if p.ends_with(".graph") { 0 } else { 1 };
                            for (k, o) in log.log.iter().enumerate().take(i + 1) {
                                match o {
                                    FOp::Open(p, trunc) => {
                                        if k < i {
                                            let w = which(p);
                                            fds.push((w, 0));
                                            if *trunc || files[w].is_none() {
                                                files[w] = Some(vec![]);
                                            }
                                        }
                                    }
                                    FOp::Write(f, b) => {
                                        let b = if k < i { &b[..] } else { &b[..j] };
                                        let (w, pos) = fds[*f];
                                        let v = files[w].as_mut().unwrap();
                                        if v.len() < pos + b.len() {
                                            v.resize(pos + b.len(), 0);
                                        }
                                        v[pos..pos + b.len()].copy_from_slice(b);
                                        fds[*f].1 += b.len();
                                    }
                                }
                            }
                            for (f, p) in files.iter().zip([d.graph("a"), d.data("a")]) {
                                match f {
                                    Some(b) => std::fs::write(p, b).unwrap(),
                                    None => {
                                        let _ = std::fs::remove_file(p);
                                    }
                                }
                            }
                            c.state(hash64(format!("{:?}", files).as_bytes()));
                            if over && i == 0 {
                                // nothing done: the earlier dump is there
                                return load::<T, G>(&d.abs, "a", None).map(|_| ());
                            }
                            whole_or_refused::<T>(&d, "a", &g, &b)
                        });
                    }
                });
            }
        }
    }

    // ---- cut files
    let mut cuts: Vec<(usize, usize)> = Vec::new();
    if small {
        for i in 0..=g.len() {
            let step = if i == g.len() { 1 } else { c.pick(3, 1) };
            for j in (0..=b.len()).step_by(step) {
                cuts.push((i, j));
            }
            cuts.push((i, b.len()));
        }
    } else {
        for i in (0..g.len()).filter(|j| dense(*j)) {
            cuts.push((i, b.len()));
            cuts.push((i, i * b.len() / g.len()));
        }
        for j in (0..b.len()).filter(|j| dense(*j)) {
            cuts.push((g.len(), j));
        }
    }
    cuts.retain(|c| *c != (g.len(), b.len()));
    cuts.dedup();
    let chunks: Vec<&[(usize, usize)]> = cuts.chunks(64).collect();
    parallel(&chunks, |_, _, ch| {
        let d = Dir::new();
        for &(i, j) in ch.iter() {
            if stopped() {
                return;
            }
            c.case(|| format!("{}:cut{},{}", hi.key(), i, j), || {
                d.put("a", &g[..i], &b[..j]);
                c.state(hash64(format!("{}{},{}", hi.name, i, j).as_bytes()));
                whole_or_refused::<T>(&d, "a", &g, &b)
            });
        }
    });
    // one of the files is missing
    c.case(|| format!("{}:missing", hi.key()), || {
        for (x, y) in [(true, false), (false, true), (false, false)] {
            let d = Dir::new();
            if x {
                std::fs::write(d.graph("a"), &g).unwrap();
            }
            if y {
                std::fs::write(d.data("a"), &b).unwrap();
            }
            let w = || format!("graph file {}, data file {}", if x { "there" } else { "missing" }, if y { "there" } else { "missing" });
            refused::<T>(&d, "a", !x, &w)?;
            no_datamap::<T>(&d, "a", &w)?;
        }
        Ok(())
    });
}

/// the two files are the complete dump (g, b), or every reload of them fails
fn whole_or_refused<T: El>(d: &Dir, n: &str, g: &[u8], b: &[u8]) -> R
where
    G: Distance<T>,
{
    let (g2, b2) = d.get(n);
    let w = || format!("graph file of {} bytes (complete: {}), data file of {} bytes (complete: {})", g2.len(), g.len(), b2.len(), b.len());
    // points of one layer come in no fixed order: whole files are told by their lengths
    let (gw, bw) = (g2.len() == g.len(), b2.len() == b.len());
    if gw && bw {
        return load::<T, G>(&d.abs, n, None).map(|_| ()).map_err(|e| format!("{}: reload fails: {}", w(), e));
    }
    refused::<T>(d, n, !gw, &w)?;
    if !bw {
        no_datamap::<T>(d, n, &w)?;
    }
    Ok(())
}
