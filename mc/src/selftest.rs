//! The explorers are checked on small programs with known numbers of executions and known failures.
use crate::ctx::*;
use mcctl::{explore, Mode};
use parking_lot::{Mutex, RwLock};
use std::collections::HashSet;
use std::sync::Arc;
use std::time::{Duration, Instant};

type Jobs = (Vec<Box<dyn FnOnce() + Send>>, Box<dyn FnOnce(&mcctl::Exec) -> Result<(), String>>);

fn all(mode: Mode, mk: impl FnMut() -> Jobs) -> (u64, u64, Option<String>) {
    let (st, f) = explore(Some(0), mode, 1_000_000, Instant::now() + Duration::from_secs(60), mk);
    (st.executions, st.redundant, f.map(|f| f.what))
}

pub fn run() -> i32 {
    let mut bad = 0;
    let mut expect = |name: &str, ok: bool, txt: String| {
        say(&format!("{} {}: {}", if ok { "ok  " } else { "FAIL" }, name, txt));
        if !ok {
            bad += 1
        }
    };
    // n threads appending to one list under a mutex, k times each: the set of results is the set of interleavings
    for (n, k, want) in [(2, 1, 2), (2, 2, 6), (3, 1, 6), (3, 2, 90), (2, 4, 70)] {
        for mode in [Mode::Dpor, Mode::Pb(100)] {
            let seen = Arc::new(std::sync::Mutex::new(HashSet::new()));
            let s2 = seen.clone();
            let r = all(mode, || {
                let l = Arc::new(Mutex::new(Vec::<u8>::new()));
                let jobs = (0..n)
                    .map(|t| {
                        let l = l.clone();
                        Box::new(move || {
                            for _ in 0..k {
                                l.lock().push(t as u8);
                            }
                        }) as Box<dyn FnOnce() + Send>
                    })
                    .collect();
                let s = s2.clone();
                (jobs, Box::new(move |_| {
                    s.lock().unwrap().insert(l.lock().clone());
                    Ok(())
                }))
            });
            let got = seen.lock().unwrap().len();
            let tight = matches!(mode, Mode::Pb(_)) || r.0 - r.1 == want as u64;
            expect(
                &format!("append n={} k={} {:?}", n, k, mode),
                got == want && r.2.is_none() && tight,
                format!("{} results of {}, {} executions of which {} redundant", got, want, r.0, r.1),
            );
        }
    }
    // independent locks: one execution is enough for dpor
    let r = all(Mode::Dpor, || {
        let a = Arc::new(Mutex::new(0));
        let b = Arc::new(Mutex::new(0));
        let jobs: Vec<Box<dyn FnOnce() + Send>> = vec![
            Box::new(move || for _ in 0..5 { *a.lock() += 1 }),
            Box::new(move || for _ in 0..5 { *b.lock() += 1 }),
        ];
        (jobs, Box::new(|_| Ok(())))
    });
    expect("independent", r.0 == 1, format!("{} executions", r.0));
    // readers are independent
    let r = all(Mode::Dpor, || {
        let a = Arc::new(RwLock::new(0));
        let b = a.clone();
        let jobs: Vec<Box<dyn FnOnce() + Send>> = vec![
            Box::new(move || for _ in 0..5 { let _ = *a.read(); }),
            Box::new(move || for _ in 0..5 { let _ = *b.read(); }),
        ];
        (jobs, Box::new(|_| Ok(())))
    });
    expect("readers", r.0 == 1, format!("{} executions", r.0));
    // lost update: read, then write under another lock
    for mode in [Mode::Dpor, Mode::Pb(1)] {
        let r = all(mode, || {
            let a = Arc::new(RwLock::new(0));
            let jobs: Vec<Box<dyn FnOnce() + Send>> = (0..2)
                .map(|_| {
                    let a = a.clone();
                    Box::new(move || {
                        let x = *a.read();
                        *a.write() = x + 1;
                    }) as Box<dyn FnOnce() + Send>
                })
                .collect();
            (jobs, Box::new(move |_| if *a.read() == 2 { Ok(()) } else { Err("lost".into()) }))
        });
        expect(&format!("lost update {:?}", mode), r.2.as_deref() == Some("lost"), format!("{:?} after {}", r.2, r.0));
    }
    // lock order inversion
    for mode in [Mode::Dpor, Mode::Pb(1)] {
        let r = all(mode, || {
            let a = Arc::new(Mutex::new(0));
            let b = Arc::new(Mutex::new(0));
            let (a2, b2) = (a.clone(), b.clone());
            let jobs: Vec<Box<dyn FnOnce() + Send>> = vec![
                Box::new(move || {
                    let _x = a.lock();
                    let _y = b.lock();
                }),
                Box::new(move || {
                    let _x = b2.lock();
                    let _y = a2.lock();
                }),
            ];
            (jobs, Box::new(|_| Ok(())))
        });
        expect(&format!("inversion {:?}", mode), r.2.as_deref().map(|s| s.starts_with("deadlock")) == Some(true), format!("{:?} after {}", r.2, r.0));
    }
    // recursive read with a waiting writer
    for mode in [Mode::Dpor, Mode::Pb(2)] {
        let r = all(mode, || {
            let a = Arc::new(RwLock::new(0));
            let b = a.clone();
            let jobs: Vec<Box<dyn FnOnce() + Send>> = vec![
                Box::new(move || {
                    let _x = a.read();
                    let _y = a.read();
                }),
                Box::new(move || {
                    *b.write() += 1;
                }),
            ];
            (jobs, Box::new(|_| Ok(())))
        });
        expect(&format!("recursive read {:?}", mode), r.2.as_deref().map(|s| s.starts_with("deadlock")) == Some(true), format!("{:?} after {}", r.2, r.0));
    }
    // fork/join
    let seen = Arc::new(std::sync::Mutex::new(HashSet::new()));
    let s2 = seen.clone();
    let r = all(Mode::Dpor, || {
        let l = Arc::new(Mutex::new(Vec::<u8>::new()));
        let l2 = l.clone();
        let jobs: Vec<Box<dyn FnOnce() + Send>> = vec![Box::new(move || {
            mcctl::join(|| l2.lock().push(1), || mcctl::join(|| l2.lock().push(2), || l2.lock().push(3)));
            l2.lock().push(4);
        })];
        let s = s2.clone();
        (jobs, Box::new(move |_| {
            s.lock().unwrap().insert(l.lock().clone());
            Ok(())
        }))
    });
    let got = seen.lock().unwrap().len();
    expect("fork join", got == 6 && r.2.is_none(), format!("{} results of 6, {} executions ({} redundant)", got, r.0, r.1));
    // random programs: dpor reaches the same final states and deadlocks as the unbounded search
    let mut agree = 0;
    let mut tot = (0, 0);
    let np = std::env::var("NP").ok().and_then(|s| s.parse().ok()).unwrap_or(60u64);
    for p in 0..np {
        let mut x = p.wrapping_mul(0x9E3779B97F4A7C15) | 1;
        let mut rnd = move |n: u64| {
            x ^= x << 13;
            x ^= x >> 7;
            x ^= x << 17;
            x % n
        };
        // threads of up to 3 critical sections on 2 rwlocks, possibly nested
        let nt = 2 + (rnd(3) == 0) as usize;
        let prog: Vec<Vec<(u64, u64, u64)>> = (0..nt)
            .map(|_| (0..(if nt == 2 { 3 } else { 2 })).map(|_| (rnd(2), rnd(3), rnd(4))).collect())
            .collect();
        let mut res = Vec::new();
        for mode in [Mode::Dpor, Mode::Pb(100)] {
            let seen = Arc::new(std::sync::Mutex::new(HashSet::new()));
            let s2 = seen.clone();
            let prog = prog.clone();
            let r = all(mode, || {
                let l = [Arc::new(RwLock::new(0u64)), Arc::new(RwLock::new(0u64))];
                let jobs = prog
                    .iter()
                    .enumerate()
                    .map(|(t, ops)| {
                        let l = l.clone();
                        let ops = ops.clone();
                        Box::new(move || {
                            let mut acc = t as u64 + 1;
                            for (a, k, nest) in ops {
                                let a = a as usize;
                                if k == 0 {
                                    let g = l[a].read();
                                    acc = acc * 7 + *g;
                                    if nest == 0 {
                                        let mut h = l[1 - a].write();
                                        *h = *h * 31 + acc;
                                    }
                                } else {
                                    let mut g = l[a].write();
                                    *g = (*g * 13 + acc) % 1000003;
                                    if nest == 0 {
                                        acc += *l[1 - a].read();
                                    }
                                }
                            }
                            let mut g = l[0].write();
                            *g = (*g * 17 + acc) % 1000003;
                        }) as Box<dyn FnOnce() + Send>
                    })
                    .collect();
                let s = s2.clone();
                (jobs, Box::new(move |_| {
                    s.lock().unwrap().insert((*l[0].read(), *l[1].read()));
                    Ok(())
                }))
            });
            if matches!(mode, Mode::Dpor) {
                tot.0 += r.0
            } else {
                tot.1 += r.0
            }
            let mut s: Vec<_> = seen.lock().unwrap().iter().copied().collect();
            s.sort();
            res.push((r.2.is_some(), if r.2.is_some() { vec![] } else { s }));
        }
        if res[0] == res[1] {
            agree += 1
        } else {
            say(&format!("program {} {:?}: dpor {} {} full {} {}", p, prog, res[0].0, res[0].1.len(), res[1].0, res[1].1.len()));
        }
    }
    expect("random programs", agree == np, format!("{} of {} agree, {} dpor executions for {} in all", agree, np, tot.0, tot.1));
    // attempts: what they find inside and between critical sections
    for mode in [Mode::Pb(3), Mode::Dpor] {
        let seen = Arc::new(std::sync::Mutex::new(std::collections::BTreeSet::new()));
        let s2 = seen.clone();
        let r = all(mode, move || {
            let l = Arc::new(parking_lot::RwLock::new(0));
            let res = Arc::new(std::sync::Mutex::new(9));
            let (l1, l2, r2, s) = (l.clone(), l.clone(), res.clone(), s2.clone());
            let jobs: Vec<Box<dyn FnOnce() + Send>> = vec![
                Box::new(move || *l1.write() += 1),
                Box::new(move || {
                    let x = l2.try_read().map_or(7, |x| *x);
                    *r2.lock().unwrap() = x;
                }),
            ];
            (jobs, Box::new(move |_| {
                s.lock().unwrap().insert(*res.lock().unwrap());
                Ok(())
            }))
        });
        let s: Vec<i32> = seen.lock().unwrap().iter().copied().collect();
        expect(&format!("attempts {:?}", mode), s == [0, 1, 7], format!("{:?} after {}", s, r.0));
    }
    (bad > 0) as i32
}
