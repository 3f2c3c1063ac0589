mod alloc {
    //! counts the bytes in use allocated minus released by each thread
    use std::alloc::{GlobalAlloc, Layout, System};
    use std::cell::Cell;
    thread_local! {
        static LIVE: Cell<isize> = const { Cell::new(0) };
    }
    pub struct Counting;
    fn add(n: isize) {
        LIVE.with(|l| l.set(l.get() + n));
    }
    unsafe impl GlobalAlloc for Counting {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            add(l.size() as isize);
            unsafe { System.alloc(l) }
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            add(-(l.size() as isize));
            unsafe { System.dealloc(p, l) }
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
            add(n as isize - l.size() as isize);
            unsafe { System.realloc(p, l, n) }
        }
        unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
            add(l.size() as isize);
            unsafe { System.alloc_zeroed(l) }
        }
    }
    pub fn live() -> isize {
        LIVE.with(|l| l.get())
    }
}
#[global_allocator]
static ALLOC: alloc::Counting = alloc::Counting;

mod big;
mod cext;
mod seqs;
mod checks;
mod conc;
mod ctx;
mod faults;
mod hist;
mod iochk;
mod iou;
mod large;
mod names;
mod model;
mod selftest;
mod util;

use ctx::*;

struct Fixed;
impl ahash::random_state::RandomSource for Fixed {
    fn gen_hasher_seed(&self) -> usize {
        7
    }
}

fn main() {
    // hash maps of the code under test iterate in the same order in every run
    let _ = ahash::random_state::set_random_source(Fixed);
    let args: Vec<String> = std::env::args().collect();
    let mut prop = args.get(1).cloned().unwrap_or_default();
    let mut tier = "quick".to_string();
    let mut only = None;
    let mut budget = None;
    let mut i = if prop.starts_with("--") { 1 } else { 2 };
    while i < args.len() {
        match args[i].as_str() {
            "--tier" => {
                tier = args[i + 1].clone();
                i += 1
            }
            "--budget" => {
                budget = args[i + 1].parse::<u64>().ok();
                i += 1
            }
            "--only" => {
                only = Some(args[i + 1].clone());
                i += 1
            }
            "--replay" => {
                let s = std::fs::read_to_string(&args[i + 1]).expect("replay file");
                for l in s.lines() {
                    if let Some(x) = l.strip_prefix("property ") {
                        prop = x.into()
                    }
                    if let Some(x) = l.strip_prefix("tier ") {
                        tier = x.into()
                    }
                    if let Some(x) = l.strip_prefix("case ") {
                        only = Some(x.into())
                    }
                }
                i += 1
            }
            _ => {}
        }
        i += 1;
    }
    unsafe { std::env::set_var("RUST_BACKTRACE", "0") };
    silence();
    install_fatal_handlers();
    let budget = budget.unwrap_or(if tier == "thorough" { 600 } else { 120 });
    let _ = GLOBAL.set(Ctx::new(&prop, &tier, budget, only));
    start_watchdog();
    let code = if prop == "selftest" {
        selftest::run()
    } else {
        match checks::find(&prop) {
            Some(c) => {
                let _ = LEVEL.set(c.level);
                // what is built outside of a case does not panic either
                if let Err(p) = std::panic::catch_unwind(c.run) {
                    ctx().violation("preparation", &format!("panic: {}", mcctl::panic_message(&*p)));
                }
                ctx().finish(c.level, c.rule, c.assumptions)
            }
            None => {
                say(&format!("unknown property {}", prop));
                2
            }
        }
    };
    iou::cleanup();
    unsafe { libc::_exit(code) }
}
