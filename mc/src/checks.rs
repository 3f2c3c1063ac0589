//! The checks: one per property.
pub struct Check {
    pub prop: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub assumptions: &'static [&'static str],
    pub run: fn(),
}

const SCHED_RULE: &str = "Each evaluation is one complete execution of the real crate under a controlled scheduler that decides every lock \
operation, thread start and join. Two-thread scenarios: source-set DPOR with sleep sets (every Mazurkiewicz trace of the scenario); some larger \
scenarios: all schedules up to the stated number of preemptions. A state is the final index (ids, coordinates, links) of a scenario: distinct ones are counted.";
const SCHED_ASSUME: &[&str] = &[
    "locks behave like parking_lot's: fair to writers, a waiting writer blocks new readers",
    "the shared memory of the crate is accessed under its locks or through its atomics, which are sequentially consistent",
    "thread counts, scenario sizes and layer assignments as listed in the samples",
];

const HIST_RULE: &str = "Each evaluation builds a real index by one history: a point set, an order of insertion, a word of layers (one per point, forced \
through the random source) and build settings; all combinations of each family are run. A state is the resulting index (ids, coordinates, links): distinct ones are counted.";
const HIST_ASSUME: &[&str] = &["point sets, numbers of points, layers and settings as listed in DESIGN.md"];

const IO_RULE: &str = "Each evaluation builds a real index by one history (points, order, word of layers, element type, settings), dumps it into a scratch directory and \
reloads it in every stated way; all combinations of each family are run. Distinct indexes (or directory states) reached are counted.";
const IO_ASSUME: &[&str] = &["histories, element types and settings as listed in DESIGN.md", "ids are distinct within an index"];

const SEQ_RULE: &str = "Each evaluation is one sequence of operations on real indexes (one index and reading operations placed between insertions; two indexes, every interleaving of two words of operations; \
two threads, every schedule), compared operation by operation with the same index on its own. Distinct final states of the indexes are counted.";
const SEQ_ASSUME: &[&str] = &["operations, lengths of sequences, point sets and settings as listed in DESIGN.md", "points without ties in distance, so that answers are determined"];

const FAULT_RULE: &str = "Each evaluation makes one fault happen to one dump of a real index and looks at what the dump call reports and at every way of reloading what it left: \
the device full after each number of bytes, each write or open failing once with each errno, writes accepting at most n bytes, the process interrupted between any two file calls or after any byte of one \
(onto nothing or onto an earlier dump), and each pair of lengths to which the two files are cut. Counted as distinct: different contents (or lengths) of the two files left behind.";
const FAULT_ASSUME: &[&str] = &["files keep a prefix of what was written to them", "dumped indexes as listed in DESIGN.md"];

/// two parts of a check share its time
fn both(a: fn(std::time::Instant), b: fn(std::time::Instant)) {
    let c = crate::ctx::ctx();
    b(c.start + (c.deadline - c.start) / 2);
    a(c.deadline);
}

fn both_until(u: std::time::Instant, a: fn(std::time::Instant), b: fn(std::time::Instant)) {
    let now = std::time::Instant::now();
    b(now + (u.max(now) - now) / 2);
    a(u);
}

pub const CHECKS: &[Check] = &[
    Check { prop: "C01", level: "model_checking", rule: SCHED_RULE, assumptions: SCHED_ASSUME, run: crate::conc::c01 },
    Check { prop: "C02", level: "model_checking", rule: SCHED_RULE, assumptions: SCHED_ASSUME, run: crate::conc::c02 },
    Check { prop: "C03", level: "model_checking", rule: SCHED_RULE, assumptions: SCHED_ASSUME, run: || both(crate::conc::c03, |u| both_until(u, crate::hist::c03, crate::big::c03)) },
    Check { prop: "C04", level: "model_checking", rule: SCHED_RULE, assumptions: SCHED_ASSUME, run: || both(crate::conc::c04, |u| both_until(u, crate::hist::c04, crate::big::c04)) },
    Check { prop: "C08", level: "model_checking", rule: SCHED_RULE, assumptions: SCHED_ASSUME, run: || both(crate::conc::c08_conc, |u| both_until(u, crate::hist::c08, crate::big::c08)) },
    Check { prop: "C09", level: "model_checking", rule: SCHED_RULE, assumptions: SCHED_ASSUME, run: crate::conc::c09 },
    Check { prop: "C23", level: "model_checking", rule: SCHED_RULE, assumptions: SCHED_ASSUME, run: crate::conc::c23 },
    Check { prop: "C20", level: "model_checking", rule: SCHED_RULE, assumptions: SCHED_ASSUME, run: || both(crate::conc::c20_conc, |u| both_until(u, crate::hist::c20, |u| both_until(u, crate::iochk::c20_reload, crate::big::c20))) },
    Check { prop: "C05", level: "model_checking", rule: HIST_RULE, assumptions: HIST_ASSUME, run: || both(crate::hist::c05, crate::big::c05) },
    Check { prop: "C06", level: "model_checking", rule: HIST_RULE, assumptions: HIST_ASSUME, run: || both(crate::hist::c06, crate::big::c06) },
    Check { prop: "C07", level: "model_checking", rule: HIST_RULE, assumptions: HIST_ASSUME, run: || both(crate::hist::c07, crate::big::c07) },
    Check { prop: "C18", level: "model_checking", rule: HIST_RULE, assumptions: HIST_ASSUME, run: || both(crate::hist::c18, crate::big::c18) },
    Check { prop: "C22", level: "model_checking", rule: HIST_RULE, assumptions: HIST_ASSUME, run: || both(crate::hist::c22, crate::big::c22) },
    Check { prop: "C10", level: "model_checking", rule: IO_RULE, assumptions: IO_ASSUME, run: || crate::iochk::c10(crate::ctx::ctx().deadline) },
    Check { prop: "C11", level: "model_checking", rule: IO_RULE, assumptions: IO_ASSUME, run: || crate::iochk::c11(crate::ctx::ctx().deadline) },
    Check { prop: "C12", level: "model_checking", rule: IO_RULE, assumptions: IO_ASSUME, run: || crate::iochk::c12(crate::ctx::ctx().deadline) },
    Check { prop: "C13", level: "fault_enumeration", rule: FAULT_RULE, assumptions: FAULT_ASSUME, run: || crate::faults::c13(crate::ctx::ctx().deadline) },
    Check { prop: "C14", level: "model_checking", rule: IO_RULE, assumptions: IO_ASSUME, run: crate::iochk::c14 },
    Check { prop: "C15", level: "model_checking", rule: IO_RULE, assumptions: IO_ASSUME, run: || crate::iochk::c15(crate::ctx::ctx().deadline) },
    Check { prop: "C16", level: "model_checking", rule: IO_RULE, assumptions: IO_ASSUME, run: || crate::iochk::c16(crate::ctx::ctx().deadline) },
    Check { prop: "C17", level: "model_checking", rule: IO_RULE, assumptions: IO_ASSUME, run: || crate::iochk::c17(crate::ctx::ctx().deadline) },
    Check { prop: "C19", level: "model_checking", rule: IO_RULE, assumptions: IO_ASSUME, run: || crate::cext::c19(crate::ctx::ctx().deadline) },
    Check { prop: "C21", level: "model_checking", rule: IO_RULE, assumptions: IO_ASSUME, run: || crate::iochk::c21(crate::ctx::ctx().deadline) },
    Check { prop: "C24", level: "model_checking", rule: SEQ_RULE, assumptions: SEQ_ASSUME, run: || crate::seqs::c24(crate::ctx::ctx().deadline) },
    Check { prop: "C25", level: "model_checking", rule: SEQ_RULE, assumptions: SEQ_ASSUME, run: || crate::seqs::c25(crate::ctx::ctx().deadline) },
];

pub fn find(p: &str) -> Option<&'static Check> {
    CHECKS.iter().find(|c| c.prop == p)
}
