use crate::common::*;
use crate::sym;
use walky::datastructures::NAMatrix;
use walky::solvers::exact;

fn check_solution(inst: &Inst, sol: &(f64, Vec<usize>)) {
    sym::error(sol.0, inst.cycle(&sol.1), "the returned cost is the cost of the cycle, rounding errors aside");
    sym::check(is_perm(&sol.1, inst.n), "the returned path visits every vertex exactly once");
    sym::check(sol.0 == inst.cycle(&sol.1), "the returned cost is the cost of the returned cycle");
    sym::check(no_cheaper_tour(inst, sol.0), "no tour is cheaper than the returned cost");
}

pub fn solve(v: i64, m: &NAMatrix) -> (f64, Vec<usize>) {
    match v {
        0 => exact::naive_solver(m),
        1 => exact::first_improved_solver(m),
        2 => exact::second_improved_solver(m),
        3 => exact::third_improved_solver(m),
        4 => exact::fourth_improved_solver(m),
        5 => exact::fifth_improved_solver(m),
        _ => exact::sixth_improved_solver(m),
    }
}

/// params: solver, n, number of symbolic edges, seed, kind
pub fn h_exact() {
    let (v, n, k, seed, kind) =
        (sym::param(0), sym::param(1) as usize, sym::param(2) as usize, sym::param(3) as u64, sym::param(4));
    let inst = instance(n, k, seed, kind);
    let m = inst.matrix();
    let sol = solve(v, &m);
    sym::reach("solved");
    check_solution(&inst, &sol);
}

/// the multi-threaded solver; the tasks of its scope are threads (the number is an option of the
/// executor). params: n, number of symbolic edges, seed, kind, tasks as threads
pub fn h_threaded() {
    let inst = instance(sym::param(0) as usize, sym::param(1) as usize, sym::param(2) as u64, sym::param(3));
    let m = inst.matrix();
    rayon_core::__configure(2 * (sym::param(4) != 0) as u64, 4, 0);
    let sol = exact::threaded_solver(&m);
    sym::reach("solved");
    check_solution(&inst, &sol);
}
