//! The MPI variants on the model of rsmpi (stubs/mpi): every rank runs the real code.
use crate::common::*;
use crate::sym;
use mpi::traits::*;
use walky::datastructures::{AdjacencyMatrix, NAMatrix};
use walky::solvers::approximate::{christofides, matching, nearest_neighbour};
use walky::solvers::exact;

const MPI: usize = walky::computation_mode::MPI_COMPUTATION;

struct State {
    inst: Inst,
    what: i64,
    arg: i64,
    bound: Vec<f64>,
    sol: Vec<Option<(f64, Vec<usize>)>>,
    pairs: Vec<Option<Vec<[usize; 2]>>>,
    /// added to the rank to get the stream of random numbers it draws from
    stream: usize,
}
static mut S: Option<State> = None;
#[allow(static_mut_refs)]
#[inline(never)]
fn st() -> &'static mut State {
    unsafe { S.as_mut().unwrap() }
}

fn world(what: i64, arg: i64, inst: Inst, size: usize, sync: i64, policy: i64, from: i64, len: i64) {
    unsafe {
        S = Some(State {
            inst,
            what,
            arg,
            bound: vec![0.0; size],
            sol: (0..size).map(|_| None).collect(),
            pairs: (0..size).map(|_| None).collect(),
            stream: 0,
        });
    }
    let left = mpi::model::run(size, sync != 0, policy as u64, (from as u64, len as u64), rank_main);
    sym::reach("finished");
    sym::check(left == 0, "every message is received");
}

fn rank_main(r: usize) {
    let s = st();
    let m = s.inst.matrix();
    match s.what {
        0 => s.sol[r] = Some(exact::static_mpi_solver_generic(&m, s.arg as usize)),
        1 => s.sol[r] = Some(exact::dynamic_mpi_solver(&m)),
        2 => s.sol[r] = Some(exact::static_mpi_solver(&m)),
        3 => s.sol[r] = Some(nearest_neighbour::nearest_neighbour::<MPI>(&m)),
        4 => s.bound[r] = walky::one_tree::one_tree_lower_bound::<MPI>(&m),
        5 => {
            // like the command line driver, which initialises MPI before it calls the bound
            let universe = mpi::initialize().unwrap();
            s.bound[r] = walky::one_tree::one_tree_lower_bound::<MPI>(&m);
            drop(universe);
        }
        6 | 7 => {
            // like the command line driver: the root computes, the others help with the matching
            let universe = mpi::initialize().unwrap();
            let world = universe.world();
            let rank = world.rank();
            let root = world.process_at_rank(0);
            if rank == 0 {
                if s.what == 6 {
                    s.sol[r] = Some(christofides::christofides::<MPI>(&m));
                } else {
                    let v: Vec<usize> = (0..s.inst.n).filter(|i| s.arg >> i & 1 == 1).collect();
                    let tries = (s.arg >> 32) as usize;
                    s.pairs[r] = Some(matching::approx_min_cost_matching::<MPI>(&m, v, tries));
                }
            } else {
                let mut tries = 0;
                let dummy = NAMatrix::from_dim(1);
                let (mut pairs, graph) =
                    matching::bootstrap_mpi_matching_calc(&root, &mut [], rank, &mut tries, &dummy);
                sym::check(graph == m, "the processes receive the cost matrix");
                matching::mpi_improve_matching(&graph, pairs.as_mut_slice(), tries, world);
                s.pairs[r] = Some(pairs);
            }
        }
        9 => {
            // every process improves the matching of the root with its own random numbers
            let universe = mpi::initialize().unwrap();
            let world = universe.world();
            let rank = world.rank();
            let root = world.process_at_rank(0);
            let mut tries = (s.arg >> 32) as usize;
            let mut pairs: Vec<[usize; 2]> = (0..(s.arg & 0xffff_ffff) as usize).map(|i| [2 * i, 2 * i + 1]).collect();
            if rank != 0 {
                let dummy = NAMatrix::from_dim(1);
                pairs = matching::bootstrap_mpi_matching_calc(&root, &mut [], rank, &mut tries, &dummy).0;
            }
            matching::mpi_improve_matching(&m, pairs.as_mut_slice(), tries, world);
            s.pairs[r] = Some(pairs);
        }
        _ => {
            // the whole program on every rank
            let ok = walky::run(crate::h_cli::command(s.arg & 3, s.arg >> 2 & 7, 2, (s.arg >> 5) - 1)).is_ok();
            sym::check(ok, "the command succeeds");
        }
    }
}

/// params: what, algorithm, lower bound (see `command` in h_cli), n, symbolic edges, seed, kind,
/// processes, sync, policy, first open decision, number of open decisions
pub fn h_mpi_cli() {
    let p = sym::param;
    let inst = crate::h_cli::document(p(3) as usize, p(4) as usize, p(5) as u64, p(6));
    let size = p(7) as usize;
    rand::__configure(0, 0);
    sym::capture();
    world(8, p(0) | p(1) << 2 | (p(2) + 1) << 5, inst, size, p(8), p(9), p(10), p(11));
    crate::h_cli::judge(&st().inst, &crate::h_cli::captured(), p(0), p(2), size);
}

/// params: what (0 static with a prefix length, 1 dynamic, 2 static), prefix length, n, symbolic
/// edges, seed, kind, processes, sync, policy, first open decision, number of open decisions
pub fn h_mpi_exact() {
    let p = sym::param;
    let inst = instance(p(2) as usize, p(3) as usize, p(4) as u64, p(5));
    let size = p(6) as usize;
    world(p(0), p(1), inst, size, p(7), p(8), p(9), p(10));
    let s = st();
    let first = s.sol[0].take().unwrap();
    sym::error(first.0, s.inst.cycle(&first.1), "the returned cost is the cost of the cycle, rounding errors aside");
    sym::check(is_perm(&first.1, s.inst.n), "the returned path visits every vertex exactly once");
    sym::check(first.0 == s.inst.cycle(&first.1), "the returned cost is the cost of the returned cycle");
    sym::check(no_cheaper_tour(&s.inst, first.0), "no tour is cheaper than the returned cost");
    for r in 1..size {
        let other = s.sol[r].take().unwrap();
        sym::check(other.0 == first.0, "all processes return the same cost");
        sym::check(other.1 == first.1, "all processes return the same tour");
    }
}

/// params: what (3 nearest neighbour, 4 and 5 1-tree), n, symbolic edges, seed, kind, processes,
/// sync, policy, first open decision, number of open decisions
pub fn h_mpi_bounds() {
    let p = sym::param;
    let inst = instance(p(1) as usize, p(2) as usize, p(3) as u64, p(4));
    let (n, size) = (inst.n, p(5) as usize);
    world(p(0), 0, inst, size, p(6), p(7), p(8), p(9));
    let s = st();
    let m = s.inst.matrix();
    if p(0) == 3 {
        let first = s.sol[0].take().unwrap();
        sym::error(first.0, s.inst.cycle(&first.1), "the returned cost is the cost of the cycle, rounding errors aside");
        sym::check(is_perm(&first.1, n), "the returned path visits every vertex exactly once");
        sym::check(first.0 == s.inst.cycle(&first.1), "the returned cost is the cost of the returned cycle");
        let mut best = f64::INFINITY;
        for k in 0..n {
            let (c, _) = nearest_neighbour::single_nearest_neighbour(&m, k);
            best = sym::ite(c < best, c, best);
        }
        sym::check(first.0 == best, "the tour is the best of the tours from all start vertices");
        for r in 1..size {
            let other = s.sol[r].take().unwrap();
            sym::check(other.0 == first.0, "all processes return the same cost");
            sym::check(other.1 == first.1, "all processes return the same tour");
        }
    } else {
        // only the root has to know the result
        let b = s.bound[0];
        let mut best = 0.0;
        for k in 0..n {
            let c = walky::one_tree::one_tree(&m, k).undirected_edge_weight();
            best = sym::ite(c > best, c, best);
        }
        sym::check(b == best, "the bound is the largest weight of the minimum 1-trees");
        sym::check(no_cheaper_tour(&s.inst, b), "the bound is not above the cost of a tour");
    }
}

fn stream() -> usize {
    mpi::model::me() + st().stream
}

/// The matching that comes out is as cheap as the cheapest that any of the processes would have
/// found alone, with the same random numbers.
/// params: pairs, symbolic edges, seed, kind, tries, open random decisions, processes, sync, seed
/// of the random numbers
pub fn h_mpi_best_matching() {
    let p = sym::param;
    let n = 2 * p(0) as usize;
    let inst = instance(n, p(1) as usize, p(2) as u64, p(3));
    let size = p(6) as usize;
    rand::__configure(p(5) as u64, p(8) as u64);
    rand::__streams(stream);
    let arg = p(0) | p(4) << 32;
    world(9, arg, inst, size, p(7), 0, 0, 0);
    let s = st();
    let a = s.pairs[0].take().unwrap();
    let mut seen = vec![0; n];
    for e in &a {
        seen[e[0]] += 1;
        seen[e[1]] += 1;
    }
    sym::check(seen.iter().all(|&x| x == 1), "the matching is perfect");
    for r in 1..size {
        sym::check(s.pairs[r].take().unwrap() == a, "all processes have the same matching");
    }
    let cost = |a: &Vec<[usize; 2]>| -> f64 {
        let mut w = 0.0;
        for e in a {
            w += s.inst.at(e[0], e[1]);
        }
        w
    };
    let start = (0..p(0) as usize).map(|i| [2 * i, 2 * i + 1]).collect();
    sym::check(cost(&a) <= cost(&start), "the matching is not worse than the initial one");
    for r in 0..size {
        st().stream = r;
        rand::__rewind();
        mpi::model::run(1, p(7) != 0, 0, (0, 0), rank_main);
        let b = st().pairs[0].take().unwrap();
        sym::check(cost(&a) <= cost(&b), "no process has found a cheaper matching");
    }
}

/// params: what (6 Christofides, 7 matching), n, symbolic edges, seed, kind, vertices, tries,
/// open random decisions, processes, sync
pub fn h_mpi_matching() {
    let p = sym::param;
    let inst = instance(p(1) as usize, p(2) as usize, p(3) as u64, p(4));
    let (n, size) = (inst.n, p(8) as usize);
    rand::__configure(p(7).max(0) as u64, 0);
    world(p(0), p(5) | p(6) << 32, inst, size, p(9), 0, 0, 0);
    let s = st();
    if p(0) == 7 {
        let a = s.pairs[0].take().unwrap();
        let mut seen = vec![0; n];
        for e in &a {
            seen[e[0]] += 1;
            seen[e[1]] += 1;
        }
        sym::check((0..n).all(|i| seen[i] == (p(5) >> i & 1)), "the matching is perfect");
        if a.len() == 2 && p(6) > 0 {
            let v: Vec<usize> = (0..n).filter(|i| p(5) >> i & 1 == 1).collect();
            let w = s.inst.at(a[0][0], a[0][1]) + s.inst.at(a[1][0], a[1][1]);
            let g = |i: usize, j: usize, k: usize, l: usize| s.inst.at(v[i], v[j]) + s.inst.at(v[k], v[l]);
            sym::check(w <= g(0, 1, 2, 3), "the matching of four vertices is the cheapest");
            sym::check(w <= g(0, 2, 1, 3), "the matching of four vertices is the cheapest");
            sym::check(w <= g(0, 3, 1, 2), "the matching of four vertices is the cheapest");
        }
        for r in 1..size {
            sym::check(s.pairs[r].take().unwrap() == a, "all processes have the same matching");
        }
    } else {
        let (cost, path) = s.sol[0].take().unwrap();
        sym::check(path.len() == n + 1 && path[0] == path[n], "the path is closed");
        sym::check(is_perm(&path[..n], n), "the returned path visits every vertex exactly once");
        sym::check(cost == s.inst.cycle(&path[..n]), "the returned cost is the cost of the returned cycle");
        if size > 1 {
            let a = s.pairs[1].take().unwrap();
            for r in 2..size {
                sym::check(s.pairs[r].take().unwrap() == a, "all processes have the same matching");
            }
            let mut w = walky::mst::prim::<0>(&s.inst.matrix()).undirected_edge_weight();
            for e in &a {
                w += s.inst.at(e[0], e[1]);
            }
            sym::check(cost <= w, "the tour is not longer than the minimum spanning tree and the matching");
        }
    }
}
