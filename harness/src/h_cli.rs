//! The command line driver: from the XML file to the printed result.
use crate::common::*;
use crate::h_data::xml;
use crate::h_tree::{mst_weight, one_tree_weight};
use crate::sym;
use std::path::PathBuf;
use walky::cli::*;
use walky::computation_mode::{PAR_COMPUTATION, SEQ_COMPUTATION};
use walky::solvers::approximate::christofides::christofides;
use walky::solvers::approximate::nearest_neighbour::single_nearest_neighbour;

pub const FILE: &str = "instance.xml";

/// what: 0 exact, 1 nearest neighbour, 2 Christofides, 3 lower bound; alg: exact algorithm;
/// par: 0 single-threaded, 1 multi-threaded, 2 MPI; lb: lower bound (-1: none)
pub fn command(what: i64, alg: i64, par: i64, lb: i64) -> Cli {
    use ExactAlgorithm::*;
    let input_file = PathBuf::from(FILE);
    let parallelism = match par {
        0 => Parallelism::SingleThreaded,
        #[cfg(feature = "mpi")]
        2 => Parallelism::MPI,
        _ => Parallelism::MultiThreaded,
    };
    let bound = match lb {
        0 => Some(LowerBoundAlgorithm::OneTree),
        1 => Some(LowerBoundAlgorithm::MST),
        2 => Some(LowerBoundAlgorithm::MSTQueue),
        _ => None,
    };
    let command = match what {
        0 => Commands::Exact { algorithm: [V0, V1, V2, V3, V4, V5, V6][alg as usize], input_file, parallelism },
        1 | 2 => Commands::Approx {
            algorithm: if what == 1 { ApproxAlgorithm::NearestNeighbour } else { ApproxAlgorithm::Christofides },
            input_file,
            parallelism,
            lower_bound: bound,
        },
        _ => Commands::LowerBound { algorithm: bound.unwrap(), input_file, parallelism },
    };
    Cli { command }
}

/// an instance (see `instance`) whose document is the input file of the command
pub fn document(n: usize, k: usize, seed: u64, kind: i64) -> Inst {
    let inst = instance(n, k, seed, kind);
    let doc = xml(n, &|i, q, _| if q != i { Some((sym::text(inst.at(i, q)), format!("{}", q))) } else { None });
    sym::file(FILE, doc.as_bytes());
    inst
}
/// the numbers of all lines that start with `what`
fn numbers(out: &str, what: &str) -> Vec<f64> {
    out.lines().filter_map(|l| l.strip_prefix(what)).map(|x| x.parse().unwrap_or(f64::NAN)).collect()
}
fn lists(out: &str, what: &str) -> Vec<Vec<usize>> {
    out.lines()
        .filter_map(|l| l.strip_prefix(what))
        .map(|x| x.trim_matches(|c| c == '[' || c == ']').split(", ").map(|y| y.parse().unwrap_or(usize::MAX)).collect())
        .collect()
}
/// does the output `out` of the command tell the truth about the instance? `count`: allowed
/// numbers of repetitions of the result (MPI: the processes may print it, too)
pub fn judge(inst: &Inst, out: &str, what: i64, lb: i64, size: usize) {
    let n = inst.n;
    let all: Vec<usize> = (0..n).collect();
    let printed = |v: usize| v == 1 || (v > 1 && v <= size);
    if what == 0 {
        let (c, p) = (numbers(out, "Best Cost: "), lists(out, "Best Permutation: "));
        sym::check(printed(c.len()) && printed(p.len()), "the cost and the permutation are printed");
        for p in &p {
            sym::check(is_perm(p, n), "the printed permutation visits every vertex exactly once");
            sym::check(c[0] == inst.cycle(p), "the printed cost is the cost of the printed permutation");
        }
        sym::check(same(&c), "every process prints the same cost");
        sym::check(no_cheaper_tour(inst, c[0]), "the printed cost is the cost of a cheapest tour");
    } else if what == 1 {
        let (c, p) = (numbers(out, "Nearest Neighbour solution weight: "), lists(out, "Nearest Neighbour solution: "));
        sym::check(printed(c.len()) && printed(p.len()), "the weight and the tour are printed");
        let m = inst.matrix();
        for p in &p {
            sym::check(is_perm(p, n), "the printed tour visits every vertex exactly once");
            sym::check(c[0] == inst.cycle(p), "the printed weight is the weight of the printed tour");
        }
        let mut best = f64::INFINITY;
        for k in 0..n {
            let w = single_nearest_neighbour(&m, k).0;
            best = sym::ite(w < best, w, best);
        }
        sym::check(same(&c), "every process prints the same weight");
        sym::check(c[0] == best, "the printed tour is the best nearest-neighbour tour");
    } else if what == 2 {
        let c = numbers(out, "Christofides solution weight: ");
        sym::check(c.len() == 1, "the weight is printed once");
        let w = c[0];
        if n > 7 {
            // with the same random decisions
            let m = inst.matrix();
            rand::__rewind();
            let direct = if sym::param(2) == 0 { christofides::<SEQ_COMPUTATION>(&m) } else { christofides::<PAR_COMPUTATION>(&m) };
            sym::check(w == direct.0, "the printed weight is the weight of a tour");
        }
        let mut p = if n > 7 { vec![] } else { all.clone() };
        let mut found = false;
        let mut short = true;
        perms(&mut p, 1, &mut |p| {
            let x = inst.cycle(p);
            found |= x == w;
            short &= 2.0 * w <= 3.0 * x;
        });
        sym::check(n > 7 || found, "the printed weight is the weight of a tour");
        // at most four odd vertices: the heuristic finds their cheapest matching
        sym::check(n > 5 || short, "the tour is at most half as long again as the best one");
    }
    let (t, m) = (numbers(out, "1-tree lower bound: "), numbers(out, "MST lower bound: "));
    if lb == 0 {
        sym::check(t.len() == 1 && m.is_empty(), "the 1-tree lower bound is printed once");
        let mut b = 0.0;
        for s in 0..n {
            let w = if n < 3 { 0.0 } else { one_tree_weight(inst, s) };
            b = sym::ite(w > b, w, b);
        }
        sym::check(n < 3 || t[0] == b, "the printed 1-tree lower bound is the largest weight of the minimum 1-trees");
    } else if lb > 0 {
        sym::check(t.is_empty() && printed(m.len()), "the MST lower bound is printed");
        sym::check(same(&m), "every process prints the same bound");
        sym::check(m[0] == mst_weight(inst, &all), "the printed MST lower bound is the weight of the minimum spanning tree");
    } else {
        sym::check(t.is_empty() && m.is_empty(), "no lower bound is printed without request");
    }
}
fn same(x: &[f64]) -> bool {
    let mut r = true;
    for y in x {
        r &= *y == x[0];
    }
    r
}
pub fn captured() -> String {
    let mut buf = vec![0u8; 1 << 15];
    let k = sym::stdout(&mut buf);
    assert!(k < buf.len(), "the output is longer than the harness reads");
    buf.truncate(k);
    String::from_utf8(buf).unwrap_or_default()
}

/// params: what, algorithm, parallelism, lower bound, n, symbolic edges, seed, kind
pub fn h_cli() {
    let p = sym::param;
    let inst = document(p(4) as usize, p(5) as usize, p(6) as u64, p(7));
    let cli = command(p(0), p(1), p(2), p(3));
    rand::__configure(0, 0);
    sym::capture();
    let ok = walky::run(cli).is_ok();
    sym::check(ok, "the command succeeds");
    sym::reach("computed");
    judge(&inst, &captured(), p(0), p(3), 1);
}

/// a document that is not acceptable yields an error, and no result is printed.
/// params: what, algorithm, parallelism, lower bound, defect
pub fn h_cli_reject() {
    let p = sym::param;
    let n = 3;
    // the defect is at a symbolic position
    let (x, y) = (sym::u(0, 2) as usize, sym::u(0, 1) as usize);
    let doc = xml(n, &|i, q, _| {
        if q == i {
            return None;
        }
        let hit = i == sym::val(x) && (if q < i { q } else { q - 1 }) == sym::val(y);
        let (c, t) = match p(4) {
            0 if hit => return None,
            1 if hit => ("9".to_string(), q),
            2 if hit => ("1".to_string(), i),
            3 if hit => ("1".to_string(), 3),
            4 if hit => ("1x".to_string(), q),
            _ => ("1".to_string(), q),
        };
        Some((c, format!("{}", t)))
    });
    if p(4) < 5 {
        sym::file(FILE, doc.as_bytes());
    }
    let cli = command(p(0), p(1), p(2), p(3));
    rand::__configure(0, 0);
    sym::capture();
    // refusing the document by a panic is allowed
    sym::reach("decided");
    sym::allow_panic(true);
    let r = walky::run(cli);
    sym::allow_panic(false);
    let bad = r.is_err();
    std::mem::forget(r);
    sym::check(bad, "a document that is not acceptable is refused");
    sym::check(captured().is_empty(), "nothing is printed for a document that is not acceptable");
}
