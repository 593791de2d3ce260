//! Nearest neighbour, Christofides and the matching heuristic.
use crate::common::*;
use crate::sym;
use walky::computation_mode::{PAR_COMPUTATION, SEQ_COMPUTATION};
use walky::datastructures::{Graph, NAMatrix};
use walky::solvers::approximate::{christofides, matching, nearest_neighbour as nn};

/// every step of the path goes to a nearest unvisited vertex
pub fn greedy(inst: &Inst, p: &[usize]) -> bool {
    let mut ok = true;
    for k in 0..p.len().saturating_sub(1) {
        for j in k + 2..p.len() {
            ok &= inst.at(p[k], p[k + 1]) <= inst.at(p[k], p[j]);
        }
    }
    ok
}
pub fn check_nn(inst: &Inst, sol: &(f64, Vec<usize>)) {
    sym::error(sol.0, inst.cycle(&sol.1), "the returned cost is the cost of the cycle, rounding errors aside");
    sym::check(is_perm(&sol.1, inst.n), "the path visits every vertex exactly once");
    sym::check(sol.0 == inst.cycle(&sol.1), "the cost is the cost of the returned cycle");
    sym::check(greedy(inst, &sol.1), "every step goes to a nearest unvisited vertex");
}
/// params: variant (0 single, 1 seq, 2 par), n, symbolic edges, seed, kind, start or number of starts
pub fn h_nn() {
    let (v, n, k, seed, kind) =
        (sym::param(0), sym::param(1) as usize, sym::param(2) as usize, sym::param(3) as u64, sym::param(4));
    let q = sym::param(5) as usize;
    let inst = instance(n, k, seed, kind);
    let m = inst.matrix();
    if v == 0 {
        let sol = nn::single_nearest_neighbour(&m, q);
        sym::reach("computed");
        sym::check(sol.1[0] == q, "the path starts at the given vertex");
        check_nn(&inst, &sol);
        return;
    }
    rand::__configure(sym::param(6) as u64, 0);
    configure_rayon(v - 1, sym::param(7));
    let sol = match (v, q == n) {
        (1, true) => nn::nearest_neighbour::<SEQ_COMPUTATION>(&m),
        (1, false) => nn::n_nearest_neighbour::<SEQ_COMPUTATION>(&m, q),
        (_, true) => nn::nearest_neighbour::<PAR_COMPUTATION>(&m),
        (_, false) => nn::n_nearest_neighbour::<PAR_COMPUTATION>(&m, q),
    };
    sym::reach("computed");
    check_nn(&inst, &sol);
    // the best of q different start vertices
    let mut not_worse = 0usize;
    let mut some = false;
    for s in 0..n {
        let c = nn::single_nearest_neighbour(&m, s).0;
        not_worse += (sol.0 <= c) as usize;
        some |= sol.0 == c;
    }
    sym::check(not_worse >= q, "the result is not worse than the tours of the given number of start vertices");
    sym::check(some, "the cost is the cost of the tour from some start vertex");
}

fn odd(g: &Graph) -> Vec<usize> {
    (0..g.vertices.len()).filter(|&i| g.vertices[i].edges.len() % 2 == 1).collect()
}
/// all perfect matchings of `vs`
fn matchings(vs: &[usize], cur: &mut Vec<[usize; 2]>, out: &mut Vec<Vec<[usize; 2]>>) {
    if vs.is_empty() {
        out.push(cur.clone());
        return;
    }
    for j in 1..vs.len() {
        let rest: Vec<usize> = (1..vs.len()).filter(|&x| x != j).map(|x| vs[x]).collect();
        cur.push([vs[0], vs[j]]);
        matchings(&rest, cur, out);
        cur.pop();
    }
}
static mut ODD: Vec<usize> = Vec::new();
static mut USED: Vec<[usize; 2]> = Vec::new();
/// a minimum perfect matching of the vertices of odd degree
fn exact_matching(mst: &Graph, m: &NAMatrix) -> Vec<[usize; 2]> {
    let o = odd(mst);
    let mut all = vec![];
    matchings(&o, &mut vec![], &mut all);
    let w = |x: &Vec<[usize; 2]>| x.iter().fold(0.0, |a, e| a + m[(e[0], e[1])]);
    let mut best = 0;
    for i in 1..all.len() {
        if w(&all[i]) < w(&all[best]) {
            best = i;
        }
    }
    let r = all[best].clone();
    unsafe {
        ODD = o;
        USED = r.clone();
    }
    r
}
/// any perfect matching of the vertices of odd degree
fn any_matching(mst: &Graph, _m: &NAMatrix) -> Vec<[usize; 2]> {
    let o = odd(mst);
    let mut all = vec![];
    matchings(&o, &mut vec![], &mut all);
    let r = all[sym::choice(all.len())].clone();
    unsafe {
        ODD = o;
        USED = r.clone();
    }
    r
}
/// params: variant, n, symbolic edges, seed, kind, matching (0 built in, 1 exact, 2 any), random budget, rayon
pub fn h_christofides() {
    let (v, n, k, seed, kind) =
        (sym::param(0), sym::param(1) as usize, sym::param(2) as usize, sym::param(3) as u64, sym::param(4));
    let how = sym::param(5);
    let inst = instance(n, k, seed, kind);
    let m = inst.matrix();
    rand::__configure(sym::param(6) as u64, 0);
    configure_rayon(v, sym::param(7));
    let f: fn(&Graph, &NAMatrix) -> Vec<[usize; 2]> = if how == 1 { exact_matching } else { any_matching };
    let sol = match (v, how) {
        (0, 0) => christofides::christofides::<SEQ_COMPUTATION>(&m),
        (_, 0) => christofides::christofides::<PAR_COMPUTATION>(&m),
        (0, _) => christofides::christofides_generic::<SEQ_COMPUTATION>(&m, f),
        (_, _) => christofides::christofides_generic::<PAR_COMPUTATION>(&m, f),
    };
    sym::reach("computed");
    check_christofides(&inst, &sol);
    if how == 1 {
        sym::check(
            no_cheaper_tour_than_two_thirds(&inst, sol.0),
            "with a minimum matching the cost is at most 3/2 of the cost of any tour",
        );
    }
    if how >= 1 {
        // shortcutting never costs more than the tree and the matching
        let t = walky::mst::prim::<SEQ_COMPUTATION>(&m).undirected_edge_weight();
        let w = unsafe { USED.iter().fold(0.0, |a, e| a + inst.at(e[0], e[1])) };
        if kind % 100 == 1 {
            sym::check(sol.0 <= t + w, "the cost is at most the weight of the tree and of the matching");
        }
    }
}
fn no_cheaper_tour_than_two_thirds(inst: &Inst, cost: f64) -> bool {
    let n = inst.n;
    let mut p: Vec<usize> = (0..n).collect();
    let mut ok = true;
    perms(&mut p, 1, &mut |p| {
        if n < 3 || p[1] < p[n - 1] {
            ok &= 2.0 * cost <= 3.0 * inst.cycle(p);
        }
    });
    ok
}
pub fn check_christofides(inst: &Inst, sol: &(f64, Vec<usize>)) {
    let n = inst.n;
    sym::error(sol.0, inst.cycle(&sol.1[1..]), "the returned cost is the cost of the cycle, rounding errors aside");
    sym::check(sol.1.len() == n + 1, "the cycle is closed: it has one vertex more than the graph");
    sym::check(sol.1[0] == sol.1[n], "the cycle ends where it starts");
    sym::check(is_perm(&sol.1[..n], n), "the cycle visits every vertex exactly once");
    sym::check(sol.0 == inst.cycle(&sol.1[..n]), "the cost is the cost of the returned cycle");
}

pub fn is_perfect(mt: &[[usize; 2]], vs: &[usize]) -> bool {
    let mut seen = vec![];
    let mut ok = mt.len() * 2 == vs.len();
    for e in mt {
        for &x in e {
            ok &= vs.contains(&x) && !seen.contains(&x);
            seen.push(x);
        }
    }
    ok
}
/// params: variant, n, symbolic edges, seed, kind, vertex mask, tries, random budget, rayon
pub fn h_matching() {
    let (v, n, k, seed, kind) =
        (sym::param(0), sym::param(1) as usize, sym::param(2) as usize, sym::param(3) as u64, sym::param(4));
    let (mask, tries) = (sym::param(5), sym::param(6) as usize);
    let inst = instance(n, k, seed, kind);
    let m = inst.matrix();
    let vs: Vec<usize> = (0..n).filter(|i| mask >> (i % 62) & 1 == 1).collect();
    rand::__configure(sym::param(7) as u64, 0);
    configure_rayon(v, sym::param(8));
    let go = |tries: usize| {
        if v == 0 {
            matching::approx_min_cost_matching::<SEQ_COMPUTATION>(&m, vs.clone(), tries)
        } else {
            matching::approx_min_cost_matching::<PAR_COMPUTATION>(&m, vs.clone(), tries)
        }
    };
    let w = |x: &[[usize; 2]]| x.iter().fold(0.0, |a, e| a + inst.at(e[0], e[1]));
    let r = go(tries);
    sym::reach("computed");
    sym::check(is_perfect(&r, &vs), "every given vertex is in exactly one edge of the matching");
    // the same random decisions without improvement
    rand::__rewind();
    let s = go(0);
    sym::check(is_perfect(&s, &vs), "the initial matching is perfect");
    sym::check(w(&r) <= w(&s), "the improved matching is not worse than the initial one");
    if vs.len() <= 4 && tries > 0 {
        let mut all = vec![];
        matchings(&vs, &mut vec![], &mut all);
        let mut ok = true;
        for x in &all {
            ok &= w(&r) <= w(x);
        }
        sym::check(ok, "two edges are exchanged for the cheapest matching of their four vertices");
    }
}
