//! Inputs and oracles shared by the harnesses.
use crate::sym;
use nalgebra::DMatrix;
use walky::datastructures::NAMatrix;

pub const HI: i64 = 1 << 20;

/// deterministic generator for template values
pub struct Lcg(pub u64);
impl Lcg {
    pub fn next(&mut self, m: u64) -> u64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (self.0 >> 33) % m
    }
}

/// An instance as a plain row-major table, independent of the code under test.
pub struct Inst {
    pub n: usize,
    pub d: Vec<f64>,
    /// an optimal tour, if the instance has been built around one
    pub ring: Vec<usize>,
}
impl Inst {
    pub fn at(&self, i: usize, j: usize) -> f64 {
        self.d[i * self.n + j]
    }
    pub fn set(&mut self, i: usize, j: usize, c: f64) {
        let n = self.n;
        self.d[i * n + j] = c;
        self.d[j * n + i] = c;
    }
    pub fn matrix(&self) -> NAMatrix {
        NAMatrix(DMatrix::from_vec(self.n, self.n, self.d.clone()))
    }
    pub fn cycle(&self, p: &[usize]) -> f64 {
        let mut s = 0.0;
        for k in 0..p.len() {
            s += self.at(p[k], p[(k + 1) % p.len()]);
        }
        s
    }
    pub fn is_metric(&self) -> bool {
        let n = self.n;
        let mut ok = true;
        for i in 0..n {
            for j in i + 1..n {
                for k in 0..n {
                    if k != i && k != j {
                        ok &= self.at(i, j) <= self.at(i, k) + self.at(k, j);
                    }
                }
            }
        }
        ok
    }
}

pub fn in_unit(unit: i64, c: f64) -> f64 {
    match unit {
        1 => c * f64::from_bits((1023 - 60) << 52),
        2 => c * f64::from_bits((1023 + 70) << 52),
        3 => c + (1u64 << 40) as f64,
        4 => c * f64::from_bits((1023 - 20) << 52),
        _ => c,
    }
}

/// Symmetric instance on `n` vertices. `k` edges (positions depend on `seed`) carry symbolic
/// integer-valued costs in `0..=HI`; the other edges are fixed template costs. `k >= n(n-1)/2`
/// makes every edge symbolic. `kind` 0: arbitrary costs, 1: restricted to the triangle inequality,
/// 2 and 3: metric and arbitrary template without that restriction, costs up to 1000, 4: template costs 0..2 (zeros and ties),
/// 6 and 7: costs of different magnitudes, 5: the symbolic edges share the vertex `seed % n`.
///
/// The hundreds of `kind` say in which unit the costs are measured: 1: 2^-60, 2: 2^70, 4: 2^-20,
/// and 3 adds 2^40 to every cost. Sums of such costs are exact in an f64 as well.
pub fn instance(n: usize, k: usize, seed: u64, kind: i64) -> Inst {
    let (unit, kind) = (kind / 100, kind % 100);
    let sc = |c: f64| in_unit(unit, c);
    let mut inst = Inst { n, d: vec![0.0; n * n], ring: vec![] };
    let mut r = Lcg(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0x1234567);
    for _ in 0..4 {
        r.next(2);
    }
    let mut edges = vec![];
    for i in 0..n {
        for j in i + 1..n {
            edges.push((i, j));
        }
    }
    let m = edges.len();
    // points on a grid give a metric template; otherwise arbitrary costs
    let pts: Vec<(i64, i64)> = (0..n).map(|_| (r.next(50) as i64, r.next(50) as i64)).collect();
    let mut order: Vec<usize> = (0..m).collect();
    for i in (1..m).rev() {
        let j = r.next(i as u64 + 1) as usize;
        order.swap(i, j);
    }
    if kind == 5 {
        // the symbolic edges share a vertex
        let v = seed as usize % n;
        order.sort_by_key(|&e| edges[e].0 != v && edges[e].1 != v);
    }
    let mut is_sym = vec![false; m];
    for &e in order.iter().take(k) {
        is_sym[e] = true;
    }
    // kind 8: a ring of cheap edges (0..9), all others cost 1000 and more
    let mut on_ring = vec![false; if kind == 8 { n * n } else { 0 }];
    if kind == 8 {
        assert!(n <= 100);
        let mut ring: Vec<usize> = (0..n).collect();
        for i in (1..n).rev() {
            let j = r.next(i as u64 + 1) as usize;
            ring.swap(i, j);
        }
        for i in 0..n {
            let (a, b) = (ring[i], ring[(i + 1) % n]);
            on_ring[a * n + b] = true;
            on_ring[b * n + a] = true;
        }
        inst.ring = ring;
        // every other symbolic edge is on the ring
        order.sort_by_key(|&e| !on_ring[edges[e].0 * n + edges[e].1]);
        is_sym = vec![false; m];
        for x in 0..k.min(m) {
            is_sym[order[if x % 2 == 0 { x / 2 } else { m - 1 - x / 2 }]] = true;
        }
    }
    for e in 0..m {
        let (i, j) = edges[e];
        let c = if kind == 8 {
            match (is_sym[e], on_ring[i * n + j]) {
                (true, true) => sc(sym::f(0, 9)),
                (true, false) => sc(sym::f(1000, HI)),
                (false, true) => sym::fixed(sc(r.next(10) as f64)),
                (false, false) => sym::fixed(sc((1000 + r.next(1000)) as f64)),
            }
        } else if is_sym[e] {
            sc(sym::f(0, if kind == 2 || kind == 3 { 1000 } else { HI }))
        } else if kind == 1 || kind == 2 {
            sym::fixed(sc(((pts[i].0 - pts[j].0).abs() + (pts[i].1 - pts[j].1).abs()) as f64))
        } else if kind == 4 {
            sym::fixed(sc(r.next(3) as f64))
        } else if kind == 6 {
            sym::fixed(sc([0.0, 1.0, 10.0, 100.0, 1000.0][r.next(5) as usize]))
        } else if kind == 7 {
            // few cheap edges
            sym::fixed(sc(if r.next(3) == 0 { r.next(5) } else { 30 + r.next(60) } as f64))
        } else {
            sym::fixed(sc((1 + r.next(60)) as f64))
        };
        inst.set(i, j, c);
    }
    if kind == 1 {
        sym::assume(inst.is_metric());
    }
    inst
}

/// `cost <=` the cost of every tour (vertex 0 first, one direction of each)
pub fn no_cheaper_tour(inst: &Inst, cost: f64) -> bool {
    let n = inst.n;
    if n < 2 {
        return true;
    }
    if !inst.ring.is_empty() {
        // any other tour has an edge that costs more than the whole ring
        return cost <= inst.cycle(&inst.ring);
    }
    let mut p: Vec<usize> = (0..n).collect();
    let mut ok = true;
    perms(&mut p, 1, &mut |p| {
        if n < 3 || p[1] < p[n - 1] {
            ok &= cost <= inst.cycle(p);
        }
    });
    ok
}
pub fn perms(p: &mut Vec<usize>, k: usize, f: &mut dyn FnMut(&[usize])) {
    if k >= p.len() {
        f(p);
        return;
    }
    for i in k..p.len() {
        p.swap(k, i);
        perms(p, k + 1, f);
        p.swap(k, i);
    }
}
pub fn is_perm(p: &[usize], n: usize) -> bool {
    if p.len() != n {
        return false;
    }
    let mut seen = vec![false; n];
    for &v in p {
        if v >= n || seen[v] {
            return false;
        }
        seen[v] = true;
    }
    true
}
/// parallel variants run on the model of rayon-core; mode 1 leaves `budget` scheduling decisions
/// to the solver
pub fn configure_rayon(parallel: i64, budget: i64) {
    let par = parallel == 1 || parallel == 4;
    rayon_core::__configure((par && budget > 0) as u64, 4, budget.max(0) as u64);
}
