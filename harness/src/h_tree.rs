//! Minimum spanning trees and the 1-tree bound.
use crate::common::*;
use crate::sym;
use walky::computation_mode::{PAR_COMPUTATION, SEQ_COMPUTATION};
use walky::datastructures::Graph;
use walky::mst;
use walky::one_tree;

/// the adjacency lists as a plain list of undirected edges `(a, b, cost)` with `a < b`;
/// checks that both directions are present with the cost of the instance
fn edges(inst: &Inst, g: &Graph, what: &str) -> Vec<(usize, usize)> {
    let n = inst.n;
    let mut cnt = vec![0i64; n * n];
    let mut ok = g.vertices.len() == n;
    let mut costs = true;
    for (v, vert) in g.vertices.iter().enumerate() {
        for e in vert.edges.iter() {
            let to = sym::val(e.to);
            if to >= n || v >= n {
                ok = false;
                continue;
            }
            cnt[v * n + to] += 1;
            costs &= e.cost == inst.at(v, to);
        }
    }
    let mut r = vec![];
    for i in 0..n {
        ok &= cnt[i * n + i] == 0;
        for j in i + 1..n {
            ok &= cnt[i * n + j] == cnt[j * n + i];
            for _ in 0..cnt[i * n + j] {
                r.push((i, j));
            }
        }
    }
    sym::check(ok, &format!("{what}: the edges of the result are undirected edges between vertices of the graph"));
    sym::check(costs, &format!("{what}: every edge of the result has its cost in the graph"));
    r
}
fn find(c: &mut Vec<usize>, v: usize) -> usize {
    let mut v = v;
    while c[v] != v {
        v = c[v];
    }
    v
}
/// is `es` a spanning tree of the vertices in `inside`?
fn spanning_tree(n: usize, inside: &[bool], es: &[(usize, usize)]) -> bool {
    let m = inside.iter().filter(|&&b| b).count();
    if es.len() + 1 != m {
        return m == 0 && es.is_empty();
    }
    let mut c: Vec<usize> = (0..n).collect();
    for &(a, b) in es {
        if !inside[a] || !inside[b] {
            return false;
        }
        let (x, y) = (find(&mut c, a), find(&mut c, b));
        if x == y {
            return false;
        }
        c[x] = y;
    }
    true
}
/// vertices on the side of `b` after removing tree edge `k`
fn side(n: usize, es: &[(usize, usize)], k: usize) -> Vec<bool> {
    let mut s = vec![false; n];
    s[es[k].1] = true;
    for _ in 0..n {
        for (i, &(a, b)) in es.iter().enumerate() {
            if i != k && (s[a] || s[b]) {
                s[a] = true;
                s[b] = true;
            }
        }
    }
    s
}
/// cut criterion: no edge across the cut of a tree edge is cheaper than this edge
fn minimal(inst: &Inst, inside: &[bool], es: &[(usize, usize)]) -> bool {
    let n = inst.n;
    let mut ok = true;
    if n > 12 {
        // cycle criterion: no edge is cheaper than the most expensive tree edge between its ends
        let mut adj = vec![vec![]; n];
        for &(a, b) in es {
            adj[a].push(b);
            adj[b].push(a);
        }
        for i in 0..n {
            let mut todo = vec![(i, i, 0.0)];
            while let Some((v, from, most)) = todo.pop() {
                if inside[i] && inside[v] && v > i {
                    ok &= most <= inst.at(i, v);
                }
                for &w in &adj[v] {
                    if w != from {
                        let c = inst.at(v, w);
                        todo.push((w, v, sym::ite(c > most, c, most)));
                    }
                }
            }
        }
        return ok;
    }
    for k in 0..es.len() {
        let s = side(n, es, k);
        let c = inst.at(es[k].0, es[k].1);
        for i in 0..n {
            for j in i + 1..n {
                if inside[i] && inside[j] && s[i] != s[j] {
                    ok &= c <= inst.at(i, j);
                }
            }
        }
    }
    ok
}
/// the vertices from 62 on follow the bits of the others
fn excluded(mask: i64, i: usize) -> bool {
    mask >> (i % 62) & 1 == 1
}
/// params: variant, n, symbolic edges, seed, kind, excluded mask (-1: chosen by the solver)
pub fn h_mst() {
    let (v, n, k, seed, kind) =
        (sym::param(0), sym::param(1) as usize, sym::param(2) as usize, sym::param(3) as u64, sym::param(4));
    let mask = if sym::param(5) < 0 { sym::choice(1 << n) as i64 } else { sym::param(5) };
    let inst = instance(n, k, seed, kind);
    let m = inst.matrix();
    let ex: Vec<usize> = (0..n).rev().filter(|i| excluded(mask, *i)).collect();
    configure_rayon(v, sym::param(6));
    let g = match v {
        0 => mst::prim_with_excluded_node_single_threaded(&m, &ex),
        1 => mst::prim_with_excluded_node_multi_threaded(&m, &ex),
        2 => mst::prim_with_excluded_node_priority_queue(&m, &ex),
        3 => mst::prim::<SEQ_COMPUTATION>(&m),
        _ => mst::prim::<PAR_COMPUTATION>(&m),
    };
    sym::reach("computed");
    let inside: Vec<bool> = (0..n).map(|i| v > 2 || !excluded(mask, i)).collect();
    if inside.iter().all(|b| !b) {
        sym::check(
            g.vertices.iter().all(|v| v.edges.is_empty()),
            "the tree has no edges if every vertex is excluded",
        );
        return;
    }
    let es = edges(&inst, &g, "MST");
    let mut w = 0.0;
    for &(a, b) in &es {
        w += inst.at(a, b);
    }
    sym::check(spanning_tree(n, &inside, &es), "the result is a spanning tree of the vertices that are not excluded");
    sym::check(minimal(&inst, &inside, &es), "no spanning tree is cheaper than the result");
    sym::check(g.undirected_edge_weight() == w, "undirected_edge_weight is the weight of the tree");
}

/// weight of a minimum spanning tree of the vertices in `inside`, by Kruskal's algorithm
fn kruskal(inst: &Inst, inside: &[usize]) -> f64 {
    let mut es: Vec<(f64, usize, usize)> = vec![];
    for (k, &a) in inside.iter().enumerate() {
        for &b in &inside[..k] {
            let c = inst.at(a, b);
            let mut q = es.len();
            while q > 0 && c < es[q - 1].0 {
                q -= 1;
            }
            es.insert(q, (c, a, b));
        }
    }
    let mut comp: Vec<usize> = (0..inst.n).collect();
    let mut w = 0.0;
    for (c, a, b) in es {
        let (x, y) = (find(&mut comp, a), find(&mut comp, b));
        if x != y {
            comp[x] = y;
            w += c;
        }
    }
    w
}
/// weight of a minimum spanning tree of the vertices in `inside`, from the list of all trees
/// (at most four vertices; otherwise by Kruskal's algorithm)
pub fn mst_weight(inst: &Inst, inside: &[usize]) -> f64 {
    let m = inside.len();
    if m <= 1 {
        return 0.0;
    }
    if !inst.ring.is_empty() && m == inst.n {
        // the ring without its most expensive edge
        let mut most = 0.0;
        for i in 0..m {
            let c = inst.at(inst.ring[i], inst.ring[(i + 1) % m]);
            most = sym::ite(c > most, c, most);
        }
        return inst.cycle(&inst.ring) - most;
    }
    if m == 2 {
        return inst.at(inside[0], inside[1]);
    }
    if m > 4 {
        return kruskal(inst, inside);
    }
    // Pruefer codes
    let total = (0..m - 2).fold(1usize, |a, _| a * m);
    let mut best = f64::INFINITY;
    for code in 0..total {
        let mut c = code;
        let mut seq = vec![];
        for _ in 0..m - 2 {
            seq.push(c % m);
            c /= m;
        }
        let mut deg = vec![1; m];
        for &x in &seq {
            deg[x] += 1;
        }
        let mut w = 0.0;
        for &x in &seq {
            let leaf = (0..m).find(|&i| deg[i] == 1).unwrap();
            w += inst.at(inside[leaf], inside[x]);
            deg[leaf] -= 1;
            deg[x] -= 1;
        }
        let rest: Vec<usize> = (0..m).filter(|&i| deg[i] == 1).collect();
        w += inst.at(inside[rest[0]], inside[rest[1]]);
        best = sym::ite(w < best, w, best);
    }
    best
}
/// weight of a minimum 1-tree with special vertex `s`
pub fn one_tree_weight(inst: &Inst, s: usize) -> f64 {
    let n = inst.n;
    if !inst.ring.is_empty() {
        return inst.cycle(&inst.ring);
    }
    let rest: Vec<usize> = (0..n).filter(|&i| i != s).collect();
    let mut best = f64::INFINITY;
    for a in 0..rest.len() {
        for b in a + 1..rest.len() {
            let w = inst.at(s, rest[a]) + inst.at(s, rest[b]);
            best = sym::ite(w < best, w, best);
        }
    }
    best + mst_weight(inst, &rest)
}
/// params: variant (0 seq, 1 par), n, symbolic edges, seed, kind, mode of rayon, reference?
pub fn h_one_tree_bound() {
    let (v, n, k, seed, kind) =
        (sym::param(0), sym::param(1) as usize, sym::param(2) as usize, sym::param(3) as u64, sym::param(4));
    let inst = instance(n, k, seed, kind);
    let m = inst.matrix();
    configure_rayon(v, sym::param(5));
    let b = if v == 0 {
        one_tree::one_tree_lower_bound::<SEQ_COMPUTATION>(&m)
    } else {
        one_tree::one_tree_lower_bound::<PAR_COMPUTATION>(&m)
    };
    sym::reach("computed");
    check_bound(&inst, b, sym::param(6) == 0);
}
pub fn check_bound(inst: &Inst, b: f64, reference: bool) {
    let n = inst.n;
    sym::check(no_cheaper_tour(inst, b), "the 1-tree bound is not above the cost of any tour");
    sym::check(b >= 0.0, "the 1-tree bound is not negative");
    if n == 2 {
        sym::check(b <= 2.0 * inst.at(0, 1), "the 1-tree bound of two vertices is at most the tour");
    }
    if n >= 3 && reference {
        let mut ge = true;
        let mut some = false;
        for s in 0..n {
            let w = one_tree_weight(inst, s);
            ge &= b >= w;
            some |= b == w;
        }
        sym::check(ge, "the bound is at least the weight of the minimum 1-tree of every special vertex");
        sym::check(some, "the bound is the weight of the minimum 1-tree of some special vertex");
    }
}
/// params: -, n, symbolic edges, seed, kind, special vertex
pub fn h_one_tree() {
    let (n, k, seed, kind) =
        (sym::param(1) as usize, sym::param(2) as usize, sym::param(3) as u64, sym::param(4));
    let s = sym::param(5) as usize;
    let inst = instance(n, k, seed, kind);
    let m = inst.matrix();
    let g = one_tree::one_tree(&m, s);
    sym::reach("computed");
    let es = edges(&inst, &g, "1-tree");
    let at_s: Vec<usize> = es.iter().filter(|e| e.0 == s || e.1 == s).map(|e| e.0 + e.1 - s).collect();
    let rest: Vec<(usize, usize)> = es.iter().copied().filter(|e| e.0 != s && e.1 != s).collect();
    let inside: Vec<bool> = (0..n).map(|i| i != s).collect();
    sym::check(spanning_tree(n, &inside, &rest), "1-tree: the rest of the graph is connected by a spanning tree");
    sym::check(minimal(&inst, &inside, &rest), "1-tree: the spanning tree of the other vertices is minimal");
    sym::check(at_s.len() == 2, "1-tree: the special vertex has exactly two edges");
    if n >= 3 {
        sym::check(at_s[0] != at_s[1], "1-tree: the two edges of the special vertex differ");
        let mut ok = true;
        for i in 0..n {
            if i != s && i != at_s[0] && i != at_s[1] {
                ok &= inst.at(s, at_s[0]) <= inst.at(s, i) && inst.at(s, at_s[1]) <= inst.at(s, i);
            }
        }
        sym::check(ok, "1-tree: the two cheapest edges of the special vertex are used");
    }
}
