//! Parsing, preconditions, matrices and path evaluation.
use crate::common::*;
use crate::sym;
use walky::datastructures::{AdjacencyMatrix, Edge, Graph, NAMatrix, VecMatrix, Vertex};
use walky::parser::TravellingSalesmanProblemInstance;
use walky::preconditions;

/// is this the adjacency list of a complete, simple, undirected graph?
fn spec(g: &Graph) -> (bool, bool, bool) {
    let n = g.vertices.len();
    // complete: every vertex has exactly one edge to every other vertex
    let mut complete = true;
    let mut multi = false;
    let mut und = true;
    for i in 0..n {
        let es = &g.vertices[i].edges;
        complete &= es.len() == n - 1;
        for j in 0..n {
            let mut some = false;
            for e in es {
                some |= e.to == j;
            }
            complete &= some == (i != j);
        }
        for a in 0..es.len() {
            for b in a + 1..es.len() {
                multi |= es[a].to == es[b].to;
            }
            let mut back = false;
            for j in 0..n {
                let mut same = false;
                for e in &g.vertices[j].edges {
                    same |= e.to == i && e.cost == es[a].cost;
                }
                back |= es[a].to == j && same;
            }
            und &= back;
        }
    }
    (complete, multi, und)
}
const FAR: usize = 12;
/// targets far behind the last vertex, some of them equal to others modulo a power of two
fn far(n: usize, i: usize) -> usize {
    let t = [8, 16, 32, 33, 64, 65, 128, 256, 1 << 16, 1 << 32, (1 << 63) + 1, usize::MAX];
    if i < n {
        i
    } else {
        t[i - n]
    }
}
/// params: what (0 fully connected, 1 multi edge, 2 undirected, 3 all), n, degree profile (base-4
/// digits), any target instead of 0..=n, unit of the costs
pub fn h_pre() {
    let (what, n, deg) = (sym::param(0), sym::param(1) as usize, sym::param(2) as usize);
    let mut d = deg;
    let mut vs = vec![];
    for _ in 0..n {
        let mut es = vec![];
        for _ in 0..d % 4 {
            // the targets are used as keys of a hash set
            let to = match (what == 1 || what == 3, sym::param(3) != 0) {
                (true, false) => sym::val(sym::u(0, n as u64) as usize),
                (false, false) => sym::u(0, n as u64) as usize,
                (true, true) => far(n, sym::choice(FAR + n)),
                (false, true) => sym::u(0, u64::MAX) as usize,
            };
            es.push(Edge { to, cost: in_unit(sym::param(4), sym::f(0, 3)) });
        }
        d /= 4;
        vs.push(Vertex { edges: es });
    }
    let g = Graph { vertices: vs };
    let (complete, multi, und) = spec(&g);
    match what {
        0 => sym::check(preconditions::is_fully_connected(&g) == complete, "is_fully_connected holds exactly if every vertex has exactly one edge to every other vertex and no further edge"),
        1 => sym::check(preconditions::is_multi_edge(&g) == multi, "is_multi_edge holds exactly if a vertex has two edges to the same vertex"),
        2 => {
            // the spec of `undirected` is only settled for simple graphs
            sym::assume(!multi);
            sym::check(preconditions::is_undirected(&g) == und, "is_undirected holds exactly if every edge has a reverse edge of the same cost")
        }
        _ => {
            let t = TravellingSalesmanProblemInstance {
                name: String::new(),
                source: String::new(),
                description: String::new(),
                double_precision: 1,
                ignored_digits: 0,
                graph: g,
            };
            sym::check(t.do_conditions_hold() == (complete && !multi && und), "an instance is accepted exactly if its graph is complete, simple and undirected");
        }
    }
    sym::reach("decided");
}

/// A complete graph with one edge that may have another target or cost: the position, the target and
/// the cost of this edge. The cost of the others is 1.
struct Odd {
    at: usize,
    slot: usize,
    orig: usize,
    to: usize,
    cost: f64,
}
impl Odd {
    fn pick(n: usize, shift: usize, cost: f64, few: bool) -> Odd {
        let at = [n - 1, n / 2, 0, 1][sym::choice(if few { 1 } else { 4 })];
        let slot = [n / 2, 0, n - 2][sym::choice(if few { 1 } else { 3 })];
        let orig = slot_target(n, shift, at, slot);
        let to = [orig, at, slot_target(n, shift, at, (slot + 1) % (n - 1)), n, if orig < 64 { orig + 64 } else { orig - 64 }, orig + 256][sym::choice(6)];
        Odd { at, slot, orig, to, cost }
    }
    fn multi(&self, n: usize) -> bool {
        self.to != self.orig && self.to != self.at && self.to < n
    }
}
/// the target of the edge in a slot of the list of a vertex, the lists being rotated
fn slot_target(n: usize, shift: usize, at: usize, slot: usize) -> usize {
    let q = (slot + shift * at) % (n - 1);
    if q < at {
        q
    } else {
        q + 1
    }
}
/// params: what (as for h_pre), n, rotation of the lists
pub fn h_pre_big() {
    let (what, n, shift) = (sym::param(0), sym::param(1) as usize, sym::param(2) as usize);
    let o = Odd::pick(n, shift, sym::f(0, 3), false);
    let vertices = (0..n)
        .map(|i| Vertex {
            edges: (0..n - 1)
                .map(|q| {
                    if i == o.at && q == o.slot {
                        Edge { to: o.to, cost: o.cost }
                    } else {
                        Edge { to: slot_target(n, shift, i, q), cost: 1.0 }
                    }
                })
                .collect(),
        })
        .collect();
    let g = Graph { vertices };
    let complete = o.to == o.orig;
    let und = complete & (o.cost == 1.0);
    match what {
        0 => sym::check(preconditions::is_fully_connected(&g) == complete, "is_fully_connected holds exactly if every vertex has exactly one edge to every other vertex and no further edge"),
        1 => sym::check(preconditions::is_multi_edge(&g) == o.multi(n), "is_multi_edge holds exactly if a vertex has two edges to the same vertex"),
        2 => {
            sym::assume(!o.multi(n));
            sym::check(preconditions::is_undirected(&g) == und, "is_undirected holds exactly if every edge has a reverse edge of the same cost")
        }
        _ => {
            let t = TravellingSalesmanProblemInstance {
                name: String::new(),
                source: String::new(),
                description: String::new(),
                double_precision: 1,
                ignored_digits: 0,
                graph: g,
            };
            sym::check(t.do_conditions_hold() == und, "an instance is accepted exactly if its graph is complete, simple and undirected");
        }
    }
    sym::reach("decided");
}
/// params: n, rotation of the lists, few positions
pub fn h_parse_big() {
    let (n, shift) = (sym::param(0) as usize, sym::param(1) as usize);
    let o = Odd::pick(n, shift, 0.0, sym::param(2) != 0);
    let d = sym::u(54, 56) as u8;
    let cost = |i: usize, j: usize| 1.0 + (i.min(j) * 100 + i.max(j)) as f64 / 4.0;
    let doc = xml(n, &|i, q, _| {
        if q == n - 1 {
            return None;
        }
        let t = slot_target(n, shift, i, q);
        let mut c = format!("{}", cost(i, t));
        let hit = i == o.at && q == o.slot;
        if hit {
            c = String::from_utf8(vec![d]).unwrap();
        } else if i == o.orig && t == o.at {
            c = "7".to_string();
        }
        Some((c, format!("{}", if hit { o.to } else { t })))
    });
    let good = sym::split((o.to == o.orig) & (d == b'7'));
    sym::reach(if good { "acceptable" } else { "not acceptable" });
    sym::allow_panic(!good);
    let r = TravellingSalesmanProblemInstance::parse_from_xml(&doc);
    sym::allow_panic(false);
    sym::check(r.is_ok() == good, "a document is accepted exactly if its graph is complete, simple and undirected");
    if good {
        let m = NAMatrix::from(&r.unwrap().graph);
        let mut ok = m.dim() == n;
        for i in 0..n {
            for j in 0..n {
                let c = if i == j {
                    0.0
                } else if (i, j) == (o.at, o.orig) || (j, i) == (o.at, o.orig) {
                    7.0
                } else {
                    cost(i, j)
                };
                ok &= m.get(i, j) == c;
            }
        }
        sym::check(ok, "the matrix of the parsed graph has the costs of the document");
    }
}

const HEAD: &str = "<?xml version=\"1.0\" encoding=\"UTF-8\"?><travellingSalesmanProblemInstance><name>ab</name><source>c</source><description>d e</description><doublePrecision>15</doublePrecision><ignoredDigits>5</ignoredDigits><graph>";
const TAIL: &str = "</graph></travellingSalesmanProblemInstance>";
pub fn xml(n: usize, edge: &dyn Fn(usize, usize, usize) -> Option<(String, String)>) -> String {
    let mut s = String::from(HEAD);
    for i in 0..n {
        s.push_str("<vertex>");
        for k in 0..n {
            if let Some((c, t)) = edge(i, k, n) {
                s.push_str("<edge cost=\"");
                s.push_str(&c);
                s.push_str("\">");
                s.push_str(&t);
                s.push_str("</edge>");
            }
        }
        s.push_str("</vertex>");
    }
    s.push_str(TAIL);
    s
}
fn digit() -> u8 {
    sym::u(48, 57) as u8
}
/// a valid document whose costs contain symbolic digits is parsed into exactly these costs.
/// params: form, n, number of edges with symbolic digits
pub fn h_parse_cost() {
    let (form, n, k) = (sym::param(0), sym::param(1) as usize, sym::param(2) as usize);
    let mut costs = vec![0.0; n * n];
    let mut texts = vec![String::new(); n * n];
    let mut cnt = 0;
    for i in 0..n {
        for j in i + 1..n {
            let (t, c) = if cnt < k {
                let (a, b) = (digit(), digit());
                let (x, y) = ((a - 48) as u64 as f64, (b - 48) as u64 as f64);
                let (v, c) = match form {
                    0 => (vec![a, b], x * 10.0 + y),
                    1 => (vec![a, b'.', b], x + y / 10.0),
                    2 => (vec![a, b, b'.', b'5'], x * 10.0 + y + 0.5),
                    3 => (vec![a, b'.', b'2', b'5', b'e', b'+', b'2'], x * 100.0 + 25.0),
                    _ => (vec![a, b'e', b'2'], x * 100.0),
                };
                (String::from_utf8(v).unwrap(), c)
            } else {
                (format!("{}.5", i + j), (i + j) as f64 + 0.5)
            };
            cnt += 1;
            for q in [i * n + j, j * n + i] {
                costs[q] = c;
                texts[q] = t.clone();
            }
        }
    }
    let doc = xml(n, &|i, k, _| if k != i { Some((texts[i * n + k].clone(), format!("{}", k))) } else { None });
    let r = TravellingSalesmanProblemInstance::parse_from_xml(&doc);
    sym::check(r.is_ok(), "a valid document is accepted");
    let r = r.unwrap();
    sym::reach("parsed");
    sym::check(r.graph.vertices.len() == n, "the graph has as many vertices as the document");
    let mut ok = true;
    for i in 0..n {
        let es = &r.graph.vertices[i].edges;
        ok &= es.len() == n - 1;
        for (k, e) in es.iter().enumerate() {
            let j = if k < i { k } else { k + 1 };
            ok &= e.to == j && e.cost == costs[i * n + j];
        }
    }
    sym::check(ok, "every edge of the document is in the graph, with its target and cost");
    sym::check(r.double_precision == 15 && r.ignored_digits == 5 && r.name == "ab", "the header fields are taken over");
    let m = NAMatrix::from(&r.graph);
    let mut ok = true;
    for i in 0..n {
        for j in 0..n {
            ok &= m.get(i, j) == costs[i * n + j];
        }
    }
    sym::check(ok, "the matrix of the parsed graph has the costs of the document");
}
/// a document is accepted exactly if its graph is complete, simple and undirected; the targets of
/// the edges are symbolic digits. params: -, n, degree profile (base-4 digits), number of symbolic
/// targets, spelling of the costs
pub fn h_parse_accept() {
    let (n, deg, k) = (sym::param(1) as usize, sym::param(2) as usize, sym::param(3) as usize);
    let mut d = deg;
    let mut cnt = 0;
    let mut lists: Vec<Vec<(u8, u8)>> = vec![];
    for i in 0..n {
        let mut es = vec![];
        for q in 0..d % 4 {
            let def = 48 + (if q < i { q } else { q + 1 }) as u8;
            if cnt < k {
                let t = sym::u(48, 48 + n as u64) as u8;
                let c = sym::u(48, 50) as u8;
                es.push((t, c));
            } else {
                es.push((def, 49));
            }
            cnt += 1;
        }
        d /= 4;
        lists.push(es);
    }
    let l = &lists;
    let doc = xml(n, &|i, q, _| {
        l[i].get(q).map(|&(t, c)| {
            let mut cost = String::from(["", "0.000000000000", "10000000000"][sym::param(4) as usize]);
            cost.push_str(&String::from_utf8(vec![c]).unwrap());
            (cost, String::from_utf8(vec![t]).unwrap())
        })
    });
    let g = Graph {
        vertices: lists
            .iter()
            .map(|es| Vertex {
                edges: es.iter().map(|&(t, c)| Edge { to: (t - 48) as usize, cost: (c - 48) as f64 }).collect(),
            })
            .collect(),
    };
    let (complete, multi, und) = spec(&g);
    let good = complete && !multi && und;
    // rejecting by a panic is allowed for bad documents
    let good = sym::split(good);
    sym::reach(if good { "acceptable" } else { "not acceptable" });
    sym::allow_panic(!good);
    let r = TravellingSalesmanProblemInstance::parse_from_xml(&doc);
    sym::allow_panic(false);
    sym::check(r.is_ok() == good, "a document is accepted exactly if its graph is complete, simple and undirected");
}

/// params: variant, n, symbolic edges, seed, unit of the costs
pub fn h_matrix() {
    let (v, n, k, seed) =
        (sym::param(0), sym::param(1) as usize, sym::param(2) as usize, sym::param(3) as u64);
    let inst = instance(n, k, seed, 100 * sym::param(4));
    let mut vertices: Vec<Vertex> = vec![];
    for i in 0..n {
        let mut es = vec![];
        for q in 0..n {
            // edges in a rotated order
            let j = (q + seed as usize) % n;
            if j != i {
                es.push(Edge { to: j, cost: inst.at(i, j) });
            }
        }
        vertices.push(Vertex { edges: es });
    }
    let g = Graph { vertices };
    let same = |f: &dyn Fn(usize, usize) -> f64| {
        let mut ok = true;
        for i in 0..n {
            for j in 0..n {
                ok &= f(i, j) == inst.at(i, j);
            }
        }
        ok
    };
    sym::reach("start");
    match v {
        0 => {
            let m = NAMatrix::from(&g);
            sym::check(m.dim() == n, "the matrix has the dimension of the graph");
            sym::check(same(&|i, j| m.get(i, j)), "the NAMatrix of a graph has its costs and a zero diagonal");
        }
        1 => {
            let m = VecMatrix::from(g);
            sym::check(m.dim() == n, "the matrix has the dimension of the graph");
            sym::check(same(&|i, j| m.get(i, j)), "the VecMatrix of a graph has its costs and a zero diagonal");
            let b = NAMatrix::from(&m);
            sym::check(b.dim() == n && same(&|i, j| b.get(i, j)), "the NAMatrix of another matrix has the same entries");
        }
        2 => {
            // graph API
            let mut h = Graph::from(vec![vec![]; n]);
            let mut w = 0.0;
            let mut deg = vec![0; n];
            for i in 0..n {
                for j in i + 1..n {
                    if (i * 7 + j * 3 + seed as usize) % 4 != 0 {
                        h.add_undirected_edge(j, i, inst.at(i, j));
                        w += inst.at(i, j);
                        deg[i] += 1;
                        deg[j] += 1;
                    }
                }
            }
            sym::check(h.num_vertices() == n && (0..n).all(|i| h.vertex_degree(i) == deg[i]), "vertex_degree counts the edges of a vertex");
            sym::check(h.directed_edge_weight() == 2.0 * w, "directed_edge_weight counts both directions of every edge");
            sym::check(h.undirected_edge_weight() == w, "undirected_edge_weight counts every undirected edge once");
            let mut ok = true;
            for (i, v) in h.vertices.iter().enumerate() {
                for e in &v.edges {
                    ok &= e.to != i && e.cost == inst.at(i, e.to) && h.vertices[e.to].edges.iter().any(|r| r.to == i);
                }
            }
            sym::check(ok, "add_undirected_edge adds both directions with the cost");
        }
        4 | 5 => {
            // incomplete graphs: 4 directed, 5 undirected with edges listed at one or both ends
            let mut vs: Vec<Vec<Edge>> = (0..n).map(|_| vec![]).collect();
            let mut want = vec![f64::INFINITY; n * n];
            let mut w = 0.0;
            for i in 0..n {
                want[i * n + i] = 0.0;
                for j in i + 1..n {
                    let c = [inst.at(i, j), if v == 4 { sym::f(0, HI) } else { inst.at(i, j) }];
                    for (q, (a, b)) in [(i, j), (j, i)].into_iter().enumerate() {
                        if sym::choice(2) == 1 {
                            vs[a].push(Edge { to: b, cost: c[q] });
                            w += c[q];
                            want[a * n + b] = c[q];
                            if v == 5 {
                                want[b * n + a] = c[q];
                            }
                        }
                    }
                }
            }
            let g = Graph::from(vs);
            sym::check(g.directed_edge_weight() == w, "directed_edge_weight is the sum of all edges");
            let mut ok = true;
            if v == 4 {
                let m = NAMatrix::from(&g);
                for (q, x) in want.iter().enumerate() {
                    ok &= m.get(q / n, q % n) == *x;
                }
                sym::check(ok, "the NAMatrix of a directed graph has its costs, and no others");
            } else {
                let m = VecMatrix::from(g);
                for (q, x) in want.iter().enumerate() {
                    ok &= m.get(q / n, q % n) == *x;
                }
                sym::check(ok, "the VecMatrix of an undirected graph has its costs, and no others");
            }
        }
        _ => {
            // get/set round trip on an asymmetric cell
            let mut m = inst.matrix();
            let mut b = VecMatrix::from(g);
            let cell = || if n > 12 { [0, n / 2, n - 1][sym::choice(3)] } else { sym::u(0, n as u64 - 1) as usize };
            let (i, j) = (cell(), cell());
            let c = sym::f(0, HI);
            m.set(i, j, c);
            b.set(i, j, c);
            let mut ok = true;
            for a in 0..n {
                for q in 0..n {
                    let want = sym::ite(a == i && q == j, c, inst.at(a, q));
                    ok &= m.get(a, q) == want && b.get(a, q) == want;
                }
            }
            sym::check(ok, "set changes exactly the given cell");
            let z = NAMatrix::from_dim(n);
            let y = VecMatrix::from_dim(n);
            let mut ok = z.dim() == n && y.dim() == n;
            for a in 0..n {
                for q in 0..n {
                    let want = if a == q { 0.0 } else { f64::INFINITY };
                    ok &= z.get(a, q) == want && y.get(a, q) == want;
                }
            }
            sym::check(ok, "from_dim has no edges and a zero diagonal");
        }
    }
}
/// params: variant (0 off the diagonal, 1 the diagonal), n, rayon budget
pub fn h_points() {
    let (v, n) = (sym::param(0), sym::param(1) as usize);
    let p: Vec<[f64; 2]> = (0..n).map(|_| [sym::__sym_fp(), sym::__sym_fp()]).collect();
    for q in &p {
        sym::assume(q[0].abs() <= 1e100);
        sym::assume(q[1].abs() <= 1e100);
    }
    let a = NAMatrix::from_points(&p);
    configure_rayon(1, sym::param(2));
    let b = NAMatrix::par_from_points(&p);
    sym::reach("computed");
    sym::check(a.dim() == n && b.dim() == n, "the matrix has a row for every point");
    if v == 1 {
        let mut diag = true;
        for i in 0..n {
            diag &= a.get(i, i) == 0.0 && b.get(i, i) == 0.0;
        }
        sym::check(diag, "the diagonal is zero");
        return;
    }
    for i in 0..n {
        for j in 0..n {
            if i == j {
                continue;
            }
            let (x, y) = (p[i][0] - p[j][0], p[i][1] - p[j][1]);
            let d = (x * x + y * y).sqrt();
            let (s, t) = (a.get(i, j), b.get(i, j));
            sym::check(s.to_bits() == t.to_bits(), "from_points and par_from_points agree");
            // another formula for the distance may round differently
            let near = (s - d).abs() <= 1e-9 * d;
            sym::check((s.to_bits() == d.to_bits()) | near, "every entry is the Euclidean distance of the two points");
        }
    }
}
/// params: variant (0 NAMatrix, 1 VecMatrix), n, length of the path, symbolic edges, seed, unit of
/// the costs, number of vertices in front that are not symbolic
pub fn h_paths() {
    let (v, n, len, k, seed) = (
        sym::param(0),
        sym::param(1) as usize,
        sym::param(2) as usize,
        sym::param(3) as usize,
        sym::param(4) as u64,
    );
    let inst = instance(n, k, seed, 100 * sym::param(5));
    let m = inst.matrix();
    let fixed = sym::param(6) as usize;
    let p: Vec<usize> = (0..len).map(|i| if i < fixed { (i * 7 + seed as usize) % n } else { sym::u(0, n as u64 - 1) as usize }).collect();
    let (a, c) = if v == 0 {
        (m.evaluate_path(&p), m.evaluate_circle(&p))
    } else {
        let rows: Vec<Vec<f64>> = (0..n).map(|i| (0..n).map(|j| inst.at(i, j)).collect()).collect();
        let b = VecMatrix::from(rows);
        (b.evaluate_path(&p), b.evaluate_circle(&p))
    };
    sym::reach("computed");
    let mut s = 0.0;
    for i in 1..len {
        s += inst.at(p[i - 1], p[i]);
    }
    sym::check(a == s, "evaluate_path is the sum of the costs of the edges of the path");
    let t = if len <= 1 { 0.0 } else { s + inst.at(p[len - 1], p[0]) };
    sym::check(c == t, "evaluate_circle is evaluate_path plus the closing edge");
}
/// params: variant, n, symbolic edges, seed, unit of the costs (0 or 4)
pub fn h_metric() {
    let (v, n, k, seed) =
        (sym::param(0), sym::param(1) as usize, sym::param(2) as usize, sym::param(3) as u64);
    let unit = sym::param(4);
    let inst = instance(n, k, seed, 100 * unit + if v >= 2 { 2 } else { 3 });
    let got = if v % 2 == 0 {
        inst.matrix().is_metric()
    } else {
        let rows: Vec<Vec<f64>> = (0..n).map(|i| (0..n).map(|j| inst.at(i, j)).collect()).collect();
        VecMatrix::from(rows).is_metric()
    };
    sym::reach("decided");
    // costs of whole units violate the inequality by at least one unit
    let mut violated = false;
    for i in 0..n {
        for j in 0..n {
            for k in 0..n {
                violated |= inst.at(i, j) >= inst.at(i, k) + inst.at(k, j) + in_unit(unit, 1.0);
            }
        }
    }
    sym::check(got || !inst.is_metric(), "is_metric holds if the triangle inequality holds");
    sym::check(!(got && violated), "is_metric does not hold if the triangle inequality is violated");
}
/// params: -, n, length of the path, number of vertices in front that are not symbolic
pub fn h_hamiltonian() {
    let (n, len) = (sym::param(1) as usize, sym::param(2) as usize);
    let inst = instance(n, 0, 1, 0);
    let m = inst.matrix();
    // a closed path: the last vertex is the first one
    let fixed = sym::param(3) as usize;
    let mut p: Vec<usize> = (0..len.saturating_sub(1)).map(|i| if i < fixed { (i + 5) % n } else { sym::u(0, n as u64) as usize }).collect();
    if len > 0 {
        p.push(if len == 1 { sym::u(0, n as u64) as usize } else { p[0] });
    }
    let got = walky::solvers::is_hamiltonian_cycle(&p, &m);
    sym::reach("decided");
    let mut want = len == n + 1;
    if want {
        for v in 0..n {
            let mut some = false;
            for x in &p[..n] {
                some |= *x == v;
            }
            want &= some;
        }
    }
    sym::check(got == want, "a closed path is a Hamiltonian cycle exactly if it visits every vertex once");
}
