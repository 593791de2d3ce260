//! The generator of random instances (utils/gen_matrix_fast): what it prints, walky accepts.
use crate::h_cli::captured;
use crate::sym;
use walky::parser::TravellingSalesmanProblemInstance;

/// the standard library, with the program arguments of the harness
pub mod std_ {
    pub use std::*;
    pub mod env {
        pub static mut ARGS: Vec<String> = vec![];
        #[allow(static_mut_refs)]
        pub fn args() -> std::vec::IntoIter<String> {
            unsafe { ARGS.clone() }.into_iter()
        }
    }
}
#[allow(dead_code, unused, clippy::all)]
mod program {
    include!(concat!(env!("OUT_DIR"), "/main.rs"));
    pub fn run() {
        let _ = main();
    }
}
fn run(args: &[&str]) -> String {
    unsafe { std_::env::ARGS = std::iter::once("gen").chain(args.iter().copied()).map(String::from).collect() };
    sym::capture();
    program::run();
    captured()
}

/// params: number of points
pub fn h_gen() {
    let n = sym::param(0) as usize;
    let out = run(&[&format!("{n}")]);
    let r = TravellingSalesmanProblemInstance::parse_from_xml(&out);
    sym::check(r.is_ok(), "the document is accepted");
    let g = r.unwrap().graph;
    sym::check(g.num_vertices() == n, "the document has the requested number of vertices");
    let mut cost = vec![0.0; n * n];
    for (i, v) in g.vertices.iter().enumerate() {
        for e in &v.edges {
            sym::check(e.to < n && e.to != i, "the edges connect different vertices");
            cost[i * n + e.to] = e.cost;
        }
    }
    for i in 0..n {
        for j in 0..i {
            let (a, b) = (cost[i * n + j], cost[j * n + i]);
            sym::check((a.to_bits() == b.to_bits()) | ((a - b).abs() <= 1e-9 * a), "both directions of an edge cost the same");
        }
    }
    // the points, whose coordinates have been drawn one point after the other, or all x before all y
    let u = rand::__drawn();
    if u.len() != 2 * n {
        sym::reach("other draws");
        return;
    }
    sym::reach("generated");
    let x: Vec<f64> = u.iter().map(|a| a * 20.0 - 10.0).collect();
    let fits = |k: usize, l: usize| {
        let mut exact = true;
        for i in 0..n {
            for j in 0..n {
                if i != j {
                    let (a, b) = (x[k * i] - x[k * j], x[k * i + l] - x[k * j + l]);
                    let d = (a * a + b * b).sqrt();
                    let c = cost[i * n + j];
                    exact &= (c.to_bits() == d.to_bits()) | ((c - d).abs() <= 1e-9 * d);
                }
            }
        }
        exact
    };
    sym::check(fits(2, 1) || fits(1, n), "the costs are the Euclidean distances of the random points");
}

/// params: case
pub fn h_gen_reject() {
    let args: &[&str] = match sym::param(0) {
        0 => &[],
        1 => &[""],
        2 => &["x"],
        3 => &["-3"],
        _ => &["2.5"],
    };
    let out = run(args);
    sym::reach("done");
    sym::check(!out.contains('<'), "without a number of vertices there is no document");
}
