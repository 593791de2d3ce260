//! Verification harnesses for walky. Each `h_*` function is an entry point of the symbolic
//! executor; the same binary run natively replays a recorded assignment.
mod common;
mod h_approx;
mod h_cli;
mod h_data;
mod h_enum;
mod h_exact;
#[cfg(feature = "gen")]
mod h_gen;
#[cfg(feature = "mpi")]
mod h_mpi;
mod h_tree;
pub mod sym;

macro_rules! harnesses {
    ($($(#[$a:meta])* $m:ident :: $f:ident),* $(,)?) => {
        $(
            $(#[$a])*
            #[no_mangle]
            #[inline(never)]
            pub extern "C" fn $f() { $m::$f() }
        )*
        fn dispatch(name: &str) -> bool {
            match name {
                $( $(#[$a])* stringify!($f) => { $f(); true } )*
                _ => false,
            }
        }
    };
}
harnesses! {
    h_exact::h_exact,
    h_exact::h_threaded,
    h_cli::h_cli,
    h_cli::h_cli_reject,
    h_tree::h_mst,
    h_tree::h_one_tree,
    h_tree::h_one_tree_bound,
    h_approx::h_nn,
    h_approx::h_christofides,
    h_approx::h_matching,
    h_data::h_pre,
    h_data::h_pre_big,
    h_data::h_parse_big,
    h_data::h_parse_cost,
    h_data::h_parse_accept,
    h_data::h_matrix,
    h_data::h_points,
    h_data::h_paths,
    h_data::h_metric,
    h_data::h_hamiltonian,
    h_enum::h_next_permutation,
    h_enum::h_next_value,
    h_enum::h_chunks,
    #[cfg(feature = "gen")]
    h_gen::h_gen,
    #[cfg(feature = "gen")]
    h_gen::h_gen_reject,
    #[cfg(feature = "mpi")]
    h_mpi::h_mpi_exact,
    #[cfg(feature = "mpi")]
    h_mpi::h_mpi_bounds,
    #[cfg(feature = "mpi")]
    h_mpi::h_mpi_matching,
    #[cfg(feature = "mpi")]
    h_mpi::h_mpi_best_matching,
    #[cfg(feature = "mpi")]
    h_mpi::h_mpi_cli,
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 5 {
        eprintln!("usage: walkyh <harness> <params> <trace> <result>");
        std::process::exit(2);
    }
    sym::init(&args);
    if !dispatch(&args[1]) {
        eprintln!("unknown harness {}", args[1]);
        std::process::exit(2);
    }
    sym::done();
}
