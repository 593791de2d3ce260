"""What each property's check runs: harness entry points, parameters (bounds) and options."""

COMMON = [
    "symbolic costs are integers-or-reals in the stated range; where a check sums costs it uses exact real arithmetic "
    "(sums of up to 2^32 integer costs are exact in f64), unless the run says --rounding or uses IEEE values",
    "the LLVM IR of the stable toolchain at opt-level 1 (x86-64, no vectorisation, panic=abort) represents the code",
    "the allocator never fails; memory is sequentially consistent",
    "the stubs in stubs/ (rand, rayon-core, mpi, memchr) behave like some permitted execution of the crate they replace",
]


def c(h, *p, **kw):
    flags = kw.pop("flags", "")
    d = dict(h=h, p=list(p), flags=flags.split() if isinstance(flags, str) else flags)
    d.update(kw)
    return d


def T(x):
    x["thorough"] = True
    return x


P = {}

# ------------------------------------------------------------------ C01 sequential exact solvers
A = 99  # every edge symbolic
cf = []
for s in range(7):
    for n in (1, 2, 3):
        cf.append(c("h_exact", s, n, A, 1, 0, reach=["solved"]))
    cf.append(c("h_exact", s, 4, A, 1, 0, shards=8 if s >= 5 else 1, w=70 if s >= 5 else 3, reach=["solved"]))
for s in range(3):
    cf.append(c("h_exact", s, 5, A, 1, 0, w=2, reach=["solved"]))
    cf.append(c("h_exact", s, 6, 3, 2, 0, w=4, reach=["solved"]))
    cf.append(c("h_exact", s, 7, 2, 1, 0, w=4, reach=["solved"]))
    cf.append(T(c("h_exact", s, 6, A, 1, 0, w=60, reach=["solved"])))
    cf.append(T(c("h_exact", s, 7, 5, 2, 0, w=60, reach=["solved"])))
    cf.append(T(c("h_exact", s, 8, 2, 2, 0, w=60, reach=["solved"], flags="--steps 200000000")))
for s in (3, 4):
    cf.append(c("h_exact", s, 5, 2, 1, 0, w=10, reach=["solved"]))
    cf.append(c("h_exact", s, 6, 1, 1, 0, w=2, reach=["solved"]))
    cf.append(c("h_exact", s, 7, 1, 1, 0, w=10, reach=["solved"]))
    cf.append(c("h_exact", s, 8, 1, 2, 1, w=16, reach=["solved"]))
    cf.append(T(c("h_exact", s, 5, 4, 2, 1, w=300, shards=4, reach=["solved"])))
    cf.append(T(c("h_exact", s, 5, 3, 1, 0, w=300, shards=4, reach=["solved"])))
    cf.append(T(c("h_exact", s, 5, 5, 3, 1, w=3000, shards=8, reach=["solved"])))
    for seed in range(2, 8):
        cf.append(T(c("h_exact", s, 6, 2, seed, seed % 2, w=60, reach=["solved"])))
        cf.append(T(c("h_exact", s, 7, 1, seed, seed % 2, w=10, reach=["solved"])))
        cf.append(T(c("h_exact", s, 8, 1, seed, seed % 2, w=40, reach=["solved"])))
for s in (5, 6):
    cf.append(c("h_exact", s, 5, 1, 1, 0, w=2, reach=["solved"]))
    cf.append(c("h_exact", s, 5, 2, 2, 1, w=20, reach=["solved"]))
    cf.append(c("h_exact", s, 6, 1, 1, 0, w=2, reach=["solved"]))
    cf.append(c("h_exact", s, 6, 1, 2, 1, w=2, reach=["solved"]))
    cf.append(c("h_exact", s, 7, 1, 1, 1, w=26, reach=["solved"], flags="--steps 200000000"))
    cf.append(T(c("h_exact", s, 5, 2, 1, 0, w=75, reach=["solved"])))
    cf.append(T(c("h_exact", s, 5, 3, 2, 1, w=75, reach=["solved"])))
    cf.append(T(c("h_exact", s, 5, 3, 1, 0, w=900, shards=4, reach=["solved"])))
    cf.append(T(c("h_exact", s, 5, 4, 1, 1, w=900, shards=4, reach=["solved"])))
    cf.append(T(c("h_exact", s, 6, 3, 2, 1, w=900, shards=4, reach=["solved"])))
    for seed in range(2, 8):
        cf.append(T(c("h_exact", s, 6, 2, seed, seed % 2, w=100, reach=["solved"])))
        cf.append(T(c("h_exact", s, 7, 1, seed, seed % 2, w=40, reach=["solved"], flags="--steps 200000000")))
        cf.append(T(c("h_exact", s, 8, 1, seed, 1, w=200, reach=["solved"], flags="--steps 1000000000")))
# templates with zero costs and ties
for s in (3, 4, 5, 6):
    cf.append(c("h_exact", s, 5, 3 if s < 5 else 2, 2, 4, w=3, reach=["solved"]))
    cf.append(c("h_exact", s, 6, 2, 1, 4, w=3, reach=["solved"]))
    cf.append(c("h_exact", s, 6, 2, 3, 4, w=4, reach=["solved"]))
    for seed in (1, 2, 3, 4):
        cf.append(c("h_exact", s, 7, 1, seed, 4, w=4, reach=["solved"]))
    cf.append(c("h_exact", s, 8, 1, 1, 4, w=4, reach=["solved"]))
    for seed in range(5, 12):
        cf.append(T(c("h_exact", s, 6, 3, seed, 4, w=60, reach=["solved"])))
        cf.append(T(c("h_exact", s, 7, 2, seed, 4, w=60, reach=["solved"])))
        cf.append(T(c("h_exact", s, 8, 1, seed, 4, w=20, reach=["solved"])))
for s in (5, 6):
    for seed in (2, 3, 4, 5):
        cf.append(c("h_exact", s, 6, 1, seed, 3, w=3, reach=["solved"]))
for s in range(7):
    for unit in (1, 2, 3):
        cf.append(c("h_exact", s, 4, 4 if s < 5 else 3, 1, 100 * unit, reach=["solved"]))
        cf.append(c("h_exact", s, 5, 2 if s < 5 else 1, 2, 100 * unit + 4, w=2, reach=["solved"]))
P["C01"] = dict(
    cfgs=cf,
    bounds="all seven sequential exact solvers; every symmetric cost matrix with costs in 0..2^20 for n<=4 (v0-v2: n<=5); n=5..8 with 1-3 symbolic edges on fixed templates (thorough: n<=6 in full for v0-v2, up to 5 symbolic edges for the branch-and-bound solvers)",
    outside="larger graphs; several free edges on n>=6 for v3-v6",
)

# ------------------------------------------------------------------ C02 reported costs
cf = []
E = "--errors"
for s in range(7):
    cf.append(c("h_exact", s, 3, A, 1, 0, flags=E, reach=["solved"]))
    cf.append(c("h_exact", s, 4, A if s < 5 else 4, 1, 0, flags=E, w=12 if s >= 4 else 2, reach=["solved"]))
    cf.append(c("h_exact", s, 5, A if s < 3 else 2 if s < 5 else 1, 1, 0, flags=E, w=12 if s >= 3 else 2, reach=["solved"]))
    cf.append(c("h_exact", s, 6, 1, 2, 0, flags=E, w=2, reach=["solved"]))
    if s >= 5:
        cf.append(T(c("h_exact", s, 4, A, 1, 0, flags=E, w=100, shards=4, reach=["solved"])))
    cf.append(T(c("h_exact", s, 5, 4 if s < 5 else 3, 2, 1, flags=E, w=100, shards=4, reach=["solved"])))
    cf.append(T(c("h_exact", s, 6, 2, 1, 1, flags=E, w=100, shards=4, reach=["solved"])))
    cf.append(T(c("h_exact", s, 7, 1, 1, 1, flags=E, w=30, reach=["solved"])))
for v in (1, 2):
    cf.append(c("h_nn", v, 4, A, 1, 0, 4, 0, 0, flags=E, reach=["computed"]))
    cf.append(c("h_nn", v, 5, 5, 1, 0, 2, 0, 0, flags=E, reach=["computed"]))
for v in (0, 1):
    cf.append(c("h_christofides", v, 4, A, 1, 1, 0, 2, 0, flags=E, reach=["computed"]))
    cf.append(c("h_christofides", v, 6, 2, 1, 1, 0, 2, 0, flags=E, reach=["computed"]))
P["C02"] = dict(cfgs=cf, bounds="first-order bound (in units of 2^-53) of the accumulated rounding error of the reported cost <= 4096 times the cost of the tour, for every symmetric cost matrix in 0..2^20 with n<=4 (v5, v6: 4 symbolic edges; thorough: all), n=5,6 with 1..5 symbolic edges; comparisons decided over the reals",
    outside="paths taken only because a rounding error flips a comparison of (nearly) equal sums")

# ------------------------------------------------------------------ C06 minimum spanning trees
R = ["computed"]
cf = []
for v in (0, 1, 2):
    for n in (1, 2, 3):
        cf.append(c("h_mst", v, n, A, 1, 0, -1, 3 if v == 1 else 0, reach=R))
    cf.append(c("h_mst", v, 4, A, 1, 0, -1, 2 if v == 1 else 0, w=2, reach=R))
    cf.append(c("h_mst", v, 5, 6, 1, 0, -1, 0, w=7, reach=R))
    cf.append(c("h_mst", v, 5, 6, 2, 0, 4, 3 if v == 1 else 0, w=10, reach=R))
    cf.append(c("h_mst", v, 6, 4, 2, 0, 0, 1 if v == 1 else 0, w=3, reach=R))
    cf.append(c("h_mst", v, 7, 3, 1, 0, 4, 0, w=2, reach=R))
    cf.append(c("h_mst", v, 7, 3, 2, 0, -1, 0, w=10, reach=R))
    cf.append(c("h_mst", v, 9, 2, 1, 0, 0, 1 if v == 1 else 0, w=2, reach=R))
    cf.append(c("h_mst", v, 10, 2, 3, 0, 34, 0, w=2, reach=R))
    cf.append(T(c("h_mst", v, 5, A, 1, 0, 0, 0, w=40, reach=R)))
    cf.append(T(c("h_mst", v, 6, 6, 2, 0, 0, 2 if v == 1 else 0, w=40, shards=4, reach=R)))
    for seed in range(3, 8):
        cf.append(T(c("h_mst", v, 8, 3, seed, 0, 0, 1 if v == 1 else 0, w=20, reach=R)))
        cf.append(T(c("h_mst", v, 12, 2, seed, 0, 5, 0, w=20, reach=R)))
    for unit in (1, 2, 3):
        cf.append(c("h_mst", v, 4, 4, 1, 100 * unit, 0, 0, reach=R))
        cf.append(c("h_mst", v, 5, 3, 2, 100 * unit + 4, 2, 0, reach=R))
cf.append(T(c("h_mst", 1, 4, A, 1, 0, -1, 4, w=60, shards=4, reach=R)))
for v in (3, 4):
    cf.append(c("h_mst", v, 2, A, 1, 0, 0, 2 if v == 4 else 0, reach=R))
    cf.append(c("h_mst", v, 4, A, 1, 0, 0, 2 if v == 4 else 0, reach=R))
    cf.append(c("h_mst", v, 6, 3, 1, 0, 0, 0, reach=R))
P["C06"] = dict(cfgs=cf, bounds="every symmetric cost matrix in 0..2^20 with n<=4 and every set of excluded vertices; n=5..10 with 2..6 symbolic edges (thorough: n=5 in full, n<=12); parallel variant: up to 3 scheduling decisions of the reduction tree left open, the others in source order",
    outside="larger graphs; longer prefixes of scheduling decisions")

# ------------------------------------------------------------------ C07 1-trees
cf = []
for n in (3, 4):
    for s in range(n):
        cf.append(c("h_one_tree", 0, n, A, 1, 0, s, reach=R))
for s in (0, 3):
    cf.append(c("h_one_tree", 0, 5, A, 1, 0, s, w=6, reach=R))
    cf.append(c("h_one_tree", 0, 6, 4, 1 + s, 0, s, w=1, reach=R))
cf.append(c("h_one_tree", 0, 8, 2, 1, 0, 7, w=1, reach=R))
for n in (1, 2, 3):
    cf.append(c("h_one_tree_bound", 0, n, A, 1, 0, 0, 0, reach=R))
    cf.append(c("h_one_tree_bound", 1, n, A, 1, 0, 2, 0, reach=R))
cf.append(c("h_one_tree_bound", 0, 4, A, 1, 0, 0, 0, w=6, reach=R))
cf.append(c("h_one_tree_bound", 1, 4, A, 1, 0, 0, 0, w=6, reach=R))
cf.append(c("h_one_tree_bound", 1, 4, 3, 1, 0, 2, 0, w=10, reach=R))
cf.append(c("h_one_tree_bound", 0, 5, 3, 1, 0, 0, 0, w=12, reach=R))
cf.append(c("h_one_tree_bound", 1, 5, 2, 2, 0, 1, 0, w=12, reach=R))
cf.append(c("h_one_tree_bound", 0, 6, 1, 2, 0, 0, 0, w=12, reach=R))
cf.append(c("h_one_tree_bound", 1, 7, 1, 3, 0, 0, 1, w=12, reach=R))
cf.append(c("h_one_tree_bound", 0, 7, 2, 2, 0, 0, 1, w=12, reach=R))
for v in range(5):
    cf.append(c("h_one_tree_bound", 1, 5, 2, v, 5, 0, 0, w=5, reach=R))
for v in (0, 3, 5, 6):
    cf.append(c("h_one_tree_bound", 0, 7, 1, v, 5, 0, 0, w=2, reach=R))
    cf.append(c("h_one_tree_bound", 1, 7, 1, v, 5, 0, 0, w=2, reach=R))
cf.append(c("h_one_tree_bound", 1, 6, 2, 5, 5, 1, 0, w=12, reach=R))
for unit in (1, 2, 3):
    cf.append(c("h_one_tree", 0, 4, A, 1, 100 * unit, 1, reach=R))
    cf.append(c("h_one_tree", 0, 5, 3, 1, 100 * unit + 4, 3, reach=R))
    cf.append(c("h_one_tree_bound", 0, 4, 3, 1, 100 * unit, 0, 0, reach=R))
    cf.append(c("h_one_tree_bound", 1, 4, 3, 2, 100 * unit + 4, 0, 0, reach=R))
cf.append(T(c("h_one_tree_bound", 1, 5, 4, 1, 5, 0, 0, w=120, reach=R)))
cf.append(T(c("h_one_tree_bound", 0, 6, 2, 1, 0, 0, 0, w=60, reach=R)))
cf.append(T(c("h_one_tree_bound", 0, 5, 6, 1, 0, 0, 0, w=300, shards=4, reach=R)))
cf.append(T(c("h_one_tree_bound", 1, 4, A, 1, 0, 3, 0, w=300, shards=4, reach=R)))
for seed in range(4, 10):
    cf.append(T(c("h_one_tree_bound", 1, 6, 2, seed, 0, 0, 1, w=60, reach=R)))
    cf.append(T(c("h_one_tree", 0, 7, 3, seed, 0, seed % 7, w=5, reach=R)))
P["C07"] = dict(cfgs=cf, bounds="one_tree: every symmetric cost matrix in 0..2^20, n<=5 (all special vertices for n<=4); bound: n<=4 in full (sequential and parallel), n=5..7 with 1..3 symbolic edges; up to 2 scheduling decisions open",
    outside="larger graphs")

# ------------------------------------------------------------------ C08 nearest neighbour
cf = []
for n in (1, 2, 3, 4):
    for s in range(n):
        cf.append(c("h_nn", 0, n, A, 1, 0, s, 0, 0, reach=R))
for s in (0, 2):
    cf.append(c("h_nn", 0, 5, A, 1, 0, s, 0, 0, reach=R))
    cf.append(c("h_nn", 0, 7, 6, 1, 0, s, 0, 0, reach=R))
    cf.append(c("h_nn", 0, 9, 4, 2 + s, 0, s, 0, 0, reach=R))
for v in (1, 2):
    for n in (1, 2, 3):
        for q in range(1, n + 1):
            cf.append(c("h_nn", v, n, A, 1, 0, q, 3, 2, reach=R))
    cf.append(c("h_nn", v, 4, A, 1, 0, 4, 0, 2 if v == 2 else 0, w=9, reach=R))
    cf.append(c("h_nn", v, 4, A, 1, 0, 2, 3, 1 if v == 2 else 0, w=12, reach=R))
    cf.append(c("h_nn", v, 4, 3, 2, 0, 3, 3, 1 if v == 2 else 0, w=12, reach=R))
    cf.append(c("h_nn", v, 5, 3, 1, 0, 2, 2, 0, w=10, reach=R))
    cf.append(c("h_nn", v, 6, 2, 1, 0, 6, 0, 1 if v == 2 else 0, w=5, reach=R))
    cf.append(c("h_nn", v, 7, 2, 2, 0, 3, 1, 0, w=5, reach=R))
    cf.append(T(c("h_nn", v, 5, 4, 1, 0, 2, 3, 0, w=40, reach=R)))
    cf.append(T(c("h_nn", v, 5, A, 1, 0, 5, 0, 0, w=40, shards=4, reach=R)))
    cf.append(T(c("h_nn", v, 4, A, 1, 0, 3, 3, 2, w=100, shards=4, reach=R)))
for unit in (1, 2, 3):
    cf.append(c("h_nn", 0, 4, A, 1, 100 * unit, 1, 0, 0, reach=R))
    for v in (1, 2):
        cf.append(c("h_nn", v, 4, 3, 1, 100 * unit, 4, 0, 0, reach=R))
        cf.append(c("h_nn", v, 4, 3, 1, 100 * unit + 4, 2, 1, 0, reach=R))
P["C08"] = dict(cfgs=cf, bounds="single start: every symmetric cost matrix in 0..2^20 with n<=5, n=7,9 with 6,4 symbolic edges; several starts: n<=4 in full with up to 3 random decisions and 2 scheduling decisions open, n=5..7 with 2,3 symbolic edges",
    outside="larger graphs; random decisions beyond the budget take a fixed value")

# ------------------------------------------------------------------ C09 Christofides
cf = []
for v in (0, 1):
    for n in (1, 2, 3):
        for how in (0, 1, 2):
            cf.append(c("h_christofides", v, n, A, 1, 1, how, 3, 1 if v else 0, reach=R))
    for how in (0, 1, 2):
        cf.append(c("h_christofides", v, 4, A, 1, 1, how, 3, 1 if v else 0, w=3, reach=R))
        cf.append(c("h_christofides", v, 5, 3, 1, 1, how, 2, 0, w=3, reach=R))
        cf.append(c("h_christofides", v, 5, 5 if how == 0 else 6, 1, 0 if how == 0 else 1, how, 1, 0, w=20, reach=R))
        cf.append(T(c("h_christofides", v, 5, A, 1, 0 if how == 0 else 1, how, 1, 0, w=200, shards=4, reach=R)))
        cf.append(c("h_christofides", v, 6, 2, 2, 1, how, 2, 0, w=3, reach=R))
        cf.append(c("h_christofides", v, 7, 2, 3, 1, how, 0, 0, w=3, reach=R))
        cf.append(T(c("h_christofides", v, 6, 4, 2, 1, how, 2, 0, w=30, reach=R)))
        for seed in range(4, 9):
            cf.append(T(c("h_christofides", v, 7, 3, seed, 1, how, 0, 0, w=30, reach=R)))
for v in (0, 1):
    for how in (0, 1, 2):
        for unit in (1, 2, 3):
            cf.append(c("h_christofides", v, 4, 4, 1, 100 * unit + 1, how, 1, 0, reach=R))
            cf.append(c("h_christofides", v, 5, 2, 1, 100 * unit + 1, how, 0, 0, reach=R))
P["C09"] = dict(cfgs=cf, bounds="every cost matrix in 0..2^20 that satisfies the triangle inequality for n<=4, n=5..7 with 2..6 symbolic edges; matching: the built-in heuristic, an exact one, and every perfect matching of the odd vertices",
    outside="larger graphs; random decisions beyond the budget take a fixed value")

# ------------------------------------------------------------------ C10 matching
cf = []
for v in (0, 1):
    for n, mask in ((2, 3), (3, 5), (4, 15), (5, 29)):
        for tries in (0, 1, 3):
            cf.append(c("h_matching", v, n, A, 1, 0, mask, tries, 6, 1 if v else 0, w=2, reach=R))
    cf.append(c("h_matching", v, 6, 5, 1, 0, 63, 1, 6, 0, w=5, reach=R))
    cf.append(c("h_matching", v, 6, 4, 2, 0, 63, 2, 4, 0, w=5, reach=R))
    cf.append(c("h_matching", v, 8, 3, 1, 0, 255, 1, 3, 0, w=5, reach=R))
    cf.append(c("h_matching", v, 4, A, 1, 0, 0, 2, 3, 0, reach=R))
    cf.append(T(c("h_matching", v, 6, 8, 2, 0, 63, 2, 5, 0, w=100, shards=4, reach=R)))
    cf.append(T(c("h_matching", v, 8, 4, 2, 0, 255, 3, 4, 0, w=60, reach=R)))
for v in (0, 1):
    for unit in (1, 2, 3):
        cf.append(c("h_matching", v, 4, A, 1, 100 * unit, 15, 1, 3, 0, reach=R))
        cf.append(c("h_matching", v, 6, 3, 1, 100 * unit + 4, 63, 1, 2, 0, reach=R))
P["C10"] = dict(cfgs=cf, bounds="2 and 4 vertices with every cost in 0..2^20, 6 and 8 vertices with 3..5 symbolic edges; 0..3 tries; the first 3..6 random decisions open",
    outside="more tries; random decisions beyond the budget take a fixed value")

# ------------------------------------------------------------------ C11 parser
cf = []
for form in range(5):
    cf.append(c("h_parse_cost", form, 2, 1, reach=["parsed"]))
    cf.append(c("h_parse_cost", form, 3, 1, w=2, reach=["parsed"]))
    cf.append(T(c("h_parse_cost", form, 3, 2, w=80, reach=["parsed"])))
cf.append(T(c("h_parse_cost", 0, 4, 3, w=10, reach=["parsed"])))
cf.append(T(c("h_parse_cost", 1, 3, 3, w=10, reach=["parsed"])))
for n, deg, k in ((2, 5, 2), (3, 42, 2), (3, 26, 3), (3, 58, 2), (3, 10, 2), (2, 9, 3), (4, 255, 2)):
    cf.append(c("h_parse_accept", 0, n, deg, k, w=k * k, reach=["not acceptable"]))
for form in (1, 2):
    cf.append(c("h_parse_accept", 0, 2, 5, 2, form, w=3, reach=["not acceptable"]))
cf.append(T(c("h_parse_accept", 0, 3, 42, 3, w=60, shards=2, reach=["acceptable", "not acceptable"])))
cf.append(T(c("h_parse_accept", 0, 3, 42, 4, w=600, shards=8, reach=["acceptable", "not acceptable"])))
P["C11"] = dict(cfgs=cf, bounds="documents with 2..4 vertices; costs: two symbolic digits in five spellings; acceptance: the targets and costs of 2 or 3 edges symbolic (one digit each, including a target behind the last vertex) in lists of the right and wrong lengths",
    outside="other XML layouts, long numbers, larger documents")

# ------------------------------------------------------------------ C12 preconditions
cf = []
D = ["decided"]
for what in (0, 1, 2, 3):
    for n, deg in ((1, 0), (1, 1), (2, 5), (2, 4), (2, 9), (2, 10), (3, 42), (3, 26), (3, 41), (3, 22)):
        cf.append(c("h_pre", what, n, deg, 0, w=2, reach=D))
    if what != 2:
        cf.append(c("h_pre", what, 3, 43, 0, w=12, reach=D))
    for n, deg in ((1, 2), (1, 3), (2, 5)) + (((3, 2), (3, 3), (4, 2)) if what in (1, 3) else ((3, 26),)):
        cf.append(c("h_pre", what, n, deg, 1, w=4, reach=D))
    for unit in (1, 2, 3):
        cf.append(c("h_pre", what, 2, 5, 0, unit, reach=D))
        if what in (2, 3):
            cf.append(c("h_pre", what, 3, 26, 0, unit, reach=D))
    cf.append(T(c("h_pre", what, 2, 10, 1, w=30, reach=D)))
    cf.append(T(c("h_pre", what, 3, 43, 0, w=12, reach=D)))
    cf.append(T(c("h_pre", what, 3, 47, 0, w=60, shards=2, reach=D)))
P["C12"] = dict(cfgs=cf, bounds="every adjacency list with up to 3 vertices, at most 3 edges per vertex (listed degree profiles), targets 0..n (n is no vertex) and, for some profiles, any 64-bit target (tests with a hash set: 12 targets far behind the last vertex), costs 0..3",
    outside="more vertices")

# ------------------------------------------------------------------ C13 graphs and matrices
cf = []
for v in range(4):
    for n in (1, 2, 3, 4, 6):
        cf.append(c("h_matrix", v, n, A, n, reach=["start"]))
    cf.append(T(c("h_matrix", v, 9, A, 2, reach=["start"])))
for v in range(4):
    for unit in (1, 2, 3):
        cf.append(c("h_matrix", v, 3, A, 1, unit, reach=["start"]))
for v in (4, 5):
    for n in (1, 2, 3):
        cf.append(c("h_matrix", v, n, A, n, w=2, reach=["start"]))
    cf.append(T(c("h_matrix", v, 4, A, n, w=20, reach=["start"])))
P["C13"] = dict(cfgs=cf, bounds="every symmetric cost matrix in 0..2^20 with n in 1,2,3,4,6; every directed graph of up to 3 vertices (thorough 4) and every undirected one with edges listed at one or both ends; set: every cell", outside="larger graphs")

# ------------------------------------------------------------------ C14 point sets
cf = []
for n in (1, 2, 3, 4, 5):
    for b in (0, 2):
        cf.append(c("h_points", 0, n, b, flags="--uf", reach=R))
cf.append(c("h_points", 1, 1, 0, w=18, reach=R))
cf.append(T(c("h_points", 0, 8, 2, flags="--uf", reach=R)))
P["C14"] = dict(cfgs=cf, bounds="1..5 points with arbitrary finite IEEE coordinates up to 1e100; off-diagonal entries: floating-point operations uninterpreted (equality of the computed terms); diagonal: IEEE semantics, one point",
    outside="more points; the diagonal for several points is decided only up to uninterpreted operations")

# ------------------------------------------------------------------ C15 path evaluation and metric test
cf = []
for v in (0, 1):
    for n, l in ((1, 0), (1, 1), (2, 1), (3, 2), (3, 3), (4, 4), (4, 3)):
        cf.append(c("h_paths", v, n, l, A, 1, w=2, reach=R))
    cf.append(c("h_paths", v, 5, 4, 4, 2, w=6, reach=R))
    for n in (1, 2, 3):
        cf.append(c("h_metric", v, n, A, 1, flags="--rounding", reach=D))
    cf.append(c("h_metric", v, 4, 4, 1, flags="--rounding", w=3, reach=D))
    cf.append(c("h_metric", v + 2, 4, 3, 1, flags="--rounding", w=3, reach=D))
    cf.append(c("h_metric", v + 2, 6, 2, 2, flags="--rounding", w=3, reach=D))
    cf.append(T(c("h_metric", v, 4, A, 1, flags="--rounding", w=60, reach=D)))
for v in (0, 1):
    for unit in (1, 2, 3):
        cf.append(c("h_paths", v, 3, 3, A, 1, unit, reach=R))
    cf.append(c("h_metric", v, 3, A, 1, 4, flags="--rounding", reach=D))
    cf.append(c("h_metric", v + 2, 4, 3, 1, 4, flags="--rounding", reach=D))
P["C15"] = dict(cfgs=cf, bounds="paths with up to 4 symbolic vertices (repetitions included) on n<=5 with symbolic costs; metric test: every symmetric matrix with costs 0..1000 and n<=3, n=4..6 with 2..4 symbolic edges, with the rounding-error model",
    outside="violations of the triangle inequality by less than 1")

# ------------------------------------------------------------------ C16 next_permutation
cf = [c("h_next_permutation", 0, n, hi, reach=R) for n, hi in ((0, 1), (1, 5), (2, 5), (3, 9), (4, 9), (5, 4), (5, 9))]
cf.append(T(c("h_next_permutation", 0, 6, 9, w=60, reach=R)))
P["C16"] = dict(cfgs=cf, bounds="arrays with up to 5 elements (thorough: 6) from 0..9, repeated elements included", outside="longer arrays")

# ------------------------------------------------------------------ C17 prefix enumeration
cf = []
for d in (1, 2, 3):
    cf.append(c("h_next_value", 0, d, 6, 0, w=3, reach=R))
    cf.append(c("h_next_value", 0, d, 6, 5, w=1, reach=R))
    cf.append(c("h_chunks", 0, d, 0, 5 if d > 1 else 4, w=9, reach=R))
cf.append(c("h_chunks", 0, 3, 4, 12, w=3, reach=R))
cf.append(c("h_chunks", 0, 3, 5, 9, w=3, reach=R))
cf.append(c("h_chunks", 0, 2, 7, 12, w=3, reach=R))
for d, b, k in ((3, 41, 8), (3, 300, 5), (2, 300, 8)):
    cf.append(c("h_chunks", 0, d, b, k, w=6, reach=R))
cf.append(c("h_next_value", 0, 3, 300, 300, w=1, reach=R))
cf.append(c("h_next_value", 0, 2, 3000, 3000, w=1, reach=R))
cf.append(c("h_chunks", 0, 3, 2000, 4, w=8, reach=R))
cf.append(T(c("h_chunks", 0, 4, 9, 12, w=60, reach=R)))
cf.append(T(c("h_chunks", 0, 3, 0, 24, w=60, reach=R)))
cf.append(T(c("h_next_value", 0, 4, 8, 0, w=60, reach=R)))
P["C17"] = dict(cfgs=cf, bounds="numbers of up to 3 digits, basis up to 7, up to 12 chunks; basis 41 and 300 with up to 8 chunks (thorough: 4 digits, basis 9 and 2000, 24 chunks)", outside="longer numbers")

# ------------------------------------------------------------------ C18 is_hamiltonian_cycle
cf = [c("h_hamiltonian", 0, n, l, w=1, reach=D) for n in (1, 2, 3, 4) for l in range(0, n + 3) if (n, l) != (1, 1)]
cf.append(c("h_hamiltonian", 0, 5, 6, w=3, reach=D))
P["C18"] = dict(cfgs=cf, bounds="closed paths of up to n+2 symbolic vertices on n<=4 (n=5: 6 vertices), vertices 0..n", outside="open paths, larger graphs, the path of one entry on one vertex (closed and not closed at once)")

# ------------------------------------------------------------------ C03 multi-threaded solver
def mt(*p, ncpu, preempt=0, switches=0, **kw):
    return c("h_threaded", *p, 1, variant="mt", ncpu=ncpu, preempt=preempt, switches=switches, reach=["solved"], **kw)


cf = []
for n in (1, 2, 3):
    for cpu in (1, 2, 4):
        cf.append(mt(n, A, 1, 0, ncpu=cpu, preempt=2 if cpu < 4 else 0, switches=2))
cf += [
    mt(4, A, 1, 0, ncpu=2, preempt=1, switches=1, w=60),
    mt(4, 1, 2, 0, ncpu=2, preempt=2, switches=2, w=30),
    mt(4, 2, 1, 0, ncpu=3, preempt=0, switches=4, w=40),
    mt(4, 1, 1, 0, ncpu=3, preempt=1, switches=2, w=30),
    mt(4, A, 1, 0, ncpu=4, w=60), mt(4, A, 1, 0, ncpu=8, w=60),
    mt(5, 2, 1, 4, ncpu=3, preempt=0, switches=2, w=60),
    mt(5, 2, 1, 0, ncpu=2, preempt=0, switches=2, w=40),
    mt(5, 1, 3, 1, ncpu=4, preempt=0, switches=2, w=40),
    mt(6, 1, 1, 0, ncpu=2, preempt=0, switches=1, w=40),
    mt(6, 1, 2, 4, ncpu=4, preempt=0, switches=0, w=40),
    mt(7, 1, 1, 1, ncpu=3, preempt=0, switches=0, w=40),
    mt(4, 1, 1, 100, ncpu=3, preempt=0, switches=1, w=10), mt(4, 1, 2, 200, ncpu=2, preempt=0, switches=1, w=10),
    mt(4, 1, 3, 304, ncpu=3, preempt=0, switches=1, w=10),
    T(mt(4, A, 1, 0, ncpu=2, preempt=2, switches=1, w=200, to=2000)),
    T(mt(4, A, 1, 0, ncpu=3, preempt=1, switches=2, w=900, shards=8, to=3000)),
    T(mt(5, 1, 1, 0, ncpu=2, preempt=1, switches=2, w=900, shards=8, to=3000)),
    T(mt(5, 1, 2, 4, ncpu=4, preempt=1, switches=1, w=900, shards=8, to=3000)),
    T(mt(4, 1, 1, 0, ncpu=3, preempt=2, switches=2, w=900, shards=8, to=3000)),
]
P["C03"] = dict(cfgs=cf, bounds="2, 3, 4 and 8 worker threads on n<=3 and 4 in full, n=4..7 with 1..2 symbolic edges; switches between threads when one blocks or ends (up to 4 of them open, the others in a fixed order) and up to 2 preemptions (thorough: more combinations) at any atomic operation of the solver",
    outside="more preemptions; weak memory orders (the solver uses a Mutex only); larger graphs",
    assume=["threads of rayon's scope are started for every task; a data race on plain memory is not detected (the code is safe Rust)"])

# ------------------------------------------------------------------ C04, C05 MPI exact solvers
def mpi(h, *p, **kw):
    kw.setdefault("reach", ["finished"])
    return c(h, *p, variant="mpi", **kw)


def exact_mpi(what, pre, *runs):
    return [mpi("h_mpi_exact", what, pre, *r[:4], *r[4:], **k) for r, k in runs]


# what, prefix length, n, symbolic edges, seed, kind, processes, sync, policy, first open decision, open decisions
S = []
for n in (1, 2, 3):
    for size in (1, 2, 3, 5):
        S.append(((n, A, 1, 0, size, size % 2, 0, 0, 4 if size < 5 else 2), {}))
S += [
    ((4, A, 1, 0, 3, 0, 0, 0, 2), dict(w=10)),
    ((4, 4, 1, 0, 3, 1, 0, 0, 3), dict(w=16)),
    ((5, 2, 2, 4, 2, 0, 0, 0, 0), dict(w=4)),
    ((5, 2, 1, 0, 3, 0, 2, 0, 0), dict(w=60)),
    ((5, 1, 2, 0, 4, 0, 1, 4, 3), dict(w=60)),
    ((6, 1, 2, 0, 4, 0, 2, 10, 1), dict(w=30)),
    ((5, 2, 3, 1, 3, 1, 1, 0, 0), dict(w=60)),
]
U = [((3, A, 1, 0, size, 0, pol, 0, 1), dict(w=2)) for size in (7, 8) for pol in (0, 3)]
# more processes than prefixes per tour, so that nobody sees every tour
U += [((4, 3, 1, 0, size, 0, pol, 0, 0), dict(w=9)) for size, pol in ((7, 3), (8, 4), (9, 2), (9, 3))]
U += [((4, 2, 2, 2, size, 0, pol, 0, 0), dict(w=5)) for size, pol in ((8, 3), (9, 1))]
U += [((5, 1, 1, 0, size, 0, pol, 0, 0), dict(w=9)) for size, pol in ((5, 3), (9, 3), (9, 4))]
U += [((4, 2, unit, 100 * unit, 3, 0, 0, 0, 1), dict(w=3)) for unit in (1, 2, 3)]
U += [((4, 1, 1, 4, size, 1, 0, 0, 1), dict(w=3)) for size in (2, 3)]
S += U
cf = exact_mpi(2, 0, *S)
for pre in (1, 2, 3):
    cf += exact_mpi(0, pre, ((4, 3, 1, 0, 3, 0, 0, 0, 0), dict(w=8)), ((4, 1, 1, 0, 4, 0, 0, 0, 3), dict(w=3)), ((5, 1, 1, 4, 3, 0, 2, 0, 2), dict(w=14)))
cf += [T(x) for x in exact_mpi(2, 0,
    ((4, A, 1, 0, 3, 0, 0, 0, 6), dict(w=300, shards=2)), ((4, A, 1, 0, 5, 1, 0, 0, 3), dict(w=300, shards=2)),
    ((5, 3, 2, 0, 3, 0, 0, 0, 2), dict(w=900, shards=8, to=3000)), ((6, 2, 3, 4, 3, 0, 0, 0, 1), dict(w=900, shards=8, to=3000)), ((7, 1, 3, 1, 4, 0, 2, 0, 1), dict(w=900, shards=4, to=3000)))]
cf += [T(x) for x in exact_mpi(0, 1, ((4, A, 1, 0, 3, 0, 0, 0, 0), dict(w=200, shards=2)))]
P["C04"] = dict(cfgs=cf, bounds="1, 2, 3, 5 processes on n<=3 and 3 processes on n=4 in full; n=4..6 with 1..4 symbolic edges and up to 4 processes; prefix lengths 1, 2, 3; up to 4 decisions of matching a wildcard receive and completing a test open at stated positions, the others by one of three policies",
    outside="more processes and larger graphs; more open decisions")

D5 = []
for n in (1, 2, 3):
    for size in (1, 2, 3, 5):
        D5.append(((n, A, 1, 0, size, size % 2, 0, 0, 4 if size < 5 else 2), {}))
D5 += [
    ((4, A, 1, 0, 3, 0, 0, 0, 2), dict(w=10)),
    ((4, A, 1, 0, 4, 0, 2, 0, 0), dict(w=4)),
    ((4, 2, 1, 0, 3, 1, 0, 0, 4), dict(w=20)),
    ((4, 2, 1, 0, 6, 0, 2, 0, 2), dict(w=12)),
    ((4, 1, 1, 0, 4, 0, 0, 0, 3), dict(w=3)),
    ((5, 2, 1, 0, 3, 0, 2, 0, 0), dict(w=60)),
    ((5, 1, 2, 0, 4, 0, 1, 4, 3), dict(w=60)),
    ((6, 1, 2, 0, 4, 0, 2, 10, 1), dict(w=30)),
    ((6, 1, 1, 0, 3, 1, 0, 0, 0), dict(w=5)),
    ((5, 2, 3, 4, 3, 1, 1, 0, 0), dict(w=60)),
]
D5 += U
cf = exact_mpi(1, 0, *D5)
cf += [T(x) for x in exact_mpi(1, 0,
    ((4, A, 1, 0, 3, 0, 0, 0, 6), dict(w=300, shards=2)), ((4, A, 1, 0, 5, 1, 0, 0, 3), dict(w=300, shards=2)),
    ((5, 3, 2, 0, 3, 0, 0, 0, 2), dict(w=900, shards=8, to=3000)), ((6, 2, 3, 4, 3, 0, 0, 0, 1), dict(w=900, shards=8, to=3000)), ((7, 1, 3, 1, 4, 0, 2, 0, 1), dict(w=900, shards=4, to=3000)))]
P["C05"] = dict(cfgs=cf, bounds=P["C04"]["bounds"].replace("prefix lengths 1, 2, 3; ", ""), outside=P["C04"]["outside"])

# ------------------------------------------------------------------ C19 MPI nearest neighbour and 1-tree bound
cf = []
for what in (3, 4, 5):
    for n in (1, 2, 3):
        for size in (1, 2, 3, 5):
            cf.append(mpi("h_mpi_bounds", what, n, A, 1, 0, size, size % 2, 0, 0, 4))
    cf.append(mpi("h_mpi_bounds", what, 4, 2, 1, 0, 3, 0, 0, 0, 2, w=2))
    cf.append(mpi("h_mpi_bounds", what, 4, 4, 1, 0, 2, 1, 0, 0, 2, w=8))
    cf.append(mpi("h_mpi_bounds", what, 5, 2, 2, 0, 2, 0, 0, 0, 2, w=8))
    cf.append(mpi("h_mpi_bounds", what, 5, 1, 3, 0, 4, 0, 2, 0, 2, w=8))
    cf.append(mpi("h_mpi_bounds", what, 6, 1, 2, 4, 4, 1, 0, 0, 1, w=8))
    cf.append(mpi("h_mpi_bounds", what, 7, 1, 2, 0, 3, 0, 1, 0, 1, w=8))
    for unit in (1, 2, 3):
        cf.append(mpi("h_mpi_bounds", what, 4, 2, unit, 100 * unit, 3, 0, 0, 0, 0))
        cf.append(mpi("h_mpi_bounds", what, 4, 2, unit, 100 * unit + 4, 2, 0, 0, 0, 1))
    cf.append(mpi("h_mpi_bounds", what, 3, A, 1, 0, 8, 0, 0, 0, 1))
    cf.append(T(mpi("h_mpi_bounds", what, 4, A, 1, 0, 3, 0, 0, 0, 3, w=300, shards=4)))
    cf.append(T(mpi("h_mpi_bounds", what, 5, 4, 2, 0, 3, 0, 0, 0, 2, w=300, shards=4)))
P["C19"] = dict(cfgs=cf, bounds="n<=3 in full with 1, 2, 3 and 5 processes, n=4..7 with 1..4 symbolic edges and 2..4 processes; up to 4 decisions of the message matching open",
    outside="larger graphs, more processes")

# ------------------------------------------------------------------ C20 MPI matching and Christofides
cf = []
for size in (1, 2, 3, 4):
    for n, mask in ((2, 3), (4, 15), (5, 29)):
        for tries in (0, 1, 2):
            cf.append(mpi("h_mpi_matching", 7, n, A if n < 5 else 3, 1, 0, mask, tries, 2, size, size % 2, w=3))
    cf.append(mpi("h_mpi_matching", 7, 4, 2, 1, 0, 0, 2, 2, size, 0))
    for n in (1, 2, 3):
        cf.append(mpi("h_mpi_matching", 6, n, A, 1, 1, 0, 0, 2, size, size % 2))
    cf.append(mpi("h_mpi_matching", 6, 4, 2, 1, 1, 0, 0, 2, size, 0, w=2))
    cf.append(mpi("h_mpi_matching", 6, 5, 2, 2, 1, 0, 0, 1, size, 0, w=7))
cf.append(mpi("h_mpi_matching", 7, 6, 3, 2, 0, 63, 1, 3, 3, 0, w=7))
cf.append(mpi("h_mpi_matching", 7, 8, 2, 2, 0, 255, 1, 2, 2, 0, w=7))
for unit in (1, 2, 3):
    cf.append(mpi("h_mpi_matching", 7, 4, A, 1, 100 * unit, 15, 1, 1, 2, 0))
    cf.append(mpi("h_mpi_matching", 6, 4, 2, 1, 100 * unit + 1, 0, 0, 1, 3, 0, w=2))
for pairs, sym, tries, draws, size, seed in ((3, 3, 1, 0, 2, 1), (3, 3, 1, 0, 3, 1), (3, 3, 2, 0, 3, 2), (3, 3, 1, 1, 3, 3), (4, 2, 1, 0, 4, 4), (4, 3, 2, 0, 3, 5), (5, 2, 3, 0, 6, 6), (3, 15, 1, 0, 2, 2)):
    cf.append(mpi("h_mpi_best_matching", pairs, sym, seed, 0, tries, draws, size, seed % 2, seed, w=3))
for pairs in (0, 1, 2):
    cf.append(mpi("h_mpi_best_matching", pairs, A, 1, 0, 1, 1, 3, 0, 1))
cf.append(T(mpi("h_mpi_best_matching", 3, 5, 3, 0, 1, 2, 4, 0, 3, w=100)))
cf.append(T(mpi("h_mpi_best_matching", 4, 6, 4, 0, 2, 0, 5, 0, 7, w=100)))
cf.append(T(mpi("h_mpi_matching", 7, 6, 5, 2, 0, 63, 2, 3, 3, 0, w=100, shards=4)))
cf.append(T(mpi("h_mpi_matching", 7, 8, 3, 3, 0, 255, 2, 3, 4, 0, w=100, shards=4)))
cf.append(T(mpi("h_mpi_matching", 6, 5, 4, 1, 1, 0, 0, 2, 3, 0, w=100, shards=4)))
P["C20"] = dict(cfgs=cf, bounds="1..4 processes; matching: 2 and 4 vertices in full, 5, 6 and 8 with 2..3 symbolic edges, 0..2 tries, up to 3 random decisions open; the cheapest of all processes: 2..6 processes, up to 5 pairs with 2..3 symbolic edges (3 pairs in full for 2 processes), up to 3 tries; Christofides: n<=3 in full, 4 and 5 with 2 symbolic edges",
    outside="larger graphs, more processes; random decisions beyond the budget take a fixed value")

# ------------------------------------------------------------------ C21 command line
cf = []
for alg in range(7):
    cf.append(c("h_cli", 0, alg, 0, -1, 4, 2, 1, 0, reach=R))
    cf.append(c("h_cli", 0, alg, 0, -1, 3, 3, 1, 0, reach=R))
    cf.append(c("h_cli", 0, alg, 0, -1, 2, 1, 1, 0, reach=R))
cf.append(c("h_cli", 0, 0, 1, -1, 4, 2, 1, 0, reach=R))
cf.append(c("h_cli", 0, 5, 0, -1, 5, 1, 1, 0, w=3, reach=R))
for what in (1, 2):
    for par in (0, 1):
        for lb in (-1, 0, 1, 2):
            cf.append(c("h_cli", what, 0, par, lb, 4, 2, 1, what - 1, reach=R))
        cf.append(c("h_cli", what, 0, par, 0, 3, 3, 1, what - 1, reach=R))
        cf.append(c("h_cli", what, 0, par, 1, 2, 1, 1, 0, reach=R))
        cf.append(c("h_cli", what, 0, par, -1, 5, 2, 2, what - 1, w=3, reach=R))
for par in (0, 1):
    for lb in (0, 1, 2):
        cf.append(c("h_cli", 3, 0, par, lb, 4, 3, 1, 0, w=2, reach=R))
        cf.append(c("h_cli", 3, 0, par, lb, 3, 3, 1, 0, reach=R))
        cf.append(c("h_cli", 3, 0, par, lb, 5, 2, 2, 0, w=3, reach=R))
for unit in (1, 3, 4):
    for what, alg, par, lb in ((0, 0, 0, -1), (0, 3, 0, -1), (0, 6, 0, -1), (1, 0, 0, 0), (1, 0, 1, 1), (3, 0, 0, 2), (3, 0, 0, 0), (3, 0, 1, 1)):
        cf.append(c("h_cli", what, alg, par, lb, 4, 2, 1, 100 * unit, reach=R))
    if unit != 3:
        cf.append(c("h_cli", 2, 0, 0, 0, 4, 2, 1, 100 * unit + 1, reach=R))
for n, seed, k in ((5, 2, 0), (5, 3, 0), (6, 2, 0), (6, 4, 0), (7, 2, 1)):
    for par in (0, 1):
        cf.append(c("h_cli", 1, 0, par, -1, n, 2, seed, k, reach=R))
        cf.append(c("h_cli", 2, 0, par, seed % 3, n, 1, seed, k, reach=R))
        cf.append(c("h_cli", 3, 0, par, seed % 3, n, 1, seed, k, reach=R))
for defect in range(6):
    for what, par, lb in ((0, 0, -1), (1, 0, -1), (2, 1, 0), (3, 0, 0), (3, 0, 1)):
        cf.append(c("h_cli_reject", what, 0, par, lb, defect, reach=D))
for what, alg, lb in ((0, 0, -1), (0, 1, -1), (1, 0, -1), (1, 0, 0), (1, 0, 1), (2, 0, -1), (2, 0, 0), (2, 0, 1), (2, 0, 2), (3, 0, 0), (3, 0, 1), (3, 0, 2)):
    cf.append(mpi("h_mpi_cli", what, alg, lb, 4, 2, 1, what == 2, 3, 0, 0, 0, 0, w=2))
    cf.append(mpi("h_mpi_cli", what, alg, lb, 3, 3, 1, what == 2, 2, 1, 0, 0, 1, w=2))
    cf.append(mpi("h_mpi_cli", what, alg, lb, 2, 1, 1, 0, 3, 0, 0, 0, 0, w=2))
for x in cf:
    x["p"] = [int(q) for q in x["p"]]
P["C21"] = dict(cfgs=cf, bounds="every combination of command, algorithm, parallelism and lower bound on n=2..5 with 1..3 symbolic costs in the document; MPI with 2 and 3 processes; six kinds of unacceptable documents, the position of the defect symbolic",
    outside="argument parsing (clap); other XML layouts (C11); larger graphs",
    assume=["the standard library prints an f64 so that parsing it yields the same value (costs in documents and output are symbolic tokens)"])

# ------------------------------------------------------------------ C22 generator of instances
cf = [c("h_gen", n, flags="--uf", reach=["generated"], variant="gen") for n in (2, 3, 4, 5, 6, 8, 11)]
cf += [c("h_gen_reject", k, reach=["done"], variant="gen") for k in range(5)]
cf += [T(c("h_gen", n, flags="--uf", reach=["generated"], variant="gen")) for n in (7, 9, 10, 12, 16, 24)]
P["C22"] = dict(cfgs=cf, bounds="2..11 points (thorough: up to 24), every coordinate any number the random generator can draw; five kinds of program arguments without a number of vertices",
    outside="larger instances; the random generator itself (any sequence of numbers from [0, 1) is allowed); the scripts that call the generator",
    assume=["the standard library prints an f64 so that parsing it yields the same value (costs in documents are symbolic tokens)",
            "the products and square roots of the coordinates are uninterpreted functions that respect the bounds and signs of the real ones: what is shown is that the printed cost is the same expression"])

# ------------------------------------------------------------------ large instances with few symbolic values
# (width of integers, bit masks, chunk sizes, thresholds); kind 8: built around a known optimal tour
def more(pid, bounds, cfgs):
    P[pid]["cfgs"] += cfgs
    P[pid]["bounds"] += "; large: " + bounds


BIG = "--steps 600000000"
S = ["solved"]
more("C01", "n=9..12 (v3, v4: 16) around a known optimal tour with 1 or 2 symbolic edges (thorough: n=20 for v5 and v6)",
     [c("h_exact", v, 9, 2 if v < 5 else 1, s, 8, w=3, reach=S) for v in (3, 4, 5, 6) for s in (1, 2, 3)]
     + [c("h_exact", 3, 11, 2, 1, 8, w=2, reach=S), c("h_exact", 4, 11, 1, 2, 8, w=5, reach=S)]
     + [c("h_exact", v, 12, 1, s, 8, w=12, reach=S, flags=BIG) for v in (5, 6) for s in (1, 2, 3)]
     + [c("h_exact", v, 10, 1, 1, 108, w=5, reach=S, flags=BIG) for v in (4, 5, 6)]
     + [T(c("h_exact", v, 16, 1, s, 8, w=100, reach=S, flags="--steps 4000000000")) for v in (5, 6) for s in (1, 2)]
     + [T(c("h_exact", 4, 16, 1, 1, 8, w=100, reach=S, flags="--steps 4000000000")), T(c("h_exact", 4, 12, 2, 1, 8, w=300, reach=S, flags=BIG))])
more("C02", "n=9, 20 and 40 with 1..3 symbolic edges",
     [c("h_exact", v, 9, 1, 1, 8, flags="--errors", w=3, reach=S) for v in (3, 4, 5, 6)]
     + [c("h_nn", 0, 20, 6, 1, 0, 5, flags="--errors", reach=R), c("h_nn", 0, 70, 1, 2, 0, 5, flags="--errors", reach=R),
        c("h_nn", 1, 20, 1, 2, 0, 20, 0, 0, flags="--errors", reach=R), c("h_nn", 2, 20, 1, 2, 0, 20, 0, 0, flags="--errors", reach=R),
        c("h_christofides", 0, 20, 2, 1, 0, 0, 0, 0, flags="--errors", w=5, reach=R), c("h_christofides", 1, 40, 1, 1, 0, 0, 0, 0, flags="--errors", w=5, reach=R)])
more("C03", "n=8 (thorough: 9) around a known optimal tour with 1 symbolic edge and 2..8 threads in a fixed order",
     [mt(8, 1, 1, 8, ncpu=7, w=20), mt(8, 1, 2, 8, ncpu=3, w=20), mt(8, 1, 3, 108, ncpu=2, w=20), mt(8, 1, 1, 8, ncpu=8, w=20)]
     + [T(mt(9, 1, 1, 8, ncpu=8, w=300, flags="--steps 2000000000")), T(mt(9, 1, 2, 8, ncpu=2, w=300, flags="--steps 2000000000"))])
more("C04", "n=8 and 10 around a known optimal tour with 1 symbolic edge and 3..5 processes",
     [mpi("h_mpi_exact", 2, 0, 8, 1, 1, 8, 3, 0, 0, 0, 0, w=3), mpi("h_mpi_exact", 2, 0, 10, 1, 2, 8, 5, 0, 2, 0, 0, w=12),
      mpi("h_mpi_exact", 0, 1, 9, 1, 3, 8, 4, 0, 1, 0, 0, w=5), mpi("h_mpi_exact", 0, 4, 7, 1, 3, 8, 3, 0, 3, 0, 0, w=5)])
more("C05", "n=8 and 10 around a known optimal tour with 1 symbolic edge and 3..5 processes",
     [mpi("h_mpi_exact", 1, 0, 8, 1, 1, 8, 3, 0, 0, 0, 0, w=3), mpi("h_mpi_exact", 1, 0, 10, 1, 2, 8, 5, 0, 2, 0, 0, w=12),
      mpi("h_mpi_exact", 1, 0, 9, 1, 3, 8, 4, 0, 3, 0, 0, w=5)])
more("C06", "n=40, 70, 140 and 260 with 1 or 2 symbolic edges",
     [c("h_mst", v, 70, 1, s, k, m, 0, w=3, reach=R) for v in (0, 1, 2) for s, k, m in ((1, 0, 0), (2, 4, 21), (3, 1, 1 << 40 | 5))]
     + [c("h_mst", v, n, 1, 2, 0, 0, 0, w=3, reach=R, flags=BIG) for v in (3, 4) for n in (40, 140)]
     + [c("h_mst", v, 260, 1, 2, 0, 0, 0, w=3, reach=R, flags=BIG) for v in (0, 1, 2)])
more("C07", "n=40, 70 and 140 with 1 or 2 symbolic edges (the bound around a known optimal tour)",
     [c("h_one_tree", 0, n, 1, 1, k, s, w=2, reach=R) for n, k, s in ((70, 0, 33), (140, 0, 33), (40, 4, 39), (70, 8, 0), (70, 1, 69))]
     + [c("h_one_tree_bound", v, n, 1, 1, 8, 0, 0, w=3, reach=R, flags=BIG) for v in (0, 1) for n in (33, 40)]
     + [T(c("h_one_tree_bound", v, 70, 1, 1, 8, 0, 0, w=10, reach=R, flags=BIG)) for v in (0, 1)])
more("C08", "n=40, 70 and 260 with 1 or 2 symbolic edges",
     [c("h_nn", 0, 70, 2, 1, 0, 5, reach=R), c("h_nn", 0, 70, 2, 2, 4, 69, reach=R), c("h_nn", 0, 260, 2, 1, 0, 259, w=2, reach=R)]
     + [c("h_nn", v, n, 1, 1, k, q, 0, 0, w=3, reach=R) for v in (1, 2) for n, k, q in ((40, 0, 40), (40, 4, 10), (70, 4, 70), (33, 8, 33), (66, 0, 3))])
more("C09", "n=30, 40 and 140 with 1 symbolic edge",
     [c("h_christofides", v, n, 1, 1, k, 0, 0, 0, w=3, reach=R) for v in (0, 1) for n, k in ((30, 1), (40, 0), (70, 1), (33, 4))]
     + [c("h_christofides", 0, 140, 1, 1, 0, 0, 0, 0, w=9, reach=R, flags=BIG)])
more("C10", "70 and 300 vertices with 1 symbolic edge",
     [c("h_matching", v, 70, 1, 1, 0, -1, 3, 0, 0, reach=R) for v in (0, 1)] + [c("h_matching", v, 300, 1, 1, 0, -1, 2, 0, 0, reach=R) for v in (0, 1)]
     + [c("h_matching", v, 40, 2, s, 4, -1, 2, 2, 0, reach=R) for v in (0, 1) for s in (2, 3)])
more("C11", "10, 40 and 70 vertices, one edge (12 positions; one for 40 and 70) with 6 targets and symbolic digit",
     [c("h_parse_big", 10, 1, 0, w=5, reach=["acceptable", "not acceptable"])] + [c("h_parse_big", n, 2, 1, w=n / 5, reach=["acceptable", "not acceptable"]) for n in (12, 40, 70)])
more("C12", "complete graphs of 20 and 70 vertices in which one edge (12 positions) has one of 6 targets and a symbolic cost",
     [c("h_pre_big", what, n, s, w=n / 10, reach=D) for what in range(4) for n, s in ((5, 1), (20, 3), (33, 2), (70, 1))])
more("C13", "n=70 with 4 symbolic edges, n=270 with 1",
     [c("h_matrix", v, 70, 4, 1, 0, reach=["start"]) for v in range(4)] + [c("h_matrix", v, 270, 1, 1, 0, w=2, reach=["start"]) for v in (0, 1)])
more("C14", "20, 33 and 70 points",
     [c("h_points", 0, 20, 2, flags="--uf", reach=R), c("h_points", 0, 33, 2, flags="--uf", reach=R), c("h_points", 0, 70, 0, flags="--uf", reach=R)])
more("C15", "paths of 40 and 70 vertices with 1 or 2 symbolic ones, metric test with n=20 and 40",
     [c("h_paths", v, 70, 70, 2, 1, 0, 69, reach=R) for v in (0, 1)] + [c("h_paths", v, 20, 40, 2, 1, 0, 39, reach=R) for v in (0, 1)]
     + [c("h_metric", v, n, k, s, 0, flags="--rounding", w=2, reach=D) for v in (2, 3) for n, k, s in ((20, 2, 1), (33, 1, 3), (40, 1, 2))])
more("C16", "arrays of 9..30 elements with 2..5 symbolic ones at the end",
     [c("h_next_permutation", 0, n, hi, f, w=5, reach=R) for n, hi, f in ((9, 9, 4), (12, 9, 8), (20, 30, 17), (30, 40, 28))] + [T(c("h_next_permutation", 0, 70, 100, 68, w=50, reach=R))])
more("C18", "paths of 40, 70 and 300 vertices, the last 1 or 2 of them symbolic",
     [c("h_hamiltonian", 0, n, n + 1, f, w=5, reach=D) for n, f in ((20, 18), (33, 32), (40, 38), (70, 69), (300, 299))])
more("C19", "n=20, 40 and 70 with 1 symbolic edge and 3..5 processes",
     [mpi("h_mpi_bounds", 3, n, 1, 1, k, size, 0, 0, 0, 0, w=2) for n, k, size in ((20, 0, 3), (33, 4, 5), (70, 8, 5))]
     + [mpi("h_mpi_bounds", what, n, 1, 1, 8, size, 0, 0, 0, 0, w=2) for what in (4, 5) for n, size in ((20, 3), (40, 5), (33, 7))])
more("C20", "matching of 20, 30 and 70 vertices, Christofides with n=20 and 40, 1 symbolic edge, 3 and 4 processes",
     [mpi("h_mpi_matching", 7, 20, 1, 1, 0, (1 << 20) - 1, 2, 0, 4, 0), mpi("h_mpi_matching", 7, 30, 1, 1, 0, (1 << 30) - 1, 1, 0, 3, 0), mpi("h_mpi_best_matching", 15, 1, 1, 0, 1, 0, 3, 0, 1),
      mpi("h_mpi_best_matching", 35, 1, 1, 0, 1, 0, 3, 0, 1), mpi("h_mpi_matching", 6, 20, 1, 1, 1, 0, 0, 0, 3, 0), mpi("h_mpi_matching", 6, 40, 1, 1, 1, 0, 0, 0, 3, 0)])
more("C21", "n=9 for the exact solvers, n=30..70 for the others, around a known optimal tour with 1 or 2 symbolic costs",
     [c("h_cli", 0, v, 0, -1, 9, 1, 1, 8, w=2, reach=R) for v in (3, 4, 5, 6)]
     + [c("h_cli", 2, 0, par, 1 - par, 30, 2 - par, 1, 8, w=5, reach=R) for par in (0, 1)]
     + [c("h_cli", 1, 0, par, -1, 30, 1, 1, 0, w=2, reach=R) for par in (0, 1)] + [c("h_cli", 1, 0, 1, 2, 70, 1, 1, 8, w=8, reach=R, flags=BIG)]
     + [c("h_cli", 3, 0, par, lb, 30, 1, 1, 8, w=2, reach=R) for par in (0, 1) for lb in (0, 1, 2)] + [c("h_cli", 3, 0, 1, 1, 70, 1, 1, 8, w=4, reach=R)])

PROPS = P
