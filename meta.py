#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
EX = "src/solvers/exact.rs"
rows = []


def prop(id, title, statement, over, text, why, files, mech, **kw):
    rows.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                     anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], **kw)))


prop("C01", "Every sequential exact solver returns an optimal tour and its cost",
     "For every complete undirected graph with non-negative edge costs, the naive solver and the improved solvers v1 to v6 return a path that visits every vertex exactly once, the returned cost is the cost of the cycle along this path, and no tour of the graph is cheaper. This includes graphs with one, two or three vertices, equal costs and costs that violate the triangle inequality.",
     ["inputs"], "all symmetric cost matrices (solver version, number of vertices, every edge cost)",
     "Pruning bounds (partial sums, nearest-neighbour and MST bounds) are wrong only for particular cost patterns; a handful of fixed graphs, all of the same size, cannot show that no tour is ever pruned wrongly.",
     [EX, "src/mst.rs", "src/datastructures/mod.rs"],
     [("naive_solver and first..sixth_improved_solver", f"{EX}: the recursion over prefixes and its pruning conditions"), ("MST bound of v5/v6", "src/mst.rs: prim_with_excluded_node_*")])
prop("C02", "Reported costs carry no accumulated rounding error",
     "The cost reported by the sequential exact solvers, the nearest-neighbour search and Christofides' algorithm differs from the true cost of the reported tour by no more than the rounding of a sum of its edge costs. The costs of edges that are not part of the tour leave no rounding error behind in it.",
     ["inputs"], "all symmetric cost matrices with non-negative double-precision costs",
     "Tests use small whole-numbered costs for which every sum is exact; drift appears only for costs of different magnitude explored in a particular order.",
     [EX, "src/solvers/approximate/nearest_neighbour.rs", "src/solvers/approximate/christofides.rs"],
     [("partial cost of a prefix", f"{EX}: the recursion that extends and shortens the prefix"), ("evaluate_circle", "src/datastructures/mod.rs")])
prop("C06", "Prim's algorithm yields a minimum spanning tree of the vertices left",
     "For every cost matrix and every set of excluded vertices, the single-threaded, multi-threaded and priority-queue variants of Prim's algorithm return a spanning tree of exactly the vertices that are not excluded, with both directions of every edge and the edge costs of the graph. No spanning tree of these vertices is cheaper, and undirected_edge_weight is the weight of the tree.",
     ["inputs", "schedules"], "all symmetric cost matrices, exclusion sets and splittings/orders of the parallel reduction",
     "The tree depends on the order of the costs and of ties; the parallel variant depends on how work is split.",
     ["src/mst.rs", "src/parser.rs"],
     [("prim_with_excluded_node_single_threaded/multi_threaded/priority_queue", "src/mst.rs"), ("prim::<MODE>", "src/mst.rs")])
prop("C07", "The 1-tree bound never exceeds the cost of a tour",
     "one_tree returns a minimum 1-tree for its special vertex: a minimum spanning tree of the other vertices and the two cheapest edges of the special vertex. one_tree_lower_bound, sequential and parallel, is the largest weight of the minimum 1-trees of all special vertices; it is non-negative and never above the cost of any tour, also for one and two vertices.",
     ["inputs", "schedules"], "all symmetric cost matrices and orders of the parallel maximum",
     "A bound that is too large for a few cost patterns goes unnoticed in tests with fixed graphs.",
     ["src/one_tree.rs", "src/mst.rs"], [("one_tree", "src/one_tree.rs"), ("one_tree_lower_bound", "src/one_tree.rs")])
prop("C08", "Nearest-neighbour tours are greedy tours, the best of their starts",
     "single_nearest_neighbour returns a path from the given start that visits every vertex once, goes to a nearest unvisited vertex in every step, and is reported with the cost of its cycle. n_nearest_neighbour and nearest_neighbour, sequential and parallel, return such a tour that is no worse than the tours from the requested number of different start vertices.",
     ["inputs", "schedules"], "all symmetric cost matrices, start vertices, random start choices and parallel reductions",
     "The result depends on ties, on the random choice of the starts and on the order of the parallel minimum.",
     ["src/solvers/approximate/nearest_neighbour.rs"], [("single_nearest_neighbour", "src/solvers/approximate/nearest_neighbour.rs"), ("n_nearest_neighbour::<MODE>", "src/solvers/approximate/nearest_neighbour.rs")])
prop("C09", "Christofides returns a closed Hamiltonian cycle within the matching's guarantee",
     "For every complete graph, Christofides' algorithm, sequential and parallel, returns a closed path that visits every vertex exactly once, with its exact cost. On metric graphs the cost is at most the weight of the minimum spanning tree plus that of the matching used, and at most 3/2 of the optimum if the matching is minimal; this holds for every perfect matching of the odd vertices that the matching function may return.",
     ["inputs", "schedules"], "all metric cost matrices, all perfect matchings and random decisions of the heuristic",
     "The Eulerian cycle and the shortcuts depend on the shape of tree plus matching (shared edges, repeated vertices), which few fixed graphs cover.",
     ["src/solvers/approximate/christofides.rs", "src/solvers/approximate/matching.rs", "src/mst.rs"],
     [("christofides_generic", "src/solvers/approximate/christofides.rs"), ("eulerian cycle and shortcut", "src/solvers/approximate/christofides.rs")])
prop("C10", "The matching heuristic keeps the matching perfect and never makes it worse",
     "approx_min_cost_matching, sequential and parallel, returns a perfect matching of the given vertices for every even vertex set, cost matrix, number of tries and sequence of random numbers. Its cost is never above that of the initial matching, and for four vertices one try yields the cheapest matching.",
     ["inputs", "schedules"], "all cost matrices, vertex sets, numbers of tries, random number sequences and parallel chunks",
     "Which edges are exchanged is random; the unit tests run a few seeds and cannot fix the random numbers.",
     ["src/solvers/approximate/matching.rs"], [("approx_min_cost_matching", "src/solvers/approximate/matching.rs"), ("optimize_two_matching / randomized improvement", "src/solvers/approximate/matching.rs")])
prop("C11", "XML instances are parsed exactly, and only valid ones are accepted",
     "parse_from_xml turns a well-formed TSPLIB-XML document with at least two vertices into a graph with the document's vertices, edge targets, costs and header fields. It accepts a document exactly if its graph is complete, simple and undirected; every other document is rejected by an error or a panic and never yields an instance.",
     ["inputs"], "all documents of the given layout: cost spellings, edge targets (including ones out of range), list lengths",
     "Tests parse a few hand-written documents; an asymmetric cost, a self loop or a bad target at some position is accepted or mis-parsed without notice.",
     ["src/parser.rs", "src/preconditions.rs"], [("parse_from_xml", "src/parser.rs"), ("do_conditions_hold", "src/parser.rs")])
prop("C12", "The precondition tests decide completeness, simplicity and symmetry",
     "is_fully_connected holds exactly if every vertex has exactly one edge to every other vertex and no others; is_multi_edge holds exactly if some vertex has two edges to the same vertex; on simple graphs is_undirected holds exactly if every edge has a reverse edge of the same cost. Their conjunction decides whether an instance is acceptable, and none of them panics, whatever the edge targets.",
     ["inputs"], "all adjacency lists",
     "The graphs of the unit tests are a few examples; missing, one-sided, doubled edges and self loops can be anywhere.",
     ["src/preconditions.rs"], [("is_fully_connected", "src/preconditions.rs"), ("is_multi_edge", "src/preconditions.rs"), ("is_undirected", "src/preconditions.rs")])
prop("C13", "Graphs and matrices convert without loss",
     "NAMatrix::from(&graph), VecMatrix::from(graph) and NAMatrix::from(&other matrix) contain exactly the costs of the graph with a zero diagonal, independent of the order of the edge lists; on incomplete graphs missing edges are infinite, NAMatrix keeps the direction of an edge and VecMatrix enters it in both directions. set changes exactly one cell, from_dim has a zero diagonal and no edges, and add_undirected_edge, vertex_degree and the edge weights of Graph agree with each other.",
     ["inputs"], "all cost matrices, edge list orders, cells and dimensions",
     "A transposed index or a skipped cell is invisible on the symmetric, ordered graphs of the tests.",
     ["src/datastructures/nalgebra.rs", "src/datastructures/vecmatrix.rs", "src/parser.rs"], [("From<&Graph> for NAMatrix", "src/datastructures/nalgebra.rs"), ("From<Graph> for VecMatrix", "src/datastructures/vecmatrix.rs"), ("Graph", "src/parser.rs")])
prop("C14", "Distance matrices of point sets are Euclidean, sequential and parallel alike",
     "NAMatrix::from_points and NAMatrix::par_from_points have one row per point, the Euclidean distance of the two points in every cell off the diagonal and zero on the diagonal. Both agree bit by bit for every splitting of the parallel work.",
     ["inputs", "schedules"], "all finite coordinates, numbers of points and parallel splittings",
     "The parallel fill computes cells from a flat index; errors show only for particular sizes and splittings.",
     ["src/datastructures/nalgebra.rs"], [("from_points / par_from_points", "src/datastructures/nalgebra.rs")])
prop("C15", "Path costs and the metric test follow their definitions",
     "evaluate_path is the sum of the costs of consecutive vertices and evaluate_circle adds the closing edge, for both matrix types and for paths of any length, repeated vertices included. is_metric holds whenever all triples satisfy the triangle inequality, also if sums are rounded, and does not hold if one of them is violated noticeably.",
     ["inputs"], "all matrices and paths",
     "A violation of the triangle inequality can be in any triple and needs particular values; rounding matters only for some values.",
     ["src/datastructures/mod.rs"], [("evaluate_path / evaluate_circle", "src/datastructures/mod.rs"), ("is_metric", "src/datastructures/mod.rs")])
prop("C16", "next_permutation steps to the lexicographic successor",
     "next_permutation rearranges its slice into the next larger permutation in lexicographic order and returns true, or leaves the last permutation as it is and returns false. No permutation lies between the old and the new one, also with repeated elements.",
     ["inputs"], "all slices",
     "The exhaustive solvers rely on every single step; tests check a few arrays.",
     [EX], [("next_permutation", EX)])
prop("C17", "Chunks of prefixes partition the search space",
     "split_up_b_ary_number_into_n_chunks assigns every number of the given digits and basis to exactly one chunk: the first chunk starts at zero, every chunk ends where the next one starts, the last one ends behind the largest number, and no chunk is empty. get_next_value steps through the numbers one by one and ends after the largest one.",
     ["inputs"], "all digits, bases, chunk counts and chunk indices with fewer chunks than numbers",
     "A lost prefix at a chunk border loses the optimum only for particular graphs and numbers of workers.",
     [EX], [("split_up_b_ary_number_into_n_chunks", EX), ("get_next_value", EX)])
prop("C18", "is_hamiltonian_cycle recognises exactly the Hamiltonian cycles",
     "For a closed path, is_hamiltonian_cycle holds exactly if the path visits every vertex of the graph once before it returns to its first vertex. Vertices that are not in the graph, missing and repeated vertices make it false.",
     ["inputs"], "all closed paths over all graphs",
     "There are many ways to miss or repeat a vertex; tests check a few.",
     ["src/solvers/mod.rs"], [("is_hamiltonian_cycle", "src/solvers/mod.rs")])

NNF = "src/solvers/approximate/nearest_neighbour.rs"
MAF = "src/solvers/approximate/matching.rs"
prop("C03", "The multi-threaded solver is optimal under every thread schedule",
     "For every graph, every number of worker threads and every interleaving of the threads, threaded_solver ends and returns a path that visits every vertex exactly once, with the cost of the cycle along this path. No tour of the graph is cheaper.",
     ["inputs", "schedules"], "all symmetric cost matrices, numbers of threads and interleavings of the workers on the shared solution",
     "A lost update of the shared best solution or a stale bound shows only in rare interleavings; a test runs one schedule and cannot choose it.",
     [EX], [("threaded_solver", f"{EX}: threaded_solver and the recursion with the shared solution"), ("prefix chunks", f"{EX}: split_up_b_ary_number_into_n_chunks")])
prop("C04", "The static MPI solver is optimal on every process",
     "For every graph, every number of processes (one included), every prefix length and every order in which messages arrive, static_mpi_solver and static_mpi_solver_generic end without a deadlock or a lost message. All processes return the same Hamiltonian path and the cost of its cycle, and no tour is cheaper.",
     ["inputs", "schedules"], "all symmetric cost matrices, numbers of processes, prefix lengths and message orders",
     "There are no MPI tests; the exchange of new bounds races with the search and with its end.",
     [EX], [("static_mpi_solver / static_mpi_solver_generic", EX), ("exchange of the best cost between the processes", EX)])
prop("C05", "The dynamic MPI solver is optimal on every process",
     "For every graph, every number of processes (one included) and every order in which messages arrive, dynamic_mpi_solver ends without a deadlock or a lost message. All processes return the same Hamiltonian path and the cost of its cycle, and no tour is cheaper.",
     ["inputs", "schedules"], "all symmetric cost matrices, numbers of processes and message orders",
     "There are no MPI tests; work requests, new bounds and the end of the work race with each other.",
     [EX], [("dynamic_mpi_solver", EX), ("work requests, bounds and termination messages", EX)])
prop("C19", "MPI nearest-neighbour tours and 1-tree bounds equal the sequential ones",
     "For every graph and every number of processes, also more processes than vertices, nearest_neighbour in MPI mode returns on every process the same tour with its cost, the best of the greedy tours from all start vertices. one_tree_lower_bound in MPI mode returns on the root the largest weight of the minimum 1-trees, whether or not MPI has been initialised before.",
     ["inputs", "schedules"], "all symmetric cost matrices, numbers of processes and message orders",
     "There are no MPI tests; how start vertices are split depends on the number of processes.",
     [NNF, "src/one_tree.rs"], [("nearest_neighbour::<MPI>", NNF), ("one_tree_lower_bound::<MPI>", "src/one_tree.rs")])
prop("C20", "The MPI matching and Christofides agree across processes and stay valid",
     "In MPI mode the matching improved by all processes is a perfect matching of the given vertices, the same on every process, for every number of processes, tries and sequence of random numbers; for four vertices one try yields the cheapest. Christofides returns on the root a closed Hamiltonian cycle with its cost, on metric graphs at most the weight of the minimum spanning tree plus the matching.",
     ["inputs", "schedules"], "all cost matrices, vertex sets, numbers of processes and random number sequences",
     "There are no MPI tests, and the exchanged edges are random.",
     [MAF, "src/solvers/approximate/christofides.rs"], [("approx_min_cost_matching::<MPI>, mpi_improve_matching, bootstrap_mpi_matching_calc", MAF), ("christofides::<MPI>", "src/solvers/approximate/christofides.rs")])
prop("C21", "The command line prints true results and refuses bad documents",
     "For every subcommand, algorithm, parallelism and lower bound, walky::run reads the document and prints the results of the requested algorithm on the document's graph: an optimal cost with its permutation, the best nearest-neighbour tour with its weight, the weight of a tour for Christofides, and the requested lower bound. A missing file or a document that is not acceptable yields an error, and no result is printed.",
     ["inputs", "configurations"], "all edge costs in the document, commands, algorithms, parallelisms, lower bounds and positions of a defect",
     "The driver is not covered by tests; a wrong dispatch, a mixed-up field or a result of another instance shows only end to end.",
     ["src/lib.rs", "src/cli.rs", "src/parser.rs"], [("exact_run, approx_run, lower_bound_run", "src/lib.rs"), ("run", "src/lib.rs")])

GE = "utils/gen_matrix_fast/src/main.rs"
prop("C22", "The generator prints documents that walky accepts",
     "For every n of at least 2 and every sequence of random numbers, also when points coincide, gen_matrix_fast prints a document that the parser accepts: n vertices, between every two vertices an edge in both directions with the same cost, namely the Euclidean distance of the two random points. Without a valid n it prints no document.",
     ["inputs"], "all sequences of random numbers (the coordinates) and numbers of points",
     "The generator has no tests, its points are random and of continuous range; the special cases (equal points, distances printed with exponent or few digits) hardly ever occur.",
     [GE, "src/parser.rs"], [("main, euclidean_distance, generate_xml_from_matrix", GE), ("acceptance of the document", "src/parser.rs: parse_from_xml")])

rows.sort(key=lambda r: r["id"])
TECH = "bounded symbolic execution of the compiled LLVM IR with SMT (Z3)"
import sys; sys.path.insert(0, V); import props
NA = []
with open(f"{V}/properties.jsonl", "w") as f:
    for r in rows:
        assert len(r["title"]) <= 80, r["title"]
        f.write(json.dumps(r) + "\n")
checks = []
for r in rows:
    i = r["id"]
    if i not in props.PROPS:
        NA.append(dict(property=i, reason="no check has been built yet"))
        continue
    p = props.PROPS[i]
    checks.append(dict(property=i, quick_cmd=f"python3 check.py {i} quick", thorough_cmd=f"python3 check.py {i} thorough", evidence_file=f"evidence/{i}.json",
                       technique=p.get("technique", TECH), level="model_checking", level_note=f"Bounds: {p['bounds']}. Outside: {p.get('outside', '')}."))
m = dict(version=1, setup_cmd="python3 check.py --build", checks=checks, not_applicable=NA,
         notes="No hooks: the checks use the public API only. Dependency stubs (rand, rayon-core, mpi, memchr) are in stubs/. Known findings: known_findings.txt.")
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
open(f"{V}/MANIFEST.json", "a").write("\n")

# the sections of DESIGN.md: numbers of runs, bounds and limits as in props.py
import re
d = open(f"{V}/DESIGN.md").read()
for i, p in props.PROPS.items():
    a = d.find(f"### {i} ")
    if a < 0:
        continue
    b = d.find("\n##", a + 4)
    b = len(d) if b < 0 else b
    t = d[a:b]
    q, th = sum(not c.get("thorough") for c in p["cfgs"]), len(p["cfgs"])
    t = re.sub(r"; \d+ runs quick, \d+ thorough", f"; {q} runs quick, {th} thorough", t)
    t = re.sub(r"\* bounds: .*", lambda m: "* bounds: " + p["bounds"], t)
    t = re.sub(r"\* outside: .*", lambda m: "* outside: " + p.get("outside", ""), t)
    d = d[:a] + t + d[b:]
open(f"{V}/DESIGN.md", "w").write(d)
