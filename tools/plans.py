"""What each check builds, runs and requires to have observed."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def cargo(crate, binname):
    return {"cmd": ["cargo", "build", "--release", "--offline", "--quiet", "--bin", binname], "cwd": crate}


def core(binname, cases, rule, need=None, crate="vh_core", **kw):
    d = {"build": [cargo(crate, binname)], "bin": binname, "cases": cases, "rule": rule, "need": need or {}}
    d.update(kw)
    return d


PLANS = {}

COMPLEX = ("filtered complexes (simplicial, planted barcodes, torsion, cubical, graphs, degenerate; up to hundreds of cells, "
           "with ties and full ties) over Z2..Z13 and the rationals, with several label and filtration types")
BUILT = "the harness crate is built with debug assertions and overflow checks, so a failing assertion or overflow in the library is a violation"
QASSUME = "rational inputs whose exact intermediate values leave a machine word are skipped (counted), as the statement of C01 allows"

PLANS["C01"] = core(
    "c01", (1_200_000, 30_000_000),
    "All pairs, triples and unary operations of every prime field once (self-contained tables), then random chains of field "
    "operations on Z2..Z13 and on rationals up to the edge of a machine word, against exact 128-bit arithmetic; also sums of "
    "user-defined coefficient types going through the same traits; nearest neighbours of large rationals. Distinct by the chain of operands.",
    {"chained_operations": 10000, "equalities_decided": 10000, "pairs_of_elements": 100, "rational_operations": 10000,
     "triples_of_elements": 1000, "user_type_sums": 10, "neighbouring_rationals": 1000, "largest_numerator_bits": 50},
    assumptions=["rationals: operations whose exact intermediate numerator or denominator exceeds a machine word may fail, but may not return a wrong value"],
)
PLANS["C02"] = core(
    "c02", (600_000, 12_000_000),
    "A random history of operations (add one, add bulk up to 70 000 entries, pop, clone, peek, partial and full drains, clone "
    "of the column) on a heap column, replayed on an exact model. Distinct by history; non-trivial: at least one pivot compared.",
    {"pivots_compared": 10000, "full_contents_compared": 10000, "partial_drains": 1000, "columns_cloned": 500,
     "entry_comparisons": 1000, "largest_bulk": 5000},
)
PLANS["C03"] = core(
    "c03", (300_000, 6_000_000),
    "A random matrix specification (labels of three types, up to hundreds of columns, filtrations of four types, bases that "
    "are partial, shuffled or split arbitrarily over dimensions), presented by a user oracle in random style, under a random "
    "stack of up to 6 wrappers; every intermediate view is compared column by column, value by value and position by position "
    "with the specification. Distinct by specification and stack.",
    {"wrappers_applied": 10000, "views_compared": 20000, "columns_compared": 100000, "consolidated_columns": 5000, "annotated_consolidated_columns": 5000,
     "filtration_values_compared": 100000, "annotated_entries_compared": 100000, "basis_positions_compared": 100000,
     "deepest_stack": 5, "longest_column": 500},
)
PLANS["C04"] = core(
    "c04", (600_000, 10_000_000),
    "As C03, but each matrix is reversed, viewed (borrowed, cached, consolidated, per dimension, re-indexed) and un-reversed "
    "in every way the library offers, one to four levels deep, including reduction matrices of reversed inputs.",
    {"views_compared": 20000, "columns_compared": 100000, "basis_positions_compared": 100000,
     "annotated_entries_compared": 100000, "reduction_matrices_unreversed": 1000},
)
PLANS["C05"] = core(
    "c05", (180_000, 3_000_000),
    "A random expression tree of products, sums and wrappers (up to 16 leaves, columns of up to 45 000 lazy terms) and random "
    "vectors, against eager reference linear algebra; associativity and distributivity on the same operands.",
    {"products_in_trees": 5000, "sums_in_trees": 5000, "vectors_multiplied": 5000, "columns_compared": 50000,
     "views_compared": 10000, "largest_expression": 8, "terms_in_one_product_column": 1000},
    assumptions=[QASSUME],
)
PLANS["C07"] = core(
    "c07", (700_000, 6_000_000),
    "Case k of seed s: one of 10 (field, label type, filtration type) combinations, a random arbitrary square matrix or "
    "filtered complex (simplicial, planted, torsion, cubical, graphs, degenerate; up to hundreds of cells), a basis that is "
    "sorted, shuffled or a subset, entries listed ascending/descending/shuffled/split/cancelling. Non-trivial: V has an "
    "off-diagonal entry. Distinct by matrix, levels and basis order.",
    {"cases_with_additions": 100, "reversed_matrices": 50, "longest_V_column": 10}, assumptions=[QASSUME],
)
PLANS["C08"] = core(
    "c08", (450_000, 6_000_000),
    "Random " + COMPLEX + ", reduced by clearing over the whole or a partial dimension range; V, DV, cleared columns and "
    "col_is_cycle are recomputed from scratch. Non-trivial: a column was cleared or an addition was made.",
    {"cleared_columns_checked": 10000, "cleared_columns_with_several_terms": 5000, "reduced_columns_with_additions": 5000,
     "oracle_column_requests": 10000}, assumptions=[QASSUME],
)
PLANS["C09"] = core(
    "c09", (350_000, 5_000_000),
    "Random " + COMPLEX + "; the diagram by all four entry points and both read-off directions against the pairing from "
    "an independent reduction (itself cross-checked against the rank formula on small complexes) and against planted barcodes.",
    {"diagrams_compared": 20000, "reversed_coboundaries": 1000, "planted_barcodes": 500, "pairs": 20000}, assumptions=[QASSUME],
)
PLANS["C10"] = core(
    "c10", (400_000, 6_000_000),
    "Random " + COMPLEX + " and a random contiguous dimension range in the documented order; pairs and essential cells are "
    "compared with the unique persistence pairs.",
    {"diagrams_compared": 20000, "partial_ranges": 10000, "runs_with_cleared_columns": 5000, "agreements_with_standard": 5000},
    assumptions=[QASSUME],
)
PLANS["C11"] = core(
    "c11", (350_000, 5_000_000),
    "Random " + COMPLEX + " with sorted bases, and Rips complexes: boundary and reversed coboundary by both algorithms.",
    {"diagrams_compared": 20000, "rips_complexes": 1000, "rips_pairs": 5000, "pairs": 20000}, assumptions=[QASSUME],
)
PLANS["C12"] = core(
    "c12", (450_000, 8_000_000),
    "Random " + COMPLEX + ", partial bases and dimension ranges; the user oracle logs every request and each is checked "
    "on line against the access rules; totals are checked against a polynomial budget.",
    {"column_requests": 100000, "columns_cleared_without_being_read": 5000, "partial_bases": 500, "reductions_watched": 10000},
)
PLANS["C13"] = core(
    "c13", (800_000, 10_000_000),
    "Random schedules of interleaved reads: up to 13 iterators over one cache alive at once, advanced in random order, "
    "abandoned midway, nested (recursive) reads, the public cache emptied by its owner meanwhile, a wrapped matrix that unwinds midway, columns of up to 131074 entries, caches inside products and reductions; the wrapped oracle counts requests.",
    {"abandoned_reads": 10000, "full_reads_compared": 50000, "interleaved_steps": 50000, "product_columns_compared": 5000,
     "recursive_reads_compared": 5000, "reductions_compared": 1000, "columns_evicted_by_the_owner": 5000, "reads_after_a_failed_one": 10000, "longest_cached_column": 65536, "iterators_alive_at_once": 8,
     "most_distinct_columns_in_one_cache": 1000},
)
PLANS["C14"] = core(
    "c14", (250_000, 4_000_000),
    "Random " + COMPLEX + ", each reduced under about 15 presentations (listing order, split, repeated and cancelling "
    "terms, caches, consolidation, boxes, wrapper filtrations, other labels and values in the same order, repetition).",
    {"presentations_compared": 50000, "relabellings": 5000, "pairs": 20000}, assumptions=[QASSUME],
)
PLANS["C15"] = core(
    "c15", (300_000, 5_000_000),
    "Random stored matrices of every implementor, owned, borrowed, converted and keyed, columns up to 2000 entries long with "
    "repeated and cancelling terms; column equality on pairs that are equal only as combinations and on near misses; rarely more than 65 536 columns.",
    {"stored_columns_compared": 50000, "bases_compared": 20000, "reverse_lookups": 5000, "equal_columns_compared": 20000,
     "unequal_columns_compared": 20000, "longest_stored_column": 500},
)
PLANS["C16"] = core(
    "c16", (240_000, 3_000_000),
    "A random number of points (1 to 300), distance matrix (ties, Euclidean, graph metrics, zero/infinite/denormal/huge "
    "values) and simplices up to 15 vertices: columns of both matrices against combinatorial (co)faces with signs, "
    "diameters, transposes and squares. Distinct by field, dimension and distances.",
    {"boundary_columns": 10000, "coboundary_columns": 10000, "faces": 20000, "cofaces": 20000, "transposed_entries": 10000,
     "most_points": 100, "most_vertices": 8, "later_complexes": 5000},
    assumptions=["distance matrices are symmetric with zero diagonal and no NaN", "(number of points + 1)^(number of vertices) fits a machine word"],
)
PLANS["C17"] = core(
    "c17", (120_000, 1_500_000),
    "A random distance matrix on up to 300 points and a maximum dimension from 0 to beyond the number of points: whole bases "
    "and their dimensions against an enumeration of all simplices, and index round trips of random vertex lists.",
    {"bases_checked": 5000, "bases_of_dimension_zero": 200, "bases_with_empty_dimensions": 300, "indices_round_tripped": 20000, "indices_above_the_general_bound": 500,
     "simplices": 100000, "highest_dimension": 5, "longest_simplex": 8, "most_points": 100},
    assumptions=["distance matrices are symmetric with zero diagonal and no NaN", "the code of the simplex fits a machine word"],
)
PLANS["C18"] = core(
    "c18", (120_000, 1_200_000),
    "A random distance matrix (also flag complexes with torsion: projective plane and others), maximum dimension and field; "
    "barcodes by boundary and reversed coboundary with both algorithms against an independent reduction of an independently "
    "enumerated Rips filtration.",
    {"barcodes_compared": 10000, "bars_compared": 20000, "higher_degree_bars": 1000, "infinite_bars": 1000, "torsion_complexes": 50},
    assumptions=["distance matrices are symmetric with zero diagonal and no NaN"],
)
PLANS["C19"] = core(
    "c19", (180_000, 1_500_000),
    "A random distance matrix: barcode under permutations, rescalings, duplicated points, raised maximum dimension; degree-0 "
    "deaths against a Kruskal tree; alive bars against the Euler characteristic at sampled scales.",
    {"permutations": 5000, "rescalings": 5000, "duplications": 2000, "raised_dimensions": 2000, "spanning_trees": 2000,
     "euler_characteristics": 5000},
    assumptions=["distance matrices are symmetric with zero diagonal and no NaN"],
)
PLANS["C27"] = core(
    "c27", (1_200_000, 10_000_000),
    "Random matrices under every wrapper, product, sum and sub-matrix; the user oracle logs each column evaluation and the "
    "log is compared with the columns the answer needs, on building and on every (possibly partial) read.",
    {"columns_read_through_views": 50000, "terms_read": 100000, "basis_queries": 20000},
)
PLANS["C28"] = core(
    "c28", (1_500, 8_000),
    "Large inputs whose D and R are far bigger than V (up to millions of entries), reduced and streamed under a counting "
    "allocator: live and peak bytes against a constant times (basis + entries of V + current working column).",
    {"columns_streamed": 50, "reductions_measured": 50, "entries_of_D": 1000000, "streamed_terms": 1000000, "terms_of_V": 50000},
    threads=8,
)

GR = dict(crate="vh_grpph")
PLANS["C06"] = core(
    "c06", (120_000, 3_000_000),
    "Every matrix of the workspace: random user matrices, every wrapper and combinator (including row combinators), reduction "
    "matrices, Rips boundary and coboundary, path-homology boundary and coboundary; each column read plainly and with "
    "filtration values, over six fields and the rationals.",
    {"annotated_entries_compared": 100000, "combinations": 2000, "digraphs": 2000, "path_homology_cells": 20000,
     "reduced_matrices": 1000, "rips_complexes": 2000, "user_matrices": 5000, "views_compared": 50000, "wrappers_applied": 10000},
    assumptions=[QASSUME], **GR)
DG = ("random simple digraphs (gadgets, cycles, tournaments, bipartite, sparse and dense, up to 320 vertices) with tied, "
      "zero, distinct and missing edge times and random grounding edges")
PLANS["C21"] = core(
    "c21", (220_000, 3_000_000),
    DG + ", stored as table and as map: boundary, coboundary, values and basis against the chain maps written out by the harness.",
    {"basis_cells": 50000, "directed_triangles": 5000, "double_edges": 5000, "long_squares": 5000, "filtration_values_compared": 50000,
     "grounded_edges": 5000, "transposed_entries": 50000, "most_vertices": 100, "later_filtrations": 5000},
    assumptions=["finite edge times, no self loops"], **GR)
PLANS["C22"] = core(
    "c22", (280_000, 3_000_000),
    DG + "; at every critical time the produced two-cells are ranked against brute-force elimination of the invariant two-paths.",
    {"cells_at_times": 50000, "times_checked": 20000, "two_paths_outside": 10000, "largest_dimension": 10, "most_vertices": 9},
    assumptions=["finite edge times, no self loops"], **GR)

CLI = {"cmd": ["cargo", "build", "--release", "--offline", "--quiet", "--bin", "phlite_rips_cli"], "cwd": "/repo/phlite_rips",
       "env": {"CARGO_TARGET_DIR": "@TARGET@/cli"}}
PLANS["C20"] = core(
    "c20", (8_000, 150_000),
    "The real binary run as a child process on random distance matrices in several CSV spellings (tied, near-threshold, "
    "infinite, up to 30 points) with and without a maximum dimension, and on malformed input; its output is parsed and "
    "compared with the reference barcode. Distinct by matrix and dimension.",
    {"runs_compared": 1000, "infinite_bars": 500, "finite_bars": 5000, "bars_below_the_threshold": 500, "bars_near_the_threshold": 200, "bars_exactly_at_the_threshold": 50, "runs_with_infinite_distances": 50,
     "higher_degree_bars": 500, "runs_with_default_dimension": 200, "runs_with_dimension_zero": 100, "non_numeric_inputs": 50,
     "not_a_number_inputs": 50, "ragged_inputs": 50, "named_or_annotated_inputs": 50},
    assumptions=["distance matrices are symmetric with zero diagonal and no NaN"],
    env={"VERIF_CLI": "@TARGET@/cli/release/phlite_rips_cli"})
PLANS["C20"]["build"].insert(0, CLI)

PY = [{"cmd": ["cargo", "build", "--release", "--offline", "--quiet", "--lib"], "cwd": "/repo/phlite_grpph",
       "env": {"CARGO_TARGET_DIR": "@TARGET@/py", "CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS": "true",
               "CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS": "true"}},
      {"cmd": ["install", "-D", "@TARGET@/py/release/libphlite_grpph.so", "@TARGET@/py/mod/phlite_grpph.so"]}]


def python(prop, cases, rule, need, **kw):
    d = {"build": PY, "argv": ["/usr/bin/python3", "@ROOT@/tools/grpy.py", prop, "@TARGET@/py/mod"], "cases": cases,
         "rule": rule, "need": need}
    d.update(kw)
    return d


PD = ("random weighted digraphs (gadgets, components, isolated vertices, ties, zero and infinite weights, integer and float "
      "weights; complete and layered digraphs with hundreds of edges; scattered digraphs on over a thousand vertices) passed to the real extension module from CPython")
PLANS["C23"] = python(
    "C23", (30_000, 600_000), PD + "; barcodes against a reference computed from kernels and ranks of path chain groups.",
    {"calls": 5000, "circuit_ranks": 1000, "bars_compared": 5000, "finite_degree_one_bars": 1000, "infinite_degree_one_bars": 500,
     "isolated_vertices": 200, "infinite_weights": 200, "zero_weights": 200, "most_vertices": 300,
     "long_shapes": 20, "wide_shapes": 10, "longest_deciding_path": 70})
PLANS["C24"] = python(
    "C24", (60_000, 600_000), PD + "; each representative is tested against boundary spans of the reference complex at every time.",
    {"calls": 2000, "independence_checks": 1000, "representatives": 1000, "edges_in_representatives": 3000,
     "longest_representative": 5, "most_representatives": 20, "wide_shapes": 10})
PLANS["C25"] = python(
    "C25", (25_000, 400_000), PD + " under relabelling, reordering, heavier copies, reversal, rescaling, disjoint union and repetition.",
    {"calls": 10000, "repeated_call": 500, "relabelled_vertices": 500, "other_edge_order": 500, "heavier_copies": 500,
     "reversed_edges": 500, "rescaled_weights": 500, "disjoint_union": 500, "bars": 5000, "most_vertices": 20})

import c26  # noqa: E402
PLANS["C26"] = {
    "build": [cargo("vh_grpph", "c26")] + PY, "custom": c26.custom,
    "rule": "Sessions that hold many basis views alive at once (checked for aliasing and validity) or move them about, whole reductions, labels and filtration values that own heap memory (canaries and live counts), Rips and "
            "path-homology sessions under a counting allocator, degenerate inputs, oracles that unwind, requests for columns, positions and cells that do not exist, and matrices shared "
            "between threads: natively with debug assertions and overflow checks, under AddressSanitizer with LeakSanitizer, "
            "and under Miri; the drivers of other properties under AddressSanitizer (9, thorough: 17) and Miri (4, thorough: 9); repeated calls of "
            "the Python module under heap watch. Distinct by case signature within one driver.",
    "need": {"cases_native": 20000, "cases_asan": 10000, "cases_miri": 30, "python_calls": 2000, "aliases_checked": 100000,
             "reads_through_live_views": 100000, "leak_free_sessions": 4000, "degenerate_inputs": 1000,
             "views_outliving_their_matrix": 1000, "reads_through_moved_views": 20000, "owned_label_sessions": 1000, "unwound_calls": 1000, "requests_for_what_is_missing": 20000, "miri_reads_through_live_views": 100},
    "assumptions": [QASSUME, "Miri checks the tree-borrows aliasing model"],
}
