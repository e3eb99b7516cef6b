#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=None)))

FI='phlite/src/fields.rs'; CO='phlite/src/columns.rs'; MM='phlite/src/matrices/mod.rs'
AD='phlite/src/matrices/adaptors.rs'; CB='phlite/src/matrices/combinators.rs'; IM='phlite/src/matrices/implementors.rs'
ST='phlite/src/reduction/standard.rs'; CL='phlite/src/reduction/clearing.rs'; RE='phlite/src/reduction/mod.rs'
RL='phlite_rips/src/lib.rs'; RH='phlite_rips/src/homology.rs'; RC='phlite_rips/src/cohomology.rs'; RM='phlite_rips/src/main.rs'
GL='phlite_grpph/src/lib.rs'; GB='phlite_grpph/src/boundary.rs'; GC='phlite_grpph/src/coboundary.rs'

prop('C01','Coefficient types are exact fields whose zero is only ever "absent"',
 'For every provided coefficient type (the integers mod 2, 3, 5, 7, 11, 13 and the rationals) sums, products, negatives and reciprocals equal exact arithmetic in that field, for rationals as long as the exact intermediate numerators and denominators fit in a machine word. A sum is absent exactly when the true sum is zero, and adding an absent value changes nothing. Two coefficients compare equal exactly when they denote the same field element.',
 ['inputs'],'every pair and triple of elements of each prime field; every rational reachable within machine words, and every chain of operations on them',
 'The tests evaluate a handful of sums and products in Z2 and Z3 only; Z5..Z13, all inverses and the rationals are never exercised.',
 [FI],[('Add/Mul/mult_inverse/additive_inverse impls','fields.rs'),('Q::reduce','fields.rs'),('impl_add_options!','fields.rs')],
 ['return values of +, *, additive_inverse, mult_inverse, one, =='])

prop('C02','A heap column always represents the exact linear combination put into it',
 'After any history of adding entries (singly or in bulk), popping, cloning or draining the pivot, a column represents exactly the sum of everything added minus everything popped. Popping or cloning the pivot returns the entry with the greatest (filtration value, row) whose total coefficient is non-zero, with that total coefficient, or nothing when the column sums to zero; cloning or (after cloning) peeking does not change what is represented, and draining yields each row at most once in strictly descending order. Entries order by filtration value then row, convert to and from tuples without loss, and scale by exactly the given coefficient.',
 ['histories','inputs'],'every sequence of column operations over every coefficient field, row type and filtration type, including repeated rows, cancelling entries and ties in filtration value',
 'One test performs five additions over Z2; cancellation patterns, repeated rows with non-unit coefficients and interleavings of the operations are not sampled.',
 [CO],[('BHCol::pop_pivot','columns.rs'),('BHCol::clone_pivot','columns.rs'),('ColumnEntry Ord/Mul','columns.rs')],
 ['pop_pivot, clone_pivot, peek_pivot, drain_sorted, to_sorted_vec, add_entry/add_entries/add_tuple/add_tuples'],
 [('heap','unsimplified multiset of terms of the combination','columns.rs BHCol')])

prop('C03','Wrapping a matrix never changes the matrix',
 'Attaching a filtration or a basis, discarding a filtration, caching or consolidating columns, borrowing or boxing a matrix, re-indexing its columns by basis position, or viewing one dimension of its basis leaves every column equal, as a linear combination, to the original column. The wrapper keeps the filtration values and the basis it is documented to inherit, or exposes exactly those it was given. A consolidated column lists each row at most once, with its non-zero total coefficient.',
 ['inputs','programs'],'every matrix, and every stack of wrappers around it, over every field, index type and filtration type',
 'Tests apply two or three wrappers to one 4-column Z2 matrix and mostly print the result; compositions are unbounded.',
 [AD,MM],[('WithTrivialFiltration, WithFuncFiltration, Consolidator, WithCachedCols, MatrixWithBasis, UsingColBasisIndex, WithSubBasis','adaptors.rs'),('impl MatrixOracle for &M, Rc, Arc, Box','mod.rs')],
 ['column, filtration_value, basis().element/size of the wrapped matrix'])

prop('C04','Reversal flips every order and un-reversal restores the original exactly',
 'Reversing a matrix keeps its columns but reverses the order of row and column indices, of filtration values and of the basis, so that position i of the reversed basis holds the element at position size-1-i; the same holds for the sub-basis of each dimension. Un-reversing, in any of the provided ways and after any intermediate view, gives back the same columns, filtration values and basis order as the original, for whole bases and for each dimension.',
 ['inputs','programs'],'every matrix with a filtration and a (multi-dimensional) basis, and every alternation of reverse, un-reverse, borrow and sub-dimension views',
 'One test reverses one basis of three elements; filtrations, sub-bases by dimension and nested reversals are not checked.',
 [AD,MM],[('ReverseMatrix/UnreverseMatrix','adaptors.rs'),('ReverseBasis/UnreverseBasis element, in_dimension, Deref','adaptors.rs')],
 ['column, column_with_filtration, filtration_value, basis().element, basis().in_dimension of reversed and un-reversed matrices'])

prop('C05','Lazy products and sums are exact linear algebra',
 'Every column of a product equals the matrix-vector product of the left matrix with the right column, and every column of a sum equals the sum of the two columns, for any nesting of products, sums and wrappers. A product takes its row filtration from the left factor and its column basis from the right one. Products are associative and distribute over sums, as linear combinations.',
 ['inputs','programs'],'all conformable matrices over every field, with repeated rows, empty columns and distinct index types on each side, and every expression tree over them',
 'Two products of fixed Z2 matrices are compared; non-unit coefficients, filtrations of products and sums are untested.',
 [CB],[('Product::column and column_with_filtration','combinators.rs'),('Sum::column','combinators.rs'),('matrix_col_product!','combinators.rs')],
 ['column, column_with_filtration, filtration_value and basis of products and sums'])

prop('C06','Filtration-annotated columns agree with plain columns and filtration values',
 'For every matrix in the workspace (user matrices, all wrappers and combinators, Rips boundary and coboundary, path-homology boundary and coboundary), reading a column together with filtration values gives, as a linear combination, the same column as reading it plainly. Every entry carries exactly the filtration value the matrix reports for that row.',
 ['inputs','programs'],'every matrix oracle, column and filtration, including the specialised fast paths of the Rips and path-homology crates',
 'No test reads the specialised annotated columns of the Rips or path-homology matrices directly, and none compares both ways of reading a column.',
 [MM,AD,CB,RC,RH,GC,GB],[('HasRowFiltration::column_with_filtration and its overrides','mod.rs, adaptors.rs, combinators.rs, phlite_rips/src/cohomology.rs, phlite_grpph/src/coboundary.rs')],
 ['column, column_with_filtration, filtration_value, build_bhcol'])

prop('C07','The standard algorithm returns a genuine R = DV decomposition',
 'For every square filtered matrix with a basis, the standard algorithm terminates and returns V with one column per basis element, such that V is upper triangular with non-zero diagonal in the basis order (hence invertible). The product of the input with V is reduced: no two of its non-zero columns have the same pivot.',
 ['inputs'],'every field, every sparse square matrix (chain complex or not), index type, row filtration and basis order',
 'One 8-column Z2 matrix is reduced and compared with an expected R; other fields, filtrations, ties, and index types are not exercised.',
 [ST],[('standard_algo main loop and low_inverse','standard.rs')],
 ['columns of the returned reduction matrix; columns of product(D, V)'],
 [('low_inverse','pivot row -> column with that pivot and its coefficient','standard.rs'),('v','reduction columns found so far','standard.rs')])

prop('C08','The clearing algorithm returns a genuine R = DV decomposition',
 'For every filtered chain complex (composition of consecutive maps is zero) with a basis sorted by filtration in each dimension, reduced in its documented dimension order, clearing terminates and returns V such that, in each reduced dimension, V is triangular with non-zero diagonal in filtration order, keeps to that dimension, and DV has pairwise distinct pivots. Every cleared column is a cycle with leading term its own index, and asking whether a column is a cycle answers true exactly when its column of DV is zero.',
 ['inputs','configurations'],'every filtered chain or cochain complex, field, contiguous dimension range, index and filtration type',
 'Only one 4-point Rips complex over Z2 is reduced with clearing and only the number of pairs is asserted; V is never inspected.',
 [CL],[('CRMBuilder::reduce_column/save_column/reduce_dimension','clearing.rs'),('ClearedReductionMatrix::column and col_is_cycle','clearing.rs')],
 ['columns of the returned matrix, col_is_cycle, basis, product(D, V)'],
 [('reduction_columns','per column: cleared by whom, or stored combination','clearing.rs')])

prop('C09','The standard persistence diagram is the unique correct pairing',
 'For every filtered chain complex, the diagram of the standard algorithm pairs birth b with death d exactly when the rank conditions on lower-left submatrices of the boundary matrix say so, and lists as essential exactly the columns reducing to zero that are in no pair. Each basis element thus plays exactly one role, and the result does not depend on the direction in which the diagram is read off.',
 ['inputs','configurations'],'every filtered complex (simplicial, cellular with torsion, algebraic), field, tie-breaking order, and both read-off directions',
 'Tests only count pairs of a single 4-point complex; which cells are paired, and over which field, is never checked.',
 [ST,RE],[('read_off_diagram','standard.rs'),('standard_algo_with_diagram','standard.rs')],
 ['Diagram.essential, Diagram.pairings'])

prop('C10','Clearing yields exactly the persistence diagram of its dimension range',
 'For every filtered chain complex and every contiguous range of dimensions visited in the documented order, the diagram returned by the clearing algorithm has as pairs exactly the unique persistence pairs whose death column lies in the range, and as essential exactly the columns in the range that reduce to zero and are not the birth in one of those pairs. In particular it equals the diagram of the standard algorithm when the range covers the basis.',
 ['inputs','configurations'],'every filtered complex, field, index/filtration type, boundary or coboundary direction, and contiguous dimension range, including empty dimensions',
 'Two assertions on numbers of pairs of one 4-point complex; partial ranges, other fields and the exact pairs are unchecked.',
 [CL,RE],[('CRMBuilder::save_column','clearing.rs'),('reduce_all_dimension','clearing.rs')],
 ['Diagram returned by build_with_diagram'])

prop('C11','Homology and reversed cohomology give the same persistence pairs',
 'For every filtered complex whose basis is sorted by (filtration, index), reducing the boundary matrix and reducing the reversed coboundary matrix give the same essential cells and the same pairs of cells with the roles of row and column exchanged, whichever of the two reduction algorithms is used. The same holds for Rips complexes in every dimension that both computations cover.',
 ['inputs'],'every filtered complex, field, tie pattern; both algorithms on both matrices; Rips complexes of every finite metric',
 'No test compares homology with cohomology.',
 [AD,ST,CL,RH,RC],[('ReverseMatrix (anti-transpose)','adaptors.rs'),('RipsBoundary/RipsCoboundary','phlite_rips/src')],
 ['Diagrams of boundary and reversed coboundary under both algorithms'])

prop('C12','Reduction only asks the oracle for columns it may ask for, and finishes',
 'While reducing, an algorithm only requests columns of elements of the attached basis; with clearing, only those in the requested dimensions, and never the column of an element that an earlier pair has already marked as a birth. The number of column requests is bounded by a polynomial in the size of the input (each column addition strictly lowers the pivot), so every reduction terminates. Filtration values are only requested for rows that occur in some column.',
 ['inputs','histories'],'every lazily evaluated matrix, in particular ones whose columns outside the basis cannot be evaluated, over every field and dimension range',
 'Tests cannot see which columns are requested; they look at outputs of a few stored matrices.',
 [ST,CL,MM],[('low_inverse lookups and clearing skip','clearing.rs reduce_dimension'),('standard_algo','standard.rs')],
 ['log of column/filtration requests received by an instrumented user oracle'])

prop('C13','Column caching is transparent, computes each column once, and is re-entrant',
 'A caching wrapper returns for every column request exactly the entries of the wrapped matrix, in the same order, whatever other reads have happened or are still in progress. It requests each distinct column from the wrapped matrix at most once over its lifetime, and requests none before it is asked; a request during which the wrapped matrix unwinds leaves nothing behind, so that the column can be asked for again and is then complete. Reductions and products over cached matrices give the same results as over the bare matrix.',
 ['histories','inputs'],'every interleaving of (possibly nested, partially consumed, abandoned) column reads through a cache, including products of a cached matrix with itself and reductions',
 'The cache has no test at all (the test file says so).',
 [AD],[('WithCachedCols::column','adaptors.rs')],
 ['column iterators of the wrapper; log of requests on the wrapped matrix'],
 [('cache','columns computed so far','adaptors.rs WithCachedCols')])

prop('C14','Diagrams depend on the matrix, not on how its oracle presents it',
 'The persistence diagram of either algorithm is unchanged when the oracle lists the entries of a column in another order, repeats rows, splits coefficients or adds cancelling terms; when the matrix is cached, consolidated, boxed or given its filtration by a wrapper; and when row/column labels or filtration values are replaced by others in the same order. Repeating a computation gives the same answer.',
 ['inputs','programs'],'every matrix and every presentation of it',
 'Every test uses one presentation, with each row listed once.',
 [CO,MM,ST,CL],[('BHCol::pop_pivot coalescing','columns.rs'),('build_bhcol','mod.rs')],
 ['Diagrams computed from different presentations of one matrix'])

prop('C15','Stored matrices and bases are faithful, and column equality is exact',
 'A matrix built from stored columns (owned, borrowed, converted from iterators, or keyed by a map) returns exactly those entries for each column, in order, and its basis lists its column indices in order. A reverse lookup maps each basis element to its position. Comparing two matrices on a column answers true exactly when the two columns are equal as linear combinations.',
 ['inputs'],'every stored sparse matrix, basis and pair of columns, over every field and row type',
 'Column equality is used by tests as a trusted oracle but never tested for inequality; constructors other than one are unused by tests.',
 [IM,MM],[('VecVecMatrix, MapVecMatrix, StandardBasis','implementors.rs'),('eq_on_col, construct_reverse_lookup','mod.rs')],
 ['column, basis, eq_on_col, construct_reverse_lookup'])

prop('C16','Rips boundary and coboundary are exactly the simplicial (co)boundary maps',
 'For every number of points and simplex, the Rips boundary column lists exactly the codimension-one faces with alternating signs, and the coboundary column lists exactly the one-point extensions with the matching signs, so that the two matrices are transposes of each other and each composes with itself to zero over every field. The filtration value of a simplex is its diameter (zero for a vertex) and never decreases from face to coface.',
 ['inputs'],'every symmetric distance matrix (ties, zeros, infinities, non-metric), simplex dimension and field',
 'Three columns of one coboundary are counted; signs, faces and filtration values are never checked, and only Z2 is used.',
 [RH,RC,RL],[('RipsBoundary::column','homology.rs'),('CoboundaryIterator','cohomology.rs'),('max_pairwise_distance','lib.rs')],
 ['column, column_with_filtration, filtration_value of both Rips matrices'])

prop('C17','Rips bases enumerate every simplex once, in filtration order',
 'For every distance matrix and maximum dimension, including zero and dimensions with no simplices, the Rips basis lists in each dimension every simplex on the points exactly once, sorted by (diameter, index), and the whole basis is the concatenation of the dimensions. Encoding an ascending vertex list as an index and decoding it returns the same list and dimension; distinct simplices have distinct indices and the empty list has none.',
 ['inputs','configurations'],'every number of points and maximum dimension, every symmetric distance matrix, every vertex subset whose code fits a machine word',
 'Two encodings are round-tripped and no basis is inspected; maximum dimension zero is never tried.',
 [RL],[('build_rips_bases/add_cofacets','lib.rs'),('RipsIndex::from_indices/to_vec/dimension','lib.rs'),('MultiDimRipsBasisWithFilt::element','lib.rs')],
 ['basis().element/size/in_dimension, RipsIndex functions'])

prop('C18','Rips barcodes are the true persistent homology of the distance matrix',
 'For every symmetric distance matrix, maximum dimension and field, the finite bars of positive length and the infinite bars obtained from either Rips matrix (boundary, or reversed coboundary) with either algorithm are, with multiplicity, the barcode determined by the ranks of the inclusion maps in homology of the Rips complexes. The coboundary route gives all degrees up to the maximum dimension; the boundary route all degrees below it.',
 ['inputs','configurations'],'every finite symmetric distance matrix, maximum dimension, field, matrix and algorithm',
 'One square with unit sides is computed over Z2 and only numbers of pairs are compared.',
 [RH,RC,RL,ST,CL],[('build_rips_boundary_matrix / build_rips_coboundary_matrix','phlite_rips/src'),('reduction algorithms','phlite/src/reduction')],
 ['multiset of (degree, birth, death) from the diagrams'])

prop('C19','Rips barcodes are invariant under relabelling and other identities',
 'The Rips barcode does not change when the points are permuted; rescaling all distances by a positive factor rescales it; adding a duplicate of a point adds only zero-length bars; raising the maximum dimension does not change lower degrees. Degree-zero deaths are the edge lengths of a minimum spanning tree, and at every scale the signed count of alive bars over all degrees equals the Euler characteristic.',
 ['inputs'],'distance matrices of up to dozens of points, where no closed-form answer is known, with many ties',
 'Relations between outputs for different inputs are outside what single-example tests check.',
 [RH,RC,RL],[('build_rips_coboundary_matrix','cohomology.rs'),('ClearedReductionMatrix','clearing.rs')],
 ['multisets of bars for related inputs'])

prop('C20','The Rips command line reports exactly the barcode of its input',
 'Given a symmetric distance matrix as CSV on standard input and an optional maximum dimension (1 when omitted, 0 allowed), the command prints the size of each basis, one line per infinite bar, and one line per finite bar longer than its 0.01 reporting threshold, with the correct degree, birth and death, and nothing else. Input containing non-numeric or not-a-number entries, or rows of unequal length, makes it fail with a non-zero status instead of printing bars.',
 ['inputs','configurations'],'every CSV distance matrix and maximum dimension argument',
 'The command line program is never run by the tests.',
 [RM],[('main','phlite_rips/src/main.rs')],
 ['standard output and exit status of the command'])

prop('C21','Path-homology boundary and coboundary are consistent chain maps',
 'For every simple digraph with non-negative edge times (full or partial, stored as table or map), grounding edge set and field, the path-homology coboundary is the transpose of the boundary on the cells it produces, both compose with themselves to zero, and both matrices report the same filtration value for a cell. That value is zero for vertices and grounded edges, the edge time for other edges, and for a two-cell the first time at which all its edges are present (and no smaller than that of its faces); the basis lists every vertex and every grounded or timed edge exactly once, in (value, cell) order per dimension.',
 ['inputs'],'every weighted digraph and edge filtration, grounding set, field and storage',
 'Tests print one coboundary and count bars of a cycle and a complete graph over Z2; signs and filtration values are never checked.',
 [GB,GC],[('GrPPHBoundary::column','boundary.rs'),('produce_node_total_coboundary/produce_edge_total_coboundary','coboundary.rs'),('build_basis','coboundary.rs')],
 ['column, column_with_filtration, filtration_value, basis of both matrices'])

prop('C22','Two-cells present at any time form a basis of the invariant two-paths',
 'For every simple digraph with non-negative edge times and at every time t, the two-cells produced by the path-homology coboundary with value at most t, read as combinations of two-step paths, are linearly independent and span exactly the space of two-paths of the digraph at time t whose boundary consists of edges present at time t.',
 ['inputs'],'every edge filtration (ties, partial, shortest-path or arbitrary) and every time',
 'No test relates the enumerated cells to the definition of path homology.',
 [GC],[('build_primary_bridge_map','coboundary.rs'),('two_path_to_all_two_cells_in_filtration, produce_triangle_base_coboundary, produce_long_squares_with_primary_bridge','coboundary.rs')],
 ['rows and filtration values of coboundary columns'])

prop('C23','Grounded persistent path homology barcodes are correct',
 'For every simple weighted digraph (non-negative or infinite weights, isolated vertices, several components), both Python functions return the barcode of grounded persistent path homology as defined by ranks: for each degree 0 and 1, infinite bars and finite bars of positive length with multiplicity. Hence there is one infinite degree-0 bar at 0 per weakly connected component, no finite degree-0 bar, every degree-1 bar is born at 0, and for positive weights their number is the circuit rank of the digraph.',
 ['inputs'],'every weighted digraph passed through the Python interface',
 'The Rust tests never call the Python functions, and check only the number of bars of two families of graphs.',
 [GL,GC],[('build_filtration (Dijkstra)','lib.rs'),('grpph, grpph_with_involution','lib.rs'),('GrPPHCoboundary','coboundary.rs')],
 ['return values of grpph and grpph_with_involution in Python'])

prop('C24','Returned representatives are cycles generating the finite degree-1 bars',
 'For every weighted digraph, the involuted computation returns as many representatives as finite degree-1 bars of positive length; each is a set of distinct edges present at time zero (edges of the input or, with zero weights, pairs at path length zero) forming a cycle modulo 2 whose homology class first becomes trivial exactly at the death of its bar. At every time, the representatives of the bars still alive have linearly independent homology classes, and representatives and deaths agree as multisets.',
 ['inputs'],'every weighted digraph with positive or zero or infinite weights',
 'No test calls the involuted function.',
 [GL,GB],[('grpph_with_involution','lib.rs'),('GrPPHBoundary','boundary.rs'),('standard_algo_with_diagram','standard.rs')],
 ['third return value of grpph_with_involution'])

prop('C25','Grounded path homology is invariant under relabelling and other identities',
 'The barcode returned from Python does not depend on vertex labels, edge order, repeated heavier copies of an edge, or on reversing all edges; rescaling weights rescales it; the barcode of a disjoint union is the union of barcodes (isolated vertices adding one infinite degree-0 bar each). Both Python functions return the same barcode for the same input, and repeating a call gives the same answer.',
 ['inputs','histories'],'weighted digraphs of up to dozens of vertices with many ties, and sequences of calls in one process',
 'Relations between outputs for different inputs are outside what the tests check.',
 [GL,GC],[('grpph, grpph_with_involution','lib.rs'),('build_primary_bridge_map','coboundary.rs')],
 ['return values of both Python functions'])

prop('C26','No supported use has undefined behaviour or crashes',
 'No sequence of calls to the public safe API with well-formed inputs triggers undefined behaviour: every reversed, un-reversed and per-dimension basis view stays valid and aliases the basis it was made from, coefficient values are never zero internally, filtration values are never NaN, and no memory is read out of bounds, used after free or leaked. No such use panics or overflows an integer. A request for a column, basis position or cell that does not exist may panic, but is no undefined behaviour either.',
 ['programs','inputs'],'all compositions of views, wrappers, columns, reductions and concrete complexes',
 'The tests run without any undefined-behaviour detector, and touch one of the pointer casts on one basis.',
 [AD,FI,GC,GB],[('pointer casts in ReverseBasis/UnreverseBasis Deref and in_dimension','adaptors.rs'),('NonZeroU8::new_unchecked','fields.rs'),('NotNan::new_unchecked','phlite_grpph/src')],
 ['Miri and AddressSanitizer/debug-assertion reports on instrumented workloads'])

prop('C27','Matrices are lazy: only the columns an answer needs are ever evaluated',
 'Building any wrapper, product, sum or sub-matrix evaluates no column of the underlying matrices. Reading one column evaluates only that column of a wrapped matrix or of each summand; for a product, that column of the right factor and, once per term, only those columns of the left factor that occur as rows in it.',
 ['programs','inputs'],'every expression built from wrappers, products and sums over instrumented matrices, and every column read',
 'Evaluation is invisible to tests that compare outputs.',
 [AD,CB,MM],[('lazy column iterators','adaptors.rs, combinators.rs')],
 ['log of column requests received by instrumented matrices'])

prop('C28','Reductions use memory in proportion to V, never to D or R',
 'What either reduction algorithm keeps allocated when it returns, and what it allocates at its peak while running, is bounded by a constant multiple of the basis size plus the number of stored entries of V plus its current working column; neither the input matrix nor the reduced matrix is ever stored. Reading or draining columns of products and sums streams entries without materialising the column.',
 ['inputs'],'every lazily computed matrix whose columns are much larger than the reduction matrix',
 'Tests never measure memory.',
 [ST,CL,CB],[('only V is stored','clearing.rs ReductionColumn, standard.rs v'),('lazy R via product','combinators.rs')],
 ['live and peak bytes seen by a counting allocator'])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P), 'properties')
