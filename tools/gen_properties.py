#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). Edit here, re-run, commit both."""
import json, os
R, COL, CRD = "src/row.rs", "src/col.rs", "src/coord.rs"
CSR, CSC, COO, DOK, G = "src/csr/csr.rs", "src/csc/csc.rs", "src/coo/coo.rs", "src/dok/dok.rs", "src/graph.rs"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Converting between storage formats preserves the matrix",
  "Converting a well-formed matrix between coordinate, CSR, CSC, dictionary-of-keys and dense form, in any order and any number of times, gives a matrix of the same shape in which every element equals the original's, where entries stored more than once count as their sum. Converting coordinate form to CSR or CSC gives sorted, duplicate-free indexes, and converting CSR to CSC or back gives sorted indexes. Conversions among the sparse forms carry every stored value over unchanged, NaN, infinities and stored zeros included, apart from summing duplicates.",
  ["inputs", "histories"], "every shape, every stored pattern (unsorted, duplicated, stored zeros, empty rows and columns), every value, every chain of conversions",
  "The tests convert one fixed 4x4 matrix (plus one doubled copy of it) once each; CSC and DoK conversions are never run.",
  [COO, CSR, CSC, DOK, R, COL, CRD],
  [("two-pass counting conversion", CRD+" coo_tocsr, "+R+" csr_tocsc"), ("duplicate summing after conversion", COO+" to_csr/to_csc")],
  [("pointer/index/value arrays", "compressed storage of the matrix", CSR+", "+CSC)],
  ["Coo/CSR/CSC/DoK::to_*", "coo_tocsr", "coo_todense", "csr_tocsc", "csc_tocsr", "csr_tocoo", "csr_todense", "expandptr"])
p("C02", "Every matrix the library produces is structurally valid",
  "Every CSR or CSC matrix that any sequence of constructors, conversions, arithmetic, stacking, selection, transposition and in-place clean-up produces from well-formed inputs has pointers that start at zero, never decrease and end at the number of stored entries, index and value arrays of exactly that length, and every index inside the shape. Every coordinate matrix so produced has row, column and value arrays of equal length and indexes inside the shape. No operation leaves unused slots in its result that a later operation could take for entries.",
  ["histories", "inputs"], "every sequence of operations on every small well-formed start matrix",
  "Each test performs at most two operations and looks at shape, nnz and dense values, never at the arrays of the result.",
  [CSR, CSC, COO, R, "src/csr/std_ops.rs", "src/csc/std_ops.rs", "src/coo/std_ops.rs"],
  [("output over-allocation then truncation", CSC+" add/subtract; src/csr/std_ops.rs"), ("prune", CSR+", "+CSC)],
  [("rowptr/colptr", "cumulative entry counts", CSR+", "+CSC), ("rowidx/colidx/values", "stored entries", CSR+", "+CSC+", "+COO)],
  ["rowptr()/colptr()/rowidx()/colidx()/values()/nnz() of every result"])
p("C03", "Sorting, duplicate summing and format predicates are exact",
  "Sorting indexes leaves every row (CSR) or column (CSC) ascending while keeping exactly the same stored entries; summing duplicates leaves a sorted, duplicate-free matrix with the same elements, in which a position is stored if and only if it was stored before, even when its sum is zero. The predicates for sorted indexes and for canonical format answer exactly whether stored indexes are non-descending, respectively strictly ascending, in every row or column, for every well-formed matrix including ones with empty rows. Eliminating zeros removes exactly the stored zeros and keeps all other entries in order.",
  ["inputs"], "every row-length pattern, every order and multiplicity of indexes, every value",
  "Two tests swap one pair of entries in one fixed matrix that has no empty row and no duplicates.",
  [R, CSR, CSC],
  [("in-place compaction cursor", R+" csr_sum_duplicates, csr_eliminate_zeros"), ("early exit when already canonical", CSR+" sum_duplicates")],
  (), ["sort_indexes", "sum_duplicates", "has_sorted_indexes", "has_canonical_format", "prune", "csr_eliminate_zeros"])
p("C04", "Addition and subtraction equal the element-wise result",
  "Adding or subtracting two matrices of equal shape, through the operators on CSR, CSC and coordinate matrices or the CSC methods, gives a matrix of that shape whose every element is the sum or difference of the operands' elements, whatever order, duplication or stored zeros the operands have. CSR and CSC results store no zero and no position twice, and are sorted when both operands are sorted and duplicate-free.",
  ["inputs"], "every pair of stored patterns of equal shape (both sorted, either unsorted or duplicated), every value including cancellation",
  "Addition is tested on one CSR pair and one coordinate pair; subtraction, all CSC arithmetic and the path for unsorted operands are never run.",
  [R, "src/csr/std_ops.rs", "src/csc/std_ops.rs", "src/coo/std_ops.rs", CSC],
  [("merge of sorted rows", R+" csr_binop_csr_canonical"), ("linked-list scatter for general rows", R+" csr_binop_csr_general"), ("path choice", R+" csr_binop_csr")],
  (), ["CSR +/-", "CSC +/-, add, subtract", "Coo +", "csr_add_csr", "csr_sub_csr"])
p("C05", "Element-wise comparison, product, quotient, min and max are exact",
  "The element-wise kernels for not-equal, equal, less, less-or-equal, greater, greater-or-equal, product, quotient, maximum and minimum of two CSR matrices apply the operation to the summed element values at every position stored in either operand, taking an absent element as zero. They store exactly the non-zero (true) results, each position once, and the merge path for sorted duplicate-free operands and the path for general operands give the same matrix.",
  ["inputs"], "every pair of stored patterns of equal shape, every value including equal, opposite, negative and stored zero",
  "No test calls any of these kernels.",
  [R], [("binary operation driver", R+" csr_binop_csr, csr_binop_csr_general, csr_binop_csr_canonical")],
  (), ["csr_ne_csr", "csr_eq_csr", "csr_lt_csr", "csr_le_csr", "csr_gt_csr", "csr_ge_csr", "csr_mul_csr", "csr_div_csr", "csr_max_csr", "csr_min_csr", "csr_binop_csr*"])
p("C06", "Matrix-vector products equal the mathematical product",
  "Multiplying a CSR or CSC matrix by a vector gives, for every row, the sum over all stored entries of value times vector element, for every shape, stored order, duplication and stored zeros, through methods and operators alike. The lower-level kernels for coordinate, CSR and CSC matrices, with one or several vectors, add that product to the given output and change nothing else.",
  ["inputs"], "every shape, stored pattern, value, input vector, initial output and number of vectors",
  "One CSR 2x3 product is tested; CSC, coordinate and multi-vector kernels never are.",
  [R, COL, CRD, CSR, CSC, "src/util.rs"],
  [("row accumulation", R+" csr_matvec"), ("column scatter", COL+" csc_matvec"), ("axpy on block vectors", "src/util.rs")],
  (), ["mat_vec", "CSR*&[T], CSC*&[T]", "csr_matvec(s)", "csc_matvec(s)", "coo_matvec"])
p("C07", "Matrix-matrix products equal the mathematical product",
  "Multiplying two CSR or two CSC matrices of compatible shape, or a CSC by a CSR matrix, gives a matrix of the outer shape whose every element is the exact sum of products, for unsorted and duplicated operands too. The result stores no zero and no position twice, and the entry-count estimate the library offers for sizing the result is never smaller than the result and equals the number of positions at which products of stored entries meet.",
  ["inputs"], "every pair of stored patterns of compatible shape, every value including cancellation",
  "One full 2x3 by 3x2 CSR product is tested: no cancellation, no empty row, no CSC product.",
  [R, COL, CSR, CSC, "src/csr/std_ops.rs", "src/csc/std_ops.rs"],
  [("SMMP linked-list row accumulation with scratch reset", R+" csr_matmat"), ("column product through swapped operands", COL+" csc_matmat")],
  (), ["mat_mat", "CSR*CSR", "CSC*CSC", "CSC*CSR", "csr_matmat(_maxnnz)", "csc_matmat(_maxnnz)"])
p("C08", "Negation and scaling act on every entry and nothing else",
  "Negating a coordinate, CSR or CSC matrix, multiplying a CSR or CSC matrix by a scalar (from the right, or by a complex scalar from the left), and scaling rows or columns in place multiply every element by the right factor and keep the shape and the set and order of stored positions. Owned and borrowed operands give the same result.",
  ["inputs"], "every shape, stored pattern and value, every factor",
  "No test negates or scales any matrix.",
  ["src/coo/std_ops.rs", "src/csr/std_ops.rs", "src/csc/std_ops.rs", R],
  [("rebuild of the matrix around mapped values", "src/*/std_ops.rs"), ("in-place scaling", R+" csr_scale_rows, csr_scale_columns")],
  (), ["Neg", "Mul<T>", "Complex64 * CSR/CSC", "csr_scale_rows", "csr_scale_columns"])
p("C09", "Transposing exchanges rows and columns exactly",
  "The transpose of a coordinate, CSR or CSC matrix, by either transposing method, has the shape exchanged and at every position (j, i) exactly the stored entries the original has at (i, j), values verbatim. Transposing twice gives back the original matrix, and the consuming and the copying method agree.",
  ["inputs"], "every shape and stored pattern, every value",
  "Transposes of one 2x3 and one 4x4 matrix are tested; CSC transposes are not.",
  [COO, CSR, CSC], [("reinterpretation of CSR arrays as CSC and back", CSR+", "+CSC)], (), ["transpose", "t"])
p("C10", "Row and column selection picks exactly the requested entries",
  "Selecting rows and columns of a duplicate-free sorted CSR or CSC matrix gives, for every list of row and column indexes (repeated, reordered, empty, or omitted to mean all), the matrix whose element (a, b) is the original's at (rows[a], columns[b]), with stored entries, stored zeros included, kept as stored. Indexes outside the shape and matrices that are not in canonical form are rejected with an error. The submatrix, row-list, row-range and column-list kernels likewise return exactly the entries of the requested rows and columns, in the requested order.",
  ["inputs"], "every stored pattern, every index list up to a length, every range and step",
  "One selection of three ascending rows and columns is tested; CSC selection and every slicing kernel never run.",
  [R, CSR, CSC], [("count pass and fill pass", R+" csr_select, get_csr_submatrix"), ("column occurrence offsets", R+" csr_column_index1, csr_column_index2")],
  (), ["select", "csr_select", "get_csr_submatrix", "csr_row_index", "csr_row_slice", "csr_column_index1/2"])
p("C11", "Stacking and block composition place every block exactly",
  "Stacking two or three matrices vertically or horizontally, and composing 2x2 or 3x3 blocks, gives the matrix that holds every block's entries at its block's offset, duplicates and stored zeros included for coordinate matrices. It succeeds exactly when the block shapes fit together and otherwise returns an error.",
  ["inputs"], "every tuple of block shapes (fitting or not) and stored patterns",
  "Two square 4x4 stacks are tested; no three-way stack, no composition, no mismatching shapes, no unequal heights or widths.",
  [COO, CSR, CSC], [("index offset by first block's size", COO+" v_stack, h_stack")], (), ["Coo::v_stack/h_stack/v_stack3/h_stack3/compose/compose3", "CSR::h_stack", "CSC::compose"])
p("C12", "Diagonals, triangles and element access read the right entries",
  "The main diagonal of a coordinate, CSR or CSC matrix, any k-th diagonal read by the kernels, and the element read at a position all equal the elements of the matrix with duplicate entries summed, for rectangular matrices too; a diagonal lying outside the matrix has no elements. The upper part of a coordinate matrix for offset k holds exactly the stored entries with column >= row + k. The number of occupied diagonals counts each diagonal that holds a stored entry once, below the main diagonal as well as above.",
  ["inputs"], "every shape, stored pattern, value, diagonal offset and position",
  "Only main diagonals of full-diagonal square matrices without duplicates are read.",
  [R, COL, COO, CSR, CSC], [("k-th diagonal range", R+" csr_diagonal"), ("diagonal numbering", R+" csr_count_diagonals"), ("row scan", CSR+" get")],
  (), ["diagonal", "upper", "CSR::get", "csr_diagonal", "csc_diagonal", "csr_count_diagonals"])
p("C13", "A dictionary-of-keys matrix behaves as a map of non-zero elements",
  "After any sequence of set, add and subtract operations, a dictionary matrix returns for every position the value the sequence defines, never stores a zero, and counts exactly its non-zero elements. An operation outside the shape returns an error and changes nothing. Its dense, coordinate, CSR and CSC forms and its text all show that same content.",
  ["histories", "inputs"], "every sequence of operations, every position inside and outside the shape, every value including those that cancel",
  "No test touches the dictionary format.",
  [DOK], [("zero removal on set", DOK+" set"), ("bounds check", DOK+" set")], [("values", "map from position to non-zero value", DOK)],
  ["DoK::set/add/sub/get/nnz/to_dense/to_coo/to_csr/to_csc/to_string/from_dense"])
p("C14", "Graph components form exactly the weak or strong partition",
  "For every square sparse matrix read as a directed graph (each stored entry an edge), the strong analysis puts two nodes in one component exactly when each can reach the other, and the weak or undirected analysis exactly when an undirected path joins them. The returned count equals the number of distinct labels, and labels are 0 up to count minus one; this holds for the graph without nodes and for unsorted or repeated edges. A non-square matrix is rejected with an error.",
  ["inputs"], "every directed graph, every stored order of edges",
  "Four tests sample four graphs and compare sorted labels only; the SCC algorithm's stack excision and shared arrays depend on edge order and depth.",
  [G], [("iterative Pearce SCC with shared arrays", G+" connected_components_directed"), ("stack-based labelling", G+" connected_components_undirected")],
  [("labels", "low-link or component of each node", G), ("ss/stack_b", "linked stacks sharing memory", G)], ["connected_components"])
p("C15", "Depth-first order is a genuine depth-first traversal",
  "From any start node, the depth-first order begins with that node, lists exactly the nodes reachable from it (along edges when directed, along edges in either direction when not), each once, and each newly listed node is an unvisited neighbour of the deepest open node that still has one. Each listed node other than the start has as predecessor the node it was reached from, the start and unreached nodes have none. A non-square matrix is rejected with an error.",
  ["inputs"], "every graph, every start node, both directions, every stored order of edges",
  "One doc example on one 4-node graph from node 0, directed only.",
  [G], [("explicit root stack", G+" depth_first_directed, depth_first_undirected")], [("root_list, flag", "open path and visited marks", G)], ["depth_first_order"])
p("C16", "The CSR component labelling of symmetric graphs is exact",
  "For every structurally symmetric square CSR matrix, the component method returns the number of components that contain at least one stored entry, labels nodes of one such component alike and of different ones differently with labels from zero up to the count minus one, and gives every node without stored entries a negative label. This includes matrices with no entries and with no rows; a non-square matrix is rejected with an error.",
  ["inputs"], "every symmetric graph, with self loops, isolated nodes and any edge order",
  "One fixed 12-node graph.",
  [G, CSR], [("breadth-first fronts in a shared position array", G+" cs_graph_components")], [("pos, n_pos, n_tot", "work list and counters", G)], ["CSR::connected_components", "cs_graph_components"])
p("C17", "Results do not depend on the index type",
  "Every operation gives the same matrix, vector or labels whichever integer type holds the indexes, signed or unsigned, as long as the dimensions and entry counts of operands and results fit that type. This includes matrices that fill the type to its limit, such as 255 stored entries or 255 columns with 8-bit indexes.",
  ["inputs", "configurations"], "every supported index type, every operation, sizes up to the limit of the narrow types",
  "All tests use usize indexes and at most 12 rows.",
  [R, COL, CRD, CSR, CSC, COO, DOK, G, "src/traits.rs"], [("generic index arithmetic", R)], (), ["all public operations for I in u8..u128, i8..i128, usize, isize"])
p("C18", "Operands that do not fit together are refused, never combined",
  "Constructors given arrays of inconsistent length, products with vectors or matrices of the wrong dimension, and sums or differences of matrices of different shape are always refused: with an error where the operation returns a result, with a panic where it is an operator or an in-place extension. They are never answered with a matrix. Operands of fitting shape are never refused.",
  ["inputs"], "every pair of shapes and array lengths, fitting and not, including empty ones",
  "No test passes operands that do not fit.",
  [CSR, CSC, COO, "src/csr/std_ops.rs", "src/csc/std_ops.rs", "src/coo/std_ops.rs"], [("length and dimension checks", CSR+", "+CSC+", "+COO)],
  (), ["CSR::new", "CSC::new", "Coo::new", "Coo::extend", "mat_vec", "mat_mat", "CSC::add/subtract", "operators"])
p("C19", "Text output shows exactly the stored entries",
  "The string form of a coordinate, CSR, CSC or dictionary matrix has one line per stored entry giving its row, column and value, in storage order for the first three, and reading the lines back gives the stored entries. The table form of a CSR matrix has one line per row and one cell per column, showing a dash exactly where nothing is stored and otherwise the value to six significant digits, with real and imaginary part and a single sign for complex values.",
  ["inputs"], "every shape, stored pattern and value",
  "No test reads any text output.",
  [COO, CSR, CSC, DOK, "src/csr/table.rs", "src/traits.rs"], [("cell lookup", "src/csr/table.rs"), ("number formatting", "src/traits.rs pretty_string")], (), ["to_string", "to_table"])
p("C20", "Operations leave borrowed operands unchanged",
  "No operation that borrows a matrix changes it: after any conversion, arithmetic, product, selection, stacking, traversal or text output the borrowed operands hold the same shape and arrays as before, and repeating the operation gives the same result. The owned and borrowed forms of each operator, and an operation whose two operands are the same matrix, give the same result as distinct copies.",
  ["inputs", "histories"], "every operation, operand pattern and ownership form",
  "No test looks at an operand after an operation or uses the mixed operator forms.",
  ["src/csr/std_ops.rs", "src/csc/std_ops.rs", "src/coo/std_ops.rs", CSR, CSC, COO], [("operator macro expansion", "src/*/std_ops.rs opimps")], (), ["operators in the forms a+b, &a+b, a+&b, &a+&b", "all &self methods"])
p("C21", "Complex parts, conjugates and adjoints are exact",
  "For every complex coordinate, CSR or CSC matrix, the conjugate, real part and imaginary part keep shape and stored positions and take conjugate, real part or imaginary part of every stored value; the adjoint is the conjugate of the transpose. Building a complex CSR matrix from a real one puts the values into the real or the imaginary part and zero into the other.",
  ["inputs"], "every shape, stored pattern and complex value",
  "One test builds a complex CSR matrix with zero imaginary parts and reads its diagonal.",
  ["src/coo/ccoo.rs", "src/csr/ccsr.rs", "src/csc/ccsc.rs", "src/traits.rs"], [("element-wise mapping", "src/*/cc*.rs")], (), ["conj", "real", "imag", "h", "with_real", "with_imag"])
p("C22", "Constructors build exactly the matrix described",
  "Building a matrix from dense rows stores exactly the non-zero elements, each once, in row order (CSR, coordinate) or column order (CSC); identity, given-diagonal and empty constructors build exactly that matrix, including sizes with no rows or no columns. Coordinate matrices grown by pushing and extending hold exactly the given triplets in order, and writing through the mutable value view changes exactly the addressed values.",
  ["inputs", "histories"], "every dense input including ones without rows or columns, every size, every sequence of pushes and extensions",
  "Constructors are run on one or two fixed inputs; CSC and dictionary constructors, extend and values_mut are not run.",
  [COO, CSR, CSC, DOK], [("dense scan", "from_dense")], (), ["from_dense", "identity", "with_diagonal", "with_size", "with_capacity", "push", "extend", "values_mut"])
p("C23", "Computed eigenpairs satisfy the eigenvalue equation",
  "For every square CSC matrix on which the sparse eigenvalue routine succeeds, each returned eigenvalue with its returned vector satisfies A v = lambda v up to rounding with a non-zero v, and no memory outside of the routine's arrays is touched. Where the eigenvalues of largest magnitude are simple and clearly separated in magnitude from all others, the result is exactly the requested number of them (one more when a conjugate pair straddles it). For symmetric matrices with well separated eigenvalues it succeeds. Requests for a non-square matrix, for no eigenvalue, or for more than the dimension allows are rejected with an error.",
  ["inputs"], "every small matrix over a small alphabet with distinct dominant eigenvalues, every admissible count",
  "The feature is only compiled, never run, by the test suite.",
  ["src/eigen/real.rs"], [("ARPACK reverse communication loop", "src/eigen/real.rs eigs"), ("Ritz vector unpacking", "src/eigen/real.rs eigs")], (), ["eigen::real::eigs"])
p("C24", "Concurrent eigenvalue computations do not disturb each other",
  "When several threads compute eigenvalues at the same time, each gets the result it would have got alone, however their steps interleave. No computation deadlocks or fails because another one runs or has failed.",
  ["schedules"], "every interleaving of the native-library calls of two concurrent computations",
  "No test runs the routine at all, let alone from two threads; the native library keeps its state between calls in process-wide variables.",
  ["src/eigen/real.rs"], [("process-wide lock around the native library", "src/eigen/real.rs MUTEX")], [("native saved variables", "iteration state kept between reverse-communication calls", "ARPACK dnaupd")], ["eigen::real::eigs"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
        f.write(json.dumps(q) + "\n")
print(len(P))
