import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
M="src/matrix.rs"
LU="src/decomp/lu.rs"; QR="src/decomp/qr.rs"; CH="src/decomp/cholesky.rs"; SV="src/decomp/svd.rs"; EI="src/decomp/eigen.rs"
WF=[("rows*cols==len","a matrix stores its row count and a row-major element vector; the column count is derived by division",M+" struct Matrix")]
p("C01","Every matrix is non-empty and its dimensions match its elements",
 "Every matrix the library creates or returns has at least one row and one column, and rows() * cols() equals the number of stored elements, with the shape the operation defines. A request whose dimensions are zero, or do not match the supplied data, is rejected by a panic instead of producing a matrix.",
 ["inputs"],"all requested dimensions, all data vectors, all index lists, all operand shapes, for every constructor and every matrix-returning operation",
 "The tests construct a handful of 2x2 to 3x3 matrices; the claim is over every dimension pair and every operation, including one-row, one-column and empty requests.",
 [M],[("dimension assertions in the constructors",M+" new/vector/row_vector/id/zero/diag/block_diag"),("derived column count",M+" cols")],WF,["rows()","cols()","get_data().len()"])
p("C02","Element access addresses exactly the (row, column) element, or panics",
 "Reading position (r, c) by any accessor yields the element at offset r*cols+c of the row-major data, and writing there changes that element and no other element, nor the shape. A row or column outside the matrix is always rejected by a panic, even when the flat offset would be inside the data.",
 ["inputs"],"all shapes, all (row, column) pairs, all element values",
 "Tests probe a 2x2 matrix at a few positions; a wrong stride or a bound check on the wrong dimension only shows on other shapes and positions.",
 [M],[("bound assertion and row-major offset",M+" get/get_ref/get_mref/set/index")],WF,["get","get_ref","get_mref","set","m[(r,c)]"])
p("C03","Identity, zero, diagonal and vector constructors place exactly their elements",
 "The identity constructor yields ones at (i, i) and zeros elsewhere for any shape, diag and block_diag yield the given values in order on the main diagonal and zeros elsewhere, and the zero, one, column-vector and row-vector constructors yield exactly the described contents. No element is ever left over from unspecified memory.",
 ["inputs"],"all dimensions (square, wide, tall) and all data vectors",
 "Tests use sizes 2 and 3; buffers are allocated uninitialised and filled by index loops, so correctness of every slot depends on arithmetic over all sizes.",
 [M,"src/internalutil.rs"],[("uninitialised allocation then fill",M+" id/zero/diag/block_diag/zero_vector/one_vector"),("alloc_dirty_vec","src/internalutil.rs")],WF,["get_data()"])
p("C04","Transposition swaps rows and columns exactly, in place and by copy",
 "For every matrix of every shape, the transposed copy has swapped dimensions and its (j, i) element is the original (i, j) element, and the original is unchanged. In-place transposition leaves the matrix equal to that transposed copy, and transposing twice gives back the original.",
 ["inputs"],"all shapes, including single rows, single columns, 1x1 and shapes whose in-place permutation has many or nested cycles",
 "The in-place algorithm follows permutation cycles whose structure depends on number-theoretic facts about the shape; tests try 2x2 and 2x3 only.",
 [M],[("strided copy",M+" t"),("cycle-following permutation with a visited set",M+" mt")],WF,["t","mt"])
p("C05","Concatenation keeps every element of both operands in its block",
 "Column concatenation (also by the | operator) of equal-height matrices gives a matrix whose left columns are the first operand and whose right columns are the second; row concatenation of equal-width matrices stacks the second under the first. Operands whose shared dimension differs are rejected by a panic.",
 ["inputs"],"all pairs of shapes and all element values",
 "Tests concatenate a vector or a square matrix with itself, which cannot tell the two operands or their widths apart.",
 [M],[("interleaved row copy",M+" cr"),("append copy",M+" cb")],WF,["cr","cb","|"])
p("C06","Minor, sub-matrix and column extraction return exactly the named elements",
 "minor(r, c) returns the matrix with row r and column c removed and all others in order; sub_matrix returns exactly the half-open block of rows and columns asked for; get_column returns that column. A request reaching outside the matrix is rejected by a panic and never answered with other elements.",
 ["inputs"],"all shapes and all index arguments, in range and out of range",
 "Tests take one 3x3 matrix and a few indices; out-of-range requests that stay inside the flat data are never tried.",
 [M],[("bound assertions and strided copies",M+" minor/sub_matrix/get_column")],WF,["minor","sub_matrix","get_column"])
p("C07","Row and column selection return the selected lines, in order, complete",
 "Permuting rows (or columns) by an index list returns, line by line, exactly the original rows (columns) named, including repeats; filtering and boolean selection return exactly the lines the predicate or mask accepts, in their original order. An index outside the matrix, or a mask of the wrong length, is rejected by a panic.",
 ["inputs"],"all shapes, all index lists (short, long, repeating, out of range), all masks and predicates",
 "Tests use three masks on one 3x3 matrix; non-square shapes and repeated or out-of-range indices are not covered.",
 [M],[("index-list gather",M+" permute_rows/permute_columns"),("index collection",M+" filter_rows/filter_columns/select_rows/select_columns")],WF,["permute_rows","permute_columns","filter_rows","filter_columns","select_rows","select_columns"])
p("C08","Mapping applies the function once per element; reduce folds each column",
 "map returns a matrix of the same shape whose every element is the function's result on the corresponding element, leaving the original unchanged, and the in-place form replaces every element the same way. reduce returns one row whose entry for column c is the left fold, from the given initial value, of column c from the first row to the last; an initial vector of the wrong length is rejected by a panic.",
 ["inputs"],"all shapes, all functions, all initial vectors",
 "Tests map one 2x2 matrix and never call reduce, whose column bookkeeping depends on the shape.",
 [M],[("index loop",M+" map/mmap"),("cyclic column index",M+" reduce")],WF,["map","mmap","reduce"])
p("C09","Elementwise arithmetic is exact per element and its forms agree",
 "Sum, difference, negation, scaling, elementwise product and elementwise quotient give, at each position, the scalar operation applied to the operands' elements at that position in that order, and keep the shape. The in-place forms and the by-value and by-reference operator forms give the same result, operands passed by reference are unchanged, and operands of different shape are rejected by a panic.",
 ["inputs"],"all shapes and all element values, for every operation and every operator form",
 "Tests use one pair of 2x2 integer matrices and never mix shapes, so a swapped operand, a partial loop or a missing shape check in one of about twenty forms passes.",
 [M],[("index loops with shape assertions",M+" neg/add/sub/scale/elem_mul/elem_div and in-place forms")],WF,["+","-","neg","scale","mscale","mneg","madd","msub","elem_mul","melem_mul","elem_div","melem_div"])
p("C10","The matrix product is the row-by-column dot product for every shape",
 "The product of an m-by-k and a k-by-n matrix is m-by-n and its (i, j) element is the sum over t, in increasing order starting from zero, of a(i, t) * b(t, j). All operator forms and the in-place multiplication give that same matrix, and operands whose inner dimensions differ are rejected by a panic.",
 ["inputs"],"all compatible and incompatible shapes, all element values",
 "Tests multiply one pair of 2x2 matrices; index strides only separate on non-square shapes.",
 [M],[("triple loop",M+" mul/mmul")],WF,["*","mmul"])
p("C11","Trace and norms equal their definitions",
 "The trace is the sum of the main-diagonal elements of any shape; the 1-, 2- (Euclidean), p- and infinity-norms of a column vector and the Frobenius norm of any matrix equal, rounding aside, their textbook definitions over the absolute values of all elements. Vector norms reject a matrix with more than one column by a panic.",
 ["inputs"],"all shapes, all finite element values of either sign, all p >= 1 (also non-integer)",
 "Tests check a few small vectors; signs combined with non-integer p, long vectors and maxima at the ends are not sampled.",
 [M],[("accumulation loops",M+" trace/vector_*_norm/frobenius_norm/length")],WF,["trace","vector_euclidean_norm","length","vector_1_norm","vector_2_norm","vector_p_norm","frobenius_norm","vector_inf_norm"])
p("C12","Shape, symmetry and approximate-equality predicates match their definition",
 "is_square holds exactly when rows equal columns; approximate equality of matrices holds exactly when the shapes agree and every pair of corresponding elements differs by less than the fixed tolerance; is_symmetric holds exactly when the matrix is square and every element below the diagonal is approximately equal to its mirror above it. The negated predicates are the exact complements.",
 ["inputs"],"all shapes and all element values",
 "Tests evaluate each predicate on two or three matrices; a skipped element pair in any position goes unnoticed.",
 [M,"src/approxeq.rs"],[("pairwise comparison loops",M+" is_symmetric/approx_eq"),("scalar tolerance test","src/approxeq.rs approx_eq_eps")],WF,["is_square","is_not_square","is_symmetric","is_non_symmetric","approx_eq"])
p("C13","LU factors multiply back to the row-permuted matrix",
 "For every m-by-n matrix A (square, tall or wide, singular or not) the LU factors satisfy L*U = P*A up to rounding, where L is unit lower triangular (trapezoidal) with entries of magnitude at most one, U is upper triangular (trapezoidal), and P is the permutation matrix of the reported pivot vector. The pivot vector is a permutation of the row indices.",
 ["inputs"],"all shapes and all finite matrices, including zero columns, ties for the pivot and rank-deficient ones",
 "Tests factor three small matrices; pivot choices, zero pivots and non-square shapes span an unbounded space of paths.",
 [LU],[("left-looking elimination with partial pivoting",LU+" new"),("factor extraction",LU+" get_l/get_u/get_p/get_piv")],[("packed factors","L below and U on/above the diagonal of one matrix",LU+" lu"),("pivot vector","row order and its sign",LU+" piv, pospivsign")],["get_l","get_u","get_p","get_piv"])
p("C14","Solving a square system returns its solution, or nothing exactly when singular",
 "For a square matrix A, solving for any right-hand side B with as many rows (any number of columns) returns X with A*X = B up to rounding when A is non-singular, and returns nothing exactly when elimination meets a zero pivot, i.e. when A is singular in exact arithmetic. The singularity predicates agree with that outcome, and a non-square matrix or a right-hand side of the wrong height is rejected by a panic.",
 ["inputs"],"all square matrices and all right-hand sides",
 "Two right-hand sides are tested, both with one column; multi-column systems, pivoted orders and larger sizes are not.",
 [LU,M],[("forward and back substitution",LU+" solve"),("zero test of the diagonal",LU+" is_non_singular"),("delegation",M+" solve/is_singular/is_non_singular")],None,["solve","is_singular","is_non_singular"])
p("C15","The determinant is the determinant",
 "For every square matrix, det equals, up to rounding, the determinant: it is the identity's 1, changes sign under a row exchange, is linear in each row, and hence equals the signed product of the pivots of the row-reduced matrix. It is zero in exact arithmetic exactly for singular matrices, and a non-square matrix is rejected by a panic.",
 ["inputs"],"all square matrices of every size, all pivot orders (both parities)",
 "Tests evaluate three matrices, one of them with a one-sided comparison that any sufficiently negative number passes; the sign after several row exchanges is never checked.",
 [LU,M],[("pivot product with permutation sign",LU+" det, pospivsign"),("delegation",M+" det")],None,["det"])
p("C16","The inverse is a two-sided inverse, absent exactly for singular matrices",
 "For every square matrix A, inverse returns a matrix X with A*X = I and X*A = I up to rounding, or nothing exactly when A is singular in exact arithmetic. A non-square matrix is rejected by a panic.",
 ["inputs"],"all square matrices",
 "One 3x3 inverse and one singular 2x2 are tested.",
 [M,LU],[("solve against the identity",M+" inverse"),("substitution",LU+" solve")],None,["inverse"])
p("C17","Cholesky succeeds exactly on symmetric positive definite input, with L*L' = A",
 "Cholesky factorization returns a factor exactly when the matrix is square, exactly symmetric and positive definite (in exact arithmetic), and then the factor L is lower triangular with a positive diagonal and L*L' = A up to rounding. In every other case it returns nothing.",
 ["inputs"],"all matrices: square or not, symmetric or not, definite, semidefinite or indefinite",
 "Tests use one definite, one non-symmetric and one non-square matrix; indefiniteness or asymmetry in other positions is not sampled.",
 [CH],[("row-by-row factorization with symmetry and pivot tests",CH+" new")],None,["CholeskyDecomposition::new","get_l"])
p("C18","Solving with a Cholesky factor returns the solution of A*X = B",
 "For every matrix A that has a Cholesky factorization and every B with as many rows (any number of columns), solving with the factorization returns X with A*X = B up to rounding. A right-hand side of the wrong height is rejected by a panic.",
 ["inputs"],"all factorizable matrices and all right-hand sides",
 "One 3x3 system with one right-hand side is tested.",
 [CH],[("two triangular substitutions",CH+" solve")],None,["CholeskyDecomposition::solve"])
p("C19","QR factors are orthogonal and upper triangular and multiply back to A",
 "For every m-by-n matrix A (square, tall or wide, of any rank) the QR factors satisfy, up to rounding, Q*R = A with Q an m-by-m orthogonal matrix (Q'*Q = I) and R an m-by-n upper triangular (trapezoidal) matrix. The Householder matrix returned is lower trapezoidal of A's shape, and its columns h define the reflections I - 2hh'/(h'h) (none for a column with a zero on the diagonal) whose product is Q.",
 ["inputs"],"all shapes and all finite matrices, including zero columns and rank-deficient ones",
 "The tests check the product Q*R for three matrices and never check orthogonality.",
 [QR],[("Householder reflections",QR+" new/perform_householder_reflection"),("factor assembly",QR+" get_q/get_r/get_h")],[("reflectors","Householder vectors on and below the diagonal, R above it, R's diagonal apart",QR+" qr, rdiag")],["get_q","get_r","get_h"])
p("C20","QR solve returns the least-squares solution, or nothing when rank deficient",
 "For every m-by-n matrix A with m >= n and every B with m rows, solving with the QR factorization returns, when A has full column rank, the n-row X that minimises the 2-norm of A*X - B (A'*(A*X - B) = 0 up to rounding), hence the exact solution when A is square. It returns nothing exactly when A is column-rank deficient in exact arithmetic, and rejects a right-hand side of the wrong height by a panic.",
 ["inputs"],"all square and tall matrices and all right-hand sides",
 "No existing test calls this solver.",
 [QR],[("apply reflectors then back-substitute",QR+" solve"),("zero test of R's diagonal",QR+" is_full_rank")],None,["QRDecomposition::solve","is_full_rank"])
p("C21","The pseudo-inverse is the least-squares left inverse",
 "For every m-by-n matrix A of full column rank, pinverse returns the n-by-m matrix X = (A'*A)^-1 * A' up to rounding, so X*A = I and A*X is symmetric.",
 ["inputs"],"all matrices of full column rank, square or tall",
 "One 3x2 matrix is tested, and only X*A.",
 [M,QR,LU],[("normal equations through R",M+" pinverse")],None,["pinverse"])
p("C22","SVD gives orthogonal U and V and sorted non-negative singular values",
 "For every finite m-by-n matrix (elements clear of overflow and underflow), SVD::new returns, up to rounding, an m-by-m orthogonal U and an n-by-n orthogonal V, and an m-by-n matrix S that is zero off the main diagonal and carries non-negative singular values in non-increasing order on it.",
 ["inputs"],"all shapes (square, tall, wide) and all finite matrices, including rank-deficient, zero, repeated and badly scaled singular values",
 "The tests check only the product for three matrices of rank two; orthogonality and ordering are never asserted.",
 [SV],[("Householder bidiagonalization",SV+" new"),("implicit-shift QR iteration with deflation",SV+" new main loop"),("sign fixing and ordering",SV+" new convergence case")],None,["get_u","get_s","get_v"])
p("C23","SVD factors multiply back to the matrix",
 "For every finite m-by-n matrix A (elements clear of overflow and underflow), the factors returned by SVD::new satisfy U*S*V' = A up to rounding.",
 ["inputs"],"all shapes and all finite matrices, along every branch of the iteration (deflation, splitting, QR step, convergence)",
 "Three matrices are tested; the splitting and deflation branches are reached only by special inputs.",
 [SV],[("accumulated transformations",SV+" new")],None,["get_u","get_s","get_v"])
p("C24","The reported rank counts the singular values above the documented tolerance",
 "For every decomposed m-by-n matrix (square, tall or wide), rank returns, without panicking, the number of singular values greater than max(m, n) * (largest singular value) * machine epsilon (2^-52 for f64).",
 ["inputs"],"all shapes and all matrices",
 "No existing test calls rank.",
 [SV],[("counting loop over the diagonal",SV+" rank")],None,["rank"])
p("C25","Symmetric eigendecomposition: orthogonal V, A*V = V*D, sorted eigenvalues",
 "For every finite symmetric matrix A (elements clear of overflow and underflow) the eigendecomposition satisfies, up to rounding, A*V = V*D with V orthogonal and D diagonal, all imaginary parts are zero, and the eigenvalues are in non-increasing order.",
 ["inputs"],"all symmetric matrices of every size, including diagonal, rank-deficient, repeated-eigenvalue and already tridiagonal ones",
 "One 3x3 matrix is tested and only its eigenvalues are checked, never the eigenvectors.",
 [EI],[("tridiagonalization and QL iteration",EI+" tred2/tql2"),("sorting",EI+" tql2")],None,["get_v","get_d","get_real_eigenvalues","get_imag_eigenvalues"])
p("C26","General eigendecomposition satisfies A*V = V*D with D in real block form",
 "For every finite square non-symmetric matrix A (elements clear of overflow and underflow) the eigendecomposition satisfies A*V = V*D up to rounding, where D is block diagonal with real eigenvalues in 1-by-1 blocks and each complex pair lambda +- i*mu in a 2-by-2 block [lambda, mu; -mu, lambda]. A matrix that is not square is rejected by a panic.",
 ["inputs"],"all square matrices, including those with complex pairs, repeated and defective eigenvalues and those needing exceptional shifts",
 "One 3x3 matrix with real eigenvalues is tested and its eigenvectors are not checked; complex pairs are never exercised.",
 [EI],[("Hessenberg reduction",EI+" orthes"),("shifted QR and back-substitution",EI+" hqr2"),("block assembly",EI+" get_d")],None,["get_v","get_d","get_real_eigenvalues","get_imag_eigenvalues"])
p("C27","Decompositions stay in bounds and return factors of the documented shape",
 "For every matrix of an accepted shape, computing a QR, LU, Cholesky, SVD or eigen decomposition and reading its factors never panics: no index leaves its buffer, no index arithmetic overflows, and every factor has the documented dimensions. A decomposition or solver given a shape it does not support refuses it, by a panic or by returning nothing.",
 ["inputs"],"all shapes and all element values, along every path of the data-dependent iterations",
 "The index arithmetic in the iterative algorithms depends on data-dependent loop bounds that a handful of 3x3 examples do not reach.",
 [EI,SV,QR,LU,CH],[("index arithmetic on flat buffers",SV+" new"),("index arithmetic on flat buffers",EI+" tred2/tql2/orthes/hqr2")],None,["SVD::new","EigenDecomposition::new","LUDecomposition::new","QRDecomposition::new","CholeskyDecomposition::new"])
p("C28","read_csv returns exactly the file's fields as a matrix, or panics",
 "For every readable text file of L lines, each with the same number of comma-separated fields, read_csv returns the L-row matrix whose (i, j) element is the parser applied to the trimmed j-th field of line i. A missing file, an empty file or a line with a different number of fields is rejected by a panic.",
 ["inputs"],"all file contents and all parsers",
 "No existing test calls read_csv.",
 ["src/util.rs"],[("line and field loop with a column-count check","src/util.rs read_csv")],None,["util::read_csv"])
p("C29","The matrix literal macro builds exactly the written rows",
 "The m! literal with r rows of c expressions each builds the r-by-c matrix with those values in the written row-major order, evaluating each expression once. Rows of unequal length are rejected by a panic.",
 ["programs"],"all literals: any number of rows and columns, any expressions",
 "The tests use the macro with rectangular literals only; ragged literals are never tried.",
 ["src/macros.rs"],[("recursive macro counting rows and elements","src/macros.rs m!, m_rec!")],None,["m!"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
