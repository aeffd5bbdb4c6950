#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=m[0], where=m[1]) for m in mech],
                     **({"observe_at": observe} if observe else {}))))

RND = "The numeric tests run each routine on a handful of sizes with one random or constant fill and compare norms against a tolerance; "
TYP = "all real element values and scalars, all operand shapes, strides and views, every flag combination, every block-size configuration"

prop("B01", "General matrix product computes beta*C + alpha*op(A)*op(B)",
 "For all conforming operands, armas_mult leaves every element of C equal (in exact arithmetic) to beta*C + alpha*op(A)*op(B), where op is identity or (conjugate) transpose as selected by the flags, applied to |A| and |B| when absolute values are requested for both operands; when beta is zero the previous content of C does not influence the result. This holds for every blocking configuration, and operands A and B and all memory outside the m-by-n window of C are left unchanged.",
 ["inputs","configurations"], TYP+", with thread-cached or call-local packing buffers",
 RND+"they do not reach every remainder of the register-blocked kernels, nonunit strides, ABS flags or block-boundary combination.",
 ["src/blas/gemm.c","src/blas/kernel.c","src/include/x86_64/mult_fma_f64.h","src/include/nosimd/mult.h","src/include/kernel.h","src/base/cache.c"],
 [("blocked product and cache packing","src/blas/gemm.c, src/blas/kernel.c, src/base/cache.c"),("SIMD micro kernels with remainder columns","src/include/x86_64/mult_fma_f64.h")],
 ["armas_mult"])
prop("B02", "Symmetric matrix product uses one triangle and computes beta*C + alpha*A*B",
 "armas_mult_sym computes C = beta*C + alpha*A*B or C = beta*C + alpha*B*A (with B optionally transposed) where A is the symmetric matrix defined by the selected triangle only; elements of the other triangle of A never influence the result. A, B and memory outside C are unchanged.",
 ["inputs","configurations"], TYP, RND+"the unreferenced triangle normally holds the mirrored values, so reading it is invisible.",
 ["src/blas/symm.c","src/blas/kernel.c"], [("symmetric block product","src/blas/symm.c"),("packing of triangular diagonal blocks","src/include/matcpy.h")], ["armas_mult_sym"])
prop("B03", "Triangular matrix product computes alpha*op(A)*B from one triangle",
 "armas_mult_trm overwrites B with alpha*op(A)*B or alpha*B*op(A) where A is the triangular matrix given by the selected triangle (unit diagonal if requested); the other triangle, and the diagonal when unit, never influence the result and A is unchanged.",
 ["inputs","configurations"], TYP+", upper/lower x left/right x transposed x unit, recursive and blocked variants", RND+"the combinations of side, triangle, transposition, unit diagonal and partial block exceed what is sampled.",
 ["src/blas/trmm.c","src/blas/trmm_blk.c","src/blas/trmm_rec.c","src/blas/trmm_unb.c"], [("blocked, recursive and unblocked triangular multiply","src/blas/trmm_*.c")], ["armas_mult_trm"])
prop("B04", "Triangular solve inverts triangular product",
 "When the selected triangle has a nonzero diagonal (or unit diagonal is requested), armas_solve_trm overwrites B with the X satisfying op(A)*X = alpha*B or X*op(A) = alpha*B; the other triangle of A, and its diagonal when unit, never influence X and A is unchanged.",
 ["inputs","configurations"], TYP+", upper/lower x left/right x transposed x unit, recursive and blocked variants", RND+"solve tests use the multiply routine of the same library as oracle.",
 ["src/blas/trsm.c","src/blas/trsm_blk.c","src/blas/trsm_rec.c","src/blas/trsm_unb.c"], [("blocked, recursive and unblocked triangular solve","src/blas/trsm_*.c")], ["armas_solve_trm"])
prop("B05", "Symmetric rank-k and rank-2k updates change one triangle only, correctly",
 "armas_update_sym and armas_update2_sym set the selected triangle of C to beta*C + alpha*A*A^T (or A^T*A) and beta*C + alpha*(A*B^T + B*A^T) (or transposed forms), and leave the strictly opposite triangle of C, operands A and B, and memory outside C unchanged.",
 ["inputs","configurations"], TYP, RND+"the opposite triangle is rarely checked element for element at every block boundary.",
 ["src/blas/syrk.c","src/blas/syr2k.c","src/blas/updtrmm.c"], [("rank-k update by triangular blocks","src/blas/syrk.c, src/blas/syr2k.c")], ["armas_update_sym","armas_update2_sym"])
prop("B06", "Triangular/trapezoidal update touches only the selected part of C",
 "armas_update_trm and armas_mvupdate_trm set the selected upper or lower trapezoidal part of the m-by-n matrix C to beta*C + alpha*op(A)*op(B) (or the rank-1 form) and leave every other element of C and the operands unchanged.",
 ["inputs","configurations"], TYP+", square, wide and tall C", RND+"no test covers wide and tall trapezoids under all transpositions with small block sizes.",
 ["src/blas/updtrmm.c","src/blas/updtrmv.c"], [("trapezoid update","src/blas/updtrmm.c, src/blas/updtrmv.c")], ["armas_update_trm","armas_mvupdate_trm"])
prop("B07", "Matrix-vector product and rank-1 update are exact for any vector orientation",
 "armas_mvmult computes Y = beta*Y + alpha*op(A)*X and armas_mvupdate computes A = beta*A + alpha*X*Y^T for every combination of row and column vectors (contiguous or strided), changing nothing but the result operand.",
 ["inputs","configurations"], TYP+", row or column orientation of each vector", RND+"vectors are mostly contiguous columns.",
 ["src/blas/gemv.c","src/blas/ger.c"], [("gemv / ger kernels and recursive splitting","src/blas/gemv.c, src/blas/ger.c")], ["armas_mvmult","armas_mvupdate"])
prop("B08", "Symmetric matrix-vector product and rank-1/rank-2 updates",
 "armas_mvmult_sym computes Y = beta*Y + alpha*A*X from the selected triangle of A only; armas_mvupdate_sym and armas_mvupdate2_sym set the selected triangle to beta*A + alpha*X*X^T and beta*A + alpha*(X*Y^T + Y*X^T) and leave the opposite strict triangle unchanged.",
 ["inputs","configurations"], TYP+", row or column orientation of each vector", RND+"the unreferenced triangle is not poisoned.",
 ["src/blas/symv.c","src/blas/syr.c","src/blas/syr2.c"], [("symmetric level-2 kernels","src/blas/symv.c, src/blas/syr.c, src/blas/syr2.c")], ["armas_mvmult_sym","armas_mvupdate_sym","armas_mvupdate2_sym"])
prop("B09", "Triangular matrix-vector product and solve",
 "armas_mvmult_trm overwrites X with alpha*op(A)*X and armas_mvsolve_trm overwrites X with the solution of op(A)*x = alpha*X, reading only the selected triangle of A (and not the diagonal when unit), for row and column vectors of any stride.",
 ["inputs","configurations"], TYP+", row or column orientation", RND+"only contiguous columns with a mirrored or zero opposite triangle.",
 ["src/blas/trmv.c","src/blas/trsv.c"], [("triangular level-2 kernels","src/blas/trmv.c, src/blas/trsv.c")], ["armas_mvmult_trm","armas_mvsolve_trm"])
prop("B10", "Vector operations return the exact reduction or update for any length and stride",
 "dot, adot, asum, nrm2, amax, iamax, iamin, axpy, axpby, scale, copy and swap compute their mathematical definition over all elements of the vector for every length, orientation and stride (iamax returns a first index of maximal absolute value), and update operations change exactly the vector elements.",
 ["inputs"], "all real element values, lengths covering every unrolling remainder, row/column/strided vectors and mixed orientations", RND+"unrolled loops have remainder cases and strided variants that fixed-length tests do not visit.",
 ["src/blas/dot.c","src/blas/asum.c","src/blas/nrm2.c","src/blas/iamax.c","src/blas/axpy.c","src/blas/mscale.c","src/blas/madd.c","src/blas/mcopy.c","src/blas/swap.c"], [("unrolled vector loops","src/blas/*.c")], ["armas_dot","armas_asum","armas_nrm2","armas_iamax","armas_axpy","armas_axpby","armas_scale","armas_copy","armas_swap"])
prop("B11", "Element-wise matrix operations act on exactly the selected elements",
 "mcopy (plain or transposed), newcopy, mscale, madd, mplus, apply, apply2, iterate, set_values, set_all and make_trm act on exactly the elements selected by the upper/lower/unit/symmetric/transpose flags (for matrices of any shape, triangular flags being ignored by madd and mplus on vectors) with the defined formula, and leave all other elements and source operands unchanged.",
 ["inputs","configurations"], "all real values, all shapes including wide and tall, strides, and selection flags", RND+"trapezoidal shapes and unit flags are not sampled.",
 ["src/blas/mcopy.c","src/blas/mscale.c","src/blas/madd.c","src/blas/mplus.c","src/blas/mset.c","src/blas/mapply.c","src/base/matrix.c"], [("element loops","src/blas/m*.c")], ["armas_mcopy","armas_mscale","armas_madd","armas_mplus","armas_apply","armas_set_values","armas_make_trm"])
prop("B12", "Matrix norms equal their definitions",
 "armas_mnorm returns the one-norm (maximum absolute column sum), infinity-norm (maximum absolute row sum) or Frobenius norm of a matrix of any shape and stride, and the corresponding vector norms (sum of absolute values, largest absolute value, Euclidean length) for row and column vectors, leaving the operand unchanged.",
 ["inputs"], "all real values, shapes and strides", RND+"norms are the oracle of the other tests and are not themselves checked against the definition.",
 ["src/blas/mnorm.c","src/blas/nrm2.c","src/blas/asum.c"], [("norm loops","src/blas/mnorm.c")], ["armas_mnorm"])
prop("M01", "Matrix views address exactly the documented elements",
 "For every parent matrix and every valid (possibly negative, end-relative) row, column, offset and length argument, the views made by submatrix, row, column, diagonal and subvector address exactly the documented elements of the parent and never memory outside it, and element get/set through matrix or vector index reads or writes exactly that element.",
 ["inputs"], "all row/column/step/offset/length integers", "Views are only used indirectly by tests with a few nonnegative arguments.",
 ["src/include/matrix.h","src/base/matrix.c"], [("view constructors","src/include/matrix.h"),("matrix allocation","src/base/matrix.c")], ["armas_submatrix","armas_row","armas_column","armas_diag","armas_subvector","armas_get","armas_set","armas_get_at","armas_set_at"])
prop("M02", "Non-conforming operands are rejected without touching any operand",
 "When the sizes of nonempty operands do not conform (inner or outer dimensions differ, a matrix that has to be square is not, an argument that has to be a vector is not, or a vector has the wrong length), the dense products, rank updates, triangular solves, element-wise operations and dot products, the factorizations and reductions, and the routines that solve with, invert, multiply by or build from a factorization return a negative value with a nonzero error code in the configuration and read or write no operand element.",
 ["inputs"], "all operand shape combinations up to a bound, all flags", "Almost no test passes non-conforming operands.",
 ["src/blas","src/lapack"], [("conformance checks at entry","every public routine")], ["return codes","armas_conf_t.error"])
prop("M03", "Pivot application is a permutation and its inverse undoes it",
 "Applying pivots forward to the rows or columns of a matrix applies exactly the sequence of interchanges recorded in the pivot vector, and applying the same pivots backward restores the original matrix, for every valid pivot vector.",
 ["inputs"], "all pivot vectors and matrices up to the bound", "Pivot vectors in tests come only from factorizations of random matrices.",
 ["src/base/pivot.c","src/base/pivot_ext.c","src/include/pivot.h"], [("row/column interchange","src/base/pivot.c")], ["armas_pivot","armas_pivot_rows","armas_pivot_cols"])

FAC = "; unusual pivot sequences and block boundaries are not sampled."
prop("L01", "LU factorization reproduces P*A and its solve solves",
 "Whenever LU factorization (pivoted, or unpivoted when no pivot vector is given) succeeds, the stored unit lower and upper factors multiply to the row-permuted original matrix, every multiplier has absolute value at most one under pivoting, and lusolve with or without the transpose flag produces X with op(A)*X = B, for every block size.",
 ["inputs","configurations"], "all real matrices (every pivot order), square and rectangular shapes, block sizes", RND+FAC[2:],
 ["src/lapack/lu.c","src/base/pivot.c"], [("blocked/unblocked LU","src/lapack/lu.c")], ["armas_lufactor","armas_lusolve"])
prop("L02", "Cholesky factorization reproduces A and its solve solves",
 "For every symmetric positive definite matrix the Cholesky factorization of the selected triangle satisfies L*L^T = A or U^T*U = A, reports failure otherwise, leaves the opposite strict triangle untouched, and cholsolve produces X with A*X = B, for every block size.",
 ["inputs","configurations"], "all symmetric positive definite matrices up to the bound, upper/lower, block sizes", RND+FAC[2:],
 ["src/lapack/chol.c"], [("blocked/unblocked Cholesky","src/lapack/chol.c")], ["armas_cholesky","armas_cholfactor","armas_cholsolve"])
prop("L03", "Pivoted Cholesky reproduces the permuted matrix",
 "For every symmetric positive definite matrix (or positive semidefinite one of lower rank, which is reported) the pivoted Cholesky factorization yields factors with L*L^T = P*A*P^T (or U^T*U), a nonincreasing diagonal, and solve with the pivots yields X with A*X = B, for every block size.",
 ["inputs","configurations"], "all symmetric positive definite matrices and pivot orders up to the bound, upper/lower, block sizes", RND+FAC[2:],
 ["src/lapack/cholpv.c","src/lapack/chol.c"], [("pivoted Cholesky","src/lapack/cholpv.c")], ["armas_cholfactor","armas_cholsolve"])
prop("L04", "LDL^T factorization (with and without pivoting) reproduces A and solves",
 "For every symmetric matrix on which the elimination meets no zero pivot, the LDL^T factorization stores a unit triangular factor and diagonal that satisfy L*D*L^T = P*A*P^T (or U*D*U^T), the opposite strict triangle is untouched, and ldlsolve produces X with A*X = B, for every block size.",
 ["inputs","configurations"], "all symmetric matrices with nonzero pivots up to the bound, upper/lower, pivoted or not, block sizes", RND+FAC[2:],
 ["src/lapack/ldl.c","src/lapack/ldlpv.c"], [("LDL factorization","src/lapack/ldl.c, src/lapack/ldlpv.c")], ["armas_ldlfactor","armas_ldlsolve"])
prop("L05", "Bunch-Kaufman factorization reproduces A and solves",
 "For every nonsingular symmetric (possibly indefinite) matrix, bksolve applied to the result of bkfactor produces X with A*X = B for upper and lower storage, any mix of 1x1 and 2x2 pivots, and every block size, and the opposite strict triangle is untouched.",
 ["inputs","configurations"], "all symmetric matrices (every pivot pattern) up to the bound, upper/lower, block sizes", RND+"2x2 pivots at block boundaries depend on the values drawn.",
 ["src/lapack/ldlbk.c","src/lapack/ldlbku.c","src/lapack/ldlbkl.c"], [("Bunch-Kaufman pivoting","src/lapack/ldlbk*.c")], ["armas_bkfactor","armas_bksolve"])
for (id,nm,fn,side,ext) in (("L06","QR","qr","A = Q*R with R upper triangular","qrt"),("L07","LQ","lq","A = L*Q with L lower triangular",None),("L08","QL","ql","A = Q*L with L lower triangular",None),("L09","RQ","rq","A = R*Q with R upper triangular",None)):
    fs=["src/lapack/%s.c"%fn,"src/lapack/%smult.c"%fn,"src/lapack/%sbld.c"%fn,"src/lapack/house.c"]
    if ext: fs.append("src/lapack/qrt.c")
    prop(id,"%s factorization, Q multiplication and Q generation agree with A"%nm,
     "For every matrix of admissible shape the %s factorization satisfies %s, the Q applied by %smult (left or right, transposed or not) and the one generated by %sbuild are the same orthogonal Q, and multiplying by Q and then by its transpose restores the operand, for every block size including unblocked; with the option ARMAS_ONONNEG the diagonal of the triangular factor is nonnegative%s."%(nm,side,fn,fn,"; qrtfactor yields the same R and the block reflectors I - Y*T*Y^T" if ext else ""),
     ["inputs","configurations"], "all real matrices up to the bound, all sides/transpositions, block sizes", RND+"orthogonality and reconstruction are checked on three sizes with one block size.",
     fs,[("Householder factorization with compact WY blocks","src/lapack/%s*.c"%fn)],["armas_%sfactor"%fn,"armas_%smult"%fn,"armas_%sbuild"%fn])
prop("L10","Least-squares and minimum-norm solves satisfy their optimality conditions",
 "qrsolve and lqsolve (with and without transposition) applied to a factored full-rank matrix return the least-squares solution of the overdetermined system or the minimum-norm solution of the underdetermined system.",
 ["inputs","configurations"],"all full-rank matrices and right-hand sides up to the bound",RND+"only consistent systems of one shape are tested.",
 ["src/lapack/qrsolve.c","src/lapack/lqsolve.c"],[("triangular solve with Q application","src/lapack/qrsolve.c, src/lapack/lqsolve.c")],["armas_qrsolve","armas_lqsolve"])
prop("L11","Hessenberg reduction is an orthogonal similarity",
 "hessreduce yields H upper Hessenberg and reflectors Q with A = Q*H*Q^T, and hessmult multiplies by exactly that Q or its transpose, for every block size.",
 ["inputs","configurations"],"all real square matrices up to the bound, block sizes",RND+FAC[2:],["src/lapack/hess.c","src/lapack/hessm.c"],[("blocked Hessenberg reduction","src/lapack/hess.c")],["armas_hessreduce","armas_hessmult"])
prop("L12","Bidiagonal reduction is an orthogonal equivalence",
 "bdreduce yields a bidiagonal B (upper for tall, lower for wide matrices) and reflectors with A = Q*B*P^T, and bdmult/bdbuild multiply by or generate exactly those Q and P, for every block size.",
 ["inputs","configurations"],"all real matrices up to the bound, tall and wide, block sizes",RND+FAC[2:],["src/lapack/bired.c","src/lapack/biredm.c","src/lapack/bibld.c"],[("blocked bidiagonal reduction","src/lapack/bired.c")],["armas_bdreduce","armas_bdmult","armas_bdbuild"])
prop("L13","Tridiagonal reduction is an orthogonal similarity",
 "trdreduce applied to either triangle of a symmetric matrix yields symmetric tridiagonal T and reflectors Q with A = Q*T*Q^T, reading only the selected triangle, and trdmult/trdbuild multiply by or generate exactly that Q, for every block size.",
 ["inputs","configurations"],"all symmetric matrices up to the bound, upper/lower, block sizes",RND+FAC[2:],["src/lapack/trired.c","src/lapack/triredm.c","src/lapack/tribld.c"],[("blocked tridiagonal reduction","src/lapack/trired.c")],["armas_trdreduce","armas_trdmult","armas_trdbuild"])
prop("L14","Inverse routines produce the inverse",
 "inverse_trm, luinverse, cholinverse and ldlinverse applied to a (factored) nonsingular matrix overwrite it with its inverse (the selected triangle of the inverse for symmetric storage), leaving the opposite triangle untouched, for every block size.",
 ["inputs","configurations"],"all nonsingular matrices up to the bound, all flags, block sizes",RND+FAC[2:],["src/lapack/invtrm.c","src/lapack/inv.c","src/lapack/invspd.c","src/lapack/invldl.c"],[("blocked in-place inversion","src/lapack/inv*.c")],["armas_inverse_trm","armas_luinverse","armas_cholinverse","armas_ldlinverse"])
prop("L15","Givens rotations: generation annihilates, application rotates the selected range",
 "gvcompute returns c, s, r with c^2+s^2 = 1 and the rotation mapping (a,b) to (r,0); gvleft, gvright, gvrot_vec and gvupdate apply the rotations to exactly the named rows or columns and range in the requested order and change nothing else.",
 ["inputs"],"all real values, indices, ranges and directions up to the bound",RND+"there is no direct test of range limits or backward order.",["src/lapack/givens.c","src/lapack/rotate.c"],[("rotation generation/application","src/lapack/givens.c")],["armas_gvcompute","armas_gvleft","armas_gvright","armas_gvupdate","armas_gvrot_vec"])
prop("L16","Householder reflectors annihilate and are applied as I - tau*v*v^T",
 "house generates tau and v such that (I - tau*v*v^T)*x = beta*e1 with the reflector orthogonal (and the nonnegative variant gives beta >= 0), and houseapply/housemult apply exactly that reflector or product of reflectors; the hyperbolic variant is likewise consistent with its signature matrix.",
 ["inputs"],"all real vectors and matrices up to the bound, all flags",RND+"special branches (zero vector, sign choice) depend on the values drawn.",["src/lapack/house.c","src/lapack/housem.c","src/lapack/hhouse.c"],[("reflector generation","src/lapack/house.c")],["armas_house","armas_houseapply","armas_housemult","armas_hhouse"])
prop("L17","Diagonal scaling and solving",
 "mult_diag and solve_diag multiply the selected side of A by alpha*D or alpha*D^-1 for D given as a row or column vector, on vectors and on (optionally symmetric) matrices, and change nothing else.",
 ["inputs"],"all real values, shapes and strides up to the bound",RND+"orientation and stride variants are not sampled.",["src/lapack/diag.c"],[("diagonal scaling","src/lapack/diag.c")],["armas_mult_diag","armas_solve_diag"])
prop("L18","Sorting permutes and orders",
 "sort_vec, abs_sort_vec, qsort_vec and sort_eigenvec order the vector ascending or descending as requested, as a permutation of the input, and apply the same permutation to the columns or rows of the attached matrices.",
 ["inputs"],"all real vectors (every order, ties included) up to the bound, strides, directions",RND+"sort is exercised through eigenvalue tests only.",["src/lapack/sort.c","src/lapack/qsort.c"],[("selection / quick sort","src/lapack/sort.c, src/lapack/qsort.c")],["armas_sort_vec","armas_qsort_vec","armas_sort_eigenvec"])
prop("L19","Random butterfly transforms match their recursive definition",
 "mult_rbt multiplies from the left or right by the recursive butterfly matrix (or transpose) defined by U, and update2_rbt computes U^T*A*V for the two butterflies, for every size divisible as required.",
 ["inputs"],"all real matrices and butterfly parameters up to the bound",RND+"no stable test checks them against the explicit matrix.",["src/lapack/rbtgm.c","src/lapack/rbtgu.c"],[("recursive butterfly","src/lapack/rbtgm.c, src/lapack/rbtgu.c")],["armas_mult_rbt","armas_update2_rbt"])
prop("L20","Workspace queries are sufficient and workspaces are never overrun",
 "For every routine with an explicit-workspace variant, the size reported by its workspace query for given operands is sufficient for the subsequent call to succeed, the call never touches memory outside the workspace, and a smaller workspace is either accepted with a correct result or rejected with an error and unchanged operands.",
 ["inputs","configurations"],"all operand shapes, block sizes and flags up to the bound","Tests mostly allocate internally through the same query and cannot see an overrun inside padding.",["src/lapack","src/base/armas.c","src/include/armas.h"],[("workspace size computation","*_w functions")],["armas_wbuf_t","*_w functions"])
prop("L21","Quadratic root and 2x2 helpers return the roots",
 "armas_qdroots returns the two roots of a*x^2+b*x+c when they are real, with the root of larger magnitude first, and armas_discriminant returns b^2-a*c in the documented form.",
 ["inputs"],"all real coefficients","Only a few coefficient triples are ever tried.",["src/lapack/qdroot.c"],[("root formulas","src/lapack/qdroot.c")],["armas_qdroots","armas_discriminant"])
prop("L22","Cholesky rank-one update",
 "cholupdate turns the Cholesky factor of A into the Cholesky factor of A + X*X^T, upper or lower, touching only the selected triangle of the factor.",
 ["inputs"],"all factors and update vectors up to the bound",RND+FAC[2:],["src/lapack/cholupd.c"],[("rank-one update by rotations","src/lapack/cholupd.c")],["armas_cholupdate"])
prop("L23","Singular value decomposition reproduces A",
 "armas_svd and armas_bdsvd return orthonormal U, V and nonnegative nonincreasing singular values S with A = U*diag(S)*V^T for every matrix.",
 ["inputs"],"all real matrices",RND+"iterative convergence depends on values.",["src/lapack/svd.c","src/lapack/bdsvd.c","src/lapack/bdsvd_dk.c","src/lapack/bdsvd_gr.c","src/lapack/dqds.c"],[("implicit QR iteration","src/lapack/bdsvd*.c")],["armas_svd","armas_bdsvd"])
prop("L24","Symmetric eigenvalue decomposition reproduces A",
 "armas_eigen_sym, armas_trdeigen, armas_trdbisect and the secular equation solvers return eigenvalues and orthonormal eigenvectors with A = V*diag(D)*V^T for every symmetric matrix.",
 ["inputs"],"all symmetric matrices",RND+"iterative convergence depends on values.",["src/lapack/evd.c","src/lapack/trdevd.c","src/lapack/trdbis.c","src/lapack/trdsec.c"],[("implicit QR iteration","src/lapack/trdevd.c")],["armas_eigen_sym","armas_trdeigen"])
prop("E01","Extended-precision routines compute the same mathematical function",
 "Every extended precision BLAS routine (dot, sum, axpby, gemv, ger, symv, syr, syr2, trmv, trsv, gemm, symm, trmm, trsm) computes in exact arithmetic the same result as its definition, for every flag combination, shape, stride and blocking, with the same confinement guarantees as the plain routines.",
 ["inputs","configurations"],TYP,RND+"tests compare against ill-conditioned fixed data.",["src/eblas"],[("compensated kernels","src/eblas/*.c, src/include/x86_64/mult_ext_avx_f64.h, src/include/nosimd/mult_ext.h")],["armas_ext_*"])
prop("E02","Error-free transformations are error free",
 "For all finite operands without overflow or underflow, the two-sum and two-product building blocks return a rounded result and an error term whose exact sum is the exact result.",
 ["inputs"],"all pairs of floating point numbers in range","Floating point corner cases (ties, sign changes, magnitude gaps) are not reachable by sampling.",["src/include/eft.h","src/include/x86_64/eftops.h"],[("twosum / twoprod","src/include/eft.h")],["armas_ext_adot","twosum","twoprod"])
prop("C01","Cache blocking always yields a usable, non-overlapping partition of the buffer",
 "For every supported environment configuration (block sizes, cache memory sizes) the packing buffer is split into blocks that are large enough for the reported block dimensions, do not overlap, lie inside the buffer and have positive dimensions, and square diagonal blocks fit the column stride, so blocked routines terminate and never write outside the buffer.",
 ["configurations","inputs"],"all block size and cache memory settings within the documented range","Tests run with the default configuration only.",["src/base/cache.c","src/include/cache.h","src/base/env.c"],[("armas_cbuf_split2/3, armas_cbuf_init","src/base/cache.c")],["armas_mult under ARMAS_CONFIG"])
prop("C02","Environment configuration is parsed as documented",
 "Every comma separated ARMAS_CONFIG (mb,nb,kb,lb,blas1min,blas2min,fixed) and ARMAS_CACHE (size[,l1size] with optional K or M suffix) environment string yields the block sizes, thresholds and memory sizes it names (raised to the documented minimum), keeps defaults for missing or malformed fields, never gives a nonpositive block size, leaves the process environment unmodified, and causes no memory error for any string.",
 ["inputs"],"all environment strings up to the bound","Tests never set the environment.",["src/base/env.c"],[("armas_read_environment","src/base/env.c")],["ARMAS_CONFIG"])
prop("T01","Threaded routines compute the sequential result",
 "For every number of threads, block size and scheduling the threaded and worker variants of gemm, symm, trmm and trsm produce exactly the mathematical result of the sequential routine, with the blocks of the result assigned to tasks disjointly and completely.",
 ["schedules","inputs","configurations"],"all operand sizes, thread counts, block sizes, flags up to the bound, all real values",RND+"only one thread count and a few sizes.",["src/threaded","src/workers/gemm.c","src/base/accel.c","src/include/accel.h"],[("block index partition","src/base/accel.c, src/threaded/*.c, src/workers/gemm.c")],["armas_mult","armas_mult_sym","armas_mult_trm","armas_solve_trm"])
prop("T02","Work partitioning covers every index exactly once",
 "For every problem size and number of blocks or tiles, the block boundaries used to split work are monotone, start at zero, end at the size, and so cover every index exactly once.",
 ["inputs"],"all sizes and block counts up to the bound","Only a few sizes are tried.",["src/base/accel.c","src/include/accel.h","src/workers/gemm.c"],[("armas_ac_block_index","src/include/accel.h")],["armas_ac_block_index"])
prop("W01","The task queue delivers every task exactly once and never deadlocks",
 "Under every interleaving of producers and consumers (which pass the broadcast flag, as every caller does), every task put in the worker queue is taken exactly once and in order, no thread sleeps forever while its condition holds, and the count of queued tasks is never outside the queue capacity.",
 ["schedules","histories"],"all interleavings of bounded numbers of threads and operations","Thread interleavings are not controlled by tests.",["src/workers/queue.h"],[("taskq","src/workers/queue.h")],["taskq_*"])
prop("W02","Completion counters release waiters exactly when all tasks are done",
 "Under every interleaving (and with spurious wakeups) waiting for a task group returns only after all of its tasks have completed, and does return once they have.",
 ["schedules"],"all interleavings of bounded numbers of tasks and waiters","Thread interleavings are not controlled by tests.",["src/workers/counter.h"],[("armas_counter_*","src/workers/counter.h")],["armas_counter_wait"])
prop("S01","Sparse storage conversions preserve the matrix",
 "Building by append, sorting, converting between COO, CSR and CSC, copying, transposing and expanding to dense preserve the represented matrix (transposed where asked), with sorted indices and consistent pointers, and armassp_hasdiag tells which diagonal elements are stored, for every sparsity pattern with at least one element and without duplicates and every insertion order.",
 ["inputs","histories"],"all patterns, values and insertion orders up to the bound","There are no sparse tests in the stable suite.",["src/sparse/convert.c","src/sparse/copy.c","src/sparse/sort.c","src/sparse/sparse.c","src/sparse/dense.c","src/sparse/util.c"],[("counting conversion","src/sparse/convert.c")],["armassp_append","armassp_convert","armassp_transpose","armassp_todense","armassp_sort"])
prop("S02","Sparse matrix-vector products equal the dense definition",
 "armassp_mvmult and armassp_mvmult_sym compute beta*y + alpha*op(A)*x of the represented matrix for CSR and CSC storage and contiguous vectors, for every sparsity pattern, value and flag.",
 ["inputs"],"all patterns and real values up to the bound","There are no sparse tests in the stable suite.",["src/sparse/gemv.c","src/sparse/symv.c"],[("sparse gemv","src/sparse/gemv.c")],["armassp_mvmult","armassp_mvmult_sym"])
prop("S03","Sparse triangular products and solves equal the dense definition",
 "armassp_mvmult_trm and armassp_mvsolve_trm compute alpha*op(A)*x and the solution of op(A)*z = alpha*x of the represented triangular matrix for CSR and CSC storage, contiguous vectors and all flags.",
 ["inputs"],"all triangular patterns and real values up to the bound","There are no sparse tests in the stable suite.",["src/sparse/trmv.c","src/sparse/trsv.c"],[("sparse trmv/trsv","src/sparse/trmv.c, src/sparse/trsv.c")],["armassp_mvmult_trm","armassp_mvsolve_trm"])
prop("S04","Sparse addition and multiplication equal the dense definition",
 "armassp_add and armassp_mult produce a sparse matrix representing alpha*op(A)+beta*op(B) and alpha*op(A)*op(B) with consistent structure, for every pattern combination and storage.",
 ["inputs"],"all patterns and real values up to the bound","There are no sparse tests in the stable suite.",["src/sparse/add.c","src/sparse/mult.c","src/sparse/accum.c"],[("sparse accumulator","src/sparse/accum.c")],["armassp_add","armassp_mult"])
prop("S05","Incomplete factorizations match A on their sparsity pattern",
 "The zero fill-in incomplete Cholesky and LU factorizations produce factors with the sparsity pattern of A whose product equals A at every stored position, whenever no zero or negative pivot occurs, and the preconditioners built from them apply the inverse of that product.",
 ["inputs"],"all patterns and real values up to the bound","There are no sparse tests in the stable suite.",["src/sparse/icholz.c","src/sparse/iluz.c"],[("IC(0) / ILU(0)","src/sparse/icholz.c, src/sparse/iluz.c")],["armassp_icholz","armassp_iluz"])
prop("S06","Krylov solvers are exact in n steps and report the true residual",
 "In exact arithmetic conjugate gradient variants and GMRES return the solution of the (normal) equations after at most n iterations and the reported residual equals the residual of the returned solution.",
 ["inputs"],"all nonsingular matrices of the required class up to the bound","There are no sparse tests in the stable suite.",["src/sparse/cgrad.c","src/sparse/cgne.c","src/sparse/cgnr.c","src/sparse/gmres.c","src/sparse/pcgrad.c","src/sparse/pgmres.c"],[("iteration recurrences","src/sparse/*.c")],["armassp_cgrad","armassp_gmres"])
prop("I01","JSON written by the library is read back as the same matrix",
 "A dense matrix written with the JSON writer and read back with the JSON reader has the same dimensions and (to the written precision) the same elements at the same positions; malformed or truncated JSON is rejected without crash.",
 ["inputs","fault_sequences"],"all dimensions and element texts up to the bound, all byte strings","There are no I/O tests in the stable suite.",["src/io/json_base.c","src/io/json_reader.c","src/io/json_writer.c","src/io/json_file.c","src/io/ios.c"],[("token reader/writer","src/io/json_*.c")],["armas_json_read","armas_json_write","armas_json_dump","armas_json_load"])
prop("I02","JSON tokenizer is memory safe and classifies every byte string correctly",
 "For every byte string and token buffer size the JSON token reader stays inside its buffer, terminates, and returns for well-formed input exactly the token that starts there with its complete text.",
 ["inputs"],"all byte strings and buffer sizes up to the bound","There are no I/O tests in the stable suite.",["src/io/json_reader.c","src/io/ios.c"],[("token state machine","src/io/json_reader.c")],["armas_json_read_token"])
prop("I03","MatrixMarket files round trip",
 "A dense or sparse matrix dumped in MatrixMarket format and loaded again represents the same matrix (general, symmetric and triangular variants), and malformed files are rejected without memory errors.",
 ["inputs"],"all dimensions and values up to the bound, all malformed headers up to the bound","There are no I/O tests in the stable suite.",["src/io/iomm.c","src/sparse/io.c"],[("MatrixMarket reader/writer","src/io/iomm.c, src/sparse/io.c")],["armas_mmload","armas_mmdump","armassp_mmload","armassp_mmdump"])
prop("K01","The Fortran/CBLAS compatibility layer maps BLAS semantics exactly",
 "Every compatibility entry point (Fortran style and CBLAS style, row and column major) computes the reference BLAS result for its arguments: all level 1 to 3 Fortran-style routines and the CBLAS style gemm, symm, trmm and trsm, including leading dimensions, option characters, increments of either sign for vector routines and positive increments for matrix-vector routines, touching exactly the elements BLAS would touch.",
 ["inputs"],"all shapes, leading dimensions, increments, orders and option characters up to the bound, all real values","There are no compatibility tests in the stable suite.",["src/compat"],[("argument mapping","src/compat/*.c")],["dgemm_","cblas_dgemm","..."])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
