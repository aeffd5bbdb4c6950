"""Table of the checks: which harness, which directories of /repo/src, which bounds."""
def U(name, harness, dirs=("base", "blas"), defs=(), **kw): return dict(name=name, harness=harness, dirs=dirs, defs=list(defs), **kw)
BLK = "four blocking configurations with internal blocks of 8, 24 and (MB,NB,KB)=(4,12,16)"
CHECKS = {
 "B01": dict(units=[U("b01", "b01_gemm.c")], budget=(60, 600), bounds="operands up to 11x11 with inner dimension up to 17 (thorough 25x26x33), all transposition/conjugation/absolute flags, " + BLK),
 "B02": dict(units=[U("b02", "b02_symm.c")], budget=(60, 600), bounds="matrices up to 17x11 (thorough 25x26), both sides, triangles, transpositions, " + BLK),
 "B03": dict(units=[U("b03", "b03_trmm.c")], budget=(60, 600), bounds="triangles up to 17 (thorough 25), naive / recursive / blocked, " + BLK),
 "B04": dict(units=[U("b04", "b03_trmm.c", defs=["-DSOLVE"])], budget=(80, 800), bounds="triangles up to 10 (thorough 18), naive / recursive / blocked, " + BLK),
 "B05": dict(units=[U("b05", "b05_syrk.c")], budget=(60, 600), bounds="matrices up to 11 (thorough 26), rank up to 11, naive / recursive / blocked, " + BLK),
 "B06": dict(units=[U("b06", "b06_updtrm.c")], budget=(60, 600), bounds="up to 11x11 (thorough 19x19), square, wide and tall, naive / recursive / blocked, " + BLK),
 "B07": dict(units=[U("b07", "b07_gemv.c")], budget=(60, 600), bounds="matrices up to 10x9 (thorough 19x17), every orientation and stride, naive and recursive"),
 "B08": dict(units=[U("b08", "b07_gemv.c", defs=["-DSYM"])], budget=(60, 600), bounds="order up to 10 (thorough 21), every orientation and stride, naive and recursive"),
 "B09": dict(units=[U("b09", "b09_trmv.c")], budget=(60, 600), bounds="order up to 8 (thorough 14), every orientation and stride, naive and recursive"),
 "B10": dict(units=[U("b10", "b10_vec.c")], budget=(60, 600), bounds="length 0..13 (thorough 0..19), nrm2 up to 5, iamax up to 8 (thorough 10)"),
 "B11": dict(units=[U("b11", "b11_elem.c")], budget=(60, 600), bounds="shapes up to 9x9 (thorough 12x15), all selections of triangle, unit, transpose and absolute value"),
 "B12": dict(units=[U("b12", "b12_norm.c")], budget=(60, 600), bounds="up to 12 elements (one- and infinity-norm), 6 elements (Frobenius, thorough 9)"),
}
E = ("base", "blas", "eblas")
CHECKS["E01"] = dict(units=[U("e01gemm", "b01_gemm.c", E, ["-DEXT"]), U("e01symm", "b02_symm.c", E, ["-DEXT"]), U("e01trmm", "b03_trmm.c", E, ["-DEXT"]), U("e01trsm", "b03_trmm.c", E, ["-DEXT", "-DSOLVE"]),
   U("e01vec", "e01_vec.c", E), U("e01gemv", "b07_gemv.c", E, ["-DEXT"]), U("e01symv", "b07_gemv.c", E, ["-DEXT", "-DSYM"]), U("e01trmv", "b09_trmv.c", E, ["-DEXT"])],
   budget=(160, 1200), bounds="the bounds of B01-B04 and B06-B09 for the armas_ext routines")
LA = ("base", "blas", "lapack")
CHECKS["L01"] = dict(units=[U("l01", "l01_lu.c", LA)], budget=(60, 600), bounds="factorization with every value symbolic up to 6x6 (thorough 9) unpivoted and 3x4 (thorough 4x3) pivoted, up to 10 with the values of up to three columns symbolic; solve up to order 4 (thorough 6); lapack block sizes 0, 2, 3")
CHECKS["L02"] = dict(units=[U("l02", "l02_chol.c", LA)], budget=(60, 600), bounds="factorization of every A = L0*L0^T with symbolic L0 up to order 9 (thorough 11) and of every symmetric matrix up to order 3, solve up to order 5, block sizes 0, 2, 3")
CHECKS["L03"] = dict(units=[U("l03", "l02_chol.c", LA, ["-DPV"])], budget=(60, 600), bounds="A = P*L0*L0^T*P^T, the diagonal of L0 concrete and its other elements partly symbolic and bounded, up to order 9 (thorough 11), full and deficient rank, three pivot orders; every matrix up to order 2; block sizes 0, 2, 3")
CHECKS["L04"] = dict(units=[U("l04", "l04_ldl.c", LA)], budget=(60, 600), bounds="A = L0*D*L0^T with symbolic L0 and D up to order 8 (thorough 10) unpivoted, concrete D and bounded L0 with three pivot orders pivoted, every matrix of order 2-3, solve up to order 5, block sizes 0, 2, 3")
CHECKS["L05"] = dict(units=[U("l05", "l05_bk.c", LA)], budget=(90, 600), bounds="every nonsingular matrix of order 1-3 and right-hand side; order up to 8 (thorough 10) with eight (thorough twelve) given rational matrices that need no, 1x1 and 2x2 interchanges and arbitrary right-hand sides; order 3-5 given up to one symbolic element (|t| < 1/16); both triangles; block sizes 0, 1, 2, 3 (thorough also 4)")
_W = ["-DWS"]
CHECKS["L20"] = dict(units=[U("ws_ldl", "l04_ldl.c", LA, _W), U("ws_bk", "l05_bk.c", LA, _W), U("ws_inv", "l14_inv.c", LA, _W)] + [U("ws_" + n, "l06_qr.c", LA, _W + d) for n, d in (("qr", []), ("lq", ["-DLQ"]), ("ql", ["-DQL"]), ("rq", ["-DRQ"]), ("qrs", ["-DSOLVE"]), ("lqs", ["-DSOLVE", "-DLQ"]))] + [U("ws_" + n.lower(), "l11_red.c", LA, _W + ["-D" + n]) for n in ("HESS", "BD", "TRD")], budget=(45, 300), bounds="the decompositions, products, generations, solves and inverses of L04-L14 with their harnesses' operands (order up to 7, thorough 8-10; quick: three shapes each) and internal block sizes 0, 2, 3, called with a workspace of exactly the queried size, with two elements already reserved in it, one element less, half, and one element; query, rejection and guard zones compared with the operand values before the call. Reduced block sizes from undersized workspaces are not reached (the code drops below its minimum block of 32 to the unblocked form at these orders)")
CHECKS["L14"] = dict(units=[U("l14", "l14_inv.c", LA)], budget=(60, 600), bounds="order up to 6 (thorough 7), every stored factor with nonzero diagonal, with and without pivots, block sizes 0, 2, 3")
CHECKS["L22"] = dict(units=[U("l22", "l14_inv.c", LA, ["-DUPD"])], budget=(60, 600), bounds="every positive factor of order 1 (thorough 2); order up to 6 (thorough 9) with arbitrary symbolic updated factor and given rational step rotations (four patterns)")
CHECKS["L15"] = dict(units=[U("l15", "l15_givens.c", LA)], budget=(60, 600), bounds="a, b arbitrary; single rotations on up to 4x5 matrices with every start and count (ranges beyond the matrix included); sequences on up to 5x5 (thorough 7x8) forward and backward, left and right")
for _i, _d in (("L06", []), ("L07", ["-DLQ"]), ("L08", ["-DQL"]), ("L09", ["-DRQ"])):
    CHECKS[_i] = dict(units=[U(_i.lower(), "l06_qr.c", LA, _d)], budget=(90, 600), bounds="factorization of A = Q0*R (the analogous product for LQ, QL, RQ) with R symbolic (the sign of each diagonal element fixed, one zero diagonal element, thorough also elements around 2^-990) and Q0 a given product of rational reflectors, up to 7x5 (thorough 8x7), with and without the option for a non-negative diagonal, and of every 1x1 and 2x1 (thorough 3x1 and 2x2) matrix; multiplication and generation with arbitrary symbolic reflector scalars and operands, reflector vectors symbolic up to 4x3 and given integers up to 7x5 (thorough 10x7); block sizes 0, 2, 3")
CHECKS["L10"] = dict(units=[U("l10qr", "l06_qr.c", LA, ["-DSOLVE"]), U("l10lq", "l06_qr.c", LA, ["-DSOLVE", "-DLQ"])], budget=(90, 600), bounds="R (L) and right-hand sides symbolic with nonzero diagonal, given orthogonal Q (reflector vectors given integers, scalars exact or zero) up to 6x4 (thorough 8x5), 1 and 3 right-hand sides, block sizes 0, 2, 3, with and without an explicit workspace of the queried size")
for _i, _d in (("L11", "-DHESS"), ("L12", "-DBD"), ("L13", "-DTRD")):
    CHECKS[_i] = dict(units=[U(_i.lower(), "l11_red.c", LA, [_d])], budget=(120, 700), bounds="reduction of A = Q0*T*P0^T with the reduced form symbolic (signs of the off-diagonal elements fixed and magnitude above 1/2, or zero; for the Hessenberg form a quarter of the upper elements zero) and three given rational orthogonal factors (all, every second or no first reflector nontrivial), with and without ARMAS_ONONNEG, order up to 7 (thorough 8; bidiagonal 7x4, thorough 8x7); multiplication and generation with given reflector vectors and arbitrary reflector scalars for the same shapes; internal block sizes 0, 2, 3")
CHECKS["L16"] = dict(units=[U("l16", "l16_house.c", LA)], budget=(60, 600), bounds="generation: vectors r*(given integer vector of integer norm), order 2-6, r arbitrary of either sign, and arbitrary vectors of order 2-3 (thorough 4); application and products with arbitrary symbolic scalars, vectors and operands up to order 6 (products: given integer vectors, thorough order 8); hyperbolic: r*(given vector with square signature norm), r arbitrary")
CHECKS["L17"] = dict(units=[U("l17", "l17_misc.c", LA, ["-DDIAG"])], budget=(60, 600), bounds="matrices up to 5x5, vectors up to 6, diagonal given as column, strided row or square matrix")
CHECKS["L18"] = dict(units=[U("l18", "l17_misc.c", LA, ["-DSORT"])], budget=(90, 800), bounds="every vector of up to 4 elements (absolute sort and eigenvector sort 3-4, thorough 5); quick sort additionally lengths 8, 9, 11 (thorough 10) with two (thorough three) arbitrary adjacent elements at every position among given values with and without ties")
CHECKS["L19"] = dict(units=[U("l19", "l17_misc.c", LA, ["-DRBT"])], budget=(60, 600), bounds="order 2-10 (thorough 11), depth 1-3, two right-hand sides; two-sided update up to order 7 (thorough 9)")
CHECKS["L21"] = dict(units=[U("l21", "l17_misc.c", LA, ["-DQD"])], budget=(60, 600), bounds="every real a (nonzero), b, c; loop free")
CHECKS["M03"] = dict(units=[U("m03", "l17_misc.c", LA, ["-DPIV"])], budget=(60, 600), bounds="order up to 5 (thorough 6), six families of pivot vectors, shorter pivot vectors included")
SP = ("base", "blas", "sparse")
CHECKS["S01"] = dict(units=[U("s01", "s01_sparse.c", SP, ["-DCONV"])], budget=(60, 600), bounds="every pattern of 2x2, 2x3, 3x2, 1x5 and 5x1 (thorough up to 9 positions), ten pattern families of 4x4, 5x4 and 4x7, three insertion orders; at least one stored element, no duplicates; values arbitrary")
CHECKS["S02"] = dict(units=[U("s02", "s01_sparse.c", SP, ["-DMV"])], budget=(60, 600), bounds="every pattern of 2x2, 2x3, 3x2, ten pattern families of 4x4, 5x5, 5x4 and 4x6, contiguous vectors; symmetric products with either triangle stored alone or next to ignored elements of the other one")
CHECKS["S03"] = dict(units=[U("s03", "s01_sparse.c", SP, ["-DTRI"])], budget=(60, 600), bounds="every triangular pattern up to order 3 and ten families of order 4-5 (thorough 6), with and without stored diagonal (unit) and stored elements of the other triangle; contiguous vectors")
CHECKS["S04"] = dict(units=[U("s04", "s01_sparse.c", SP, ["-DARI"])], budget=(120, 700), bounds="every pair of patterns of operands up to 9 positions together and ten pattern families each of larger operands up to 5x4, all transpositions, CSR and CSC, with and without explicit result and workspace")
CHECKS["S05"] = dict(units=[U("s05", "s01_sparse.c", SP + ("lapack",), ["-DINC"])], budget=(90, 700), bounds="every pattern (full diagonal) up to order 3 (Cholesky 4) and ten families of order 4-5 (thorough 6); A given by an arbitrary factor of that pattern with nonzero (positive) diagonal")
KC = ("base", "blas", "compat")
CHECKS["K01"] = dict(units=[U("k01l1", "k01_compat.c", KC + ("lapack",), ["-DL1"]), U("k01l2", "k01_compat.c", KC, ["-DL2"]), U("k01l3", "k01_compat.c", KC, ["-DL3"])], budget=(120, 600), bounds="vectors up to 8 (thorough 11) elements with increments 1, 2, 3, -1, -2 in every combination; matrix-vector routines up to 5x5 (thorough 7x7) with positive increments; matrix-matrix routines up to order 5 (thorough 9), Fortran, CBLAS column major and row major, every flag; values arbitrary")
from bmc import B
import bmc
T200 = ((), ("-DNMAX=200",))
VIEWS = "armas_submatrix armas_submatrix_ext armas_submatrix_unsafe armas_row armas_column armas_row_unsafe armas_column_unsafe armas_diag armas_diag_unsafe armas_subvector armas_subvector_unsafe armas_get armas_set armas_get_unsafe armas_get_at armas_set_at armas_get_at_unsafe armas_set_at_unsafe armas_index_valid armas_size".split()
CHECKS["M01"] = dict(kind="bmc", run=bmc.check, replay=bmc.replay, technique="bounded model checking of the C source (CBMC, bit-precise SAT)",
  jobs=[B("init", "m01i.c", 2, tdefs=(("-DMAXD=300000",), ("-DMAXD=20000000",)), flags=["--sat-solver", "cadical"], limit=(200, 1200), functions=["armas_init"], bound="up to 300000 (thorough 20000000) rows and columns"), B("sub", "m01.c", 2, defs=["-DSUB"], functions=VIEWS, tdefs=T200), B("rowcol", "m01.c", 2, defs=["-DROWCOL"], tdefs=T200), B("diag", "m01.c", 2, defs=["-DDIAG"], tdefs=T200), B("vec", "m01.c", 2, defs=["-DVEC"], tdefs=T200), B("elem", "m01e.c", 66, functions=VIEWS, tdefs=((), ("-DN=6",)))],
  bounds="parents up to 60 (thorough 200) rows and columns and stride up to 120 (thorough 400) for the views (address arithmetic, no loops); element access on up to 4x4 (thorough 6x6) matrices inside a buffer")
def _c01(name, cm, ways, mx, fixed=0): return B(name, "c01.c", 2, defs=["-DCM=%d" % cm, "-DWAYS=%d" % ways, "-DMAXB=%d" % mx, "-DFIXED=%d" % fixed, "-DL1LO=256", "-DL1HI=65536"] + (["-DFIXED1"] if fixed else []), flags=["--sat-solver", "cadical"], limit=(500, 1500), functions=["armas_cbuf_split2", "armas_cbuf_split3", "armas_cache_setup2", "armas_cache_setup3", "armas_cache_setup"], bound="cache memory %d bytes, block sizes 1..%d, L1 size 0 or 256..65536" % (cm, mx))
CHECKS["C01"] = dict(kind="bmc", run=bmc.check, replay=bmc.replay,
  jobs=[_c01("two", 4096, 2, 16), _c01("three", 4096, 3, 16), _c01("two_any", 4096, 2, 1000000), _c01("three_any", 4096, 3, 1000000), _c01("two_256k", 262144, 2, 1000000), _c01("three_256k", 262144, 3, 1000000), _c01("fixed2", 8192, 2, 4096, 1), _c01("fixed3", 8192, 3, 4096, 1)],
  bounds="cache memory sizes 4096 (the minimum), 8192 and 262144 (the default) bytes, items of 8 bytes, block sizes 1..1000000 (fixed block sizes 1..4096), L1 sizes 0 and 256..65536; loop free")
def _c02(name, kind, n, pre, unw): return B(name, "c02.c", unw, defs=["-D" + kind] + (['-DPRE="%s"' % pre] if pre else []), tdefs=(("-DLEN=%d" % n[0],), ("-DLEN=%d" % n[1],)), loops={"strncpy.0": 257, "strcmp.0": 20}, limit=(400, 1500), functions=["armas_read_environment", "armas_getenv"], bound="prefix '%s' followed by any %d (thorough %d) characters" % (pre, n[0], n[1]))
CHECKS["C02"] = dict(kind="bmc", run=bmc.check, replay=bmc.replay,
  jobs=[_c02("cfg0", "CFG", (4, 5), "", (9, 10)), _c02("cfg1", "CFG", (3, 4), "64,32,", (12, 13)), _c02("cfg4", "CFG", (3, 4), "6,3,8,6,", (14, 15)), _c02("cfg5", "CFG", (3, 3), "1,1,1,1,2,", (16, 16)), _c02("cfg6", "CFG", (3, 3), "1,1,1,1,2,2,", (18, 18)), _c02("cache0", "CACHE", (4, 5), "", (9, 10)), _c02("cache1", "CACHE", (3, 4), "8192,", (12, 13)), _c02("cacheneg", "CACHE", (3, 4), "-", (9, 10))],
  bounds="every string of up to 4 (thorough 5) characters and every continuation by 3-4 characters of five given prefixes, so that every field is reached; ARMAS_CONFIG and ARMAS_CACHE", assume=["strsep, strtoul and atoi are models in the harness (the numbers within the bounds cannot overflow)"])
def _t02(name, *defs): return B(name, "t02.c", 3, defs=list(defs), flags=["--sat-solver", "cadical"], limit=(300, 1500), functions=["worker_tiles"] if "-DK_TILES" in defs else ["armas_ac_block_index"], bound=" ".join(defs))
CHECKS["T02"] = dict(kind="bmc", run=bmc.check, replay=bmc.replay,
  jobs=[_t02("any16", "-DK_AC", "-DMAXBLK=16"), _t02("tiles", "-DK_TILES", "-DMAXTOT=40000")] + [_t02("n%d" % n, "-DK_AC", "-DMAXBLK=%d" % n, "-DNBLK=%d" % n) for n in (24, 32, 48, 64, 96, 128)],
  bounds="every size 0..2^31-1 split to 1..16, 24, 32, 48, 64, 96 and 128 blocks; tile counts for sizes and tile lengths 1..40000; loop free")
_QP = {"src/workers/queue.h": [(r"void \*\*", "long *"), (r"void \*", "long ")]}
def _w01(name, prod, cons, per, qlen, mode, put, take, uw, lim=(600, 1200), **kw):
    return B(name, "w01.c", max(per, prod*per//cons, prod, cons, 2) + 1, conc=True, prep=_QP, defs=["-DQUEUE", "-D" + mode, "-DBC=1", "-DPUT=PUT_" + put, "-DTAKE=TAKE_" + take, "-DPROD=%d" % prod, "-DCONS=%d" % cons, "-DPER=%d" % per, "-DQLEN=%d" % qlen, "-DNT=%d" % (1 + prod + cons)],
             loops={"taskq_%s.0" % x: uw for x in (put, take)}, functions=["taskq_init", "taskq_append", "taskq_remove", "taskq_enqueue_nowait", "taskq_dequeue_nowait"] + (["taskq_enqueue", "taskq_dequeue"] if put == "enqueue" else ["taskq_read", "taskq_write", "taskq_wait_onempty", "taskq_wait_onfull"]), limit=lim,
             bound="%d producers of %d tasks, %d consumers, queue of %d, wait loops up to %d rounds" % (prod, per, cons, qlen, uw), **kw)
CHECKS["W01"] = dict(kind="bmc", run=bmc.check, replay=bmc.replay,
  jobs=[_w01("live1121", 1, 1, 2, 1, "LIVE", "enqueue", "dequeue", 2), _w01("live2111", 2, 1, 1, 1, "LIVE", "enqueue", "dequeue", 2), _w01("live1222", 1, 2, 2, 2, "LIVE", "enqueue", "dequeue", 2), _w01("safe1121", 1, 1, 2, 1, "SAFE", "enqueue", "dequeue", 3),
        _w01("safe2111", 2, 1, 1, 1, "SAFE", "enqueue", "dequeue", 2), _w01("rw1121", 1, 1, 2, 1, "SAFE", "write", "read", 1), _w01("rw1132", 1, 1, 3, 2, "SAFE", "write", "read", 1), _w01("rw2211", 2, 2, 1, 1, "SAFE", "write", "read", 1), _w01("rw1222", 1, 2, 2, 2, "SAFE", "write", "read", 1)],
  bounds="1-2 producers, 1-2 consumers, 2-3 tasks in all, queue capacity 1-2, every interleaving of lock events and shared accesses (sequential consistency); blocking put/take wait at most 2 (with spurious wakeups 3) rounds, polling put/take retried at most once",
  assume=["mutex and condition variable models of engine/thr.h; wakeups go to all waiters (the broadcast mode every caller uses)", "task pointers are encoded as integers (CBMC cannot order assignments of shared pointers), nothing else in queue.h is changed"])
def _w02(n, mode): return B("%s%d" % (mode.lower(), n), "w01.c", n + 1, conc=True, defs=["-DCOUNTER", "-D" + mode, "-DTASKS=%d" % n, "-DNT=%d" % (n + 1)], functions=["armas_counter_init", "armas_counter_decrement", "armas_counter_wait"], limit=(600, 1200), bound="%d tasks" % n)
CHECKS["W02"] = dict(kind="bmc", run=bmc.check, replay=bmc.replay, jobs=[_w02(n, m) for n in (1, 2, 3) for m in ("SAFE", "LIVE")],
  bounds="1-3 tasks and one waiter, every interleaving of lock events and shared accesses; SAFE: waits may end spuriously (up to tasks+1 rounds), LIVE: waits end only by a signal and a state where no thread can go on is a violation",
  assume=["mutex and condition variable models of engine/thr.h"])
CHECKS["T01"] = dict(units=[U("t01", "t01_accel.c", ("base", "blas", "threaded", "workers"))], budget=(100, 600),
  bounds="operands up to 13x17 (thorough 21x18), inner dimension up to 5, triangles up to 9 (solves 6; thorough the same), 1-4 (thorough 6) threads or tasks, block and tile partitions, two internal blocking configurations, every flag; threads run to completion at creation, or at join in creation or reverse order; worker tasks in order or in reverse order; the schedulers of src/workers are replaced by one of the harness (the task queue and completion counter have their own checks W01, W02)",
  assume=["threads are executed one after another in three orders; that they share no written element follows from the results being right in all of them"])
_SQ = "A.rows==A.cols"; _L = "ARMAS_LEFT"; _RT = "(flags&ARMAS_RIGHT)"; _TR = "(flags&ARMAS_TRANS)"; _VV = "VEC(&A)&&VEC(&B)"
_AA = "(flags&ARMAS_TRANSA)"; _TB = "(flags&ARMAS_TRANSB)"
_OPC = "(%s?A.cols:A.rows)==C.rows&&(%s?B.rows:B.cols)==C.cols&&(%s?A.rows:A.cols)==(%s?B.cols:B.rows)" % (_AA, _TB, _AA, _TB)
def _qm(ord_, tau): return "(%s?C.cols:C.rows)==%s&&LEN(&B)==%s" % (_RT, ord_, tau)
M02CUT = ["armas_d_%s_unsafe" % x for x in ("get", "set", "get_at", "set_at")] + ["gemv_unb_abs", "gemv_unb", "gemv_recursive", "update4axpy", "update1axpy", "update_ger_unb", "update_ger_recursive", "vec_dot", "vec_dot_recursive"]
M02TAB = [  # routine, source, call, operands conform, flags
  ("mult", "blas/gemm.c", "armas_mult(be,&C,al,&A,&B,flags,c)", _OPC, "ARMAS_TRANSA|ARMAS_TRANSB"),
  ("mult_sym", "blas/symm.c", "armas_mult_sym(be,&C,al,&A,&B,flags,c)", _SQ + "&&(%s?C.cols:C.rows)==A.rows&&(%s?(%s?B.rows:B.cols)==A.rows&&(%s?B.cols:B.rows)==C.rows:(%s?B.cols:B.rows)==A.rows&&(%s?B.rows:B.cols)==C.cols)" % (_RT, _RT, _TB, _TB, _TB, _TB), "ARMAS_RIGHT|ARMAS_TRANSB|ARMAS_LOWER"),
  ("mult_trm", "blas/trmm.c", "armas_mult_trm(&B,al,&A,flags,c)", _SQ + "&&A.rows==(%s?B.cols:B.rows)" % _RT, "ARMAS_RIGHT|ARMAS_TRANSA|ARMAS_LOWER|ARMAS_UNIT"),
  ("solve_trm", "blas/trsm.c", "armas_solve_trm(&B,al,&A,flags,c)", _SQ + "&&A.rows==(%s?B.cols:B.rows)" % _RT, "ARMAS_RIGHT|ARMAS_TRANSA|ARMAS_LOWER|ARMAS_UNIT"),
  ("update_sym", "blas/syrk.c", "armas_update_sym(be,&C,al,&A,flags,c)", "C.rows==C.cols&&C.rows==(%s?A.cols:A.rows)" % _TR, "ARMAS_TRANS|ARMAS_LOWER"),
  ("update2_sym", "blas/syr2k.c", "armas_update2_sym(be,&C,al,&A,&B,flags,c)", "C.rows==C.cols&&C.rows==(%s?A.cols:A.rows)&&A.rows==B.rows&&A.cols==B.cols" % _TR, "ARMAS_TRANS|ARMAS_LOWER"),
  ("update_trm", "blas/updtrmm.c", "armas_update_trm(be,&C,al,&A,&B,flags,c)", _OPC, "ARMAS_TRANSA|ARMAS_TRANSB|ARMAS_LOWER"),
  ("mvmult", "blas/gemv.c", "armas_mvmult(be,&C,al,&A,&B,flags,c)", "VEC(&C)&&VEC(&B)&&LEN(&C)==(%s?A.cols:A.rows)&&LEN(&B)==(%s?A.rows:A.cols)" % (_TR, _TR), "ARMAS_TRANS"),
  ("mvupdate", "blas/ger.c", "armas_mvupdate(be,&C,al,&A,&B,c)", _VV + "&&LEN(&A)==C.rows&&LEN(&B)==C.cols", "0"),
  ("mvmult_sym", "blas/symv.c", "armas_mvmult_sym(be,&C,al,&A,&B,flags,c)", "VEC(&C)&&VEC(&B)&&%s&&LEN(&C)==A.rows&&LEN(&B)==A.rows" % _SQ, "ARMAS_LOWER"),
  ("mvupdate2_sym", "blas/syr2.c", "armas_mvupdate2_sym(be,&C,al,&A,&B,flags,c)", _VV + "&&C.rows==C.cols&&LEN(&A)==C.rows&&LEN(&B)==C.rows", "ARMAS_LOWER"),
  ("mvmult_trm", "blas/trmv.c", "armas_mvmult_trm(&B,al,&A,flags,c)", "VEC(&B)&&%s&&LEN(&B)==A.rows" % _SQ, "ARMAS_LOWER|ARMAS_UPPER|ARMAS_TRANS"),
  ("mvsolve_trm", "blas/trsv.c", "armas_mvsolve_trm(&B,al,&A,flags,c)", "VEC(&B)&&%s&&LEN(&B)==A.rows" % _SQ, "ARMAS_LOWER|ARMAS_UPPER|ARMAS_TRANS"),
  ("mvupdate_trm", "blas/updtrmv.c", "armas_mvupdate_trm(be,&C,al,&A,&B,flags,c)", _VV + "&&LEN(&A)==C.rows&&LEN(&B)==C.cols", "ARMAS_LOWER"),
  ("axpby", "blas/axpy.c", "armas_axpby(be,&A,al,&B,c)", _VV + "&&LEN(&A)==LEN(&B)", "0"),
  ("axpy", "blas/axpy.c", "armas_axpy(&A,al,&B,c)", _VV + "&&LEN(&A)==LEN(&B)", "0"),
  ("adot", "blas/dot.c", "armas_adot(&res,al,&A,&B,c)", _VV + "&&LEN(&A)==LEN(&B)", "0"),
  ("swap", "blas/swap.c", "armas_swap(&A,&B,c)", _VV + "&&LEN(&A)==LEN(&B)", "0"),
  ("copy", "blas/mcopy.c", "armas_copy(&A,&B,c)", _VV, "0"),
  ("mcopy", "blas/mcopy.c", "armas_mcopy(&A,&B,flags,c)", "(%s&&LEN(&A)==LEN(&B))||(%s?A.rows==B.cols&&A.cols==B.rows:A.rows==B.rows&&A.cols==B.cols)" % (_VV, _TR), "ARMAS_TRANS"),
  ("mplus", "blas/mplus.c blas/axpy.c", "armas_mplus(be,&A,al,&B,flags,c)", "LEN(&B)==1||(%s&&LEN(&A)==LEN(&B))||(%s?A.rows==B.cols&&A.cols==B.rows:A.rows==B.rows&&A.cols==B.cols)" % (_VV, _TR), "ARMAS_TRANS|ARMAS_LOWER|ARMAS_UPPER"),
  ("scale", "blas/mscale.c", "armas_scale(&A,al,c)", "al==1||VEC(&A)", "0"),
  ("mult_diag", "lapack/diag.c", "armas_mult_diag(&A,al,&B,flags,c)", "(VEC(&A)&&LEN(&A)==(VEC(&B)?LEN(&B):IMIN(B.rows,B.cols)))||(!VEC(&A)&&(%s?A.cols:A.rows)==(VEC(&B)?LEN(&B):IMIN(B.rows,B.cols)))" % _RT, "ARMAS_RIGHT"),
  ("solve_diag", "lapack/diag.c", "armas_solve_diag(&A,al,&B,flags,c)", "(VEC(&A)&&LEN(&A)==(VEC(&B)?LEN(&B):IMIN(B.rows,B.cols)))||(!VEC(&A)&&(%s?A.cols:A.rows)==(VEC(&B)?LEN(&B):IMIN(B.rows,B.cols)))" % _RT, "ARMAS_RIGHT"),
  ("lusolve", "lapack/lu.c", "armas_lusolve(&B,&A,ARMAS_NOPIVOT,flags,c)", _SQ + "&&B.rows==A.rows", "ARMAS_TRANS"),
  ("cholfactor", "lapack/chol.c", "armas_cholfactor(&A,ARMAS_NOPIVOT,flags,c)", _SQ, "ARMAS_LOWER|ARMAS_UPPER"),
  ("cholsolve", "lapack/chol.c", "armas_cholsolve(&B,&A,ARMAS_NOPIVOT,flags,c)", _SQ + "&&B.rows==A.rows", "ARMAS_LOWER|ARMAS_UPPER"),
  ("ldlfactor", "lapack/ldlpv.c", "armas_ldlfactor(&A,p,flags,c)", _SQ, "ARMAS_LOWER|ARMAS_UPPER"),
  ("ldlsolve", "lapack/ldlpv.c", "armas_ldlsolve(&B,&A,p,flags,c)", _SQ + "&&B.rows==A.rows&&P.npivots==A.rows", "ARMAS_LOWER|ARMAS_UPPER"),
  ("bkfactor", "lapack/ldlbk.c", "armas_bkfactor(&A,p,flags,c)", _SQ + "&&P.npivots==A.rows", "ARMAS_LOWER|ARMAS_UPPER"),
  ("bksolve", "lapack/ldlbk.c", "armas_bksolve(&B,&A,p,flags,c)", "B.rows==A.cols", "ARMAS_LOWER|ARMAS_UPPER"),
  ("qrfactor", "lapack/qr.c", "armas_qrfactor(&A,&B,c)", "A.rows>=A.cols&&VEC(&B)&&LEN(&B)>=A.cols", "0"),
  ("lqfactor", "lapack/lq.c", "armas_lqfactor(&A,&B,c)", "A.rows<=A.cols&&VEC(&B)&&LEN(&B)>=A.rows", "0"),
  ("qlfactor", "lapack/ql.c", "armas_qlfactor(&A,&B,c)", "A.rows>=A.cols&&VEC(&B)&&LEN(&B)>=A.cols", "0"),
  ("rqfactor", "lapack/rq.c", "armas_rqfactor(&A,&B,c)", "A.rows<=A.cols&&VEC(&B)&&LEN(&B)>=A.rows", "0"),
  ("qrtfactor", "lapack/qrt.c", "armas_qrtfactor(&A,&B,c)", "A.rows>=A.cols&&B.cols>=A.cols", "0"),
  ("qrmult", "lapack/qrmult.c", "armas_qrmult(&C,&A,&B,flags,c)", _qm("A.rows", "A.cols"), "ARMAS_RIGHT|ARMAS_TRANS"),
  ("lqmult", "lapack/lqmult.c", "armas_lqmult(&C,&A,&B,flags,c)", _qm("A.cols", "A.rows"), "ARMAS_RIGHT|ARMAS_TRANS"),
  ("qlmult", "lapack/qlmult.c", "armas_qlmult(&C,&A,&B,flags,c)", _qm("A.rows", "A.cols"), "ARMAS_RIGHT|ARMAS_TRANS"),
  ("rqmult", "lapack/rqmult.c", "armas_rqmult(&C,&A,&B,flags,c)", _qm("A.cols", "A.rows"), "ARMAS_RIGHT|ARMAS_TRANS"),
  ("trdmult", "lapack/triredm.c lapack/qrmult.c lapack/qlmult.c", "armas_trdmult(&C,&A,&B,flags,c)", _SQ + "&&" + _qm("A.rows", "A.cols"), "ARMAS_RIGHT|ARMAS_TRANS|ARMAS_LOWER|ARMAS_UPPER"),
  ("qrsolve", "lapack/qrsolve.c lapack/qrmult.c", "armas_qrsolve(&C,&A,&B,flags,c)", "C.rows==A.rows", "ARMAS_TRANS"),
  ("lqsolve", "lapack/lqsolve.c lapack/lqmult.c", "armas_lqsolve(&C,&A,&B,flags,c)", "C.rows==A.cols", "ARMAS_TRANS"),
  ("hessreduce", "lapack/hess.c", "armas_hessreduce(&A,&B,c)", _SQ + "&&VEC(&B)&&LEN(&B)==A.rows-1", "0"),
  ("trdreduce", "lapack/trired.c", "armas_trdreduce(&A,&B,flags,c)", _SQ + "&&VEC(&B)&&LEN(&B)==A.cols", "ARMAS_LOWER|ARMAS_UPPER"),
  ("trdbuild", "lapack/tribld.c lapack/qrbld.c lapack/qlbld.c", "armas_trdbuild(&A,&B,k,flags,c)", _SQ + "&&LEN(&B)==A.cols", "ARMAS_LOWER|ARMAS_UPPER"),
  ("luinverse", "lapack/inv.c", "armas_luinverse(&A,p,c)", _SQ + "&&P.npivots==A.rows", "0"),
  ("cholinverse", "lapack/invspd.c", "armas_cholinverse(&A,flags,c)", _SQ, "ARMAS_LOWER|ARMAS_UPPER"),
  ("ldlinverse", "lapack/invldl.c", "armas_ldlinverse(&A,p,flags,c)", _SQ, "ARMAS_LOWER|ARMAS_UPPER"),
  ("inverse_trm", "lapack/invtrm.c", "armas_inverse_trm(&A,flags,c)", _SQ, "ARMAS_LOWER|ARMAS_UPPER|ARMAS_UNIT"),
  ("bdmult_q", "lapack/biredm.c lapack/qrmult.c lapack/lqmult.c", "armas_bdmult(&C,&A,&B,flags|ARMAS_MULTQ,c)", "IMIN(A.rows,A.cols)<2||IMIN(C.rows,C.cols)<2||B.cols!=1||B.rows<IMIN(A.rows,A.cols)||(%s?C.cols:C.rows)==A.rows" % _RT, "ARMAS_RIGHT|ARMAS_TRANS|ARMAS_LOWER"),
  ("bdmult_p", "lapack/biredm.c lapack/qrmult.c lapack/lqmult.c", "armas_bdmult(&C,&A,&B,flags|ARMAS_MULTP,c)", "IMIN(A.rows,A.cols)<2||IMIN(C.rows,C.cols)<2||B.cols!=1||B.rows<IMIN(A.rows,A.cols)||(%s?C.cols:C.rows)==A.cols" % _RT, "ARMAS_RIGHT|ARMAS_TRANS|ARMAS_LOWER"),
  ("hessmult", "lapack/hessm.c lapack/qrmult.c", "armas_hessmult(&C,&A,&B,flags,c)", "A.rows!=A.cols||A.rows<2||IMIN(C.rows,C.cols)<2||B.cols!=1||B.rows<A.rows-1||(%s?C.cols:C.rows)==A.rows" % _RT, "ARMAS_RIGHT|ARMAS_TRANS"),
  ("houseapply", "lapack/house.c", "armas_houseapply(&A,&D,&B,&C,flags,c)", "(VEC(&A)&&LEN(&B)==LEN(&A)-((flags&ARMAS_UNIT)?1:0))||(!VEC(&A)&&LEN(&B)==(%s?A.cols:A.rows)-((flags&ARMAS_UNIT)?1:0)&&LEN(&C)>=(%s?A.rows:A.cols))" % (_RT, _RT), "ARMAS_RIGHT|ARMAS_UNIT"),
]
CHECKS["M02"] = dict(kind="bmc", run=bmc.check, replay=bmc.replay,
  jobs=[B(n, "m02.c", 2, stub=src.split(), objbits=10, cut=M02CUT, limit=(300, 900), defs=["-DCALL=" + call, "-DOK=" + ok, "-DFLAGS=" + fl], functions=[call[:call.index("(")]], bound="operands of 1..1000 rows and columns that do not conform, flags any of " + fl) for n, src, call, ok, fl in M02TAB],
  bounds="operands of 1..1000 rows and columns, strides up to 2000, block sizes 1..200 (lb 0..100), scalars -2..2; the sizes are those for which the operands do not conform; operands have no element memory, so that any access to an element before the rejection is a violation; source file of the routine (other library functions must not be reached)")
def _i02(name, ntok, n, prek=0, pl=0): return B(name, "i02.c", (n[0] + pl + 8, n[1] + pl + 8), defs=["-DTOK", "-DNTOK=%d" % ntok] + (["-DPREK=%d" % prek] if prek else []), tdefs=(("-DLEN=%d" % n[0],), ("-DLEN=%d" % n[1],)), limit=(300, 1500), functions=["armas_json_read_token", "armas_ios_string", "armas_ios_wbuf"], bound="%d tokens" % ntok)
CHECKS["I02"] = dict(kind="bmc", run=bmc.check, replay=bmc.replay,
  jobs=[_i02("tok1", 1, (3, 5)), _i02("tok2", 2, (3, 4)), _i02("hex", 1, (3, 4), 1, 5), _i02("num", 1, (3, 4), 2, 4), _i02("exp", 1, (3, 4), 3, 2), _i02("fal", 1, (3, 4), 4, 4), _i02("arr", 3, (2, 3), 5, 3), _i02("esc", 1, (3, 4), 6, 4), _i02("nul", 1, (2, 3), 7, 3),
        B("str", "i02.c", (12, 14), defs=["-DSTR"], tdefs=(("-DLEN=3",), ("-DLEN=4",)), limit=(300, 1500), functions=["armas_json_write_token", "armas_json_read_token"])],
  bounds="every byte string of up to 3 (thorough 5) bytes, one and two tokens in sequence, and every continuation by 2-3 (thorough 3-4) bytes of seven given prefixes (inside an escape, a number, an exponent, literals, an array); token buffers of every size from 0 to two more than the text; string and memory streams; strings of up to 3 (thorough 4) bytes written and read back for every stream capacity. Well-formed text must give exactly its tokens; escapes above \\u00ff, unescaped control characters, leading zeros and a missing fraction digit are left open", assume=["character classes of the C locale; strtol on up to four hexadecimal digits is a model in the harness"])
def _i01(name, k, v, nd, nc, *defs, uw=None): return B(name, "i01.c", (max(k[0], 10) + 2, max(k[1], 10) + 2), defs=list(defs) + ["-DVMAX=%d" % v], tdefs=(("-DTKMAX=%d" % k[0],), ("-DTKMAX=%d" % k[1],)), loops={"i01_init.0": 17, "reference.0": 17, "bmc_main.0": 41, "bmc_main.1": 41, "bmc_main.2": 41, "bmc_main.3": 41, "bmc_main.4": 41, "i01_read.0": 7, "armas_json_read_data.0": nd, "armas_json_read_data.1": nd, "armas_json_read_coorddata.0": nc}, limit=(300, 1500), functions=["armas_json_read", "armas_json_read_data", "armas_json_read_coorddata", "armas_json_read_coord", "armas_json_write"], bound=" ".join(defs))
CHECKS["I01"] = dict(kind="bmc", run=bmc.check, replay=bmc.replay,
  jobs=[_i01("any", (8, 10), 1, 3, 2, "-DPARSE"), _i01("data", (21, 23), 2, 4, 2, "-DPARSE", "-DHEAD"), _i01("coord", (28, 30), 2, 3, 4, "-DPARSE", "-DHEAD", "-DCOORD")] + [_i01("round%d%d%d" % (a, b, f), (40, 40), 1, 5, 2, "-DROUND", "-DRM=%d" % a, "-DCMX=%d" % b, "-DFLG=%d" % f, "-DUSE=1") for a, b, f in ((0, 2, 0), (2, 0, 1), (1, 1, 1), (1, 3, 0), (3, 2, 0))] + [_i01("null", (8, 8), 1, 5, 2, "-DROUND", "-DRM=1", "-DCMX=1", "-DFLG=1", "-DUSE=2"), _i01("full", (28, 28), 1, 5, 2, "-DROUND", "-DRM=2", "-DCMX=2", "-DFLG=1", "-DUSE=0")],
  bounds="every sequence of up to 8 (thorough 10) tokens; every continuation by 9 (thorough 11) tokens of a well-formed object head with dimensions -1..2, and by 15 (thorough 17) tokens in coordinate form; written matrices of 1x1, 1x3, 3x2, 0x2, 2x0 with every stride up to 4 read back; token sinks of every capacity for the writer. A value list shorter than the matrix is left open", assume=["the token functions are replaced by token queues (what they do with bytes is I02); the text of a number is not modelled: a number written is handed to the reader as the same value", "the matrix allocation is a stub with its own guard (the real one is M01)"])
_I03F = {"D": ["armas_mmload", "armas_mmdump", "__mmread_banner", "__mmread_size"], "S": ["armassp_mmload", "armassp_mmdump", "armasio_mmread_banner", "armasio_mmread_size"]}
_CL = [(r"= \(struct mm_keys ?\[\]\) ?\{", "= {")]
def _i03(name, k, *defs, n=13, td=((), ())): return B(name, "i03.c", 100, flags=["--max-field-sensitivity-array-size", "600"], objbits=11, loops={"armas_d_mmload.0": n, "__mmread_size.0": n, "armassp_d_mmload.0": n, "armassp_mmload.0": n, "armasio_mmread_size.0": n, **{"armassp_d_mmdump.%d" % i: 5 for i in range(5)}}, prep={"src/io/iomm.c": _CL} if k == "D" else {"src/sparse/io.c": _CL}, defs=(["-DDENSE"] if k == "D" else []) + ["-D" + d for d in defs], tdefs=td, limit=(300, 1500), functions=_I03F[k], bound=" ".join(defs))
def _NL(a, b): return (("-DNLINES=%d" % a, "-DNL=%d" % (a + 1)), ("-DNLINES=%d" % b, "-DNL=%d" % (b + 1)))
CHECKS["I03"] = dict(kind="bmc", run=bmc.check, replay=bmc.replay,
  jobs=[_i03("d_round%d%d%d%d" % q, "D", "ROUND", "RM=%d" % q[0], "CMX=%d" % q[1], "SYM=%d" % q[2], "CUT=%d" % q[3]) for q in ((1, 1, 0, 1), (2, 3, 0, 0), (3, 2, 0, 1), (3, 3, 1, 0), (2, 2, 1, 1))]
     + [_i03("d_" + n, "D", "SYM=%d" % sym, "COO=%d" % coo, "HEADK=%d" % (h and (2 if coo else 1)), "HR=%d" % (h // 100), "HC=%d" % (h // 10 % 10), "HN=%d" % (h % 10), n=5 + max(a, b), td=_NL(a, b)) for n, sym, coo, h, a, b in (("size", 0, 0, 0, 2, 3), ("arr", 0, 0, 220, 5, 6), ("sym", 1, 0, 220, 4, 5), ("coo", 0, 1, 222, 3, 4), ("coo1", 0, 1, 0, 2, 3))]
     + [_i03("s_round%d%d%d" % (kd, s, c), "S", "ROUND", "KIND=%d" % kd, "RM=2", "CMX=3", "SYM=%d" % s, "CUT=%d" % c, td=(("-DNZ=%d" % z,), ("-DNZ=3",))) for kd, s, c, z in ((0, 0, 0, 1), (1, 1, 0, 2), (2, 0, 1, 2))]
     + [_i03("s_" + n, "S", "SYM=0", "HEADK=%d" % (h and 2), "HR=%d" % (h // 100), "HC=%d" % (h // 10 % 10), "HN=%d" % (h % 10), n=5 + max(a, b), td=_NL(a, b)) for n, h, a, b in (("size", 0, 2, 3), ("coo", 232, 3, 4))],
  bounds="dense matrices of 1x1, 2x3, 3x2 and lower-stored symmetric 2x2, 3x3 with every stride up to one more than the rows, sparse 2x3 matrices with 2 (thorough 3) elements anywhere in COO, CSR, CSC, written and read back, whole and cut after any field; every file of up to 2 (thorough 3) lines behind a banner, and every continuation of a 2x2 (dense, symmetric) or 2x3 (sparse) size line by up to 3-5 (thorough 4-6) lines, each a comment or up to four fields that are integers -1..3, values or junk. Left open: banners other than those the writer produces and the four standard ones, blank lines, excess fields, a number with a fraction where an integer is due, empty matrices, coordinates outside a dense matrix", assume=["the C library's streams, sscanf and getline are models over lines of fields: how digits become numbers is not encoded, a number written is handed to the reader as the same value", "the matrix allocation and the append of a sparse element are stubs with guards (the real ones are M01, S01)", "for encoding, the union of value and element pointer in armas_sparse_t is a struct"])
BMCNOTE = "Decided bit-precisely over every value within these bounds by CBMC on the C source of /repo; counterexamples are reported only when they fail in a native gcc (ASan/UBSan or plain) run of the same harness."
for _c in CHECKS.values():
    if _c.get("kind") == "bmc": _c.setdefault("note", BMCNOTE); _c.setdefault("technique", "bounded model checking of the C source (CBMC, bit-precise SAT)")
NA = {
"L23": "the implicit QR iteration for bidiagonal singular values stops on a convergence test whose number of sweeps depends on irrational shifts: the path of a symbolic matrix is unbounded and every step adds a nested square root, so neither the exact-arithmetic engine (nested radicals of growing degree) nor bit-precise floating point (divisions and square roots in a loop) reaches a verdict for any size above the trivial one",
"L24": "same as L23 for the tridiagonal QL/QR and bisection eigenvalue iterations: convergence depends on irrational data and has no bound that a solver could be given",
"E02": "the extended-precision routines rest on rounding errors of individual additions and multiplications (two-sum, two-product by FMA intrinsics); showing them for every double means bit-precise floating-point addition, multiplication and FMA over 64-bit operands in sequence, on which the SAT/SMT back ends here do not terminate; over exact arithmetic the property is empty (every correction term is zero). What exact arithmetic can decide of them is E01",
"S06": "the Krylov solvers iterate until a residual norm is small; over exact arithmetic with symbolic systems the iterates are rational functions whose degree doubles each step and the stopping test compares norms (radicals); no bound on the number of iterations makes the property (converged solutions solve the system) decidable above order one"}
