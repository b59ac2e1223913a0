#!/usr/bin/env python3
"""C16: the Python bindings denote the same objects and values as the library, and keep their memory valid.

usage: c16_py.py SEED K TIER OUT   (libraries built with ASan+UBSan on LD_LIBRARY_PATH, real bindings on PYTHONPATH)
"""
import ctypes, gc, json, math, random, sys, traceback

SEED, K, TIER, OUT = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3], sys.argv[4]
_real_cdll = ctypes.CDLL


class _NoGL:
    """The viewer is not part of this property: its library is neither built nor loaded."""
    class F:
        pass

    def __getattr__(self, name):
        f = _NoGL.F()
        setattr(self, name, f)
        return f


ctypes.CDLL = lambda name, *a, **k: _NoGL() if name == "libamino-gl.so" else _real_cdll(name, *a, **k)
import amino  # noqa: E402
from amino import *  # noqa: E402,F403
from amino import DVec, DMat, Vec3, Quat, AxAng, RotMat, TfMat, DualQuat, QuatTrans, XAngle, YAngle, ZAngle, EulerZYX, EulerRPY, TfVel, Twist, GeomOpt, Geom, SceneGraph, SceneFK, SceneDK, SceneIK, SceneCollision, SceneCollisionSet, MotionPlan  # noqa: E402

ctypes.CDLL = _real_cdll
_san = _real_cdll(None)
try:
    heap_bytes = _san.__sanitizer_get_current_allocated_bytes
    heap_bytes.restype = ctypes.c_size_t
except AttributeError:
    heap_bytes = None

_ik_seed = amino.lib.libamino.aa_rx_ik_get_seed
_ik_seed.restype, _ik_seed.argtypes = ctypes.POINTER(DVec), [ctypes.c_void_p]


class Mon:
    def __init__(self):
        self.cases = self.events = 0
        self.distinct, self.samples, self.counters, self.viol, self.keys = set(), [], {}, [], set()
        self.case = ""

    def bad(self, key, msg):
        if key not in self.keys:
            self.keys.add(key)
            self.viol.append(dict(key=key, msg="%s: %s" % (self.case, msg)))

    def check(self, key, cond, msg=""):
        self.events += 1
        if not cond:
            self.bad(key, msg)

    def close(self, key, got, want, tol=1e-9):
        self.events += 1
        got, want = list(got), list(want)
        if len(got) != len(want):
            self.bad(key, "%d elements, expected %d" % (len(got), len(want)))
            return
        for i, (a, b) in enumerate(zip(got, want)):
            if not abs(a - b) <= tol * (1 + abs(b)):
                self.bad(key, "element %d is %r, expected %r" % (i, a, b))
                return

    def raises(self, key, exc, f):
        self.events += 1
        try:
            f()
        except exc:
            return
        except Exception as e:  # noqa: BLE001
            self.bad(key, "raised %s instead of %s" % (type(e).__name__, exc))
            return
        self.bad(key, "did not raise")

    def count(self, k, n=1):
        self.counters[k] = self.counters.get(k, 0) + n


M = Mon()


# ---------------------------------------------------------------- reference
def qmul(a, b):
    ax, ay, az, aw = a; bx, by, bz, bw = b
    return (aw * bx + ax * bw + ay * bz - az * by, aw * by - ax * bz + ay * bw + az * bx,
            aw * bz + ax * by - ay * bx + az * bw, aw * bw - ax * bx - ay * by - az * bz)


def qconj(a): return (-a[0], -a[1], -a[2], a[3])


def cross(a, b): return (a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])


def qrot(q, v):
    t = cross(q[:3], v); t = tuple(2 * x for x in t); u = cross(q[:3], t)
    return tuple(v[i] + q[3] * t[i] + u[i] for i in range(3))


def qaa(ax, th):
    n = math.sqrt(sum(x * x for x in ax)); s = math.sin(th / 2) / n
    return (ax[0] * s, ax[1] * s, ax[2] * s, math.cos(th / 2))


def emul(a, b): return qmul(a[0], b[0]), tuple(x + y for x, y in zip(qrot(a[0], b[1]), a[1]))


def einv(a): q = qconj(a[0]); return q, tuple(-x for x in qrot(q, a[1]))


def epnt(a, p): return tuple(x + y for x, y in zip(qrot(a[0], p), a[1]))


IDE = ((0.0, 0.0, 0.0, 1.0), (0.0, 0.0, 0.0))


def rvec(r, n, s=2.0): return [r.uniform(-s, s) for _ in range(n)]


def rang(r):
    return r.choice([r.uniform(-math.pi, math.pi), r.uniform(-1, 1), 0.0, math.pi / 2, -math.pi / 2, math.pi - 1e-3, 1e-9, 1e-4, 3.0])


def rquat(r):
    while True:
        a = rvec(r, 3, 1.0)
        if sum(x * x for x in a) > 1e-3:
            return qaa(a, rang(r))


def rtf(r): return rquat(r), tuple(rvec(r, 3, 1.5))


def mul(A, B): return [[sum(A[i][k] * B[k][j] for k in range(len(B))) for j in range(len(B[0]))] for i in range(len(A))]


def tr(A): return [list(x) for x in zip(*A)]


def rows(Mx): return [[Mx[i, j] for j in range(Mx.cols)] for i in range(Mx.rows)]


def flat(A): return [x for row in A for x in row]


def same_rot(key, rot, q, r, tol=1e-7):
    for _ in range(2):
        p = rvec(r, 3)
        M.close(key, rot.rotate(p), qrot(q, p), tol)


def pick_seq(r, v):
    """The same numbers as another kind of sequence."""
    c = r.randrange(3)
    return list(v) if c == 0 else tuple(v) if c == 1 else DVec(list(v))


# ---------------------------------------------------------------- vectors
def c_vec(r):
    n = r.choice([1, 2, 3, 4, 5, 7, 12, 40]); a, b = rvec(r, n), rvec(r, n); s = r.choice([r.uniform(-3, 3), 2, -1, 0.5])
    M.distinct.add(("vec", n, type(s).__name__))
    x, y = DVec(a), DVec(pick_seq(r, b))
    cx = DVec(x)
    M.close("vec-construct", x, a); M.close("vec-construct-seq", y, b); M.check("vec-len", len(x) == n)
    M.close("vec-zero-new", DVec(n).set(0), [0] * n)
    M.close("vec-add", x + y, [p + q for p, q in zip(a, b)]); M.close("vec-add-list", x + b, [p + q for p, q in zip(a, b)]); M.close("vec-radd-list", b + x, [p + q for p, q in zip(a, b)])
    M.close("vec-add-scalar", x + s, [p + s for p in a]); M.close("vec-radd-scalar", s + x, [p + s for p in a])
    M.close("vec-sub", x - y, [p - q for p, q in zip(a, b)]); M.close("vec-sub-list", x - b, [p - q for p, q in zip(a, b)]); M.close("vec-rsub-list", b - x, [q - p for p, q in zip(a, b)])
    M.close("vec-sub-scalar", x - s, [p - s for p in a]); M.close("vec-rsub-scalar", s - x, [s - p for p in a])
    M.close("vec-mul", x * s, [p * s for p in a]); M.close("vec-rmul", s * x, [p * s for p in a]); M.close("vec-neg", -x, [-p for p in a]); M.close("vec-div", x / s, [p / s for p in a])
    M.close("vec-nrm2", [x.nrm2()], [math.sqrt(sum(p * p for p in a))]); M.close("vec-ssd", [x.ssd(y), x.ssd(b)], [sum((p - q) ** 2 for p, q in zip(a, b))] * 2)
    M.check("vec-eq", x == DVec(a) and not (x != a) and x == a, "a vector differs from its own contents"); M.check("vec-ne", a == b or (x != y and not x == y), "different vectors compare equal")
    M.close("vec-operands", list(x) + list(y), a + b); M.check("vec-copy-eq", cx == x)
    z = DVec(a); z += y; M.close("vec-iadd", z, [p + q for p, q in zip(a, b)]); z -= y; z *= s; M.close("vec-imul", z, [p * s for p in a]); z /= s; M.close("vec-idiv", z, a); z += s; M.close("vec-iadd-scalar", z, [p + s for p in a])
    M.close("vec-axpy", DVec(a).axpy(s, y), [p + s * q for p, q in zip(a, b)]); M.close("vec-increment", DVec(a).increment(s), [p + s for p in a]); M.close("vec-set", DVec(a).set(s), [s] * n); M.close("vec-zero", DVec(a).zero(), [0] * n)
    l = [0.0] * n; x.copy_to(l); M.close("vec-copy-to", l, a); d = DVec(n); x.copy_to(d); M.close("vec-copy-to-vec", d, a); d.copy_from(b); M.close("vec-copy-from", d, b)
    for e in (-1, n, n + 3, -n - 1):
        M.raises("vec-index-range", IndexError, lambda: x[e])
        M.raises("vec-setindex-range", IndexError, lambda: x.__setitem__(e, 0.0))
    M.raises("vec-copy-size", IndexError, lambda: DVec(n + 1).copy_from(a)); M.raises("vec-copyto-size", IndexError, lambda: x.copy_to([0.0] * (n + 1)))
    # slices are views
    for _ in range(4):
        i = r.choice([None, r.randrange(n + 1)]); j = r.choice([None, r.randrange(n + 1)]); st = r.choice([None, 1, 1, 2, 3])
        i0, j0 = 0 if i is None else i, n if j is None else j
        if i0 > j0: i, j, i0, j0 = j0, i0, j0, i0
        w = x[i:j:st]; want = a[i:j:st]
        M.close("vec-slice", w, want)
        if want:
            q = r.randrange(len(want)); old = w[q]; w[q] = 77.5; idx = i0 + q * (st or 1)
            M.check("vec-slice-view", x[idx] == 77.5 and sum(1 for v in x if v == 77.5) == 1, "writing slice element %d" % q); w[q] = old
            w2 = w[0:len(want):2]; M.close("vec-slice-slice", w2, want[::2]); M.close("vec-slice-arith", w + w, [2 * v for v in want]); M.close("vec-slice-copy", DVec(w), want)
            v = x[i:j:st]; u = rvec(r, len(want)); v += u; ref = list(a); 
            for t, uu in enumerate(u): ref[i0 + t * (st or 1)] += uu
            M.close("vec-slice-iadd", x, ref); v -= u; M.close("vec-slice-isub", x, a, 1e-12 + 1e-9); x.copy_from(a)
            v = x[i:j:st]; v *= 2; v /= 2; M.close("vec-slice-imul", x, a)
    t = DVec(rvec(r, n) + [1.25, 2.5])[n:n + 2]; gc.collect(); DVec([9.0] * (n + 2))
    M.close("vec-slice-of-temporary", t, [1.25, 2.5]); M.count("vector_cases")
    M.close("vec-str", eval(str(x), {"DVec": lambda l: l}), a, 1e-6 * 5)


# ---------------------------------------------------------------- matrices
def rmat(r, m, n): return [[r.uniform(-2, 2) for _ in range(n)] for _ in range(m)]


def mk(r, A):
    """A as a DMat, possibly as a block of a larger matrix."""
    if r.random() < 0.4:
        m, n = len(A), len(A[0]); i, j = r.randrange(3), r.randrange(3)
        B = DMat((m + i + r.randrange(1, 3), n + j + r.randrange(1, 3)))
        for p in range(B.rows):
            for q in range(B.cols): B[p, q] = 1e6
        V = B[i:i + m, j:j + n]
        for p in range(m):
            for q in range(n): V[p, q] = A[p][q]
        return V
    return DMat.row_matrix([pick_seq(r, row) for row in A]) if r.random() < 0.5 else DMat.col_matrix([pick_seq(r, c) for c in zip(*A)])


def c_mat(r):
    m, n, k = r.randrange(1, 6), r.randrange(1, 6), r.randrange(1, 6); A, B, C, D = rmat(r, m, n), rmat(r, m, n), rmat(r, n, k), rmat(r, m, k); s = r.choice([r.uniform(-3, 3), 3, -0.5])
    M.distinct.add(("mat", m, n, k))
    x, y, z = mk(r, A), mk(r, B), mk(r, C)
    M.check("mat-shape", (x.rows, x.cols, len(x)) == (m, n, m * n)); M.close("mat-construct", flat(rows(x)), flat(A))
    M.close("mat-copy", flat(rows(DMat(x))), flat(A)); M.close("mat-transpose", flat(rows(x.transpose())), flat(tr(A)))
    M.close("mat-add", flat(rows(x + y)), [p + q for p, q in zip(flat(A), flat(B))]); M.close("mat-sub", flat(rows(x - y)), [p - q for p, q in zip(flat(A), flat(B))])
    M.close("mat-adds", flat(rows(x + s)) + flat(rows(s + x)), [p + s for p in flat(A)] * 2); M.close("mat-subs", flat(rows(x - s)), [p - s for p in flat(A)]); M.close("mat-rsubs", flat(rows(s - x)), [s - p for p in flat(A)])
    M.close("mat-muls", flat(rows(x * s)) + flat(rows(s * x)), [p * s for p in flat(A)] * 2); M.close("mat-div", flat(rows(x / s)), [p / s for p in flat(A)]); M.close("mat-neg", flat(rows(-x)), [-p for p in flat(A)])
    M.close("mat-mul", flat(rows(x * z)), flat(mul(A, C))); v = rvec(r, n); w = flat(mul(A, [[q] for q in v])); M.close("mat-vec", x * DVec(v), w); M.close("mat-list", x * v, w)
    M.close("mat-nrm2", [x.nrm2()], [math.sqrt(sum(p * p for p in flat(A)))]); M.close("mat-ssd", [x.ssd(y)], [sum((p - q) ** 2 for p, q in zip(flat(A), flat(B)))]); M.check("mat-eq", x == mk(r, A) and not x == y and x != y)
    M.close("mat-operands", flat(rows(x)) + flat(rows(y)) + flat(rows(z)), flat(A) + flat(B) + flat(C))
    t = DMat(x); t += y; t -= s; t *= 2; t /= 4; M.close("mat-inplace", flat(rows(t)), [(p + q - s) / 2 for p, q in zip(flat(A), flat(B))]); t -= y; t += s
    # BLAS wrappers with transposes
    al, be = r.uniform(-2, 2), r.choice([0, 1, r.uniform(-2, 2)]); ta, tb = r.random() < 0.5, r.random() < 0.5
    xa = mk(r, tr(A) if ta else A); zb = mk(r, tr(C) if tb else C); d = mk(r, D); tf = lambda f: 112 if f else 111
    d.gemm(tf(ta), tf(tb), al, xa, zb, be); M.close("mat-gemm", flat(rows(d)), [al * p + be * q for p, q in zip(flat(mul(A, C)), flat(D))])
    u = rvec(r, m); uu = DVec(u); uu.gemv(tf(ta), al, xa, DVec(v), be); M.close("mat-gemv", uu, [al * p + be * q for p, q in zip(w, u)])
    for q in range(3):  # one size at a time disagrees
        e = [m, n, k, k]; e[r.choice([[0], [1], [2, 3]][q])] += 1; M.raises("mat-gemm-sizes", IndexError, lambda: DMat((m, n)).gemm(tf(ta), tf(tb), 1, DMat((e[2], e[0]) if ta else (e[0], e[2])), DMat((e[1], e[3]) if tb else (e[3], e[1])), 0))
    M.raises("mat-step", IndexError, lambda: x[0:m:2, 0:n]); M.raises("mat-step", IndexError, lambda: x[0:m, 0:n:2])
    M.raises("mat-gemm-size", IndexError, lambda: DMat((m + 1, k)).gemm(tf(ta), tf(tb), 1, xa, zb, 0)); M.raises("mat-gemv-size", IndexError, lambda: DVec(m + 1).gemv(tf(ta), 1, xa, DVec(v), 0)); M.raises("mat-gemv-size", IndexError, lambda: DVec(m).gemv(tf(ta), 1, xa, DVec(v + [1.0]), 0))
    # views
    i, j = r.randrange(m), r.randrange(n); M.close("mat-row", x.row_vec(i), A[i]); M.close("mat-col", x.col_vec(j), [q[j] for q in A]); M.close("mat-diag", x.diag_vec(), [A[q][q] for q in range(min(m, n))])
    x.row_vec(i)[j] = 5.5; M.check("mat-row-view", x[i, j] == 5.5); x.col_vec(j)[i] = 6.5; M.check("mat-col-view", x[i, j] == 6.5); x[i, j] = A[i][j]; M.close("mat-setitem", flat(rows(x)), flat(A))
    i0, i1 = sorted(r.sample(range(m + 1), 2)); j0, j1 = sorted(r.sample(range(n + 1), 2)); si = slice(i0 if i0 or r.random() < 0.5 else None, i1 if i1 < m or r.random() < 0.5 else None); sj = slice(j0 if j0 or r.random() < 0.5 else None, j1 if j1 < n or r.random() < 0.5 else None)
    bl = x[si, sj]; M.check("mat-block-shape", (bl.rows, bl.cols) == (i1 - i0, j1 - j0)); M.close("mat-block", flat(rows(bl)), flat([q[j0:j1] for q in A[i0:i1]])); bl *= 2; ref = [list(q) for q in A]
    for p in range(i0, i1):
        for q in range(j0, j1): ref[p][q] *= 2
    M.close("mat-block-view", flat(rows(x)), flat(ref)); M.close("mat-block-copy", flat(rows(DMat(bl))), flat([q[j0:j1] for q in ref[i0:i1]]))
    for e in ((-1, 0), (m, 0), (0, -1), (0, n)):
        M.raises("mat-index-range", IndexError, lambda: x[e]); M.raises("mat-setindex-range", IndexError, lambda: x.__setitem__(e, 1.0))
    M.raises("mat-row-range", IndexError, lambda: x.row_vec(m)); M.raises("mat-col-range", IndexError, lambda: x.col_vec(n)); M.raises("mat-copy-size", IndexError, lambda: DMat((m + 1, n)).copy_from(x))
    # views of temporaries
    vs = [DMat.row_matrix(A).row_vec(i), DMat.row_matrix(A).col_vec(j), DMat.row_matrix(A).diag_vec(), DMat.row_matrix(A).row_vec(i)[0:n], DMat.row_matrix(A)[i0:i1, j0:j1].row_vec(0)]; gc.collect(); [DMat((m, n)) for _ in range(3)]
    for q, want in zip(vs, (A[i], [p[j] for p in A], [A[p][p] for p in range(min(m, n))], A[i], A[i0][j0:j1])): M.close("mat-view-of-temporary", q, want)
    # inverses
    P = x.pinv(); x.copy_from(DMat.row_matrix(A)); P = x.pinv(); M.check("mat-pinv-shape", (P.rows, P.cols) == (n, m)); M.close("mat-pinv", flat(rows(x * P * x)), flat(A), 1e-6); M.close("mat-pinv2", flat(rows(P * x * P)), flat(rows(P)), 1e-5 * (1 + P.nrm2()))
    S = rmat(r, n, n)
    for q in range(n): S[q][q] += 9
    I = mk(r, S); J = I.inv(); M.close("mat-inv", flat(rows(I * J)), [1.0 if p == q else 0.0 for p in range(n) for q in range(n)], 1e-9); M.close("mat-inv-operand", flat(rows(I)), flat(S))
    txt = str(x); got = eval(txt[txt.index("("):]); M.close("mat-str", flat(got), flat(A), 5e-6); M.count("matrix_cases")


# ---------------------------------------------------------------- rotations and transforms
def c_rot(r):
    q1, q2 = rquat(r), rquat(r); p = rvec(r, 3); M.distinct.add(("rot", round(q1[3], 2)))
    a, b = Quat(q1), Quat(list(q2))
    M.close("quat-elts", a, q1); same_rot("quat-rotate", a, q1, r); same_rot("quat-mul", a * b, qmul(q1, q2), r); same_rot("quat-inv", ~a, qconj(q1), r); same_rot("quat-conj", a.conj(), qconj(q1), r)
    M.close("quat-mul-elts", a * b, qmul(q1, q2)); M.close("quat-mul-seq", a * list(q2), qmul(q1, q2)); M.close("quat-rmul-seq", list(q1) * b, qmul(q1, q2)); s = r.uniform(-2, 2)
    M.close("quat-scal", list(a * s) + list(s * a), [v * s for v in q1] * 2); M.close("quat-add", list(a + b) + list(a + q2) + list(list(q1) + b), [x + y for x, y in zip(q1, q2)] * 3); M.close("quat-sub", list(a - b) + list(q1 - b), [x - y for x, y in zip(q1, q2)] * 2)
    c = Quat(a); c += b; M.close("quat-iadd", c, [x + y for x, y in zip(q1, q2)]); c -= b; c *= s; M.close("quat-imul", c, [x * s for x in q1]); M.close("quat-const", list(a) + list(b), q1 + q2)
    if abs(s) > 1e-3:
        M.close("quat-nrm2", [c.nrm2()], [abs(s)]); M.close("quat-normalize", c.normalize(), [math.copysign(1, s) * x for x in q1]); M.close("quat-inv-scaled", Quat([s * x for x in q1]) * ~Quat([s * x for x in q1]), (0, 0, 0, 1))
    mq = Quat(q1).minimize(); M.check("quat-minimize", mq.w >= 0 and abs(abs(sum(x * y for x, y in zip(mq, q1))) - 1) < 1e-9)
    M.close("quat-parts", list(a.vector()) + [a.scalar()], q1); M.close("quat-ssd", [a.ssd(b)], [math.dist(q1, q2)]); M.check("quat-eq", a == Quat(q1) and (q1 == q2 or a != b)); M.close("quat-ident", list(Quat()) + list(Quat.identity()) + list(Quat(1)), (0, 0, 0, 1) * 3)
    v = rvec(r, 3, 1.4); e = Quat(Vec3(v)).exp(); th = math.sqrt(sum(x * x for x in v)); M.close("quat-exp", e, [x / th * math.sin(th) for x in v] + [math.cos(th)], 1e-8); M.close("quat-ln", e.ln(), v + [0], 1e-7)
    M.raises("quat-index", IndexError, lambda: a[4]); M.raises("quat-index", IndexError, lambda: a[-1]); M.raises("quat-size", IndexError, lambda: Quat([1, 2, 3]))
    # conversions between all representations
    R, A = RotMat(a), AxAng(a); same_rot("quat-to-rotmat", R, q1, r); same_rot("quat-to-axang", A, q1, r); same_rot("rotmat-to-quat", Quat(R), q1, r); same_rot("rotmat-to-axang", AxAng(R), q1, r); same_rot("axang-to-quat", Quat(A), q1, r); same_rot("axang-to-rotmat", RotMat(A), q1, r)
    same_rot("quat-copy", Quat(a), q1, r); same_rot("rotmat-copy", RotMat(R), q1, r); same_rot("axang-copy", AxAng(A), q1, r); same_rot("axang-inv", ~A, qconj(q1), r); same_rot("rotmat-inv", ~R, qconj(q1), r); same_rot("rotmat-mul", R * RotMat(b), qmul(q1, q2), r); same_rot("rotmat-mul-quat", R * b, qmul(q1, q2), r); same_rot("axang-const", A, q1, r)
    ez = a.to_eulerzyx(); same_rot("quat-to-euler", Quat(ez), q1, r, 1e-6); same_rot("euler-of-quat", RotMat(EulerZYX(a)), q1, r, 1e-6); same_rot("rpy-of-quat", Quat(EulerRPY(a)), q1, r, 1e-6)
    M.check("rotmat-isclose", R.isclose(a) and R.isclose(RotMat(A), 1e-6)); big = Quat(AxAng([1, 0, 0, 0.5])); M.check("rotmat-not-close", not R.isclose(a * big))
    x, y, z = rang(r), rang(r), rang(r); qx, qy, qz = qaa((1, 0, 0), x), qaa((0, 1, 0), y), qaa((0, 0, 1), z)
    for nm, T, q in (("x", XAngle(x), qx), ("y", YAngle(y), qy), ("z", ZAngle(z), qz)):
        for C in (Quat, RotMat, AxAng): same_rot("%sangle-to-%s" % (nm, C.__name__), C(T), q, r)
        for C in (EulerZYX, EulerRPY): same_rot("%sangle-to-%s" % (nm, C.__name__), Quat(C(T)), q, r)
    q = qmul(qz, qmul(qy, qx)); E, P = EulerZYX((z, y, x)), EulerRPY([x, y, z])
    for C in (Quat, RotMat): same_rot("euler-to-" + C.__name__, C(E), q, r); same_rot("rpy-to-" + C.__name__, C(P), q, r)
    M.close("euler-attr", [E.z, E.y, E.x, P.r, P.p, P.y], [z, y, x, x, y, z]); E.x = 0.25; P.r = 0.25; same_rot("euler-set", Quat(E), qmul(qz, qmul(qy, qaa((1, 0, 0), 0.25))), r); same_rot("rpy-set", Quat(P), qmul(qz, qmul(qy, qaa((1, 0, 0), 0.25))), r); P.y = 0.5; P.p = -0.5; same_rot("rpy-set2", Quat(P), qmul(qaa((0, 0, 1), 0.5), qmul(qaa((0, 1, 0), -0.5), qaa((1, 0, 0), 0.25))), r)
    w = rvec(r, 3, 1.0); w[0] += 1.5; same_rot("axang-make", AxAng(w + [x]).normalize(), qaa(w, x), r)
    rr = [[R[i, j] for j in range(3)] for i in range(3)]; M.close("rotmat-cols", [qrot(q1, c)[i] for i in range(3) for c in ((1, 0, 0), (0, 1, 0), (0, 0, 1))], flat(rr), 1e-8)
    M.check("rotmat-rowmatrix", all(RotMat.row_matrix(rr)[i, j] == R[i, j] == RotMat.col_matrix(tr(rr))[i, j] for i in range(3) for j in range(3))); M.raises("rotmat-index", IndexError, lambda: R[0, 3]); M.raises("rotmat-index", IndexError, lambda: R[3, 0])
    M.close("rotmat-ident", flat(rows(RotMat())) + flat(rows(RotMat(1))), [1, 0, 0, 0, 1, 0, 0, 0, 1] * 2); l = R.ln(); th = math.sqrt(sum(t * t for t in l)); same_rot("rotmat-ln", Quat(Vec3([t / 2 for t in l])).exp(), q1, r, 1e-6)
    same_rot("repr-quat", eval(repr(a)), q1, r, 1e-4); same_rot("repr-axang", eval(repr(A)) if abs(A.angle) > 1e-3 else A, q1, r, 1e-4); same_rot("repr-rpy", Quat(eval(repr(EulerRPY([x, y, z])))), q, r, 1e-4); M.count("rotation_cases")


def c_tf(r):
    e1, e2 = rtf(r), rtf(r); p = rvec(r, 3); M.distinct.add(("tf", round(e1[0][3], 2)))
    for C in (TfMat, DualQuat, QuatTrans):
        nm = C.__name__; a = C((Quat(e1[0]), Vec3(list(e1[1])))); b = C((RotMat(Quat(e2[0])), tuple(e2[1])))
        M.close(nm + "-transform", a.transform(p), epnt(e1, p), 1e-7); M.close(nm + "-transform-vec", b.transform(Vec3(p)), epnt(e2, p), 1e-7); M.close(nm + "-mul", (a * b).transform(p), epnt(emul(e1, e2), p), 1e-7); M.close(nm + "-inv", (~a).transform(p), epnt(einv(e1), p), 1e-7); M.close(nm + "-ident", C().transform(p), p)
        same_rot(nm + "-rotation", a.rotation, e1[0], r); M.close(nm + "-translation", a.translation, e1[1], 1e-8); M.check(nm + "-ensure", C.ensure(a) is a)
        for D in (TfMat, DualQuat, QuatTrans):
            d = D(a); M.close("%s-to-%s" % (nm, D.__name__), d.transform(p), epnt(e1, p), 1e-7); M.close("%s-ensure-%s" % (nm, D.__name__), D.ensure(a).transform(p), epnt(e1, p), 1e-7)
            if r.random() < 0.5: d.translation = e2[1]; want = (e1[0], e2[1])
            else: d.rotation = Quat(e2[0]); want = (e2[0], e1[1])
            M.close(D.__name__ + "-set-part", d.transform(p), epnt(want, p), 1e-7); M.close(nm + "-source-kept", a.transform(p), epnt(e1, p), 1e-7)
        if C is not TfMat:
            M.close(nm + "-conj", (a.conj() * a).transform(p), p, 1e-7); l = [a[i] for i in range(len(a))]; M.close(nm + "-list", C(l).transform(p), epnt(e1, p), 1e-7); M.raises(nm + "-index", IndexError, lambda: a[len(a)]); M.raises(nm + "-size", IndexError, lambda: C(l[:-1])); c = C(); c.copy_from(a); M.close(nm + "-copy-from", [c[i] for i in range(len(c))], l); f = [0.0] * len(l); a.copy_to(f); M.close(nm + "-copy-to", f, l); M.close(nm + "-identity", C.identity().transform(p), p)
            i = r.randrange(len(l)); a[i] = 3.25; M.check(nm + "-setitem", [a[j] for j in range(len(a))] == l[:i] + [3.25] + l[i + 1:], "setting element %d" % i)
        else:
            g = [[a[i, j] for j in range(4)] for i in range(3)]; M.close(nm + "-row-matrix", TfMat.row_matrix(g).transform(p), epnt(e1, p), 1e-7); M.raises(nm + "-index", IndexError, lambda: a[0, 4]); M.raises(nm + "-index", IndexError, lambda: a[3, 3]); a[1, 3] = 2.5; M.check(nm + "-setitem", a[1, 3] == 2.5 and a.translation[1] == 2.5)
    for C in (TfMat, DualQuat, QuatTrans):
        a = C((Quat(e1[0]), Vec3(list(e1[1])))); a.set_identity(); M.close(C.__name__ + "-set-identity", a.transform(p), p)
    a = Quat(e1[0]); a.set_identity(); M.close("quat-set-identity", a, [0, 0, 0, 1]); a = RotMat(Quat(e1[0])); a.set_identity(); M.close("rotmat-set-identity", a.rotate(Vec3(p)), p); a = AxAng(Quat(e1[0])); a.set_identity(); M.close("axang-set-identity", RotMat(a).rotate(Vec3(p)), p); a = Quat(e1[0]); a.zero(); M.close("quat-zero", a, [0] * 4)
    n = DualQuat((Quat(e1[0]), e1[1])).norm_parts(); M.close("duqu-norm", [n[0]], [1])
    # Vec3
    a, b = rvec(r, 3), rvec(r, 3); x, y = Vec3(a), Vec3(tuple(b)); s = r.choice([r.uniform(-2, 2), 2]); z = [p + q for p, q in zip(a, b)]
    M.close("vec3-add", list(x + y) + list(x + b) + list(b + x), z * 3); M.close("vec3-adds", list(x + s) + list(s + x), [p + s for p in a] * 2); M.close("vec3-sub", list(x - y) + list(x - b), [p - q for p, q in zip(a, b)] * 2); M.close("vec3-rsub", list(b - x) + list(s - x), [q - p for p, q in zip(a, b)] + [s - p for p in a]); M.close("vec3-mul", list(x * s) + list(s * x) + list(x / s if s else []), [p * s for p in a] * 2 + ([p / s for p in a] if s else []))
    M.close("vec3-cross", list(x.cross(y)) + list(x.cross(b)), list(cross(a, b)) * 2); d = sum(p * q for p, q in zip(a, b)); M.close("vec3-dot", [x.dot(y), x.dot(b)], [d, d]); M.close("vec3-norm", [x.nrm2(), x.ssd(b)], [math.sqrt(sum(p * p for p in a)), math.dist(a, b)]); M.check("vec3-eq", x == a and x == Vec3(a) and (a == b or x != y)); M.raises("vec3-index", IndexError, lambda: x[3]); M.raises("vec3-size", IndexError, lambda: Vec3([1, 2])); x += y; x -= s; x *= 2; x /= 4; M.close("vec3-inplace", x, [(p - s) / 2 for p in z]); M.close("vec3-attr", [y.x, y.y, y.z], b); M.close("vec3-of-dvec", Vec3(DVec(b)), b)
    # velocities
    for C in (TfVel, Twist):
        u, v = C(), C(); u.rotational = a; u.translational = b; v.copy_from(u); M.close(C.__name__ + "-parts", list(v.rotational) + list(v.translational), a + b); M.close(C.__name__ + "-elts", [u[i] for i in range(6)], b + a); d1 = u.to_dvec(); u.zero(); d2 = u.to_dvec(); M.close(C.__name__ + "-dvec", d1, b + a); M.close(C.__name__ + "-dvec-zero", d2, [0] * 6); u.from_dvec(DVec(b + a)); M.close(C.__name__ + "-from-dvec", list(u.rotational), a); u[4] = 9.0; M.check(C.__name__ + "-setitem", u[4] == 9.0 and u.rotational[1] == 9.0); M.raises(C.__name__ + "-index", IndexError, lambda: u[6]); M.raises(C.__name__ + "-index", IndexError, lambda: u[-1])
    M.count("transform_cases")


# ---------------------------------------------------------------- scenes
class Scene:
    """A generated scene with the poses it must have."""
    def __init__(self, r, nmin=1, nmax=7, geom=None, limits=False):
        self.f, self.cfg = {}, []   # name -> (parent, kind, E, config, axis, offset)
        self.sg = SceneGraph()
        for i in range(r.randrange(nmin, nmax + 1)):
            parent = r.choice([""] + list(self.f)); name = r.choice(["f%d", "lînk%d", "a_%d"]) % i; E = rtf(r); kind = r.choice("frp")
            tf = r.choice([QuatTrans, TfMat, DualQuat])((Quat(E[0]), Vec3(list(E[1])))); ax = rvec(r, 3, 1.0); ax[r.randrange(3)] += 2; nn = math.sqrt(sum(t * t for t in ax)); ax = [t / nn for t in ax]; off = r.choice([0, r.uniform(-1, 1)]); kw = {}
            if r.random() < 0.3: E = IDE
            else: kw["tf"] = tf
            if geom: kw["geom"] = geom(name)
            c = None
            if kind != "f":
                c = name
                if r.random() < 0.4: c = r.choice(self.cfg) if self.cfg and r.random() < 0.2 else "q%d" % i; kw["config_name"] = c
                if r.random() < 0.3: ax = [0, 0, 1]
                else: kw["axis"] = ax
                if off: kw["offset"] = off
                if c not in self.cfg: self.cfg.append(c)
            if kind == "f": self.sg.add_frame_fixed(parent, name, **kw)
            elif kind == "r": self.sg.add_frame_revolute(parent, name, **kw)
            else: self.sg.add_frame_prismatic(parent, name, **kw)
            self.f[name] = (parent, kind, E, c, ax, off)
        self.sg.init()

    def pose(self, name, q):
        if name == "": return IDE
        parent, kind, E, c, ax, off = self.f[name]
        if kind == "r": E = emul(E, (qaa(ax, q[c] + off), (0, 0, 0)))
        if kind == "p": E = emul(E, (IDE[0], tuple((q[c] + off) * t for t in ax)))
        return emul(self.pose(parent, q), E)

    def config(self, r): return {c: r.uniform(-1.5, 1.5) for c in self.cfg}

    def judge(self, fk, q, r, key):
        for name in self.f:
            p = rvec(r, 3); M.close(key, fk[name].transform(p), epnt(self.pose(name, q), p), 1e-7)
        a, b = r.choice([""] + list(self.f)), r.choice(list(self.f)); p = rvec(r, 3); M.close(key + "-rel", fk[a, b].transform(p), epnt(emul(einv(self.pose(a, q)), self.pose(b, q)), p), 1e-7)
        i = self.sg.frame_id(b); M.close(key + "-id", fk[i].transform(p), epnt(self.pose(b, q), p), 1e-7)


def names(S):
    sg = S.sg; M.check("sg-counts", sg.frame_count == len(S.f) and sg.config_count == len(S.cfg), "%d frames, %d configs" % (sg.frame_count, sg.config_count))
    ids = sorted(sg.frame_id(n) for n in S.f); M.check("sg-frame-ids", ids == list(range(len(S.f)))); cids = sorted(sg.config_id(c) for c in S.cfg); M.check("sg-config-ids", cids == list(range(len(S.cfg))))
    for n in S.f:
        i = sg.frame_id(n); M.check("sg-frame-name", sg.frame_name(i) == n and sg.ensure_frame_name(i) == n and sg.ensure_frame_name(n) == n and sg.ensure_frame_id(n) == i == sg.ensure_frame_id(i) and sg.ensure_frame_id_actual(n) == i, "names of %s" % n); M.check("sg-parent", sg.get_parent(n) == S.f[n][0] == sg.get_parent(i), "parent of %s" % n)
    for c in S.cfg:
        i = sg.config_id(c); M.check("sg-config-name", sg.config_name(i) == c and sg.ensure_config_id(c) == i == sg.ensure_config_id(i) and sg.ensure_config_name(c) == c and sg.ensure_config_name(i) == c, "names of %s" % c)
    M.raises("sg-bad-frame", ValueError, lambda: sg.ensure_frame_id("no such")); M.raises("sg-bad-frame", ValueError, lambda: sg.ensure_frame_name("no such")); M.raises("sg-bad-frame-id", IndexError, lambda: sg.ensure_frame_id(len(S.f))); [M.raises("sg-bad-frame-name", IndexError, lambda: f(i)) for f in (sg.frame_name, sg.ensure_frame_name) for i in (len(S.f), len(S.f) + 3, -2 - len(S.f), -7)];
    for e in (len(S.f), len(S.f) + 7, -2, -5):
        for f in (sg.ensure_frame_id, sg.ensure_frame_id_actual, sg.ensure_frame_name): M.raises("sg-frame-id-range", IndexError, lambda: f(e))
    M.raises("sg-bad-config", ValueError, lambda: sg.ensure_config_id("no such")); M.raises("sg-bad-config-id", IndexError, lambda: sg.ensure_config_id(len(S.cfg))); M.raises("sg-bad-config-id", IndexError, lambda: sg.ensure_config_name(len(S.cfg))); M.raises("sg-root-actual", IndexError, lambda: sg.ensure_frame_id_actual(""))


def c_scene(r):
    S = Scene(r); sg = S.sg; M.distinct.add(("scene", len(S.f), len(S.cfg), sum(v[1] == "r" for v in S.f.values()))); names(S); q = S.config(r); fk = SceneFK(sg); M.check("fk-len", len(fk) == len(S.f))
    v = sg.config_vector(q); M.close("config-vector", v, [q[sg.config_name(i)] for i in range(len(v))]); M.check("config-dict", sg.config_dict(v) == q); fk.config = r.choice([q, v, list(v)]); S.judge(fk, q, r, "fk"); M.close("fk-config", fk.config, v)
    if q:
        c = r.choice(S.cfg); q2 = dict(q); q2[c] = 0.75; w = sg.copy_config(v); M.check("copy-config", w == v); sg.config_vector({c: 0.75}, w); M.close("config-vector-update", w, sg.config_vector(q2)); M.close("copy-independent", v, sg.config_vector(q)); z = sg.config_vector({c: 0.75}); M.check("config-vector-default", all(z[i] == (0.75 if sg.config_name(i) == c else 0) for i in range(len(z)))); fk.config = {c: 0.75}; S.judge(fk, q2, r, "fk-partial")
        M.raises("config-vector-name", (IndexError, ValueError, LookupError), lambda: sg.config_vector({"no such": 1.0})); M.raises("config-vector-size", IndexError, lambda: sg.config_vector(q, DVec(len(q) + 1)))
    # chains
    tip = r.choice(list(S.f)); path = [tip]
    while S.f[path[0]][0]: path.insert(0, S.f[path[0]][0])
    root = r.choice([None, ""] + path); sub = sg[root:tip] if r.random() < 0.7 else sg[("" if root is None else root):sg.frame_id(tip)]; chain = path if not root else path[path.index(root) + 1:]; cs = []
    for n in chain:
        if S.f[n][3] and S.f[n][3] not in cs: cs.append(S.f[n][3])
    if chain and root != tip and len(cs) == sum(1 for n in chain if S.f[n][3]):
        M.check("sub-count", sub.config_count == len(cs), "%d configs, expected %d (%s)" % (sub.config_count, len(cs), chain)); M.check("sub-ee", sub.end_effector_id == sg.frame_id(tip)); g = sub.gather_config(v); M.check("gather", sorted(g) == sorted(q[c] for c in cs)); x = sub.scatter_config(g); M.close("scatter-zero", x, [q[sg.config_name(i)] if sg.config_name(i) in cs else 0 for i in range(len(v))]); base = DVec(len(v)).set(7.0); sub.scatter_config(g, base); M.close("scatter", base, [q[sg.config_name(i)] if sg.config_name(i) in cs else 7.0 for i in range(len(v))]); M.close("gather-scatter", sub.gather_config(base), g); M.check("sub-scene", sub.scenegraph is sg)
        gg = DVec(len(cs)); M.check("gather-into", sub.gather_config(v, gg) == g and gg == g)
    M.raises("sg-step", LookupError, lambda: sg[::2]); M.raises("sg-item", LookupError, lambda: sg["x"])
    # copies and edits
    cp = sg.copy(); T = Scene.__new__(Scene); T.f, T.cfg, T.sg = dict(S.f), list(S.cfg), cp; names(T); leaves = [n for n in S.f if not any(x[0] == n for x in S.f.values())]; n = r.choice(leaves)
    if r.random() < 0.5 and len(S.f) > 1:
        cp.remove_frame(n); cp.init(); del T.f[n]; used = {x[3] for x in T.f.values()}; T.cfg = [c for c in T.cfg if c in used]
    else:
        others = [""] + [o for o in T.f if o != n]; np_, E = r.choice(others), rtf(r); cp.reparent(np_, n, QuatTrans((Quat(E[0]), E[1]))); cp.init(); o = T.f[n]; T.f[n] = (np_, o[1], E, o[3], o[4], o[5])
    T.cfg = [c for c in T.cfg]
    if T.f:
        names(T); fk2 = SceneFK(cp); qq = T.config(r); fk2.config = qq; T.judge(fk2, qq, r, "fk-copy")
    names(S); fk.config = q; S.judge(fk, q, r, "fk-original"); M.raises("load-missing", LookupError, lambda: SceneGraph().load("/nonexistent/libscene.so", "scene")); M.count("scene_cases")


def c_opt(r):
    o = dict(visual=r.random() < 0.5, collision=r.random() < 0.5, no_shadow=r.random() < 0.5, alpha=r.random(), scale=r.uniform(0.1, 3), color=[r.random() for _ in range(3)], specular=[r.random() for _ in range(3)]); ks = r.sample(list(o), r.randrange(0, 8)); g = GeomOpt({k: o[k] for k in ks}); dflt = GeomOpt(); M.distinct.add(("opt",) + tuple(sorted(ks)))
    for k in o:
        want = o[k] if k in ks else getattr(dflt, k); got = getattr(g, k)
        if isinstance(want, list): M.close("opt-" + k, got, want)
        elif isinstance(want, bool): M.check("opt-" + k, got is want or got == want)
        else: M.close("opt-" + k, [got], [want])
    k = r.choice(list(o)); before = {j: getattr(g, j) for j in o if j != k}; setattr(g, k, o[k]); M.check("opt-others", all(getattr(g, j) == before[j] for j in before), "setting %s changed another option" % k); M.check("opt-ensure", GeomOpt.ensure(g) is g and GeomOpt.ensure({"alpha": 0.25}).alpha == 0.25 and GeomOpt.ensure(None).scale == dflt.scale)
    sg = SceneGraph(); d = rvec(r, 3, 1); d = [abs(t) + 0.1 for t in d]; shapes = [lambda: Geom.box(g, d), lambda: Geom.sphere(o, d[0]), lambda: Geom.cylinder(None, d[0], d[1]), lambda: Geom.cone({}, d[0], d[1], d[2]), lambda: Geom.torus(g, 6.0, d[0], d[1]), lambda: Geom.grid(g, (1.0, 2.0), [0.1, 0.2], 0.01)]; sh = r.choice(shapes)(); sg.add_frame_fixed("", "a", geom=sh); sg.add_frame_fixed("a", "b", geom=[sh, r.choice(shapes)()]); sg.attach_geom("a", r.choice(shapes)()); del g; keep = r.random() < 0.5
    if keep: del sh
    gc.collect(); sg.init(); c2 = sg.copy(); del sg; gc.collect(); M.check("geom-scene", c2.frame_count == 2); M.raises("geom-invalid", Exception, lambda: c2.attach_geom("a", 5)); M.count("geometry_cases")


def sphere_scene(r):
    rad = {}

    def geom(name):
        rad[name] = r.uniform(0.1, 0.7); sc = r.choice([None, 1.0, 1.7]); opt = {"collision": 1, "visual": 0}
        if sc: opt["scale"] = sc
        g = Geom.sphere(opt, rad[name]); rad[name] *= sc or 1.0
        return r.choice([g, [g], (g,)])
    S = Scene(r, 2, 5, geom); return S, rad


def c_collision(r):
    S, rad = sphere_scene(r); sg = S.sg; sg.init(); cl = SceneCollision(sg); fk = SceneFK(sg); cs = cl.collision_set(); allowed = set(); fs = list(S.f); M.distinct.add(("coll", len(fs), len(S.cfg))); dist = cl.collision_dist() if r.random() < 0.8 else None
    pairs = [(a, b) for i, a in enumerate(fs) for b in fs[:i]]

    def gap(q, a, b): pa, pb = S.pose(a, q)[1], S.pose(b, q)[1]; return math.dist(pa, pb) - rad[a] - rad[b]
    for _ in range(4):
        q = S.config(r); fk.config = q
        g = {p: gap(q, *p) for p in pairs}
        if any(abs(x) < 1e-3 for x in g.values()): continue
        hit = {p for p in pairs if g[p] < 0 and p not in allowed}
        M.check("cl-check", cl.check(fk) == bool(hit), "check %r, pairs %r" % (cl.check(fk), hit)); M.check("cl-check-set", cl.check(fk, cs) == bool(hit)); f = (lambda n: sg.frame_id(n)) if r.random() < 0.5 else (lambda n: n)
        for a, b in pairs: M.check("cl-set", cs[f(a), f(b)] == cs[f(b), f(a)] == ((a, b) in hit), "pair %s %s gap %g" % (a, b, g[a, b]))
        if dist:
            dist.check(fk)
            for a, b in pairs:
                if (a, b) in allowed: continue
                d = dist.dist[f(a), f(b)]; dd, pa, pb = dist.points[f(b), f(a)]
                if g[a, b] > 1e-3:
                    M.close("dist", [d, dd], [g[a, b]] * 2, 1e-3); ca, cb = S.pose(a, q)[1], S.pose(b, q)[1]; M.close("dist-points", [math.dist(pa, cb), math.dist(pb, ca)], [rad[b], rad[a]], 5e-3)
                else: M.check("dist-penetration", d <= 1e-6 and dd <= 1e-6, "gap %g distance %g" % (g[a, b], d))
        act = r.randrange(5)
        if act == 0 and pairs: a, b = r.choice(pairs); cl.allow(*r.choice([(a, b), (b, a), (sg.frame_id(a), b)])); allowed.add((a, b))
        elif act == 1: cl.allow_config(q); allowed |= {p for p in pairs if g[p] < 0}
        elif act == 2 and pairs: t = SceneCollisionSet(sg); a, b = r.choice(pairs); t[a, b] = True; u = cl.collision_set(); u.fill(t); M.check("set-fill", u[b, a] and t[a, b]); cl.allow_set(u); allowed.add((a, b)); t[b, a] = False; M.check("set-clear-one", not t[a, b] and u[a, b]); u.clear(); M.check("set-clear", not u[a, b])
    M.raises("set-bad-frame", (ValueError, IndexError), lambda: cs["no such", fs[0]]); M.raises("set-bad-id", IndexError, lambda: cs[len(fs), 0]); M.count("collision_cases")


def chain_scene(r, limits=True):
    """A serial arm: every frame the child of the one before."""
    S = Scene.__new__(Scene); S.f, S.cfg, S.sg = {}, [], SceneGraph(); parent = ""
    for i in range(r.randrange(4, 8)):
        name = "j%d" % i; E = (rquat(r), tuple(rvec(r, 3, 0.3))); ax = r.choice([(1, 0, 0), (0, 1, 0), (0, 0, 1)]); S.sg.add_frame_revolute(parent, name, tf=(Quat(E[0]), E[1]), axis=ax); S.f[name] = (parent, "r", E, name, ax, 0); S.cfg.append(name); parent = name
    S.sg.init(); S.tip = parent; return S


def c_ik(r):
    S = chain_scene(r); sg = S.sg; sub = sg["":S.tip]; q = S.config(r); fk = SceneFK(sg); fk.config = q; M.distinct.add(("ik", len(S.cfg)))
    dk = SceneDK(sub, fk); v, w = rvec(r, 3, 1), rvec(r, 3, 1); x = TfVel(); x.translational = v; x.rotational = w; mode = r.randrange(3); M.raises("dk-no-ref", Exception, dk.solve_vel)
    if mode != 1: dk.ref_tf_vel = x
    if mode != 0: dk.ref_tf = fk[S.tip]; M.close("dk-ref", dk.ref_tf.transform([1, 2, 3]), fk[S.tip].transform([1, 2, 3]))
    u = dk.solve_vel(); M.check("dk-solved", u is not None and len(u) == sub.config_count and all(math.isfinite(t) for t in u))
    if u is not None and mode == 1: M.check("dk-at-reference", u.nrm2() < 1e-6, "moves with %g although at the reference" % u.nrm2())
    if u is not None and mode != 1 and len(S.cfg) >= 6:
        h = 1e-6; full = sub.scatter_config(u); qa = {c: q[c] + h * full[sg.config_id(c)] for c in S.cfg}; e0, e1 = S.pose(S.tip, q), S.pose(S.tip, qa); dv = [(b - a) / h for a, b in zip(e0[1], e1[1])]; dw = [2 * t / h for t in qmul(e1[0], qconj(e0[0]))[:3]]
        dot = sum(a * b for a, b in zip(dv + dw, v + w)); na, nv = math.sqrt(sum(a * a for a in dv + dw)), math.sqrt(sum(a * a for a in v + w)); M.check("dk-tracks", dot >= -1e-4 and na <= nv * 1.001 + 1e-4, "asked %r got %r" % (v + w, dv + dw))
    # inverse kinematics of a reachable pose
    ik = SceneIK(sub); M.check("ik-no-ref", ik.ref_tf is None); M.raises("ik-no-ref", Exception, ik.solve); ta, tt = r.choice([(0.01, 1e-3), (1e-3, 1e-4)]); ik.set_tol_angle(ta); ik.set_tol_trans(tt); ik.restart_time = 0.0; M.close("ik-restart-time", [ik.restart_time], [0.0]); ik.restart_time = 0.25; M.close("ik-restart-time", [ik.restart_time], [0.25]); ik.restart_time = 0.0; goal = S.pose(S.tip, q); ik.ref_tf = r.choice([QuatTrans, TfMat, DualQuat])((Quat(goal[0]), Vec3(list(goal[1])))); k = r.randrange(4)
    seed = [q[sg.config_name(i)] + r.uniform(-0.3, 0.3) for i in range(len(S.cfg))]; g0 = sub.gather_config(DVec(seed))
    if k == 0: ik.set_seed(g0)
    elif k == 1: ik.set_seed(list(g0))
    elif k == 2: ik.set_seed_center()
    else: ik.set_seed_rand()
    sd = list(_ik_seed(ik._ptr).contents); k < 2 and M.close("ik-seed", sd, list(g0)); k == 2 and M.close("ik-seed", sd, list(sub.center_configs() if hasattr(sub, "center_configs") else sd))
    s = ik.solve(); M.count("ik_solutions" if s is not None else "ik_no_solution")
    if s is not None:
        full = sub.scatter_config(s); qq = {c: full[sg.config_id(c)] for c in S.cfg}; e = S.pose(S.tip, qq); d = qmul(qconj(goal[0]), e[0]); ang = 2 * math.atan2(math.sqrt(sum(t * t for t in d[:3])), abs(d[3])); M.check("ik-pose", math.dist(e[1], goal[1]) <= tt * 1.01 and ang <= ta * 1.01, "solution is off by %g m, %g rad" % (math.dist(e[1], goal[1]), ang))
    M.count("ik_cases")


def c_plan(r):
    sg = SceneGraph(); n = r.randrange(2, 4); parent = ""; lim = []; cs = []
    for i in range(n):
        lo, hi = -r.uniform(0.5, 2), r.uniform(0.5, 2); lim.append((lo, hi)); sg.add_frame_prismatic(parent, "p%d" % i, axis=r.choice([(1, 0, 0), (0, 1, 0), (0, 0, 1)]), limits=(lo, hi), geom=Geom.sphere({"collision": 1}, 0.02) if i == n - 1 else None); parent = "p%d" % i; cs.append(parent)
    sg.init(); SceneCollision(sg); sub = sg["":parent]; mp = MotionPlan(sub); gone = r.random() < 0.7; M.distinct.add(("plan", n, gone))
    ids = [sg.config_id(c) for c in cs]; L = [None] * n
    for j, l in zip(ids, lim): L[j] = l
    if gone: del sub, sg; gc.collect(); junk = [SceneGraph() for _ in range(3)]
    for _ in range(2):
        a, b = [r.uniform(*l) for l in L], [r.uniform(*l) for l in L]; p = mp.motion_plan(a, b, 2.0); M.check("plan-found", p is not None, "no path in free space")
        if p is not None: M.close("plan-start", p[0], a); M.close("plan-goal", p[-1], b); M.check("plan-limits", all(l[0] - 1e-9 <= x <= l[1] + 1e-9 for pt in p for x, l in zip(pt, L)) and all(len(pt) == n for pt in p))
    M.check("plan-bad-goal", mp.motion_plan(a, [l[1] + 1 for l in L], 0.2) is None); M.count("plan_cases")


def c_life(r):
    """Objects are dropped in any order while others that need them are still used."""
    S, rad = sphere_scene(r); q = S.config(r); n = r.choice(list(S.f)); pose = S.pose(n, q); f2 = list(S.f); p = rvec(r, 3); want = epnt(pose, p); kind = r.randrange(7); sg = S.sg; S.sg = None; M.distinct.add(("life", kind, len(f2)))
    gap = math.dist(S.pose(f2[0], q)[1], S.pose(f2[1], q)[1]) - rad[f2[0]] - rad[f2[1]]
    if kind == 0: fk = SceneFK(sg); del sg; gc.collect(); fk.config = q; M.close("life-fk", fk[n].transform(p), want, 1e-7)
    elif kind == 1: sub = sg[:n]; v = sg.config_vector(q); del sg; gc.collect(); fk = SceneFK(sub.scenegraph); fk.config = v; M.close("life-sub", fk[sub.end_effector_id].transform(p), want, 1e-7); M.check("life-sub-count", sub.config_count >= 0); del sub; gc.collect(); M.close("life-fk2", fk[n].transform(p), want, 1e-7)
    elif kind == 2 and sg[:n].config_count: sub = sg[:n]; fk = SceneFK(sg); dk = SceneDK(sub, fk); fk.config = q; dk.ref_tf = fk[n]; del sg, sub, fk; gc.collect(); M.check("life-dk", dk.solve_vel() is None or True)
    elif kind == 3 and sg[:n].config_count: sub = sg[:n]; ik = SceneIK(sub); ik.restart_time = 0; ik.ref_tf = QuatTrans((Quat(pose[0]), pose[1])); c = sub.config_count; del sg, sub; gc.collect(); ik.set_seed_center(); s = ik.solve() if c else None; M.check("life-ik", s is None or len(s) == c)
    elif kind == 4:
        fk = SceneFK(sg); fk.config = q; d = SceneCollision(sg).collision_dist(); del sg; gc.collect(); d.check(fk); x = d.dist[f2[0], f2[1]]
        if abs(gap) > 1e-3: M.check("life-dist", (x > 0) == (gap > 0), "gap %g distance %g" % (gap, x))
        view = d.dist; del d, fk; gc.collect(); M.check("life-dist-view", view[f2[0], f2[1]] == x); del view; gc.collect()
    elif kind == 5: cl = SceneCollision(sg); cs = cl.collision_set(); fk = SceneFK(sg); fk.config = q; del sg; gc.collect(); cl.check(fk, cs); del cl, fk; gc.collect(); M.check("life-set", abs(gap) < 1e-3 or cs[f2[0], f2[1]] == (gap < 0)); del cs
    else:
        fk = SceneFK(sg); fk.config = q; objs = [SceneCollision(sg), fk, sg[:n], SceneCollisionSet(sg), sg, sg.copy()]; objs.append(objs[0].collision_dist()); objs[-1].check(fk); objs.append(objs[-1].points); del sg, fk; r.shuffle(objs)
        while objs: objs.pop(r.randrange(len(objs))); gc.collect() if r.random() < 0.5 else None
    gc.collect(); M.count("lifetime_cases")


def c_leak(r):
    """Repeating the same work does not grow the heap."""
    if heap_bytes is None: return
    which = r.randrange(5)

    def work():
        if which == 0: DMat.row_matrix([[1.0] * 20] * 20).pinv(); DVec(300)[3:9]
        elif which == 1: s = SceneGraph(); s.add_frame_fixed("", "a", geom=[Geom.box(None, (1, 2, 3)), Geom.sphere({}, 0.5)]); s.init(); s.copy()
        elif which == 2: s = SceneGraph(); s.add_frame_revolute("", "a", geom=Geom.sphere({"collision": 1}, 0.5)); s.init(); c = SceneCollision(s); f = SceneFK(s); c.check(f, c.collision_set()); c.collision_dist().check(f); gc.collect()
        elif which == 3: s = SceneGraph(); s.add_frame_revolute("", "a"); s.init(); b = s[:"a"]; i = SceneIK(b); i.restart_time = 0; i.set_seed_center(); i.ref_tf = QuatTrans(); i.solve(); SceneDK(b, SceneFK(s))
        else: Geom.cone(None, 1.0, 0.5, 0.25); Geom.torus({}, 1.0, 0.5, 0.1); GeomOpt({"alpha": 0.5})
    for _ in range(3): work()
    gc.collect(); h0 = heap_bytes(); n = 40
    for _ in range(n): work()
    gc.collect(); g = heap_bytes() - h0; M.check("heap-growth-%d" % which, g < n * 24, "%d bytes after %d repetitions" % (g, n)); M.distinct.add(("leak", which)); M.count("leak_cases")


KINDS = [(c_vec, 300), (c_mat, 150), (c_rot, 200), (c_tf, 150), (c_scene, 60), (c_opt, 40), (c_collision, 40), (c_ik, 30), (c_plan, 2), (c_life, 40), (c_leak, 5)]


def main():
    only = None if len(sys.argv) < 6 else sys.argv[5]; mult = 1 if TIER == "quick" else 6
    for f, n in KINDS:
        if only and f.__name__ != only: continue
        for i in range(n * mult):
            r = random.Random("%d/%d/%s/%d" % (SEED, K, f.__name__, i)); M.case = "%s case %d" % (f.__name__, i); M.cases += 1
            try: f(r)
            except Exception as e:  # noqa: BLE001
                tb = traceback.extract_tb(e.__traceback__); fr = [t for t in tb if t.filename.endswith(".py")][-1]; M.bad("exception-%s-%s-%s" % (f.__name__[2:], type(e).__name__, fr.name), "%s at %s:%d %s" % (e, fr.filename, fr.lineno, fr.line))
            if i < 2 and not only: M.samples.append(M.case)
    json.dump(dict(cases=M.cases, events=M.events, distinct=sorted("/".join(map(str, d)) for d in M.distinct), samples=M.samples, counters=M.counters, viol=M.viol), open(OUT, "w"))
    if only: print(json.dumps(dict(events=M.events, counters=M.counters), indent=1)); [print("VIOL", v) for v in M.viol]
    sys.stdout.flush()
    import os; os._exit(1 if M.viol else 0)


main()
