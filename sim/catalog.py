"""The library's public calls as small, named, deterministic client programs.

entry(name)(build): build(c) prepares inputs from the case c (variant number ->
sizes, parameters, values) and returns a no-argument function that makes the
call and returns everything it produced.  Preparation happens outside the
simulated region; the returned function is what gets interleaved or aborted.
"""
import functools

import jax
import jax.numpy as jnp
import numpy as np

import cr.sparse as crs
import cr.sparse.lop as lop
import cr.sparse.opt as opt
import cr.sparse.fom as fom
import cr.sparse.dict as crdict
import cr.sparse.data as crdata
import cr.sparse.geo as geo
import cr.sparse.vision as vision
import cr.sparse.problems as problems
import cr.sparse.cluster as cluster
import cr.sparse.cluster.vq as vq
import cr.sparse.cluster.spectral as spectral
import cr.sparse.cluster.ssc as ssc
import cr.sparse.cs.cs1bit as cs1bit
from cr.sparse import sls, pursuit
from cr.sparse.sls import svd
from cr.sparse.opt import cg, pcg, spg
from cr.sparse.pursuit import omp, mp, cosamp, sp, htp, iht, phasetransition
from cr.sparse.cvx import spgl1, l1ls, focuss
from cr.sparse.cvx.adm import yall1
from cr.sparse.block import bsbl
from cr.sparse.block import block as blk

from .util import derive, np_rng, rng_for

VARIANTS = 6
ENTRIES = {}


class Entry:
    def __init__(self, name, build, key=False, np_ok=True, eager=True, jit=True, heavy=False, varies=True, variants=VARIANTS):
        # np_ok False: it is not promised that numpy arrays are accepted (when they are, they must be left alone)
        self.name, self.build, self.key, self.np_soft, self.np_ok = name, build, key, not np_ok, True
        self.eager, self.jit, self.heavy, self.varies = eager, jit, heavy, varies
        self.variants = variants
        self.module = name.split(".")[0]


def entry(name, **kw):
    def deco(fn):
        ENTRIES[name] = Entry(name, fn, **kw)
        return fn
    return deco


def aligned(a):
    """A copy at a 64-byte boundary: vectorised kernels round differently for other alignments, which is up to the allocator."""
    raw = np.empty(a.nbytes + 64, dtype=np.uint8)
    at = -raw.ctypes.data % 64
    out = raw[at:at + a.nbytes].view(a.dtype).reshape(a.shape)
    out[...] = a
    return out


class Case:
    def __init__(self, name, v, as_np=False, keyseed=None):
        self.name, self.v, self.as_np = name, v, as_np
        self.r = rng_for("cat", name, v)
        self.g = np_rng("cat", name, v)
        self.inputs = []
        self.keyseed = derive("key", name, v) % (1 << 31) if keyseed is None else keyseed

    def pick(self, *xs):
        return self.r.choice(xs)

    def arr(self, a, dtype=None):
        a = np.asarray(a)
        if dtype is None:
            dtype = np.complex64 if a.dtype.kind == "c" else np.float32 if a.dtype.kind == "f" else a.dtype
        a = np.array(a, dtype=dtype)
        out = aligned(a) if self.as_np else jnp.asarray(a)
        self.inputs.append(out)
        return out

    def normal(self, *shape):
        return self.arr(self.g.standard_normal(shape))

    def cnormal(self, *shape):
        return self.arr(self.g.standard_normal(shape) + 1j * self.g.standard_normal(shape))

    def uniform(self, *shape):
        return self.arr(self.g.random(shape))

    def key(self):
        k = jax.random.PRNGKey(self.keyseed)
        self.inputs.append(k)
        return k

    def sparse(self, n, k):
        x = np.zeros(n)
        x[self.g.choice(n, k, replace=False)] = np.sign(self.g.standard_normal(k)) * (1 + self.g.random(k))
        return self.arr(x)

    def dictionary(self, m, n):
        a = self.g.standard_normal((m, n))
        return self.arr(a / np.linalg.norm(a, axis=0))

    def cs(self, m=None, n=None, k=None):
        m = m or self.pick(12, 16)
        n = n or self.pick(20, 24)
        A = self.dictionary(m, n)
        x = self.sparse(n, k or self.pick(2, 3))
        b = self.arr(np.asarray(A, dtype=np.float64) @ np.asarray(x, dtype=np.float64))     # rounds the same whatever the BLAS kernel does
        return A, b, x

    def sym(self, n, spread=0.5):
        """A symmetric system, for compiled solves that take the operator as a constant: XLA's CPU compiler
        sometimes (about one process in 50) reads a constant matrix in a compiled loop with its two axes swapped
        (DESIGN.md section 5); a symmetric matrix reads the same either way."""
        v = self.g.standard_normal(n)
        H = np.eye(n) - 2 * np.outer(v, v) / (v @ v)
        S = H @ np.diag(1 - spread * self.g.random(n)) @ H
        A = self.arr((S + S.T) / 2)
        x = self.sparse(n, 2)
        return A, self.arr(np.asarray(A, dtype=np.float64) @ np.asarray(x, dtype=np.float64)), x


def prepare(name, v, as_np=False, keyseed=None):
    e = ENTRIES[name]
    c = Case(name, v, as_np=as_np and e.np_ok, keyseed=keyseed)
    fn = e.build(c)
    if c.as_np and e.np_soft:
        fn = lenient(fn)
    return c, fn


def lenient(fn):
    @functools.wraps(fn)
    def call():
        try:
            return fn()
        except (AttributeError, TypeError, ValueError) as exc:
            return "not accepted: " + type(exc).__name__
    return call


def quiet(fn):
    """What a call prints goes wherever the process's output goes (nowhere, in a worker)."""
    return fn()


def other(x):
    """A second input of the same kind."""
    a = np.flip(np.asarray(x)) * np.float32(2) + np.float32(0.5)
    return aligned(a) if isinstance(x, np.ndarray) else jnp.asarray(a)


def with_object(fn, make, uses):
    """fn builds an object and uses it; make/uses let a simulation keep one object for several uses."""
    fn.make, fn.uses = make, uses
    return fn


def linear_uses(x, y=None, back=None):
    x2 = other(x)
    if y is not None:
        y2 = other(y)
        return [lambda T: T.times(x), lambda T: T.trans(y), lambda T: T.times(x2), lambda T: T.trans(y2)]
    if back is not None:
        return [lambda T: T.trans(x), lambda T: T.trans(x2), lambda T: T.times(T.trans(x))]
    return [lambda T: T.times(x), lambda T: T.times(x2), lambda T: T.trans(T.times(x))]


# ------------------------------------------------------------------ lop
def apply_op(c, make, m, n, cplx=False, mat=True):
    x = c.cnormal(*n) if cplx else c.normal(*n)
    y = c.cnormal(*m) if cplx else c.normal(*m)

    def fn():
        T = make()
        out = [T.times(x), T.trans(y), T.shape]
        return out
    return with_object(fn, make, linear_uses(x, y))


def op(name, cplx=False, **kw):
    """fn(c) -> (make, out shape, in shape)"""
    def deco(fn):
        def build(c):
            make, m, n = fn(c)
            tup = lambda s: s if isinstance(s, tuple) else (s,)
            return apply_op(c, make, tup(m), tup(n), cplx)
        ENTRIES["lop." + name] = Entry("lop." + name, build, **kw)
        return fn
    return deco


N1 = (8, 12, 16)


def ax(c, n, other=3):
    """axis and a matching (n, other) / (other, n) / (n,) shape."""
    a = c.pick(0, 0, 1)
    if a == 0:
        return 0, c.pick((n,), (n, other))
    return 1, (other, n)


@op("identity")
def _(c):
    n = c.pick(*N1); return (lambda: lop.identity(n)), n, n


@op("identity-rect")
def _(c):
    n = c.pick(8, 12); m = c.pick(6, 10); return (lambda: lop.identity(n, m)), m, n


@op("zero")
def _(c):
    n = c.pick(8, 12); m = c.pick(6, 10); return (lambda: lop.zero(n, m)), m, n


@op("dot")
def _(c):
    n = c.pick(*N1); v = c.normal(n); return (lambda: lop.dot(v)), (), n


@op("matrix")
def _(c):
    m, n = c.pick(6, 8), c.pick(10, 12); A = c.normal(m, n); return (lambda: lop.matrix(A)), m, n


@op("matrix-axis1")
def _(c):
    m, n = c.pick(6, 8), c.pick(10, 12); A = c.normal(m, n); return (lambda: lop.matrix(A, axis=1)), (3, m), (3, n)


@op("matrix-complex", cplx=True)
def _(c):
    m, n = c.pick(6, 8), c.pick(10, 12); A = c.cnormal(m, n); return (lambda: lop.matrix(A)), m, n


@op("real_matrix")
def _(c):
    m, n = c.pick(6, 8), c.pick(10, 12); A = c.normal(m, n); return (lambda: lop.real_matrix(A)), m, n


@op("sparse_real_matrix")
def _(c):
    from jax.experimental import sparse as jsp
    m, n = c.pick(6, 8), c.pick(10, 12)
    A = jsp.BCOO.fromdense(jnp.asarray(c.g.standard_normal((m, n)) * (c.g.random((m, n)) < 0.4), dtype=jnp.float32))
    return (lambda: lop.sparse_real_matrix(A)), m, n


@op("scalar_mult")
def _(c):
    n = c.pick(*N1); a = c.pick(2.0, -0.5); return (lambda: lop.scalar_mult(a, n)), n, n


@op("diagonal")
def _(c):
    n = c.pick(*N1); a, s = ax(c, n); d = c.normal(n); return (lambda: lop.diagonal(d, axis=a)), s, s


@op("flipud")
def _(c):
    n = c.pick(*N1); return (lambda: lop.flipud(n)), n, n


@op("sum")
def _(c):
    n = c.pick(*N1); return (lambda: lop.sum(n)), (), n


@op("pad_zeros")
def _(c):
    n, b, a = c.pick(8, 10), c.pick(1, 3), c.pick(2, 4); return (lambda: lop.pad_zeros(n, b, a)), n + a + b, n


@op("symmetrize")
def _(c):
    n = c.pick(*N1); return (lambda: lop.symmetrize(n)), 2 * n, n


@op("restriction")
def _(c):
    n = c.pick(12, 16); k = c.pick(3, 5); I = c.arr(np.sort(c.g.choice(n, k, replace=False))); return (lambda: lop.restriction(n, I)), k, n


@op("heaviside")
def _(c):
    n = c.pick(8, 12); nz = c.pick(True, False); return (lambda: lop.heaviside(n, normalized=nz)), n, n


@op("inv_heaviside")
def _(c):
    n = c.pick(8, 12); nz = c.pick(True, False); return (lambda: lop.inv_heaviside(n, normalized=nz)), n, n


@op("cumsum")
def _(c):
    n = c.pick(8, 12); return (lambda: lop.cumsum(n)), n, n


@op("diff")
def _(c):
    n = c.pick(8, 12); return (lambda: lop.diff(n)), n - 1, n


@op("arr2vec")
def _(c):
    s = c.pick((3, 4), (2, 6)); return (lambda: lop.arr2vec(s)), s[0] * s[1], s


@op("reshape")
def _(c):
    s, t = c.pick(((3, 4), (2, 6)), ((4, 4), (2, 8))); o = c.pick("C", "F"); return (lambda: lop.reshape(s, t, order=o)), t, s


@op("real", cplx=True)
def _(c):
    n = c.pick(*N1); return (lambda: lop.real(n)), n, n


@op("running_average")
def _(c):
    n, l = c.pick(8, 16), c.pick(3, 5); return (lambda: lop.running_average(n, l)), n, n


@op("fir_filter")
def _(c):
    n = c.pick(8, 16); h = c.normal(c.pick(3, 5)); return (lambda: lop.fir_filter(n, h)), n, n


@op("convolve")
def _(c):
    n = c.pick(8, 16); h = c.normal(c.pick(3, 5)); o = c.pick(0, 1, 2); return (lambda: lop.convolve(n, h, offset=o)), n, n


@op("convolve2D")
def _(c):
    s = c.pick((6, 8), (8, 8)); h = c.normal(3, 3); o = c.pick((0, 0), (1, 1), (1, 2)); return (lambda: lop.convolve2D(s, h, offset=o)), s, s


@op("convolveND")
def _(c):
    s = c.pick((4, 4, 3), (5, 4, 3)); h = c.normal(2, 2, 2); o = c.pick((0, 0, 0), (1, 0, 1)); return (lambda: lop.convolveND(s, h, offset=o)), s, s


@op("fourier_basis", cplx=True)
def _(c):
    n = c.pick(8, 16); return (lambda: lop.fourier_basis(n)), n, n


@op("dirac_fourier_basis", cplx=True)
def _(c):
    n = c.pick(8, 16); return (lambda: lop.dirac_fourier_basis(n)), n, 2 * n


@op("cosine_basis")
def _(c):
    n = c.pick(8, 16); return (lambda: lop.cosine_basis(n)), n, n


@op("walsh_hadamard_basis")
def _(c):
    n = c.pick(8, 16); return (lambda: lop.walsh_hadamard_basis(n)), n, n


@entry("lop.fft")
def _(c):
    m = c.pick(8, 16); n = c.pick(None, m * 2); mode = c.pick("r2c", "c2c")
    x = c.normal(m) if mode == "r2c" else c.cnormal(m)
    nn = n or m
    y = c.cnormal(nn // 2 + 1 if mode == "r2c" else nn)

    def fn():
        T = lop.fft(m, n, mode=mode)
        return [T.times(x), T.trans(y)]
    return with_object(fn, lambda: lop.fft(m, n, mode=mode), linear_uses(x, y))


@entry("lop.dwt", np_ok=False)
def _(c):
    n, w, l = c.pick(16, 32), c.pick("haar", "db2", "db3"), c.pick(1, 2)
    x = c.normal(n)

    def fn():
        T = lop.dwt(n, wavelet=w, level=l)
        y = T.times(x)
        return [y, T.trans(y)]
    return with_object(fn, lambda: lop.dwt(n, wavelet=w, level=l), linear_uses(x))


@entry("lop.dwt-basis", np_ok=False)
def _(c):
    n, w = c.pick(32, 64), c.pick("haar", "db2", "db4")
    x = c.normal(n)

    def fn():
        T = lop.dwt(n, wavelet=w, level=2, basis=True)
        y = T.times(x)
        return [y, T.trans(y)]
    return with_object(fn, lambda: lop.dwt(n, wavelet=w, level=2, basis=True), linear_uses(x))


@entry("lop.dwt2D", np_ok=False)
def _(c):
    s, w = c.pick((8, 8), (16, 8)), c.pick("haar", "db2")
    x = c.normal(*s)

    def fn():
        T = lop.dwt2D(s, wavelet=w, level=1)
        y = T.times(x)
        return [y, T.trans(y)]
    return with_object(fn, lambda: lop.dwt2D(s, wavelet=w, level=1), linear_uses(x))


@op("first_derivative", np_ok=False)
def _(c):
    n = c.pick(8, 12); k = c.pick("forward", "backward", "centered"); dx = c.pick(1.0, 0.5); return (lambda: lop.first_derivative(n, dx=dx, kind=k)), n, n


@op("second_derivative")
def _(c):
    n = c.pick(8, 12); dx = c.pick(1.0, 0.5); return (lambda: lop.second_derivative(n, dx=dx)), n, n


@op("tv")
def _(c):
    n = c.pick(8, 12); k = c.pick("regular", "dirichlet", "circular"); return (lambda: lop.tv(n, kind=k)), n - 1 if k == "regular" else n, n


@entry("lop.tv2D", np_ok=False)
def _(c):
    s = c.pick((4, 5), (6, 6)); k = c.pick("regular", "dirichlet", "circular")
    x = c.normal(*s)

    def fn():
        T = lop.tv2D(s, kind=k)
        y = T.times(x)
        return [y, T.trans(y)]
    return with_object(fn, lambda: lop.tv2D(s, kind=k), linear_uses(x))


@op("circulant")
def _(c):
    n = c.pick(8, 12); h = c.normal(c.pick(3, n)); return (lambda: lop.circulant(n, h)), n, n


def keyed_op(name, make, mn, **kw):
    def build(c):
        m, n = c.pick(*mn)
        key = c.key()
        mk = make(c, key, m, n)
        return apply_op(c, mk, (m,), (n or m,))
    ENTRIES["lop." + name] = Entry("lop." + name, build, key=True, **kw)


MN = ((6, 10), (8, 10), (8, 12))
keyed_op("gaussian_dict", lambda c, k, m, n: (lambda nz=c.pick(True, False): lop.gaussian_dict(k, m, n, normalize_atoms=nz)), MN)
keyed_op("rademacher_dict", lambda c, k, m, n: (lambda nz=c.pick(True, False): lop.rademacher_dict(k, m, n, normalize_atoms=nz)), MN)
keyed_op("sparse_binary_dict", lambda c, k, m, n: (lambda d=c.pick(3, 4), de=c.pick(True, False): lop.sparse_binary_dict(k, m, n, d=d, dense=de)), MN)
keyed_op("random_onb_dict", lambda c, k, m, n: (lambda: lop.random_onb_dict(k, m)), ((8, None), (6, None)))
keyed_op("random_orthonormal_rows_dict", lambda c, k, m, n: (lambda: lop.random_orthonormal_rows_dict(k, m, n)), MN)
keyed_op("binary_dict_alg", lambda c, k, m, n: (lambda: lop.binary_dict_alg(k, m, n)), ((8, 16), (4, 8), (8, 8)), np_ok=False)


@entry("lop.dot_test_real", key=True, varies=False)
def _(c):
    m, n = c.pick(*MN); A = c.normal(m, n); k = c.key()
    return lambda: lop.dot_test_real(k, lop.matrix(A), tol=1e-3)


@entry("lop.dot_test_complex", key=True, varies=False)
def _(c):
    m, n = c.pick(*MN); A = c.cnormal(m, n); k = c.key()
    return lambda: [lop.dot_test_complex(k, lop.matrix(A), tol=1e-3), lop.rdot_test_complex(k, lop.matrix(A), tol=1e-3)]


# algebra
def algebra(name, make, m, n):
    def build(c):
        a, b = c.pick(6, 8), c.pick(10, 12)
        A, B = c.normal(a, b), c.normal(a, b)
        return apply_op(c, lambda: make(lop.matrix(A), lop.matrix(B), c), (m(a, b),), (n(a, b),))
    ENTRIES["lop." + name] = Entry("lop." + name, build)


_a, _b = (lambda a, b: a), (lambda a, b: b)
algebra("neg", lambda A, B, c: lop.neg(A), _a, _b)
algebra("scale", lambda A, B, c: lop.scale(A, 0.5 + c.v), _a, _b)
algebra("add", lambda A, B, c: lop.add(A, B), _a, _b)
algebra("subtract", lambda A, B, c: lop.subtract(A, B), _a, _b)
algebra("compose", lambda A, B, c: lop.compose(A, lop.transpose(B)), _a, _a)
algebra("transpose", lambda A, B, c: lop.transpose(A), _b, _a)
algebra("hermitian", lambda A, B, c: lop.hermitian(A), _b, _a)
algebra("adjoint", lambda A, B, c: lop.adjoint(A), _b, _a)
algebra("hcat", lambda A, B, c: lop.hcat(A, B), _a, lambda a, b: 2 * b)
algebra("power", lambda A, B, c: lop.power(lop.compose(A, lop.transpose(B)), 2 + c.v % 2), _a, _a)
algebra("gram", lambda A, B, c: lop.gram(A), _b, _b)
algebra("frame", lambda A, B, c: lop.frame(A), _a, _a)
algebra("jit", lambda A, B, c: lop.jit(lop.add(A, lop.scale(B, 2.0))), _a, _b)
algebra("partial_op", lambda A, B, c: lop.partial_op(A, jnp.array([0, 2 + c.v % 3, 5])), lambda a, b: 3, _b)
algebra("block_diag", lambda A, B, c: lop.block_diag([A, B]), lambda a, b: 2 * a, lambda a, b: 2 * b)


@entry("lop.partial_op-perm")
def _(c):
    a, b = c.pick(6, 8), c.pick(10, 12)
    A = c.normal(a, b); picks = c.arr(c.g.choice(a, 3, replace=False)); perm = c.arr(c.g.permutation(b))
    return apply_op(c, lambda: lop.partial_op(lop.matrix(A), picks, perm), (3,), (b,))


@entry("lop.windowed_op", np_ok=False)
def _(c):
    T = None; k = c.pick(4, 8); ov = c.pick(0, k // 2); m = c.pick(24, 32)
    x = c.normal(m)

    def fn():
        W = lop.windowed_op(m, lop.cosine_basis(k), overlap=ov)
        z = W.trans(x)
        return [z, W.times(z), W.shape]
    return with_object(fn, lambda: lop.windowed_op(m, lop.cosine_basis(k), overlap=ov), linear_uses(x, back=True))


@entry("lop.columns")
def _(c):
    A = c.normal(8, 12); I = c.arr(np.array([1, 3 + c.v, 10]))
    return lambda: [lop.column(lop.matrix(A), c.v), lop.columns(lop.matrix(A), I)]


@entry("lop.to_matrix")
def _(c):
    A = c.normal(c.pick(6, 8), c.pick(6, 10))
    return lambda: [lop.to_matrix(lop.matrix(A)), lop.to_adjoint_matrix(lop.matrix(A)), lop.to_complex_matrix(lop.matrix(A))]


@entry("lop.normest")
def _(c):
    A = c.normal(c.pick(6, 8), c.pick(6, 10))
    k = c.pick(3, 20)
    return lambda: lop.normest(lop.matrix(A), max_iters=k)


@entry("lop.normest_jit", np_ok=False)
def _(c):
    A = c.normal(c.pick(6, 8), c.pick(6, 10))
    return lambda: lop.normest_jit(lop.jit(lop.matrix(A)))


@entry("lop.upper_frame_bound")
def _(c):
    A = c.normal(c.pick(6, 8), c.pick(10, 12))
    return lambda: lop.upper_frame_bound(lop.matrix(A))


# ------------------------------------------------------------------ opt
def vec_fn(name, make, n=N1, pos=False, **kw):
    """make(c, n) -> thunk returning a callable applied to x"""
    def build(c):
        k = c.pick(*n)
        mk = make(c, k)
        x = c.uniform(k) if pos else c.normal(k)
        t = c.pick(0.5, 1.0, 2.0)

        def use(f, x):
            if hasattr(f, "prox_op"):
                return [f.func(x), f.prox_op(x, t), f.prox_vec_val(x, t)]
            if hasattr(f, "grad_val"):
                return [f.func(x), f.grad(x), f.grad_val(x)]
            return f(x)
        x2 = other(x)
        return with_object(lambda: use(mk(), x), mk, [lambda f: use(f, x), lambda f: use(f, x2)])
    ENTRIES["opt." + name] = Entry("opt." + name, build, **kw)


Q = (0.5, 1.0, 2.0)
vec_fn("project_to_ball", lambda c, n: (lambda r=c.pick(*Q): lambda x: opt.project_to_ball(x, r)))
vec_fn("project_to_box", lambda c, n: (lambda r=c.pick(*Q): lambda x: opt.project_to_box(x, r)))
vec_fn("project_to_real_upper_limit", lambda c, n: (lambda r=c.pick(*Q): lambda x: opt.project_to_real_upper_limit(x, r)))
vec_fn("shrink", lambda c, n: (lambda r=c.pick(*Q): lambda x: opt.shrink(x, r)))
vec_fn("proj_zero", lambda c, n: opt.proj_zero)
vec_fn("proj_identity", lambda c, n: opt.proj_identity)
vec_fn("proj_singleton", lambda c, n: (lambda z=c.normal(n): opt.proj_singleton(z)))
vec_fn("proj_affine", lambda c, n: (lambda A=c.normal(3, n), b=c.normal(3): opt.proj_affine(A, b)))
vec_fn("proj_box", lambda c, n: (lambda l=c.pick(-1.0, -0.2), u=c.pick(0.3, 1.0): opt.proj_box(l, u)))
vec_fn("proj_box-vec", lambda c, n: (lambda l=c.arr(-np.abs(c.g.random(n))), u=c.uniform(n): opt.proj_box(l, u)))
vec_fn("proj_conic", lambda c, n: opt.proj_conic)
vec_fn("proj_l1_ball", lambda c, n: (lambda q=c.pick(*Q): opt.proj_l1_ball(q)))
vec_fn("proj_l1_ball-center", lambda c, n: (lambda q=c.pick(*Q), b=c.normal(n): opt.proj_l1_ball(q, b)))
vec_fn("proj_l2_ball", lambda c, n: (lambda q=c.pick(*Q): opt.proj_l2_ball(q)))
vec_fn("proj_l2_ball-center", lambda c, n: (lambda q=c.pick(*Q), b=c.normal(n): opt.proj_l2_ball(q, b)))
vec_fn("indicator_zero", lambda c, n: opt.indicator_zero)
vec_fn("indicator_singleton", lambda c, n: (lambda z=c.normal(n): opt.indicator_singleton(z)))
vec_fn("indicator_affine", lambda c, n: (lambda A=c.normal(3, n), b=c.normal(3): opt.indicator_affine(A, b)))
vec_fn("indicator_box", lambda c, n: (lambda l=c.pick(-3.0, -0.2), u=c.pick(0.3, 3.0): opt.indicator_box(l, u)))
vec_fn("indicator_box_affine", lambda c, n: (lambda a=c.normal(n), l=c.pick(-3.0, -1.0), t=c.pick(1e-3, 10.0): opt.indicator_box_affine(l, 3.0, a, 0.5, tol=t)))
vec_fn("indicator_conic", lambda c, n: opt.indicator_conic)
vec_fn("indicator_l1_ball", lambda c, n: (lambda q=c.pick(0.5, 50.0): opt.indicator_l1_ball(q)))
vec_fn("indicator_l1_ball-A", lambda c, n: (lambda q=c.pick(0.5, 50.0), b=c.normal(4), A=c.normal(4, n): opt.indicator_l1_ball(q, b, A)))
vec_fn("indicator_l2_ball", lambda c, n: (lambda q=c.pick(0.5, 50.0): opt.indicator_l2_ball(q)))
vec_fn("indicator_l2_ball-A", lambda c, n: (lambda q=c.pick(0.5, 50.0), b=c.normal(4), A=c.normal(4, n): opt.indicator_l2_ball(q, b, A)))
vec_fn("prox_zero", lambda c, n: opt.prox_zero)
vec_fn("prox_l1", lambda c, n: (lambda q=c.pick(*Q): opt.prox_l1(q)))
vec_fn("prox_l2", lambda c, n: (lambda q=c.pick(*Q): opt.prox_l2(q)))
vec_fn("prox_l1_pos", lambda c, n: (lambda q=c.pick(*Q): opt.prox_l1_pos(q)))
vec_fn("prox_l1_ball", lambda c, n: (lambda q=c.pick(*Q): opt.prox_l1_ball(q)))
vec_fn("prox_owl1", lambda c, n: (lambda l=c.arr(np.sort(c.g.random(n))[::-1]): opt.prox_owl1(l)), n=(6, 8))
vec_fn("prox_owl1-const", lambda c, n: (lambda l=c.pick(0.5, 1.0): opt.prox_owl1(l)), n=(6, 8))
vec_fn("moreau_envelope", lambda c, n: (lambda m=c.pick(0.5, 2.0): opt.moreau_envelope(opt.prox_l1(1.0), m)))
vec_fn("smooth_constant", lambda c, n: (lambda m=c.pick(0.5, 2.0): opt.smooth_constant(m)))
vec_fn("smooth_entropy", lambda c, n: opt.smooth_entropy, pos=True)
vec_fn("smooth_entropy_vg", lambda c, n: opt.smooth_entropy_vg, pos=True)
vec_fn("smooth_huber", lambda c, n: (lambda m=c.pick(0.5, 2.0): opt.smooth_huber(m)))
vec_fn("smooth_linear", lambda c, n: (lambda C=c.normal(n), d=c.pick(0.5, 2.0): opt.smooth_linear(C, d)))
vec_fn("smooth_quad_matrix", lambda c, n: (lambda q=c.normal(n), d=c.pick(0.5, 2.0): opt.smooth_quad_matrix(jnp.eye(n) * d, q, 1.0)))
vec_fn("smooth_quad_error", lambda c, n: (lambda A=c.normal(4, n), b=c.normal(4): opt.smooth_quad_error(A, b)))
vec_fn("smooth_func_translate", lambda c, n: (lambda b=c.normal(n): opt.smooth_func_translate(opt.smooth_huber(0.5), b)))
vec_fn("smooth_build", lambda c, n: (lambda a=c.pick(1.0, 3.0): opt.smooth_build(lambda x: a * jnp.sum(x ** 2))))
vec_fn("build_from_ind_proj", lambda c, n: (lambda q=c.pick(*Q): opt.build_from_ind_proj(opt.indicator_l2_ball(q), (lambda P: lambda x, t: P(x))(opt.proj_l2_ball(q)))))


@entry("opt.smooth_logdet", np_ok=False)
def _(c):
    n = c.pick(3, 4)
    B = c.g.standard_normal((n, n)); X = c.arr(B @ B.T + np.eye(n)); q = c.pick(0.5, 1.0)

    def fn():
        f = opt.smooth_logdet(q)
        return [f.func(X), f.grad(X)]
    return fn


def spd(c, n):
    B = c.g.standard_normal((n, n))
    return c.arr(B @ B.T / n + np.eye(n))


@entry("opt.cg")
def _(c):
    n = c.pick(6, 8); A = spd(c, n); b = c.normal(n); k = c.pick(2, 8); j = c.pick(True, False)
    x0 = c.normal(n)
    return lambda: [(cg.solve_jit if j else cg.solve)(A, b, max_iters=k), (cg.solve_from_jit if j else cg.solve_from)(A, b, x0, max_iters=k)]


@entry("opt.pcg", np_ok=False)
def _(c):
    n = c.pick(6, 8); A = spd(c, n); b = c.normal(n); k = c.pick(2, 8); w = c.uniform(n); pre = c.pick(True, False)
    x0 = c.normal(n)
    kw = {"M": lambda r: r * (1 + w)} if pre else {}
    return lambda: [pcg.solve(lambda v: A @ v, b, max_iters=k, **kw), pcg.solve_from(lambda v: A @ v, b, x0, max_iters=k, tol=1e-2, **kw)]


@entry("opt.spg", np_ok=False)
def _(c):
    n = c.pick(4, 6); A = c.normal(8, n); b = c.normal(8); k = c.pick(2, 4); x0 = c.normal(n)
    q = c.pick(0.5, 1.0)
    return lambda: spg.solve_from(opt.smooth_quad_error(A, b), opt.proj_l2_ball(q), x0, spg.SPGOptions(max_iters=k))


# ------------------------------------------------------------------ dict / data / geo / vision
def simple(name, fn, **kw):
    ENTRIES[name] = Entry(name, fn, **kw)


def nd(c):
    return c.pick(6, 8), c.pick(10, 12)


simple("dict.gaussian_mtx", lambda c: (lambda k, s, z: lambda: crdict.gaussian_mtx(k, *s, normalize_atoms=z))(c.key(), nd(c), c.pick(True, False)), key=True)
simple("dict.rademacher_mtx", lambda c: (lambda k, s, z: lambda: crdict.rademacher_mtx(k, *s, normalize_atoms=z))(c.key(), nd(c), c.pick(True, False)), key=True)
simple("dict.sparse_binary_mtx", lambda c: (lambda k, s, d, z: lambda: crdict.sparse_binary_mtx(k, *s, d=d, normalize_atoms=z, dense=True))(c.key(), nd(c), c.pick(2, 3), c.pick(True, False)), key=True)
simple("dict.random_onb", lambda c: (lambda k, n: lambda: crdict.random_onb(k, n))(c.key(), c.pick(6, 8)), key=True)
simple("dict.random_orthonormal_rows", lambda c: (lambda k, s: lambda: crdict.random_orthonormal_rows(k, *s))(c.key(), nd(c)), key=True)
for _nm in ("hadamard", "hadamard_basis", "dirac_hadamard_basis", "cosine_basis", "dirac_cosine_basis", "dirac_hadamard_cosine_basis", "fourier_basis"):
    simple("dict." + _nm, lambda c, f=getattr(crdict, _nm): (lambda n: lambda: f(n))(c.pick(4, 8, 16)))
simple("dict.wavelet_basis", lambda c: (lambda n, w, l: lambda: crdict.wavelet_basis(n, w, l))(c.pick(16, 32), c.pick("haar", "db2", "db3"), c.pick(1, 2)))
for _nm in ("gram", "frame", "coherence_with_index", "coherence", "frame_bounds", "upper_frame_bound", "lower_frame_bound", "babel"):
    simple("dict." + _nm, lambda c, f=getattr(crdict, _nm): (lambda A: lambda: f(A))(c.dictionary(*nd(c))), np_ok=False)
for _nm in ("mutual_coherence_with_index", "mutual_coherence", "matching_atoms_ratio"):
    simple("dict." + _nm, lambda c, f=getattr(crdict, _nm): (lambda A, B: lambda: f(A, B))(c.dictionary(8, 12), c.dictionary(8, c.pick(10, 12))), np_ok=False)
simple("dict.build_grassmannian_frame", lambda c: (lambda A, k, f: lambda: crdict.build_grassmannian_frame(A, frac=f, iterations=k))(c.arr(np.asarray(c.normal(4, c.pick(6, 8))) * c.pick(1.0, 2.5)), c.pick(2, 5), c.pick(0.8, 0.9)), np_ok=False)
simple("dict.minimum_coherence", lambda c: (lambda s: lambda: crdict.minimum_coherence(*s))(nd(c)))

D = crdata
simple("data.sparse_normal_representations", lambda c: (lambda k, d, s, S: lambda: D.sparse_normal_representations(k, d, s, S))(c.key(), c.pick(12, 16), c.pick(2, 4), c.pick(1, 4)), key=True)
simple("data.sparse_biuniform_representations", lambda c: (lambda k, d, s, S: lambda: D.sparse_biuniform_representations(k, 1.0, 2.0, d, s, S))(c.key(), c.pick(12, 16), c.pick(2, 4), c.pick(1, 4)), key=True)
simple("data.sparse_spikes", lambda c: (lambda k, d, s, S: lambda: D.sparse_spikes(k, d, s, S))(c.key(), c.pick(12, 16), c.pick(2, 4), c.pick(1, 4)), key=True)
simple("data.index_sets", lambda c: (lambda k, d, s, S, o: lambda: D.index_sets(k, d, s, S, o))(c.key(), c.pick(12, 16), c.pick(4, 6), c.pick(2, 4), c.pick(0, 1)), key=True)
simple("data.points_orthogonal_to", lambda c: (lambda k, x, S: lambda: D.points_orthogonal_to(k, x, S))(c.key(), c.normal(c.pick(6, 8)), c.pick(1, 3)), key=True)
simple("data.sparse_normal_blocks", lambda c: (lambda k, n, kk, b, S, r, z: lambda: D.sparse_normal_blocks(k, n, kk, b, S, r, z))(c.key(), c.pick(16, 24), c.pick(1, 2), 4, c.pick(1, 3), c.pick(0.0, 0.5, 0.9), c.pick(True, False)), key=True)
simple("data.random_subspaces", lambda c: (lambda k, n, d, s, j: lambda: (D.random_subspaces_jit if j else D.random_subspaces)(k, n, d, s))(c.key(), c.pick(6, 8), c.pick(2, 3), c.pick(2, 3), c.pick(True, False)), key=True)
simple("data.uniform_points_on_subspaces", lambda c: (lambda k, b, n: lambda: D.uniform_points_on_subspaces(k, b, n))(c.key(), c.normal(c.pick(2, 3), 6, 2), c.pick(3, 5)), key=True, np_ok=False)
simple("data.two_subspaces_at_angle", lambda c: (lambda k, t, d: lambda: D.two_subspaces_at_angle(k, 12, d, t))(c.key(), c.pick(0.3, 1.0), c.pick(2, 3)), key=True)
simple("data.three_subspaces_at_angle", lambda c: (lambda k, t, d: lambda: D.three_subspaces_at_angle(k, 12, d, t))(c.key(), c.pick(0.3, 1.0), c.pick(2, 3)), key=True)

for _nm in ("half_threshold", "hard_threshold", "soft_threshold"):
    simple("geo." + _nm, lambda c, f=getattr(geo, _nm), j=getattr(geo, _nm + "_jit"): (lambda x, t, u: lambda: (j if u else f)(x, t))(c.normal(c.pick(8, 12)), c.pick(0.2, 0.5, 1.0), c.pick(True, False)))
    simple("geo." + _nm + "_percentile", lambda c, f=getattr(geo, _nm + "_percentile"): (lambda x, t: lambda: f(x, t))(c.normal(c.pick(8, 12)), c.pick(20.0, 50.0, 80.0)))
simple("geo.ricker", lambda c: (lambda t, f: lambda: geo.ricker(t, f))(c.arr(np.linspace(0, 0.2, c.pick(11, 21))), c.pick(10, 15)))
simple("geo.gamma_to_tau", lambda c: (lambda g: lambda: [geo.gamma_to_tau_half_threshold(g), geo.gamma_to_tau_hard_threshold(g)])(c.pick(0.5, 1.0, 2.0)))
simple("vision.kernel_gaussian", lambda c: (lambda s, z: lambda: vision.kernel_gaussian(s, z))(c.pick(3, 5), c.pick(0.5, 1.0, 2.0)))
simple("vision.constants", lambda c: (lambda: [vision.KERNEL_BOX_3X3, vision.KERNEL_BOX_5X5, vision.KERNEL_SHARPEN_3X3, vision.KERNEL_LAPLACIAN_3X3, vision.KERNEL_SOBEL_X, vision.KERNEL_SOBEL_Y]), variants=1)

# ------------------------------------------------------------------ cluster
simple("cluster.sizes", lambda c: (lambda l: lambda: [cluster.sizes_from_labels(l, 4), cluster.sizes_from_labels_jit(l, 4)])(c.arr(c.g.integers(0, 4, c.pick(10, 14)))))
simple("cluster.layout", lambda c: (lambda s: lambda: [cluster.start_end_indices(s), cluster.labels_from_sizes(s)])(c.arr(c.g.integers(1, 5, 4))))
simple("cluster.best_map", lambda c: (lambda a, b: lambda: [cluster.best_map(a, b), cluster.best_map_k(a, b, 3)])(c.arr(np.r_[0, 1, 2, c.g.integers(0, 3, 9)]), c.arr(np.r_[2, 0, 1, c.g.integers(0, 3, 9)])))
simple("cluster.clustering_error", lambda c: (lambda a, b: lambda: [tuple(cluster.clustering_error(a, b)[3:6]), tuple(cluster.clustering_error_k(a, b, 3)[3:6])])(c.arr(np.r_[0, 1, 2, c.g.integers(0, 3, 9)]), c.arr(np.r_[2, 0, 1, c.g.integers(0, 3, 9)])))


def points(c, n=None, d=2, k=3):
    n = n or c.pick(12, 15)
    ctr = 5 * c.g.standard_normal((k, d))
    return c.arr(ctr[c.g.integers(0, k, n)] + 0.4 * c.g.standard_normal((n, d)))


simple("cluster.kmeans_with_seed", lambda c: (lambda k, p, m, j: lambda: (vq.kmeans_with_seed_jit if j else vq.kmeans_with_seed)(k, p, 3, max_iters=m))(c.key(), points(c), c.pick(2, 8), c.pick(True, False)), key=True, varies=False, np_ok=False)
simple("cluster.kmeans", lambda c: (lambda k, p, m, j: lambda: (vq.kmeans_jit if j else vq.kmeans)(k, p, 3, iter=2, max_iters=m))(c.key(), points(c), c.pick(2, 8), c.pick(True, False)), key=True, varies=False, np_ok=False)
simple("cluster.vq", lambda c: (lambda p, z: lambda: [vq.find_nearest(p[0], z), vq.find_assignment(p, z), vq.find_new_centroids(vq.find_assignment(p, z)[0], p, 3), vq.assignment_counts(vq.find_assignment(p, z)[0], 3)])(points(c), c.normal(3, 2)), np_ok=False)


def affinity(c):
    n = 10
    W = c.g.random((n, n)) * (np.add.outer(np.arange(n) // 5, -(np.arange(n) // 5)) == 0) + 0.01
    W = (W + W.T) / 2
    np.fill_diagonal(W, 0)
    return c.arr(W)


for _nm in ("unnormalized_k", "normalized_random_walk_k", "normalized_symmetric_fast_k"):
    simple("cluster." + _nm, lambda c, f=getattr(spectral, _nm), j=getattr(spectral, _nm + "_jit"): (lambda k, W, u: lambda: (j if u else f)(k, W, 2))(c.key(), affinity(c), c.pick(True, False)), key=True, varies=False, np_ok=False, heavy=True)
for _nm in ("unnormalized", "normalized_random_walk"):
    simple("cluster." + _nm, lambda c, f=getattr(spectral, _nm): (lambda k, W: lambda: f(k, W))(c.key(), affinity(c)), key=True, varies=False, np_ok=False, heavy=True)
simple("cluster.laplacians", lambda c: (lambda W: lambda: [spectral.normalized_random_walk_laplacian(W), spectral.normalized_symmetric_w(W)])(affinity(c)), np_ok=False)


def subspace_points(c):
    n, d, k, s = 6, 2, 2, 4
    cols = []
    for _ in range(k):
        B = np.linalg.qr(c.g.standard_normal((n, d)))[0]
        cols.append(B @ c.g.standard_normal((d, s)))
    X = np.concatenate(cols, axis=1)
    return c.arr(X / np.linalg.norm(X, axis=0))


simple("cluster.ssc_omp", lambda c: (lambda X, k, j: lambda: (ssc.build_representation_omp_jit if j else ssc.build_representation_omp)(X, k))(subspace_points(c), c.pick(1, 2), c.pick(True, False)), np_ok=False, heavy=True)
simple("cluster.ssc_batch_omp", lambda c: (lambda X, k: lambda: ssc.batch_build_representation_omp_jit(X, k, 4))(subspace_points(c), c.pick(1, 2)), np_ok=False, heavy=True)


def _ssc_stats(c):
    X = subspace_points(c); lab = c.arr(np.repeat([0, 1], 4))

    def fn():
        Z, I, R = ssc.build_representation_omp(X, 2)
        C = ssc.sparse_to_full_rep(Z, I)
        A = ssc.rep_to_affinity(C)
        ang = ssc.angles_between_points(X)
        return [C, A, ang, ssc.subspace_preservation_stats(C, lab), ssc.sparse_subspace_preservation_stats(Z, I, lab)]
    return fn


simple("cluster.ssc_stats", _ssc_stats, np_ok=False, heavy=True)


def _ssc_angles(c):
    X = subspace_points(c); sizes = c.arr(np.array([4, 4]))

    def fn():
        ang = ssc.angles_between_points(X)
        return [ssc.min_angles_inside_cluster(ang, sizes), ssc.min_angles_outside_cluster(ang, sizes),
                ssc.nearest_neighbors_inside_cluster(ang, sizes), ssc.nearest_neighbors_outside_cluster(ang, sizes), ssc.sorted_neighbors(ang)]
    return fn


simple("cluster.ssc_angles", _ssc_angles, np_ok=False)

# ------------------------------------------------------------------ solvers
T4 = (1e-1, 1e-3, 1e-6)


def solver(name, build, **kw):
    kw.setdefault("np_ok", False)
    ENTRIES[name] = Entry(name, build, **kw)


def _gp(mod, jitname=None):
    def build(c):
        A, b, x = c.cs(); K = c.pick(2, 3); k = c.pick(2, 5)
        m = c.pick(0, 1, 2)
        if m == 0:
            return lambda: mod.matrix_solve(A, b, K, max_iters=k)
        if m == 1:
            return lambda: mod.operator_solve(lop.matrix(A), b, K, max_iters=k)
        return lambda: mod.matrix_solve_jit(A, b, K, max_iters=k)
    return build


for _nm, _mod in (("cosamp", cosamp), ("sp", sp), ("htp", htp), ("iht", iht)):
    solver("pursuit." + _nm, _gp(_mod), heavy=True)


def _gps(mod):
    def build(c):
        A, b, x = c.cs(m=12, n=20); K = c.pick(2, 3)
        T = lop.jit(lop.matrix(A))
        return lambda: mod.solve(T, b, K)
    return build


for _nm, _mod in (("cosamp", cosamp), ("sp", sp), ("htp", htp), ("iht", iht)):
    solver("pursuit." + _nm + ".solve", _gps(_mod), heavy=True, eager=False, variants=3)
solver("pursuit.omp", lambda c: (lambda A, b, K, m: lambda: [omp.matrix_solve, omp.matrix_solve_jit, lambda A, b, K: omp.operator_solve(lop.matrix(A), b, K)][m](A, b, K))(*c.cs()[:2], c.pick(2, 4), c.pick(0, 1, 2)), heavy=True)
solver("pursuit.omp-multi", lambda c: (lambda A, X: lambda: omp.matrix_solve_multi(A, A @ X, 2))(c.dictionary(12, 20), c.arr(np.stack([np.asarray(c.sparse(20, 2)) for _ in range(3)], axis=1))), heavy=True, eager=False, variants=3)
solver("pursuit.mp", lambda c: (lambda A, b, k, m, t: lambda: mp.matrix_solve(A, b, max_iters=k, res_norm_rtol=t) if m else mp.solve(lop.matrix(A), b, max_iters=k, res_norm_rtol=t))(*c.cs()[:2], c.pick(3, 10), c.pick(0, 1), c.pick(*T4)))
solver("pursuit.util", lambda c: (lambda h, K: lambda: [pursuit.abs_max_idx(h), pursuit.largest_indices(h, K)])(c.normal(c.pick(8, 12)), c.pick(2, 3)))
solver("pursuit.phasetransition", lambda c: (lambda n: lambda: quiet(lambda: [phasetransition.configuration(n).Ms, phasetransition.configuration(n).rhos, sorted(phasetransition.configuration(n).reverse_map.items())[:5]]))(c.pick(32, 64, 128)), variants=3, heavy=True)
solver("cvx.l1ls", lambda c: (lambda A, b, k, l: lambda: l1ls.solve(lop.matrix(A), b, l, max_iters=k, pcg_max_iters=10))(*c.cs(12, 20)[:2], c.pick(2, 3), c.pick(0.01, 0.1)), heavy=True)
solver("cvx.l1ls_jit", lambda c: (lambda A, b, l: (lambda T: lambda: l1ls.solve_jit(T, b, l))(lop.jit(lop.matrix(A))))(*c.sym(14)[:2], c.pick(0.01, 0.1)), heavy=True, eager=False, variants=3)


def _yall1(c):
    A, b, x = c.cs(12, 20)
    kw = c.pick({}, {"rho": 1e-2}, {"delta": 1e-2}, {"nonneg": True}, {"rho": 1e-2, "gamma": 1.2})
    k = c.pick(4, 12)
    w = c.pick(None, "w")
    if w:
        kw = dict(kw, weights=c.arr(0.5 + c.g.random(20)))
    return lambda: yall1.solve(lop.matrix(A), b, max_iters=k, jit=False, **kw)


solver("cvx.yall1", _yall1, heavy=True)


def _yall1_jit(c):
    A, b, x = c.sym(16, 0)
    kw = [{}, {"rho": 1e-2}, {"delta": 1e-2}, {"nonneg": True}, {"rho": 5e-2}, {"delta": 5e-2}][c.v]
    T = lop.jit(lop.matrix(A))
    return lambda: yall1.solve(T, b, **kw)


solver("cvx.yall1_jit", _yall1_jit, heavy=True, eager=False)


def _spgl1(c):
    A, b, x = c.cs(12, 20); k = c.pick(3, 6); o = spgl1.SPGL1Options(max_iters=k)
    m = c.pick(0, 1, 2); t = c.pick(1.0, 2.0); s = c.pick(0.05, 0.2)
    return lambda: [lambda: spgl1.solve_lasso(lop.matrix(A), b, t, options=o), lambda: spgl1.solve_bpic(lop.matrix(A), b, s, options=o),
                    lambda: spgl1.solve_bp(lop.matrix(A), b, options=o)][m]()


solver("cvx.spgl1", _spgl1, heavy=True)


def _spgl1_jit(c):
    A, b, x = c.sym(14); T = lop.jit(lop.matrix(A)); m = c.v % 3; t = c.pick(1.0, 2.0)
    return lambda: [lambda: spgl1.solve_lasso_jit(T, b, t), lambda: spgl1.solve_bpic_jit(T, b, t / 10), lambda: spgl1.solve_bp_jit(T, b)][m]()


solver("cvx.spgl1_jit", _spgl1_jit, heavy=True, eager=False)
solver("cvx.focuss", lambda c: (lambda A, b, p, k: lambda: focuss.matrix_solve_noiseless(A, b, p=p, max_iters=k))(*c.cs()[:2], c.pick(1.0, 0.8, 0.5), c.pick(3, 6)), heavy=True)
solver("sls.lsqr", lambda c: (lambda A, b, d, k, x: lambda: sls.lsqr(lop.matrix(A), b, x, damp=d, max_iters=k))(c.normal(12, 6), c.normal(12), c.pick(0, 0.1), c.pick(3, 8), c.arr(c.g.standard_normal(6) * c.pick(0, 1))), heavy=True)


def _ista(c):
    A, b, x = c.cs(12, 20); k = c.pick(4, 8); t = c.pick(0.01, 0.05); f = c.pick(sls.ista, sls.fista)
    thr = lambda i, x: opt.shrink(x, t)
    return lambda: f(lop.matrix(A), b, jnp.zeros(20), 0.3, threshold_func=thr, max_iters=k)


solver("sls.ista", _ista)
solver("sls.power", lambda c: (lambda A, b, k: lambda: sls.power_iterations(lop.matrix(A), b, max_iters=k))(spd(c, 6), c.normal(6), c.pick(3, 10)))
solver("sls.lanbpro", lambda c: (lambda A, p, k: lambda: svd.lanbpro(lop.matrix(A), k, p))(c.normal(10, 6), c.normal(10), c.pick(2, 4)), heavy=True)
solver("sls.lansvd", lambda c: (lambda A, p: lambda: svd.lansvd_simple(lop.matrix(A), 2, p))(c.normal(10, 6), c.normal(10)), heavy=True, variants=2)

def _shrink_thr(i, x):
    return opt.shrink(x, 0.02)


def _sls_jit(c):
    m = c.v % 6
    A, b, x = c.cs(12, 20)
    B = c.normal(10, 6); p = c.normal(10); S = spd(c, 6); q = c.normal(6); k = c.pick(2, 3); z = c.normal(6)
    T = lop.jit(lop.matrix(A)); U = lop.jit(lop.matrix(B)); W = lop.jit(lop.matrix(S))
    x0 = c.arr(np.zeros(20))
    return [lambda: sls.ista_jit(T, b, x0, 0.3, _shrink_thr, lop.identity(20), 1e-3, 1e-10, 2 * k),
            lambda: sls.fista_jit(T, b, x0, 0.3, _shrink_thr, lop.identity(20), 1e-3, 1e-10, 2 * k),
            lambda: sls.lsqr_jit(U, p, z, 0, 1e-8, 1e-8, 1e8, k),
            lambda: sls.power_iterations_jit(W, q, k, 1e-6),
            lambda: svd.lanbpro_jit(U, k, p),
            lambda: svd.lansvd_simple_jit(U, 2, p)][m]


solver("sls.jit", _sls_jit, heavy=True, eager=False, variants=6)


def _pursuit_jit(c):
    A, b, x = c.cs(12, 20); K = c.pick(2, 3); k = c.pick(2, 4); T = lop.jit(lop.matrix(A))
    m = c.v % 4
    return [lambda: cosamp.operator_solve_jit(T, b, K, max_iters=k), lambda: sp.operator_solve_jit(Phi=T, y=b, K=K),
            lambda: htp.operator_solve_jit(T, b, K, normalized=True, max_iters=k),
            lambda: iht.operator_solve_jit(T, b, K, normalized=True, max_iters=k)][m]


solver("pursuit.jit", _pursuit_jit, heavy=True, eager=False, variants=4)


def _ssc_bcoo(c):
    X = subspace_points(c); m = c.pick(0, 1)

    def fn():
        Z, I, R = ssc.build_representation_omp(X, 2)
        C = ssc.sparse_to_bcoo(Z, I)
        back = (ssc.bcoo_to_sparse_jit if m else ssc.bcoo_to_sparse)(C, 2)
        return [C.todense(), back, ssc.rep_to_affinity(C).todense()]
    return fn


simple("cluster.ssc_bcoo", _ssc_bcoo, np_ok=False, heavy=True, eager=False)
simple("cluster.vq_jit", lambda c: (lambda p, z: lambda: [vq.find_nearest_jit(p[0], z), vq.find_assignment_jit(p, z), vq.find_new_centroids_jit(vq.find_assignment_jit(p, z)[0], p, 3)])(points(c), c.normal(3, 2)), np_ok=False, eager=False, variants=3)
simple("cluster.inn_positions", lambda c: (lambda X, l: lambda: ssc.inn_positions(l, l[ssc.sorted_neighbors(ssc.angles_between_points(X))]))(subspace_points(c), c.arr(np.repeat([0, 1], 4))), np_ok=False)


def _subspaces_jit(c):
    m = c.v % 3; k = c.key(); n = c.pick(6, 8); a = c.pick(0.3, 0.7)
    if m == 0:
        B = crdata.random_subspaces_jit(jax.random.PRNGKey(3), n, 2, 3)
        return lambda: crdata.uniform_points_on_subspaces_jit(k, B, 4)
    if m == 1:
        return lambda: crdata.two_subspaces_at_angle_jit(k, n, 2, a)
    return lambda: crdata.three_subspaces_at_angle_jit(k, n + 2, 2, a)


simple("data.subspaces_jit", _subspaces_jit, key=True, np_ok=False, heavy=True, eager=False, variants=3)


def _builders(c):
    w = c.uniform(6); x = c.normal(6); y = c.normal(6); t = c.pick(0.5, 2.0)
    f = lambda v: jnp.sum(w * v ** 2)
    g = lambda v: 2 * w * v

    def fn():
        p = opt.prox_build(lambda v: jnp.sum(jnp.abs(v)), lambda v, t: opt.shrink(v, t))
        q = opt.smooth_build2(f, g)
        r = opt.smooth_func_translate(q, y)
        return [p.func(x), p.prox_op(x, t), p.prox_vec_val(x, t), q.grad_val(x), r.func(x), r.grad(x), r.grad_val(x)]
    return fn


simple("opt.builders", _builders, np_ok=False)
simple("pursuit.gram_chol_update", lambda c: (lambda A: lambda: pursuit.gram_chol_update(jnp.linalg.cholesky(A[:, :2].T @ A[:, :2]), A[:, :2].T @ A[:, 2:3]))(c.dictionary(8, 4)), np_ok=False)



def _fom(c):
    A, b, x = c.cs(12, 20); o = fom.FomOptions(max_iters=c.pick(3, 6), nonneg=c.pick(False, False, True))
    m = c.pick(0, 1, 2, 3, 4); l = c.pick(0.01, 0.1); mu = c.pick(0.1, 1.0)
    z = jnp.zeros
    T = lambda: lop.matrix(A)
    return [lambda: fom.l1rls(T(), b, l, z(20), o), lambda: fom.lasso(T(), b, 10 * l, z(20), o), lambda: fom.owl1rls(T(), b, jnp.linspace(l, l / 10, 20), z(20), o),
            lambda: fom.dantzig_scd(T(), b, l, mu, z(20), z(20), o._replace(nonneg=False)), lambda: fom.bp_scd(T(), b, mu, z(20), z(12), o._replace(nonneg=False))][m]


solver("fom.solve", _fom, heavy=True, variants=8)


def _fom_jit(c):
    A, b, x = c.cs(12, 20); T = lop.jit(lop.matrix(A)); l = c.pick(0.05, 0.1)
    return [lambda: fom.l1rls_jit(T, b, l, jnp.zeros(20)), lambda: fom.lasso_jit(T, b, 10 * l, jnp.zeros(20))][c.v % 2]


solver("fom.jit", _fom_jit, heavy=True, eager=False, variants=4)
solver("fom.smooth_dual", lambda c: (lambda x, m, q: lambda: (lambda f: [f.func(x), f.grad(x), f.grad_val(x)])(fom.smooth_dual(opt.prox_l1(q), m)))(c.normal(c.pick(6, 8)), c.pick(0.5, 2.0), c.pick(0.5, 1.0)))


def _bsbl(c):
    A, b, x = c.cs(12, 20); k = c.pick(2, 4)
    m = c.pick(0, 1, 2)
    lc, ll = c.pick(0, 1), c.pick(0, 1, 2)
    return [lambda: bsbl.bsbl_em(A, b, 4, bsbl.bsbl_em_options(b, max_iters=k, learn_block_corr=lc, learn_lambda=ll)),
            lambda: bsbl.bsbl_bo(A, b, 4, bsbl.bsbl_bo_options(b, max_iters=k, learn_block_corr=lc, learn_lambda=ll)),
            lambda: bsbl.bsbl_bo_np(np.asarray(A), np.asarray(b), 4, bsbl.bsbl_bo_options(np.asarray(b), max_iters=k))][m]


solver("block.bsbl", _bsbl, heavy=True, variants=8)
solver("block.bsbl_jit", lambda c: (lambda A, b, o: lambda: bsbl.bsbl_bo_jit(A, b, 4, o))(*c.cs(12, 20)[:2], bsbl.BSBL_Options(max_iters=c.pick(3, 5))), heavy=True, eager=False, variants=3)
solver("block.locations", lambda c: (lambda n, b: lambda: [blk.start_locations(n, b), blk.end_locations(n, b)])(c.pick(12, 24), c.pick(3, 4)))
solver("cs1bit.measure", lambda c: (lambda A, x: lambda: cs1bit.measure_1bit(A, x))(c.normal(8, 6), c.normal(6)))
solver("cs1bit.biht", lambda c: (lambda A, x, K, k, j: lambda: (cs1bit.biht_jit if j else cs1bit.biht)(A, jnp.sign(A @ x), K, 0.5, max_iters=k))(c.normal(16, 10), c.normal(10), c.pick(2, 3), c.pick(3, 8), c.pick(True, False)))
solver("cs1bit.rfp", lambda c: (lambda A, x, l: lambda: quiet(lambda: cs1bit.rfp(A, jnp.sign(A @ x), cs1bit.rfp_lsqr_guess(A, jnp.sign(A @ x)), lambda_=l, inner_iters=3, outer_iters=2)))(c.normal(16, 8), c.normal(8), c.pick(1.0, 5.0)), heavy=True)
solver("cs1bit.guess", lambda c: (lambda A, x: lambda: [cs1bit.rfp_random_guess(A), cs1bit.rfp_lsqr_guess(A, jnp.sign(A @ x))])(c.normal(16, 8), c.normal(8)))

# ------------------------------------------------------------------ problems
PARGS = {"heavi-sine:fourier:heavi-side": [{"n": 32}, {"n": 64}]}


def _problems(c):
    names = sorted(problems.names())
    return names


def prob(pname, argsets, digest_fields=("b", "x", "y")):
    def build(c):
        args = argsets[c.v % len(argsets)]
        k = c.key()

        def fn():
            p = problems.generate(pname, k, **args)
            out = [p.name, p.b, p.x, p.y, p.A.shape]
            if p.x is not None:
                out += [p.A.times(p.x), p.reconstruct(p.x)]
            out.append(p.A.trans(p.b))
            if pname.endswith(":gaussian"):
                out.append(p.A.times(jnp.ones(p.A.input_shape)))
            return out
        uses = [lambda p: p.A.trans(p.b), lambda p: p.A.trans(other(p.b)), lambda p: [p.A.times(p.x), p.reconstruct(p.x)] if p.x is not None else p.A.shape]
        return with_object(fn, lambda: problems.generate(pname, k, **args), uses)
    varies = not pname.startswith(("blocks", "heavi"))
    ENTRIES["problems." + pname] = Entry("problems." + pname, build, key=True, varies=varies, heavy=True, np_ok=False, variants=len(argsets) * 2)


_SMALL = {
    "heavi-sine:fourier:heavi-side": [{"n": 64}, {"n": 128}],
    "blocks:haar": [{"n": 64}, {"n": 128}],
    "cosine-spikes:dirac-dct": [{"n": 64, "k": 8}, {"n": 32, "k": 4}],
    "complex:sinusoid-spikes:dirac-fourier": [{"n": 64, "k": 8}],
    "cosine-spikes:dirac-dct:gaussian": [{"n": 64, "k": 6, "m": 24}, {"n": 64, "k": 6, "m": 20}],
    "piecewise-cubic-poly:daubechies:gaussian": [{"n": 64, "m": 24, "level": 2}],
    "signed-spikes:dirac:gaussian": [{"n": 64, "k": 4, "m": 24}, {"n": 64, "k": 4, "m": 24, "scale": 3}],
    "complex:signed-spikes:dirac:gaussian": [{"n": 64, "k": 4, "m": 24}],
    "blocks:heavi-side": [{"n": 64}, {"n": 128}],
    "blocks:normalized-heavi-side": [{"n": 64}, {"n": 128}],
    "gaussian-spikes:dirac:gaussian": [{"n": 64, "k": 4, "m": 24}, {"n": 64, "k": 6, "m": 24}],
}
for _nm in sorted(problems.names()):
    if _nm in _SMALL:
        prob(_nm, _SMALL[_nm])

NAMES = list(ENTRIES)
EAGER = [n for n in NAMES if ENTRIES[n].eager]
KEYED = [n for n in NAMES if ENTRIES[n].key]
NO_OBJECT = ('opt.builders', 'lop.dot_test_real', 'lop.dot_test_complex', 'lop.columns', 'lop.to_matrix', 'lop.normest', 'lop.normest_jit', 'lop.upper_frame_bound',
             'opt.smooth_logdet', 'opt.cg', 'opt.pcg', 'opt.spg')
SHARED = [n for n in EAGER if n.startswith(("lop.", "opt.", "problems.")) and n not in NO_OBJECT]
MODULES = sorted({e.module for e in ENTRIES.values()})


def shared_names():
    """Entries about an object (operator, function, problem) which can be kept and used again."""
    return SHARED
