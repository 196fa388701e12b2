"""Conformance of the numpy contracts (dv/shim.py) with the installed numpy:
the same random exact inputs through both, results compared.  Bounded."""
import os
import sys
from fractions import Fraction

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np                                    # noqa: E402
from dv import alg, shim                              # noqa: E402
from dv.ctx import Ctx, Z                             # noqa: E402
from dv.alg import R                                  # noqa: E402


def lift(x):
    if isinstance(x, np.ndarray):
        if x.dtype.kind != 'f':
            return x
        out = np.empty(x.shape, dtype=object)
        for k, v in np.ndenumerate(x):
            out[k] = R.lift(Fraction(float(v)))
        return shim.wrap(out)
    if isinstance(x, (list, tuple)):
        return type(x)(lift(v) for v in x)
    if isinstance(x, float):
        return R.lift(Fraction(x))
    return x


def low(x):
    if isinstance(x, R):
        t = dict(x.t)
        if any(k != () for k in t):
            raise ValueError('not a number: %r' % x)
        return float(t.get((), 0))
    if isinstance(x, Z):
        return int(x.__index__())
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return low(x.item())
    if isinstance(x, (shim.SSet,)):
        return sorted(low(v) for v in x)
    if isinstance(x, (list, tuple, np.ndarray)):
        return np.array([low(v) for v in x], dtype=float) if len(x) or not hasattr(x, 'shape') else np.zeros(np.shape(x))
    if hasattr(x, 'zv'):
        return float(x.zv)
    return float(x)


def cases(rng):
    f = lambda *s: rng.integers(-6, 7, s)/2.
    i = lambda *s: rng.integers(0, 5, s)
    a3, b3, m33, n33, v6 = f(3), f(3), f(3, 3), f(3, 3), f(6)
    pos = np.abs(v6) + 0.5
    A = m33 + 9*np.eye(3)
    py = [np.array(p, dtype=float) for p in ((3, 4), (2, 3, 6), (-4, 3, 0), (0, 0, -7), (1, 2, 2))]
    out = []

    def one(name, fn, *args):
        out.append((name, fn, args))
    for ax in (None, 0, 1):
        one('sum', lambda N, x, ax=ax: N.sum(x, axis=ax), f(4, 3))
        one('mean', lambda N, x, ax=ax: N.mean(x, axis=ax), f(4, 3))
        one('method mean', lambda N, x, ax=ax: x.mean(axis=ax), f(4, 3))
        one('method sum', lambda N, x, ax=ax: x.sum(axis=ax), f(4, 3))
        one('prod', lambda N, x, ax=ax: N.prod(x, axis=ax), f(2, 3))
        one('max', lambda N, x, ax=ax: N.max(x, axis=ax), f(4, 3))
        one('min', lambda N, x, ax=ax: N.min(x, axis=ax), f(4, 3))
    one('cross 3', lambda N, a, b: N.cross(a, b), a3, b3)
    one('cross 2', lambda N, a, b: N.cross(a, b), f(2), f(2))
    one('cross list', lambda N, a, b: N.cross(a, b), list(a3), b3)
    one('dot vec', lambda N, a, b: N.dot(a, b), a3, b3)
    one('dot mat', lambda N, a, b: N.dot(a, b), m33, n33)
    one('matmul', lambda N, a, b: a @ b, m33, n33)
    one('matvec', lambda N, a, b: a @ b, m33, a3)
    one('transposed product', lambda N, a, b: a.T @ b @ a, m33, n33)
    one('triple dot', lambda N, a, b: a.T.dot(b).dot(a), m33, n33)
    one('outer', lambda N, a, b: N.outer(a, b), a3, v6)
    for sp in ('ij,jk->ik', 'ji,jk->ik', 'ij,kj->ik', 'ij,ij->', 'ij,ij->i', 'ii->', 'ij->ji'):
        one('einsum ' + sp, lambda N, a, b, sp=sp: N.einsum(sp, a, b) if ',' in sp else N.einsum(sp, a), m33, n33)
    one('einsum i,j', lambda N, a, b: N.einsum('i,j->ij', a, b), a3, v6)
    one('einsum i,i', lambda N, a, b: N.einsum('i,i', a, b), a3, b3)
    one('det 2', lambda N, a: N.linalg.det(a), f(2, 2))
    one('det 3', lambda N, a: N.linalg.det(a), m33)
    one('inv', lambda N, a: N.linalg.inv(a), A)
    one('inv 2', lambda N, a: N.linalg.inv(a), A[:2, :2])
    for p in py:
        one('norm', lambda N, a: N.linalg.norm(a), p)
        one('sqrt', lambda N, a: N.sqrt((a*a).sum()), p)
        one('unit vector', lambda N, a: a/N.linalg.norm(a), p)
    one('norm rows', lambda N, a: N.linalg.norm(a, axis=1), np.array([[3., 4.], [-5., 12.], [0, 2.]]))
    one('hypot', lambda N, a: N.hypot(a[0], a[1]), py[0])
    one('abs', lambda N, a: N.abs(a), v6)
    one('sign', lambda N, a: N.sign(a), v6)
    one('square', lambda N, a: N.square(a), v6)
    one('power', lambda N, a: a**3, v6)
    one('where', lambda N, a, b: N.where(a > b, a, b), v6, f(6))
    one('where scalar', lambda N, a: N.where(a > 0, a, 0.), v6)
    one('maximum', lambda N, a, b: N.maximum(a, b), v6, f(6))
    one('minimum', lambda N, a, b: N.minimum(a, b), v6, f(6))
    for k in (-2, -1, 0, 1, 3):
        one('roll', lambda N, a, k=k: N.roll(a, k), v6)
        one('roll rows', lambda N, a, k=k: N.roll(a, k, axis=0), f(4, 3))
    one('rows add', lambda N, a, b: _ixadd(N, a, b), f(6, 2), f(2, 2))
    one('slice', lambda N, a: a[1:5:2], v6)
    one('negative', lambda N, a: a[::-1], v6)
    one('mask', lambda N, a: a[a > -100], v6)
    one('row', lambda N, a: a[1], m33)
    one('column', lambda N, a: a[:, 1], m33)
    one('fancy', lambda N, a: a[[2, 0, 1]], v6)
    one('reshape', lambda N, a: a.reshape(2, 3), v6)
    one('ravel', lambda N, a: a.ravel(), m33)
    one('broadcast', lambda N, a, b: a*b + a - b/2, m33, a3)
    one('broadcast column', lambda N, a, b: a*b[:, None], m33, a3)
    one('divide', lambda N, a, b: a/b, v6, pos)
    one('array of lists', lambda N, a, b: N.array([a, b]), list(a3), list(b3))
    one('array of arrays', lambda N, a, b: N.array([a, b, a + b]), a3, b3)
    one('asarray', lambda N, a: N.asarray(a), list(a3))
    one('vstack', lambda N, a, b: N.vstack([a, b]), a3, b3)
    one('hstack', lambda N, a, b: N.hstack([a, b]), a3, v6)
    one('concatenate', lambda N, a, b: N.concatenate([a, b]), a3, v6)
    one('zeros fill', lambda N, a: _fill(N, a), a3)
    one('ones', lambda N, a: N.ones((2, 3))*a[0], a3)
    one('full', lambda N, a: N.full((2, 3), a[0]), a3)
    one('eye', lambda N, a: N.eye(3)*a[0], a3)
    one('zeros_like', lambda N, a: N.zeros_like(a) + a[0, 0], m33)
    one('arange', lambda N, a: N.arange(3), a3)
    one('arange 2', lambda N, a: N.arange(2, 11, 3), a3)
    one('argsort', lambda N, a: N.argsort(a), rng.permutation(6)/2.)
    one('sort', lambda N, a: N.sort(a), v6)
    one('unique ints', lambda N, a: N.unique(a), i(6))
    one('isclose', lambda N, a: N.isclose(a, a + 1.), a3)
    one('array_equal', lambda N, a: N.array_equal(a, a), a3)
    one('trace', lambda N, a: N.trace(a), m33)
    one('diag', lambda N, a: N.diag(a), m33)
    one('transpose', lambda N, a: N.transpose(a), f(2, 3))
    one('swapaxes', lambda N, a: N.swapaxes(a, 0, 1), f(2, 3))
    one('stack', lambda N, a, b: N.stack([a, b], axis=1), a3, b3)
    one('tile', lambda N, a: N.tile(a, 2), a3)
    one('repeat', lambda N, a: N.repeat(a, 2), a3)
    one('cumsum', lambda N, a: N.cumsum(a), a3)
    one('diff', lambda N, a: N.diff(a), v6)
    one('delete', lambda N, a: N.delete(a, 1), a3)
    one('add', lambda N, a, b: N.add(a, b), a3, b3)
    one('subtract', lambda N, a, b: N.subtract(a, b), a3, b3)
    one('multiply', lambda N, a, b: N.multiply(a, b), a3, b3)
    one('inner', lambda N, a, b: N.inner(a, b), a3, b3)
    one('vdot', lambda N, a, b: N.vdot(a, b), a3, b3)
    one('average', lambda N, a: N.average(a, axis=0), f(3, 2))
    one('add.at', lambda N, a, b: _addat(N, a, b), f(6), f(3))
    one('copysign', lambda N, a, b: N.copysign(a, b), 2.5, -1.5)
    one('copyto', lambda N, a, b: _copyto(N, a, b), a3, b3)
    one('iadd block', lambda N, a, b: _iadd(N, a, b), f(6, 6), m33)
    return out


def _ixadd(N, a, b):
    a = a.copy()
    a[[1, 3]] += b
    return a


def _iadd(N, a, b):
    a = a.copy()
    a[1:4, 2:5] += b
    a[0:3, 0:3] -= b*2
    return a


def _addat(N, a, b):
    a = a.copy()
    N.add.at(a, [1, 1, 4], b)
    return a


def _fill(N, a):
    z = N.zeros((3, 2))
    z[:, 0] = a
    z[1, 1] = a[2]
    z[2] += 1.5
    return z


def _copyto(N, a, b):
    a = a.copy()
    N.copyto(a, b)
    return a


def main(rounds=20, seed=1):
    rng = np.random.default_rng(seed)
    N = shim.numpy()
    agree, refused, bad = set(), {}, []
    n = 0
    for r in range(rounds):
        for name, fn, args in cases(rng):
            try:
                want = np.asarray(fn(np, *args), dtype=float)
            except Exception as e:
                bad.append((name, 'numpy: %r' % e))
                continue
            alg.reset()
            alg.set_ctx(Ctx([]))
            try:
                got = fn(N, *[lift(a) for a in args])
                got = np.asarray(low(got), dtype=float)
            except alg.Unsupported as e:
                refused[name] = str(e)
                continue
            except Exception as e:
                refused[name] = '%s: %s' % (type(e).__name__, e)
                continue
            n += 1
            if got.shape != want.shape or not np.allclose(got, want, rtol=1e-12, atol=1e-12):
                bad.append((name, 'numpy %s, contract %s on %s' % (want.tolist(), got.tolist(), args)))
            else:
                agree.add(name)
    return n, agree, refused, bad


if __name__ == '__main__':
    n, agree, refused, bad = main()
    for name, why in sorted(refused.items()):
        print('refused (the verifier stops here): %s: %s' % (name, why[:100]))
    for name, why in bad[:10]:
        print('DISAGREES: %s: %s' % (name, why[:400]))
    print('%d comparisons, %d operations agree, %d refused, %d disagreements' % (n, len(agree), len(refused), len(bad)))
    sys.exit(1 if bad else 0)
