"""Concrete checks of the mesh based properties: run the real functions on one
mesh description and compare with independent oracles.

Every check takes a case (JSON-able) and returns a list of failures (strings).
"""
import contextlib
import copy
import inspect
import io
import itertools

import numpy as np

from . import meshes as M
from .oracle import Geo

METHODS = ('cell-based', 'cell-based-no-smoothing', 'edge-based')
TOL = 2e-9


PARITY = [0]


def mods():
    from meshless.espim.plate2d_calc_k0 import calc_k0
    from meshless.espim.plate2d_calc_kG import calc_kG
    from meshless.espim.plate2d_add_k0s import add_k0s
    return chatty(calc_k0), chatty(calc_kG), add_k0s


def quiet(fn, *a, **k):
    """call with messages switched on (and dropped)"""
    if 'silent' in inspect.signature(fn).parameters:
        k['silent'] = False
    with contextlib.redirect_stdout(io.StringIO()):
        return fn(*a, **k)


def chatty(fn):
    """every other call with messages"""
    n = itertools.count(PARITY[0])

    def f(*a, **k):
        return quiet(fn, *a, **k) if next(n) % 2 else fn(*a, **k)
    return f


def dense(K):
    if hasattr(K, 'toarray'):
        K = K.toarray()
    return np.asarray(K)


class Fail(list):
    def add(self, msg):
        if len(self) < 6:
            self.append(msg)

    def close(self, what, got, exp, scale=None, tol=TOL):
        got, exp = np.asarray(got, dtype=float), np.asarray(exp, dtype=float)
        if got.shape != exp.shape:
            self.add('%s: shape %r instead of %r' % (what, got.shape, exp.shape))
            return
        s = scale if scale is not None else max(np.max(np.abs(exp)) if exp.size else 0., 1e-300)
        d = np.abs(got - exp)
        if not np.all(d <= tol*s):
            i = np.unravel_index(np.argmax(np.where(np.isfinite(d), d, np.inf)), d.shape) if d.ndim else ()
            self.add('%s: got %r, expected %r at %s (allowed difference %.1e)' % (what, float(got[i]), float(exp[i]), tuple(map(int, i)), tol*s))


def snapshot(mesh):
    s = []
    for k, n in mesh.nodes.items():
        s.append((k, id(n), n.nid, np.asarray(n.xyz).tobytes(), id(n.prop), tuple(sorted(n.trias)), tuple(sorted(map(id, n.edges)))))
    for k, t in mesh.elements.items():
        s.append((k, id(t), t.eid, tuple(map(id, t.nodes)), tuple(map(id, t.nodes_ref)), tuple(map(id, t.edges)), id(t.prop)))
    for k, e in mesh.edges.items():
        s.append((k, id(e), id(e.n1), id(e.n2), tuple(map(id, e.nodes)), tuple(e.node_ids), tuple(map(id, e.trias))))
    s.append([l.state() for l in mesh.lams])
    return s


def unchanged(f, what, a, b):
    if a != b:
        d = [(x, y) for x, y in zip(a, b) if x != y]
        f.add('%s: coordinates, connectivity, laminates or their assignment changed: %s' % (what, str(d[0])[:300] if d else 'count'))


def start(case, f=None, mode=None):
    """build, run calc_k0; returns mesh, geometry, k0, index list"""
    calc_k0, calc_kG, add_k0s = mods()
    mesh = M.build(case)
    g = Geo(case)
    K = calc_k0(mesh, case['nodemode'])
    return mesh, g, K, [n.index for n in mesh.nodelist]


def validindex(f, g, idx):
    ok = all(isinstance(i, (int, np.integer)) and not isinstance(i, (bool, np.bool_)) for i in idx) and sorted(idx) == list(range(g.n))
    if not ok:
        f.add('node indices are no bijection with 0..n-1: %r' % (idx[:10],))
    return ok


def shaped(f, what, K, n):
    if np.shape(K) != (5*n, 5*n):
        f.add('%s: shape %r instead of %r' % (what, np.shape(K), (5*n, 5*n)))
        return False
    return True


def rnd(case, k=0):
    return np.random.default_rng([int(abs(case['xy'][0][0])*1e6) % 1000003, len(case['tris']), k])


def rotscale(g):
    """rotation that strains the plate as much as a unit displacement, and the
    factors of the degrees of freedom of g.n nodes"""
    a = max(np.max(np.abs(p.A)) for p in g.lams)
    d = max(np.max(np.abs(p.D)) for p in g.lams)
    r = np.sqrt(a/d) if a > 0 and d > 0 else 1.
    s = np.ones(5*g.n)
    s[3::5] = s[4::5] = r
    return r, s


# -- C06 ---------------------------------------------------------------------
def c06(case):
    f = Fail()
    mesh, g, K, idx = start(case)
    el = list(mesh.edges.values())
    size = max(np.ptp(g.xy[:, 0]), np.ptp(g.xy[:, 1]))
    pos = np.max(np.abs(g.xy)) + size + abs(case.get('z', 0.))
    tot = 0.
    for e, (a, b, ts) in zip(el, g.edges):
        nm = 'edge %d-%d' % (a, b)
        z = case.get('z', 0.)
        mids = [np.append(g.mid[t], z) for t in ts]
        P3 = lambda i: np.append(g.xy[i], z)
        cyc = [P3(a), mids[0], P3(b)] + mids[1:]
        L = max(np.linalg.norm(p - q) for p in cyc for q in cyc)
        tl = 1e-11*pos + 1e-10*L
        oth = [next(i for i in g.tris[t] if i not in (a, b)) for t in ts]
        ex = [mesh.nodelist[i] for i in oth] + [None]*(2 - len(oth))
        if e.othernode1 is not ex[0] or e.othernode2 is not ex[1]:
            f.add('%s: wrong opposite corners' % nm)
        poly = [np.asarray(p, dtype=float) for p in e.sdomain]
        if len(poly) > 1 and np.allclose(poly[0], poly[-1], rtol=0, atol=tl):
            poly = poly[:-1]
        n = len(cyc)
        if len(poly) != n or not any(all(np.linalg.norm(poly[i] - cyc[(s + d*i) % n]) < tl for i in range(n)) for d in (1, -1) for s in range(n)):
            f.add('%s: smoothing domain is not the polygon of end points and centroids' % nm)
        f.close('%s: area of the domain' % nm, e.Ac, g.Ac((a, b, ts)), scale=g.Ac((a, b, ts)) + 1e-5*pos*L*1e-4)
        tot += float(e.Ac)
        segs = []
        for k, t in enumerate(ts):
            segs += [(P3(a), mids[k], t, P3(b)), (P3(b), mids[k], t, P3(a))]
        if len(ts) == 1:
            segs.append((P3(a), P3(b), ts[0], mids[0]))
        ip = list(e.ipts)
        if len(ip) != len(segs):
            f.add('%s: %d integration points for %d segments' % (nm, len(ip), len(segs)))
        sm = np.zeros(3)
        for p, q, t, inner in segs:
            hit = [i for i in ip if np.linalg.norm(np.asarray(i.xyz) - (p + q)/2) < tl]
            if len(hit) != 1:
                f.add('%s: %d integration points at the midpoint of a segment' % (nm, len(hit)))
                continue
            i = hit[0]
            if i.tria is not mesh.trialist[t]:
                f.add('%s: integration point refers to another triangle' % nm)
            if {id(x) for x in (i.n1, i.n2, i.n3)} != {id(mesh.nodelist[x]) for x in g.tris[t]}:
                f.add('%s: integration point refers to other nodes' % nm)
            f.close('%s: sum of shape functions' % nm, i.f1 + i.f2 + i.f3, 1.)
            pt = i.f1*np.asarray(i.n1.xyz) + i.f2*np.asarray(i.n2.xyz) + i.f3*np.asarray(i.n3.xyz)
            if not np.linalg.norm(pt - (p + q)/2) < tl:
                f.add('%s: shape functions do not give the midpoint' % nm)
            v = q - p
            le = np.linalg.norm(v)
            f.close('%s: segment length' % nm, i.le, le, scale=le + 1e-3*pos*1e-3)
            nrm = np.array([v[1], -v[0], 0.])/le
            if nrm @ (inner - p) > 0:
                nrm = -nrm
            f.close('%s: outward unit normal' % nm, [i.nx, i.ny, i.nz], nrm, scale=1. + 1e-4*pos/le)
            sm += np.array([i.nx, i.ny, i.nz], dtype=float)*i.le
        f.close('%s: length-weighted normals' % nm, sm, np.zeros(3), scale=L + 1e-3*pos*1e-3)
    f.close('sum of the domain areas', tot, sum(g.area))
    return f


# -- C07 ---------------------------------------------------------------------
def c07(case):
    f = Fail()
    calc_k0, calc_kG, add_k0s = mods()
    mesh, g, K, idx = start(case)
    if not validindex(f, g, idx) or not shaped(f, 'calc_k0', K, g.n):
        return f
    near = np.zeros((g.n, g.n), dtype=bool)
    tri = np.zeros((g.n, g.n), dtype=bool)
    for a, b, ts in g.edges:
        p = {idx[i] for t in ts for i in g.tris[t]}
        near[np.ix_(list(p), list(p))] = True
    for t in g.tris:
        p = [idx[i] for i in t]
        tri[np.ix_(p, p)] = True
    rng = rnd(case)
    d = rng.normal(size=5*g.n)
    KG = calc_kG(d, mesh, case['nodemode'])
    mats = [('calc_k0', K, near), ('calc_kG', KG, near)]
    for m in METHODS:
        S = np.zeros((5*g.n, 5*g.n))
        add_k0s(S, mesh, case['nodemode'], method=m)
        mats.append(('add_k0s %s' % m, S, near if m == 'edge-based' else tri))
    for nm, A, mask in mats:
        if not shaped(f, nm, A, g.n):
            continue
        A = dense(A)
        bad = ~np.kron(mask, np.ones((5, 5), dtype=bool)) & (A != 0)
        if bad.any():
            i, j = np.argwhere(bad)[0]
            f.add('%s: entry (%d, %d) written although no triangle or adjacent triangles connect nodes %d and %d' % (nm, i, j, i//5, j//5))
    # with all laminates zero except one triangle's
    if not case['nodemode'] and len(g.tris) > 1:
        c2 = copy.deepcopy(case)
        zero = dict(c2['lams'][0], C=np.zeros((6, 6)).tolist())
        t0 = int(rng.integers(len(g.tris)))
        c2['lams'] = [c2['lams'][0], zero]
        c2['tprop'] = [0 if t == t0 else 1 for t in range(len(g.tris))]
        c2['nprop'] = [0]*g.n
        m2, g2, K2, idx2 = start(c2)
        mask = np.zeros((g.n, g.n), dtype=bool)
        for a, b, ts in g2.edges:
            if t0 in ts:
                p = [idx2[i] for i in {i for t in ts for i in g2.tris[t]}]
                mask[np.ix_(p, p)] = True
        bad = ~np.kron(mask, np.ones((5, 5), dtype=bool)) & (dense(K2) != 0)
        if bad.any():
            f.add('calc_k0: a laminate reaches entries %s outside the edges of its triangle' % (tuple(map(int, np.argwhere(bad)[0])),))
    return f


# -- C08 ---------------------------------------------------------------------
def linear_fields(g, idx):
    out = []
    for comp, dof in (('u', 0), ('v', 1), ('phix', 3), ('phiy', 4)):
        for nm in ('1', 'x', 'y'):
            u = np.zeros(5*g.n)
            for i in range(g.n):
                x, y = g.xy[i]
                u[5*idx[i] + dof] = 1. if nm == '1' else x if nm == 'x' else y
            e = np.zeros(6)
            if nm == 'x':
                e[{0: 0, 1: 2, 3: 3, 4: 5}[dof]] = 1
            if nm == 'y':
                e[{0: 2, 1: 1, 3: 5, 4: 4}[dof]] = 1
            out.append((comp + '=' + nm, u, e))
    return out


def c08(case):
    f = Fail()
    mesh, g, K, idx = start(case)
    if not validindex(f, g, idx) or not shaped(f, 'calc_k0', K, g.n):
        return f
    K = dense(K)
    C = sum(g.Ac(e)*g.avg(g.eweights(e), lambda p: p.C()) for e in g.edges)
    r, s = rotscale(g)
    K = K*s*s[:, None]
    s6 = np.repeat([1., r], 3)
    C = C*s6*s6[:, None]
    aK = np.abs(K)
    for nm, u, e in linear_fields(g, idx):
        for nm2, u2, e2 in linear_fields(g, idx):
            f.close('energy of %s and %s' % (nm, nm2), u @ K @ u2, e @ C @ e2, scale=np.max(np.abs(u))*np.max(np.abs(u2))*np.sum(aK)*1e-2 + abs(e @ C @ e2))
    w = np.arange(g.n)*5 + 2
    if K[w].any() or K[:, w].any():
        f.add('stiffness attached to the deflection')
    return f


def symmetric(f, what, K):
    f.close('%s: symmetric' % what, K, K.T)


def psd(f, what, K, ref=0.):
    """ref: magnitude of the numbers K was computed from"""
    if np.all(np.isfinite(K)) and K.size:
        w = np.linalg.eigvalsh((K + K.T)/2)
        if w[0] < -1e-9*max(abs(w[-1]), 1e-300) - 1e-12*ref:
            f.add('%s: smallest eigenvalue %g, largest %g' % (what, w[0], w[-1]))


def c09(case):
    f = Fail()
    mesh, g, K, idx = start(case)
    if not validindex(f, g, idx) or not shaped(f, 'calc_k0', K, g.n):
        return f
    K = dense(K)
    s = rotscale(g)[1]
    K = K*s*s[:, None]
    f.close('calc_k0 against the sum of smoothed strain energies', K, g.k0(idx)*s*s[:, None])
    symmetric(f, 'calc_k0', K)
    if g.n < 70:
        psd(f, 'calc_k0', K)
    # another ordering of the same mesh
    rng = rnd(case, 1)
    c2 = reorder(case, rng)
    m2, g2, K2, idx2 = start(c2)
    if validindex(f, g2, idx2) and shaped(f, 'calc_k0', K2, g.n):
        p = np.zeros(5*g.n, dtype=int)
        for i in range(g.n):
            p[5*idx[i]:5*idx[i] + 5] = 5*idx2[i] + np.arange(5)
        f.close('calc_k0 for another ordering and orientation', dense(K2*s*s[:, None])[np.ix_(p, p)], K)
    return f


def reorder(case, rng):
    """same geometry: other orders, directions, corner order, orientation (node list kept)"""
    c = copy.deepcopy(case)
    n, m = len(c['xy']), len(c['tris'])
    c['norder'] = [int(i) for i in rng.permutation(n)]
    c['torder'] = [int(i) for i in rng.permutation(m)]
    c['tris'] = [t[s:] + t[:s] if r else (t[s:] + t[:s])[::-1] for t, s, r in zip(c['tris'], rng.integers(0, 3, m).tolist(), rng.random(m) < 0.5)]
    q = rng.permutation(len(c['edges'])).tolist()
    c['edges'] = [c['edges'][k] if rng.random() < 0.5 else c['edges'][k][::-1] for k in q]
    c['etrev'] = [k for k in range(len(q)) if rng.random() < 0.5]
    c['nids'] = [int(v) for v in rng.choice(np.arange(1, 10*n + 1), n, replace=False)]
    return c


# -- C10 ---------------------------------------------------------------------
STATES = (('w=1', (1, 0, 0, 0, 0)), ('w=x', (0, 1, 0, 0, 0)), ('w=y', (0, 0, 1, 0, 0)),
          ('phix=1', (0, 0, 0, 1, 0)), ('phiy=1', (0, 0, 0, 0, 1)))


def shear_energies(f, case, mesh, g, idx, add_k0s, methods=METHODS, alphas=(0., 0.13), areas=(False, True), nm='add_k0s'):
    known = False
    z = float(case.get('z', 0.))
    for m in methods:
        for al in alphas:
            for ar in areas:
                S = np.zeros((5*g.n, 5*g.n))
                add_k0s(S, mesh, case['nodemode'], method=m, alpha=al, maxl_from_area=ar)
                aS = np.abs(S)
                if not np.all(np.isfinite(S)):
                    f.add('%s %s: not finite' % (nm, m))
                    continue
                two = None
                got, good, scale = [], [], []
                vals = [v for _, v in STATES]
                U = [g.field(idx, v) for v in vals]
                for i in range(5):
                    for j in range(i, 5):
                        got.append(U[i] @ S @ U[j])
                        good.append(g.shear_energy(m, al, ar, vals[i], vals[j]))
                        scale.append(np.max(np.abs(U[i]))*np.max(np.abs(U[j]))*np.sum(aS)*1e-2 + abs(good[-1]))
                got, good, scale = map(np.array, (got, good, scale))
                if np.all(np.abs(got - good) <= TOL*scale):
                    continue
                if m == 'edge-based' and any(len(ts) == 2 for a, b, ts in g.edges):
                    two = np.array([g.shear_energy(m, al, ar, vals[i], vals[j], z=z) for i in range(5) for j in range(i, 5)])
                    if np.all(np.abs(got - two) <= TOL*(scale + np.abs(two))):
                        known = True
                        continue
                k = int(np.argmax(np.abs(got - good)/scale))
                pairs = [(i, j) for i in range(5) for j in range(i, 5)]
                i, j = pairs[k]
                f.add('%s %s alpha=%g maxl_from_area=%s: energy of %s and %s is %r, expected %r' % (
                    nm, m, al, ar, STATES[i][0], STATES[j][0], got[k], good[k]))
    return known


def c10(case):
    f = Fail()
    calc_k0, calc_kG, add_k0s = mods()
    mesh, g, K, idx = start(case)
    if not validindex(f, g, idx) or not shaped(f, 'calc_k0', K, g.n):
        return f
    s = rotscale(g)[1]
    f.close('calc_k0 with averaged laminates', dense(K)*s*s[:, None], g.k0(idx)*s*s[:, None])
    d = rnd(case, 2).normal(size=5*g.n)*s
    f.close('calc_kG with averaged laminates', dense(calc_kG(d, mesh, case['nodemode'])), g.kG(idx, d))
    shear_energies(f, case, mesh, g, idx, add_k0s)
    # equal properties: both modes give the same matrices
    c2 = copy.deepcopy(case)
    c2['nprop'] = [0]*g.n
    c2['tprop'] = [0]*len(g.tris)
    res = []
    for nm in (True, False):
        c2['nodemode'] = nm
        m2, g2, K2, idx2 = start(c2)
        r = [dense(K2), dense(calc_kG(d, m2, nm))]
        for m in METHODS:
            S = np.zeros((5*g.n, 5*g.n))
            add_k0s(S, m2, nm, method=m, alpha=0.2)
            r.append(S)
        res.append(r)
    for nm, a, b in zip(('calc_k0', 'calc_kG') + METHODS, *res):
        f.close('%s: equal properties per node and per triangle' % nm, a, b)
    return f


# -- C11 ---------------------------------------------------------------------
def c11(case):
    f = Fail()
    calc_k0, calc_kG, add_k0s = mods()
    mesh, g, K, idx = start(case)
    if not validindex(f, g, idx):
        return f
    nm = case['nodemode']
    rng = rnd(case, 3)
    sc = rotscale(g)[1]
    d1, d2 = rng.normal(size=5*g.n)*sc, rng.normal(size=5*g.n)*sc
    keep = d1.tobytes()
    snap = snapshot(mesh)
    K1 = calc_kG(d1, mesh, nm)
    if not shaped(f, 'calc_kG', K1, g.n):
        return f
    unchanged(f, 'calc_kG', snap, snapshot(mesh))
    if d1.tobytes() != keep:
        f.add('calc_kG: displacement vector changed')
    K1 = dense(K1)
    f.close('calc_kG against the work of the resultants', K1, g.kG(idx, d1))
    symmetric(f, 'calc_kG', K1)
    K2 = dense(calc_kG(d2, mesh, nm))
    s = np.max(np.abs(K1)) + np.max(np.abs(K2))
    f.close('calc_kG: linear in the displacement vector', dense(calc_kG(2*d1 - 3*d2, mesh, nm)), 2*K1 - 3*K2, scale=5*s)
    w = np.zeros(5*g.n, dtype=bool)
    w[2::5] = True
    B = K1.copy()
    B[np.ix_(w, w)] = 0
    if B.any():
        f.add('calc_kG: entries other than deflection touched')
    x, y = np.zeros(g.n), np.zeros(g.n)
    for i in range(g.n):
        x[idx[i]], y[idx[i]] = g.xy[i]
    rb = np.zeros(5*g.n)
    rb[0::5], rb[1::5] = 0.4 - y, 1.3 + x
    rb[2::5] = 0.7 + x - 2*y
    rb[3::5], rb[4::5] = 0.3, -0.8
    pos = 1 + np.max(np.abs(g.xy))
    f.close('calc_kG: rigid-body state', dense(calc_kG(rb, mesh, nm)), np.zeros((5*g.n, 5*g.n)), scale=s*pos)
    # the vector as a view, transposed storage, other float type
    v = np.zeros((5*g.n, 3))
    v[:, 1] = d1
    f.close('calc_kG: strided displacement vector', dense(calc_kG(v[:, 1], mesh, nm)), K1)
    # components of very different size, zeros
    v = d1*rng.choice([1., 1e-9, 1e-15, 1e-18, 0., -0.], 5*g.n)
    v2 = v.copy()
    v2.flags.writeable = False
    keep = v.tobytes()
    f.close('calc_kG: components of different size', dense(calc_kG(v, mesh, nm)), g.kG(idx, v2), scale=s)
    if v.tobytes() != keep:
        f.add('calc_kG: displacement vector changed')
    f.close('calc_kG: read-only displacement vector', dense(calc_kG(v2, mesh, nm)), g.kG(idx, v2), scale=s)
    # integers
    v = np.round(d1/np.max(np.abs(d1))*1000)
    f.close('calc_kG: displacement vector of integers', dense(calc_kG(v.astype(int), mesh, nm)), g.kG(idx, v), scale=np.max(np.abs(g.kG(idx, v))))
    # uniform laminate, linear field: exact work for linear deflections
    c2 = copy.deepcopy(case)
    c2['nprop'] = [0]*g.n
    c2['tprop'] = [0]*len(g.tris)
    m2, g2, _, idx2 = start(c2)
    C = g2.lams[0].C()
    A = sum(g2.area)
    for name, u, e in linear_fields(g2, idx2):
        if not e.any():
            continue
        KG = dense(calc_kG(u, m2, nm))
        N = (C @ e)[:3]
        fx, fy = np.zeros(5*g.n), np.zeros(5*g.n)
        for i in range(g.n):
            fx[5*idx2[i] + 2], fy[5*idx2[i] + 2] = g2.xy[i]
        # magnitude of the matrix if nothing cancels
        b = np.max(np.abs(C[:3, :3] if e[:3].any() else C[:3, 3:]))
        aK = np.sum(np.abs(KG)) + b*np.max(np.abs(u))/np.sqrt(min(g2.area))*len(g2.edges)
        for p, q, ex in ((fx, fx, N[0]), (fy, fy, N[1]), (fx, fy, N[2])):
            f.close('calc_kG: work for the linear field %s' % name, p @ KG @ q, A*ex, scale=np.max(np.abs(p))*np.max(np.abs(q))*aK*1e-2 + abs(A*ex))
    return f


# -- C12 ---------------------------------------------------------------------
def c12(case):
    f = Fail()
    calc_k0, calc_kG, add_k0s = mods()
    mesh, g, K, idx = start(case)
    if not validindex(f, g, idx):
        return f
    nm = case['nodemode']
    N = 5*g.n
    rng = rnd(case, 4)
    inplane = np.zeros(N, dtype=bool)
    inplane[0::5] = inplane[1::5] = True
    for m in METHODS:
        for al, ar in ((0.1, False), (0., True)):
            kw = dict(method=m, alpha=al, maxl_from_area=ar)
            tag = 'add_k0s %s' % m
            Z = np.zeros((N, N))
            snap = snapshot(mesh)
            r = add_k0s(Z, mesh, nm, **kw)
            unchanged(f, tag, snap, snapshot(mesh))
            if r is not Z:
                f.add('%s: does not return the given matrix' % tag)
            D = Z.copy()
            symmetric(f, tag, D)
            if g.n < 70:
                psd(f, tag, D)
            one = np.zeros(N)
            one[2::5] = 1.
            f.close('%s: uniform deflection' % tag, D @ one, np.zeros(N), scale=np.max(np.abs(D)))
            if D[inplane].any() or D[:, inplane].any():
                f.add('%s: in-plane rows or columns written' % tag)
            for kind in range(5):
                if kind == 0:
                    P = rng.normal(size=(N, N))*np.max(np.abs(D))
                elif kind == 1:
                    P = np.asfortranarray(rng.normal(size=(N, N))*np.max(np.abs(D)))
                elif kind == 2:
                    big = rng.normal(size=(2*N, 2*N))*np.max(np.abs(D))
                    P = big[::2, 1::2]
                    before_big = big.copy()
                elif kind == 3:
                    P = np.array(K, dtype=float)
                else:
                    P = D.copy()
                before = P.copy()
                r = add_k0s(P, mesh, nm, **kw)
                if r is not P:
                    f.add('%s: does not return the given matrix' % tag)
                if kind == 2:
                    before_big[::2, 1::2] = P
                    if before_big.tobytes() != big.tobytes():
                        f.add('%s: memory outside the given matrix written' % tag)
                f.close('%s: added matrix independent of the contents' % tag, P - before, D, scale=np.max(np.abs(D)) + np.max(np.abs(before)))
                if P[inplane].tobytes() != before[inplane].tobytes() or P[:, inplane].tobytes() != before[:, inplane].tobytes():
                    f.add('%s: in-plane rows or columns changed' % tag)
            # single precision
            P = np.zeros((N, N), dtype=np.float32)
            r = add_k0s(P, mesh, nm, **kw)
            if r is not P or P.dtype != np.float32:
                f.add('%s: does not return the given matrix of single precision' % tag)
            f.close('%s: matrix of single precision' % tag, P.astype(float)*1e-4, D*1e-4, scale=np.max(np.abs(D)))
            # confinement
            mask = np.zeros((g.n, g.n), dtype=bool)
            for group in ([g.tris[t] for t in range(len(g.tris))] if m != 'edge-based' else [sorted({i for t in ts for i in g.tris[t]}) for a, b, ts in g.edges]):
                p = [idx[i] for i in group]
                mask[np.ix_(p, p)] = True
            bad = ~np.kron(mask, np.ones((5, 5), dtype=bool)) & (D != 0)
            if bad.any():
                f.add('%s: entry %s outside the nodes sharing triangles' % (tag, tuple(map(int, np.argwhere(bad)[0]))))
    return f


# -- C13, C14 ------------------------------------------------------------------
def c13(case):
    f = Fail()
    calc_k0, calc_kG, add_k0s = mods()
    mesh, g, K, idx = start(case)
    if not validindex(f, g, idx):
        return f
    N = 5*g.n
    ms = METHODS[:2]
    shear_energies(f, case, mesh, g, idx, add_k0s, methods=ms)
    for m in ms:
        S = np.zeros((N, N))
        add_k0s(S, mesh, case['nodemode'], method=m, alpha=0.05)
        aS = np.abs(S)
        for nm, fn in (('w=x^2/2', lambda x, y: (x*x/2, -x, 0)), ('w=y^2/2', lambda x, y: (y*y/2, 0, -y)), ('w=xy', lambda x, y: (x*y, -y, -x)),
                       ('combined', lambda x, y: (x*x - 2*y*y + 3*x*y, -2*x - 3*y, 4*y - 3*x))):
            u = np.zeros(N)
            for i in range(g.n):
                u[5*idx[i] + 2:5*idx[i] + 5] = fn(*g.xy[i])
            f.close('%s: constant curvature %s' % (m, nm), S @ u, np.zeros(N), scale=np.max(aS @ np.abs(u)))
    # corner order
    rng = rnd(case, 5)
    S = np.zeros((N, N))
    add_k0s(S, mesh, case['nodemode'], method='cell-based', alpha=0.3)
    for r in range(3):
        c2 = copy.deepcopy(case)
        c2['tris'] = [[t[i] for i in rng.permutation(3)] for t in case['tris']]
        m2, g2, _, idx2 = start(c2)
        S2 = np.zeros((N, N))
        add_k0s(S2, m2, case['nodemode'], method='cell-based', alpha=0.3)
        p = np.zeros(N, dtype=int)
        for i in range(g.n):
            p[5*idx[i]:5*idx[i] + 5] = 5*idx2[i] + np.arange(5)
        f.close('cell-based: another corner order', S2[np.ix_(p, p)], S)
    return f


def c14(case):
    f = Fail()
    calc_k0, calc_kG, add_k0s = mods()
    mesh, g, K, idx = start(case)
    if not validindex(f, g, idx):
        return f
    if shear_energies(f, case, mesh, g, idx, add_k0s, methods=('edge-based',)):
        f.known = True
    return f


def c15(case):
    f = Fail()
    calc_k0, calc_kG, add_k0s = mods()
    mesh, g, K, idx = start(case)
    if not validindex(f, g, idx):
        return f
    N = 5*g.n
    nm = case['nodemode']
    shear_energies(f, case, mesh, g, idx, add_k0s, alphas=(0., 0.08, 0.6, 25.))
    for m in METHODS:
        for ar in (False, True):
            prev = None
            for al in (0., 0.05, 0.5, 10.):
                S = np.zeros((N, N))
                add_k0s(S, mesh, nm, method=m, alpha=al, maxl_from_area=ar)
                if prev is not None and g.n < 30:
                    psd(f, '%s: larger alpha never increases the stiffness' % m, prev - S, np.linalg.norm(prev))
                prev = S
    D, X = np.zeros((N, N)), np.zeros((N, N))
    add_k0s(D, mesh, nm)
    add_k0s(X, mesh, nm, method='cell-based', alpha=0.08, maxl_from_area=False)
    f.close('defaults', D, X)
    for m in METHODS:
        D, X = np.zeros((N, N)), np.zeros((N, N))
        add_k0s(D, mesh, nm, m)
        add_k0s(X, mesh, nm, method=m, alpha=0.08, maxl_from_area=False)
        f.close('defaults of %s' % m, D, X)
        D, X = np.zeros((N, N)), np.zeros((N, N))
        add_k0s(D, mesh, nm, m, 0.2, True)
        add_k0s(X, mesh, nm, maxl_from_area=True, alpha=0.2, method=m)
        f.close('positional options of %s' % m, D, X)
    return f


# -- C16 ---------------------------------------------------------------------
NAMES = ('', 'cell', 'edge', 'node-based', 'Cell-based', 'CELL-BASED', 'edge-based ', ' edge-based', 'cell-based-smoothing', 'cell-based-no-smoothin',
         'cell-based-no-smoothing-', 'edge_based', 'cell_based', 'edge-base', 'none', 'ES-PIM', 'cell-based\n', 'edge', 'no-smoothing', 'based', '-based', 'default', '0', 'None')


def c16(case):
    f = Fail()
    calc_k0, calc_kG, add_k0s = mods()
    nm = case['nodemode']
    mesh = M.build(case)
    g = Geo(case)
    if not nm:
        pos = range(len(g.tris))
    else:
        pos = sorted({i for t in g.tris for i in t})
    if len(pos) > 12:
        rng = rnd(case, 6)
        pos = sorted(rng.choice(list(pos), 12, replace=False))
    for p in pos:
        o = (mesh.nodelist if nm else mesh.trialist)[p]
        old, o.prop = o.prop, None
        try:
            calc_k0(mesh, nm)
            got = 'no error'
        except ValueError:
            got = None
        except Exception as e:
            got = repr(e)
        if got:
            f.add('calc_k0 without property of %s %d: %s' % ('node' if nm else 'triangle', p, got))
        o.prop = old
    # the other mode is never required (properties of it are None in the case)
    try:
        K = calc_k0(mesh, nm)
        calc_kG(np.zeros(5*g.n), mesh, nm)
        for m in METHODS:
            add_k0s(np.zeros((5*g.n, 5*g.n)), mesh, nm, method=m)
    except Exception as e:
        f.add('complete model rejected: %r' % e)
        return f
    for name in NAMES:
        S = rnd(case, 7).normal(size=(5*g.n, 5*g.n))
        b, s = S.tobytes(), snapshot(mesh)
        try:
            add_k0s(S, mesh, nm, method=name)
            f.add('add_k0s accepts the method %r' % name)
        except ValueError:
            pass
        except Exception as e:
            f.add('add_k0s with the method %r raises %r' % (name, e))
        if S.tobytes() != b:
            f.add('add_k0s with the method %r changes the matrix' % name)
        unchanged(f, 'add_k0s with the method %r' % name, s, snapshot(mesh))
    # edges with no, three or more triangles
    el = list(mesh.edges.values())
    picks = el if len(el) <= 8 else el[:3] + el[-3:] + el[len(el)//2:len(el)//2 + 2]
    for e in picks:
        old = e.trias
        o2 = [t for t in mesh.trialist if t not in old]
        more = [old + o2[:k - len(old)] for k in (3, 4)]
        for new in [[]] + [x for x in more if len(x) > 2]:
            e.trias = list(new)
            try:
                calc_k0(mesh, nm)
                got = 'no error'
            except NotImplementedError:
                got = None
            except Exception as x:
                got = repr(x)
            if got:
                f.add('calc_k0 with %d triangles at an edge: %s' % (len(new), got))
            if len(new) < 3:
                continue
            for kw in ({}, dict(alpha=0.), dict(alpha=0.4, maxl_from_area=False), dict(alpha=2., maxl_from_area=True)):
                try:
                    add_k0s(np.zeros((5*g.n, 5*g.n)), mesh, nm, method='edge-based', **kw)
                    f.add('edge-based add_k0s(%s) with %d triangles at an edge: no error' % (kw, len(new)))
                except NotImplementedError:
                    pass
                except Exception as x:
                    f.add('edge-based add_k0s(%s) with %d triangles at an edge: %r' % (kw, len(new), x))
        e.trias = old
    return f


# -- C17 ---------------------------------------------------------------------
def c17(case):
    """random histories against a fresh mesh"""
    f = Fail()
    calc_k0, calc_kG, add_k0s = mods()
    case = copy.deepcopy(case)
    rng = np.random.default_rng(case.get('hseed', 0))
    mesh = M.build(case)
    n, m = len(case['xy']), len(case['tris'])
    N = 5*n
    d = rng.normal(size=N)
    kept = []

    def model():
        """bring the mesh object to the state of the case"""
        for i, nd in enumerate(mesh.nodelist):
            new = np.array([case['xy'][i][0], case['xy'][i][1], case['z']])
            if case.get('inplace'):
                nd.xyz[:] = new
            else:
                nd.xyz = new
        M.setprops(mesh, case, case['nodemode'])
        if case.get('both'):
            for i, nd in enumerate(mesh.nodelist):
                nd.prop = mesh.lams[case['nprop'][i]]
            for t, e in enumerate(mesh.trialist):
                e.prop = mesh.lams[case['tprop'][t]]

    def results(ms, nm, full=True):
        out = [('calc_k0', calc_k0(ms, nm))]
        if full:
            out.append(('calc_kG', calc_kG(d, ms, nm)))
            for me in METHODS:
                S = np.zeros((N, N))
                out.append((me, add_k0s(S, ms, nm, method=me, alpha=0.1)))
        return out, [x.index for x in ms.nodelist]

    case['both'] = bool(rng.random() < 0.5)
    case['inplace'] = bool(rng.random() < 0.5)
    model()
    hist = []
    for step in range(6):
        op = rng.choice(['call', 'move', 'shift', 'props', 'edit', 'mode', 'partial', 'error', 'order', 'other model'])
        hist.append(str(op))
        nm = case['nodemode']
        if op == 'move':
            xy = np.array(case['xy'])
            A = np.eye(2) + rng.uniform(-0.3, 0.3, (2, 2))
            case['xy'] = (xy @ A + rng.uniform(-2, 2, 2)).tolist()
            case['z'] = float(rng.choice([0., 1.5]))
            model()
        elif op == 'shift':
            xy = np.array(case['xy'])
            case['xy'] = (xy*np.array([-1., 1.])).tolist()
            model()
        elif op == 'props':
            case['nprop'] = [int(v) for v in rng.permutation(case['nprop'])]
            case['tprop'] = [int(v) for v in rng.permutation(case['tprop'])]
            model()
        elif op == 'edit':
            k = int(rng.integers(len(case['lams'])))
            case['lams'][k] = M.random_lam(rng)
            L = M.Lam(case['lams'][k])
            L0 = mesh.lams[k]
            for a in ('A', 'B', 'D', 'E', 'h', 'scf_k13', 'scf_k23'):
                if isinstance(getattr(L0, a), np.ndarray) and case['inplace']:
                    getattr(L0, a)[...] = getattr(L, a)
                else:
                    setattr(L0, a, getattr(L, a))
        elif op == 'mode':
            case['nodemode'] = not nm
            model()
        elif op == 'order':
            # the same nodes, listed in another order
            case['norder'] = [int(v) for v in rng.permutation(n)]
            mesh.nodes.clear()
            for i in case['norder']:
                mesh.nodes[case['nids'][i]] = mesh.nodelist[i]
        elif op == 'other model':
            # the node objects took part in the analysis of another mesh
            for nd, i in zip(mesh.nodelist, rng.permutation(n + 3)):
                nd.index = int(i)
            model()
        elif op == 'partial':
            for _ in range(3):
                try:
                    calc_k0(mesh, nm)
                    add_k0s(np.zeros((N, N)), mesh, nm, method=str(rng.choice(METHODS)))
                    calc_kG(rng.normal(size=N), mesh, nm)
                except Exception as e:
                    f.add('history %s: %r' % (hist, e))
                    return f
            continue
        elif op == 'error':
            o = (mesh.nodelist[case['tris'][0][0]] if nm else mesh.trialist[0])
            old, o.prop = o.prop, None
            try:
                calc_k0(mesh, nm)
            except Exception:
                pass
            try:
                add_k0s(np.zeros((N, N)), mesh, nm, method='unknown')
            except Exception:
                pass
            o.prop = old
        nm = case['nodemode']
        snap = snapshot(mesh)
        fresh = M.build(case)
        ra, ia = results(mesh, nm)
        unchanged(f, 'history %s' % hist, snap, snapshot(mesh))
        rb, ib = results(fresh, nm)
        p = np.zeros(N, dtype=int)
        if sorted(ia) != sorted(ib) or sorted(ia) != list(range(n)):
            f.add('history %s: node indices %r instead of %r' % (hist, ia[:6], ib[:6]))
            return f
        for i in range(n):
            p[5*ia[i]:5*ia[i] + 5] = 5*ib[i] + np.arange(5)
        if ia == ib:
            for (nme, a), (_, b) in zip(ra, rb):
                f.close('history %s: %s differs from that of a fresh mesh' % (hist, nme), dense(a), dense(b))
        else:
            f.close('history %s: calc_k0 differs from that of a fresh mesh' % hist, dense(ra[0][1]), dense(rb[0][1])[np.ix_(p, p)])
        for nme, K in ra:
            for o, oc, on in kept:
                if np.shares_memory(dense(o), dense(K)):
                    f.add('history %s: %s shares storage with an earlier %s' % (hist, nme, on))
            kept.append((K, np.array(dense(K)), nme))
        for o, oc, on in kept:
            if np.asarray(dense(o)).tobytes() != oc.tobytes():
                f.add('history %s: an earlier result of %s was changed' % (hist, on))
        if f:
            return f
    return f


def cases_generic(rng, deep):
    yield from M.meshes(rng, deep=deep)


def cases_small(rng, deep):
    yield from M.meshes(rng, deep=deep, small=not deep)


def cases_c14(rng, deep):
    yield from M.meshes(rng, deep=deep)
    # z equal to the y of the oriented first node: the recorded defect vanishes
    for k in range(12 if not deep else 60):
        p, t = M.pair(rng)
        for nm in (True, False):
            c = M.finish(rng, p, t, nodemode=nm)
            g = Geo(c)
            e = next(e for e in g.edges if len(e[2]) == 2)
            c['z'] = float(g.xy[g.oriented(e)[0]][1])
            yield 'pair in the plane z=y', c
    for k in range(6 if not deep else 40):
        p, t = M.single(rng)
        for nm in (True, False):
            yield 'single', M.finish(rng, M.transform(rng, p, 'rot'), t, nodemode=nm)


def cases_c17(rng, deep):
    for rep in range(1 if not deep else 6):
        for nm, c in M.meshes(rng, small=True):
            c['hseed'] = int(rng.integers(1 << 30))
            yield nm, c


SUITE = {
    'C06': (c06, cases_generic), 'C07': (c07, cases_generic), 'C08': (c08, cases_generic), 'C09': (c09, cases_generic),
    'C10': (c10, cases_small), 'C11': (c11, cases_generic), 'C12': (c12, cases_small), 'C13': (c13, cases_small),
    'C14': (c14, cases_c14), 'C15': (c15, cases_c14), 'C16': (c16, cases_small), 'C17': (c17, cases_c17),
}
