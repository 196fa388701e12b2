"""Contracts of the mesh readers (C04, C05): the symbolic heap of dv/heap.py is
run over read_delaunay / read_mesh and the connectivity of the result is proved
for all point clouds and triangulations, all decks."""
import itertools
import os

from .ctx import z3

from . import load
from .alg import Unsupported
from .heap import (Ext, Heap, Cls, Obj, Seq, Str, Vec, _Dead, _Ret, base_contracts, conj, fresh, imax, imin, isint, isz, ones, simp, subst, zb, zi, zr)

I = z3.IntSort()


class Proof:
    """obligations of one run"""

    def __init__(self, c, h, tag, fn, small, cex):
        self.c, self.h, self.tag, self.fn = c, h, tag, fn
        self.small, self.cex = small, cex
        self.hyp = []
        self.small2 = []
        self.guards = []

    def ob(self, name, ok, detail=''):
        """obligation decided by the shape of the heap"""
        self.c.oblig('%s %s/%s' % (self.tag, self.fn, name), ok, 'heap structure' if ok else 'heap structure refuted', detail)
        return ok

    def vc(self, name, goal, detail=''):
        h = self.h
        full = '%s %s/%s' % (self.tag, self.fn, name)
        r = h.prove(goal, extra=self.hyp, ms=20000)
        if r is True:
            self.c.oblig(full, True, 'z3 with quantifiers')
            return True
        if r is None and h.prove(goal, extra=self.hyp + self.small, ms=20000) is not False:
            self.c.oblig(full, False, 'undecided', 'z3 does not decide the obligation')
            return False
        case = None
        for small in (self.small, self.small2):
            if case is None and small and h.prove(goal, extra=self.hyp + small, ms=20000) is False:
                try:
                    case = self.cex(h.last.model())
                except Exception as e:   # the obligation has failed all the same
                    detail += ' (no input extracted: %r)' % e
        self.c.oblig(full, False, 'countermodel', '%s %s' % (detail, 'input with %d triangles' % len(case['tris']) if case else 'no small model'), cex=dict(case=case) if case else None)
        return False

    def always(self, *gs):
        return Scope(self, gs)


class Scope:
    def __init__(self, p, gs):
        self.p, self.gs = p, [zb(g) for g in gs]

    def __enter__(self):
        self.n = len(self.p.h.pc)
        self.p.h.pc += self.gs

    def __exit__(self, *a):
        del self.p.h.pc[self.n:]


# -- pyNastran: the small methods are executed from their source, as well

def pynastran():
    import importlib.util
    base = list(importlib.util.find_spec('pyNastran').submodule_search_locations)[0]
    return {'pyNastran.bdf.cards.%s' % m: os.path.join(base, 'bdf', 'cards', *m.split('.')) + '.py' for m in ('base_card', 'nodes', 'elements.shell')}


def heap(c):
    C = base_contracts()
    h = Heap(load.REPO, C, c)
    h.real = pynastran()
    C['pyNastran.bdf.bdf', 'GRID'] = h.module('pyNastran.bdf.cards.nodes').ns['GRID']
    C['pyNastran.bdf.bdf', 'CTRIA3'] = h.module('pyNastran.bdf.cards.elements.shell').ns['CTRIA3']
    for x in ('GRID', 'CTRIA3'):
        if not isinstance(C['pyNastran.bdf.bdf', x], Cls):
            raise Unsupported('pyNastran: %s' % x)
    return h, C


def isa(o, *names):
    return isinstance(o, Obj) and ('CTRIA3' if o.cls == 'elem' else getattr(o.cls, 'name', o.cls)) in names


def empty_bdf(h, a, k, n):
    m = h.alloc('BDF', n)
    for q in ('nodes', 'elements'):
        h.emit('attr', m, q, h.alloc('dict', n, (q,)))
    return m


# -- the connectivity contract

class Mesh:
    """what the mesh has to be like: nodes and triangles as functions of an
    index, and which indices there are"""

    def node_in(self, i):
        raise NotImplementedError

    def tria_in(self, t):
        raise NotImplementedError

    def nid(self, i):
        raise NotImplementedError

    def eid(self, t):
        raise NotImplementedError

    def corner(self, t, k):
        """identifier of corner k of triangle t"""
        raise NotImplementedError


def same(h, p, a, b):
    """condition for the values a and b being the same"""
    e = h.eqs(a, b)
    return False if e is None else conj([zi(x) == zi(y) for x, y in e])


def connectivity(p, M, mesh):
    h = p.h
    h.rec = False
    if not isinstance(mesh, Obj) or mesh.cls != 'BDF':
        raise Unsupported('the reader returns %r' % (mesh,))
    dn, de, dg = (h.getattr(mesh, q) for q in ('nodes', 'elements', 'edges'))
    for d in (dn, de, dg):
        if not isinstance(d, Obj) or d.cls != 'dict':
            raise Unsupported('%r instead of a dictionary' % (d,))
    i, j, t, u = (fresh(q) for q in 'ijtu')

    # nodes
    for B, g, k, v, o in h.entries(dn):
        p.vc('every node of the mesh comes from the input', z3.Implies(zb(g), M.isnid(k)), 'a superfluous node')
    with p.always(M.node_in(i)):
        if not p.vc('every node of the input is in the mesh', h.haskey(dn, M.nid(i)), 'a node is missing'):
            return
        nd = h.getitem(dn, M.nid(i))
        if not p.ob('nodes are grid points', isa(nd, 'GRID'), repr(nd)):
            return
        p.vc('identifiers of the nodes', zb(same(h, p, h.getattr(nd, 'nid'), M.nid(i))), 'the identifier of a node')
        x = h.getattr(nd, 'xyz')
        if p.ob('three coordinates per node', isinstance(x, Vec) and len(x.items) == 3, repr(x)):
            p.vc('coordinates of the nodes', z3.And(*[zr(a) == M.xyz(i, q) for q, a in enumerate(x.items)]), 'a coordinate of a node')
        p.ob('nodes start without properties', h.getattr(nd, 'prop') is None, repr(h.getattr(nd, 'prop')))
        ne, nt = h.getattr(nd, 'edges'), h.getattr(nd, 'trias')
    s2 = [(i, j)]
    with p.always(M.node_in(i), M.node_in(j), i != j):
        p.vc('different nodes are different objects', z3.Not(zb(same(h, p, nd, subst(nd, s2)))), 'two nodes share an object')

    # triangles
    for B, g, k, v, o in h.entries(de):
        p.vc('every triangle of the mesh comes from the input', z3.Implies(zb(g), M.iseid(k)), 'a superfluous triangle')
    with p.always(M.tria_in(t)):
        if not p.vc('every triangle of the input is in the mesh', h.haskey(de, M.eid(t)), 'a triangle is missing'):
            return
        el = h.getitem(de, M.eid(t))
        if not p.ob('elements are triangles', isa(el, 'CTRIA3'), repr(el)):
            return
        p.vc('identifiers of the triangles', zb(same(h, p, h.getattr(el, 'eid'), M.eid(t))), 'the identifier of a triangle')
        p.ob('triangles start without properties', h.getattr(el, 'prop') is None, repr(h.getattr(el, 'prop')))
        tn = h.getattr(el, 'nodes')
        for what, l in (('corners', tn), ('identifiers of the corners', h.getattr(el, 'node_ids'))):
            x = ones(h, l)
            if p.ob('three %s per triangle' % what, len(x) == 3, repr(x)):
                for k in range(3):
                    w = h.getitem(dn, M.corner(t, k)) if what == 'corners' else M.corner(t, k)
                    p.vc('%s of the triangles in their order' % what, zb(same(h, p, x[k], w)), 'corner %d of a triangle' % (k + 1))
        te = h.getattr(el, 'edges')
    s3 = [(t, u)]
    with p.always(M.tria_in(t), M.tria_in(u), t != u):
        p.vc('different triangles are different objects', z3.Not(zb(same(h, p, el, subst(el, s3)))), 'two triangles share an object')

    # edges
    ed = h.entries(dg)
    # the mesh can be without edges only when there are no triangles
    view = []
    for B, g, k, e, o in ed:
        if not p.ob('edges are edge objects', isa(e, 'Edge'), repr(e)):
            return
        with p.always(g):
            n1, n2 = h.getattr(e, 'n1'), h.getattr(e, 'n2')
            if not p.ob('the ends of an edge are nodes', all(isa(q, 'GRID') for q in (n1, n2)), repr((n1, n2))):
                return
            a, b = h.getattr(n1, 'nid'), h.getattr(n2, 'nid')
            for q, x in ((a, n1), (b, n2)):
                if p.vc('the ends of an edge are in the mesh', h.haskey(dn, q), 'end of an edge'):
                    p.vc('the ends of an edge are in the mesh', zb(same(h, p, x, h.getitem(dn, q))), 'end of an edge')
            w = fresh('w')
            p.vc('every edge is a side of a triangle', z3.Exists([w], z3.And(M.tria_in(w), M.hasside(w, a, b))), 'a superfluous edge')
            kk = h.keyterms(k)
            p.ob('edges are stored under two identifiers', len(kk) == 2, repr(k))
            if len(kk) == 2:
                p.vc('edges are stored under their ends', z3.Or(z3.And(zi(kk[0]) == a, zi(kk[1]) == b), z3.And(zi(kk[0]) == b, zi(kk[1]) == a)), 'key of an edge')
            for nm, want in (('nodes', [n1, n2]), ('node_ids', [a, b])):
                x = ones(h, h.getattr(e, nm))
                if p.ob('%s of an edge' % nm, len(x) == 2, repr(x)):
                    p.vc('%s of an edge' % nm, conj([zb(same(h, p, q, r)) for q, r in zip(x, want)]), nm)
            p.guards.append(g)
            view.append((B, g, e, a, b, h.getattr(e, 'trias'), h.getattr(e, 'nodes')))

    def other(v):
        B, g, e, a, b, L, N = v
        s = [(x, fresh('e')) for x in B]
        return [y for _, y in s], subst(g, s), subst(e, s), subst(a, s), subst(b, s), subst(L, s), subst(N, s)

    def pair(a, b, c, d):
        return z3.Or(z3.And(zi(a) == c, zi(b) == d), z3.And(zi(a) == d, zi(b) == c))

    for k in range(3):
        with p.always(M.tria_in(t)):
            a, b = M.corner(t, k), M.corner(t, (k + 1) % 3)
            alts = []
            for v in view:
                B, g, e, a2, b2, L, N = other(v)
                body = z3.And(zb(g), pair(a2, b2, a, b))
                if len(B) == 2:
                    for w in ((imin(a, b), imax(a, b)), (a, b), (b, a)):
                        alts.append(z3.substitute(body, *[(x, zi(y)) for x, y in zip(B, w)]))
                else:
                    alts.append(z3.Exists(B, body) if B else body)
            p.vc('every side of a triangle has an edge', z3.Or(*alts) if alts else z3.BoolVal(False), 'a missing edge')
    for v1, v2 in itertools.combinations_with_replacement(view, 2):
        B1, g1, e1, a1, b1, L1, N1 = v1
        B2, g2, e2, a2, b2, L2, N2 = other(v2)
        eq = same(h, p, e1, e2)
        with p.always(g1, g2):
            p.vc('one edge for a pair of nodes', z3.Implies(pair(a1, b1, a2, b2), zb(eq)), 'two edges for one pair')
            for what, x, y in (('triangle lists', L1, L2), ('node lists', N1, N2)):
                p.vc('edges do not share %s' % what, z3.Implies(z3.Not(zb(eq)), z3.Not(zb(same(h, p, x, y)))), 'shared list')

    def total(container, v, want, name, detail):
        cs = h.count(container, v)
        if container.cls == 'set':
            return p.vc(name, (z3.Or(*cs) if cs else z3.BoolVal(False)) == zb(want), detail)
        bs = [fresh('q', z3.BoolSort()) for _ in cs]
        p.hyp += [x == y for x, y in zip(bs, cs)]
        s = z3.Sum(*[z3.If(x, 1, 0) for x in bs]) if len(bs) > 1 else z3.If(bs[0], z3.IntVal(1), z3.IntVal(0)) if bs else z3.IntVal(0)
        r = p.vc(name, s == z3.If(zb(want), z3.IntVal(1), z3.IntVal(0)), detail)
        del p.hyp[len(p.hyp) - len(cs):]
        return r

    def cont(o, *kinds):
        if not isinstance(o, Obj) or o.cls not in ('list', 'set'):
            raise Unsupported('%r instead of a list or set' % (o,))
        return o

    def only(container, ok, name, detail):
        """everything put into the container satisfies ok"""
        for B, g, x, o in h.elements(container):
            p.vc(name, z3.Implies(zb(g), zb(ok(x))), detail)

    # triangles of the edges, edges of the triangles, edges of the nodes
    def isedge(x):
        alts = []
        for v in view:
            B, g, e, a, b, L, N = other(v)
            q = h.eqs(x, e)
            if q is None:
                continue
            sub, res, left = h.solve(q, B)
            body = conj([subst(zb(g), sub)] + [subst(zb(r), sub) for r in res])
            alts.append(z3.Exists(left, zb(body)) if left else zb(body))
        return z3.Or(*alts) if alts else False

    def istria_(x):
        q = h.eqs(x, el)
        if q is None:
            return False
        sub, res, left = h.solve(q, [t])
        body = conj([subst(M.tria_in(t), sub)] + [subst(zb(r), sub) for r in res])
        return z3.Exists(left, zb(body)) if left else body

    for B, g, e, a, b, L, N in view:
        with p.always(g):
            only(cont(L), istria_, 'edges list triangles of the mesh only', 'something else in the list of an edge')
            with p.always(M.tria_in(t)):
                total(L, el, M.hasside(t, a, b), 'edges list exactly the triangles having the side', 'triangles of an edge')
                total(cont(te), e, M.hasside(t, a, b), 'triangles list exactly their edges', 'edges of a triangle')
            with p.always(M.node_in(i)):
                total(cont(ne), e, z3.Or(zi(a) == M.nid(i), zi(b) == M.nid(i)), 'nodes list exactly their edges', 'edges of a node')
    with p.always(M.tria_in(t)):
        only(te, isedge, 'triangles list edges of the mesh only', 'something else in the list of a triangle')
    with p.always(M.node_in(i)):
        only(ne, isedge, 'nodes list edges of the mesh only', 'something else in the list of a node')
        only(cont(nt), lambda x: z3.And(z3.BoolVal(isint(x)), M.iseid(x)) if isint(x) else False, 'nodes list identifiers of triangles only', 'something else in the list of a node')
        with p.always(M.tria_in(t)):
            total(nt, M.eid(t), z3.Or(*[zi(M.corner(t, k)) == M.nid(i) for k in range(3)]), 'nodes list exactly their triangles', 'triangles of a node')

    # nobody shares a container
    cs = [('edges of the nodes', ne, [i], M.node_in(i)), ('triangles of the nodes', nt, [i], M.node_in(i)),
          ('edges of the triangles', te, [t], M.tria_in(t)), ('corners of the triangles', tn, [t], M.tria_in(t))]
    for (w1, o1, b1, g1), (w2, o2, b2, g2) in itertools.combinations_with_replacement(cs, 2):
        s = [(x, fresh('z')) for x in b2]
        eq = same(h, p, o1, subst(o2, s))
        dif = z3.Or(*[x != y for x, y in zip(b1, [y for _, y in s])]) if w1 == w2 else z3.BoolVal(True)
        with p.always(g1, subst(g2, s), dif):
            p.vc('%s and %s are kept apart' % (w1, w2), z3.Not(zb(eq)), 'shared container')
    for w1, o1, b1, g1 in cs:
        for B, g, e, a, b, L, N in view:
            with p.always(g1, g):
                p.vc('%s and lists of the edges are kept apart' % w1, z3.Not(z3.Or(zb(same(h, p, o1, L)), zb(same(h, p, o1, N)))), 'shared container')
    return True


def finish(p, h, f, args, mesh_of):
    """run the function; returns its value"""
    try:
        return h.call(f, args, {}, f.node)
    except _Dead:
        return None


# -- read_delaunay

class Delaunay(Mesh):
    def __init__(self, dim):
        self.N, self.M = z3.Int('N'), z3.Int('M')
        self.S = [z3.Function('S%d' % k, I, I) for k in range(3)]
        self.X = z3.Function('X', I, I, z3.RealSort())
        self.dim = dim

    def node_in(self, i):
        return z3.And(0 <= i, i < self.N)

    def tria_in(self, t):
        return z3.And(0 <= t, t < self.M)

    def nid(self, i):
        return i + 1

    def eid(self, t):
        return t + 1

    def isnid(self, k):
        return z3.And(1 <= zi(k), zi(k) <= self.N) if isint(k) else z3.BoolVal(False)

    def iseid(self, k):
        return z3.And(1 <= zi(k), zi(k) <= self.M) if isint(k) else z3.BoolVal(False)

    def corner(self, t, k):
        return simp(self.S[k](t) + 1)

    def hasside(self, t, a, b):
        out = []
        for k in range(3):
            c, d = self.corner(t, k), self.corner(t, (k + 1) % 3)
            out.append(z3.Or(z3.And(zi(a) == c, zi(b) == d), z3.And(zi(a) == d, zi(b) == c)))
        return z3.Or(*out)

    def xyz(self, i, q):
        return self.X(i, q) if q < self.dim else z3.RealVal(0)


def canary(p, M):
    """the prover must not accept what is false"""
    h = p.h
    t = fresh('t')
    r = h.prove(z3.Implies(M.tria_in(t), zi(M.corner(t, 0)) < zi(M.corner(t, 1))))
    p.c.oblig('%s canary: corners in increasing order' % p.tag, r is not True, 'canary')
    u = fresh('u')
    with p.always(M.tria_in(t), M.tria_in(u), t != u):
        p.c.oblig('%s canary: two triangles' % p.tag, h.prove(z3.BoolVal(False)) is not True, 'canary')
        for g in p.guards:
            p.c.oblig('%s canary: edges' % p.tag, h.prove(z3.BoolVal(False), extra=[g]) is not True, 'canary')


def prog_delaunay(c, dim):
    M = Delaunay(dim)
    h, C = heap(c)
    C['pyNastran.bdf.bdf', 'BDF'] = Ext('BDF', empty_bdf)
    t = z3.Int('t')
    s = [f(t) for f in M.S]
    h.axioms = [M.N >= 0, M.M >= 0,
                z3.ForAll([t], z3.Implies(M.tria_in(t), z3.And(*([z3.And(0 <= x, x < M.N) for x in s] + [s[0] != s[1], s[1] != s[2], s[2] != s[0]]))), patterns=[z3.MultiPattern(x) for x in s])]
    C['Delaunay', 'simplices'] = Ext('property', lambda h, o: Seq(M.M, lambda t: Vec([f(t) for f in M.S], 'array'), 'simplices', 3))
    points = Seq(M.N, lambda i: Vec([M.X(i, z3.IntVal(q)) for q in range(dim)], 'array'), 'points', dim)
    tri = Obj('Delaunay', ('argument',))

    def cex(m):
        n, k = (m.eval(x, True).as_long() for x in (M.N, M.M))
        num = lambda x: float(m.eval(x, True).as_fraction())
        pts = [[num(M.X(i, z3.IntVal(q))) for q in range(dim)] for i in range(n)]
        return dict(points=pts, tris=[[m.eval(f(z3.IntVal(t)), True).as_long() for f in M.S] for t in range(k)])

    p = Proof(c, h, 'C04', 'read_delaunay', [M.N <= 6, M.M <= 3], cex)
    p.small2 = [M.N <= 20000, M.M <= 3]
    f = h.module('meshless.espim.read_mesh').ns['read_delaunay']
    mesh = finish(p, h, f, [points, tri, z3.Bool('silent')], None)
    for r in h.raises:
        with p.always():
            h2 = h.facts
            h.facts = []
            p.vc('no triangulation is rejected', z3.Not(z3.Exists(r.binders, zb(r.guard))) if r.binders else z3.Not(zb(r.guard)), 'raises %s' % r.exc)
            h.facts = h2
    if mesh is None:
        raise Unsupported('no path returns a mesh')
    connectivity(p, M, mesh)
    canary(p, M)


# -- read_mesh

class Deck(Mesh):
    def __init__(self):
        B = z3.BoolSort()
        self.isnode = z3.Function('isnode', I, B)
        self.iselem = z3.Function('iselem', I, B)
        self.kind = z3.Function('kind', I, I)
        # kept apart by pyNastran, under identifiers of their own
        self.others = {q: z3.Function('is_' + q, I, B) for q in ('masses', 'rigid_elements')}
        self.C = [z3.Function('C%d' % k, I, I) for k in range(3)]
        self.X = z3.Function('X', I, I, z3.RealSort())

    def node_in(self, i):
        return self.isnode(i)

    def tria_in(self, t):
        return self.iselem(t)

    def nid(self, i):
        return i

    def eid(self, t):
        return t

    def isnid(self, k):
        return self.isnode(zi(k)) if isint(k) else z3.BoolVal(False)

    def iseid(self, k):
        return self.iselem(zi(k)) if isint(k) else z3.BoolVal(False)

    def corner(self, t, k):
        return self.C[k](t)

    hasside = Delaunay.hasside

    def xyz(self, i, q):
        return self.X(i, q)


def prog_deck(c):
    M = Deck()
    h, C = heap(c)
    grid, ctria3 = (C['pyNastran.bdf.bdf', x] for x in ('GRID', 'CTRIA3'))
    C['elemcls'] = lambda h: ctria3
    t, n = z3.Int('t'), z3.Int('n')
    s = [f(t) for f in M.C]
    h.axioms = [z3.ForAll([t], z3.Implies(z3.And(M.iselem(t), M.kind(t) == 0),
                                          z3.And(*([M.isnode(x) for x in s] + [s[0] != s[1], s[1] != s[2], s[2] != s[0]]))), patterns=[z3.MultiPattern(x) for x in s]),
                z3.ForAll([t], z3.Implies(M.iselem(t), z3.And(t >= 1, M.kind(t) >= 0)), patterns=[M.iselem(t)]),
                z3.ForAll([n], z3.Implies(M.isnode(n), n >= 1), patterns=[M.isnode(n)])]

    def kind(o):
        if o.cls != 'elem':
            return z3.IntVal(0)
        if o.site[1] != 'element':
            return z3.IntVal(1)
        return M.kind(zi(o.args[0]))
    C['kind'] = kind

    def read_bdf(h, a, k, node):
        if set(k) - {'debug', 'xref', 'punch', 'log', 'mode'} or len(a) != 1 or k.get('xref', True) is not True or k.get('punch', False) is not False:
            raise Unsupported('options of read_bdf')
        if any(e.kind == 'attr' for e in h.log) or h.binders:
            raise Unsupported('read_bdf called again')
        m = Obj('BDF', ('read_bdf',))
        dn, de = Obj('dict', ('read_bdf', 'nodes')), Obj('dict', ('read_bdf', 'elements'))
        h.emit('attr', m, 'nodes', dn)
        h.emit('attr', m, 'elements', de)
        n, e = fresh('n'), fresh('e')

        def fam(B, g, l):
            for kind, o, name, v, g2 in l:
                h.emit(kind, o, name, v)
                h.log[-1].binders = [B]
                h.log[-1].guard = conj([h.log[-1].guard, g, g2])
        nd = Obj(grid, ('read_bdf', 'GRID'), (n,))
        fam(n, M.isnode(n), [('item', dn, n, nd, True), ('attr', nd, 'nid', n, True),
                             ('attr', nd, 'xyz', Vec([M.X(n, z3.IntVal(q)) for q in range(3)], 'array'), True)])
        el = Obj('elem', ('read_bdf', 'element'), (e,))
        l1, l2 = Obj('list', ('read_bdf', 'nodes'), (e,)), Obj('list', ('read_bdf', 'nodes_ref'), (e,))
        tri = M.kind(e) == 0
        for q in M.others:
            dq, x = Obj('dict', ('read_bdf', q)), fresh('x')
            h.emit('attr', m, q, dq)
            fam(x, M.others[q](x), [('item', dq, x, Obj('elem', ('read_bdf', 'other', q), (x,)), True), ('attr', Obj('elem', ('read_bdf', 'other', q), (x,)), 'eid', x, True)])
        fam(e, M.iselem(e), [('item', de, e, el, True), ('attr', el, 'eid', e, True), ('attr', el, 'nodes', l1, tri), ('attr', el, 'nodes_ref', l2, tri)]
            + [('put', l1, None, f(e), tri) for f in M.C] + [('put', l2, None, Obj(grid, nd.site, (f(e),)), tri) for f in M.C])
        return m
    C['pyNastran.bdf.bdf', 'read_bdf'] = Ext('read_bdf', read_bdf)
    es = [z3.Int('e%d' % k) for k in range(3)]
    ns = [z3.Int('n%d' % k) for k in range(6)]
    small = [z3.ForAll([t], z3.Implies(f(t), t == 5)) for f in M.others.values()] + [z3.ForAll([t], z3.Implies(M.iselem(t), z3.Or(*[t == e for e in es]))), z3.ForAll([n], z3.Implies(M.isnode(n), z3.Or(*[n == e for e in ns])))] + \
        [z3.And(x >= 1, x <= 99999999) for x in es + ns]

    def cex(m):
        val = lambda x: m.eval(x, True)
        nids = sorted({val(x).as_long() for x in ns if z3.is_true(val(M.isnode(x)))})
        eids = sorted({val(x).as_long() for x in es if z3.is_true(val(M.iselem(x)))})
        tr = [x for x in eids if val(M.kind(z3.IntVal(x))).as_long() == 0]
        case = dict(nids=nids, eids=tr, coords=[[float(val(M.X(z3.IntVal(x), z3.IntVal(q))).as_fraction()) for q in range(3)] for x in nids],
                    tris=[[val(f(z3.IntVal(x))).as_long() for f in M.C] for x in tr], elemsfirst=False)
        for q, card in (('masses', 'CONM2'), ('rigid_elements', 'RBE2')):
            if z3.is_true(val(M.others[q](z3.IntVal(5)))) and len(tr) == len(eids):
                case.update(other=card, oid=max(eids + [4]) + 1, opos=0)
        if len(tr) < len(eids):
            case.update(other='CBAR', oid=[x for x in eids if x not in tr][0], opos=eids.index([x for x in eids if x not in tr][0]))
        if 'other' in case:
            while len(case['nids']) < 4:
                case['nids'].append(max(case['nids'] + [0]) + 1)
                case['coords'].append([1., 2., float(len(case['nids']))])
        return case

    p = Proof(c, h, 'C05', 'read_mesh', small, cex)
    f = h.module('meshless.espim.read_mesh').ns['read_mesh']
    mesh = finish(p, h, f, [Str(), z3.Bool('silent')], None)
    facts, h.facts = h.facts, []
    foreign = z3.Or(z3.Exists([t], z3.And(M.iselem(t), M.kind(t) != 0)), *[z3.Exists([t], f(t)) for f in M.others.values()])
    alts = []
    for r in h.raises:
        p.ob('decks are rejected with a not-implemented error', r.exc == 'NotImplementedError', 'raises %s' % r.exc)
        alts.append(z3.Exists(r.binders, zb(r.guard)) if r.binders else zb(r.guard))
    p.vc('decks with other elements are rejected', z3.Implies(foreign, z3.Or(*alts) if alts else z3.BoolVal(False)), 'a deck with another element is read')
    p.vc('decks of triangles are not rejected', z3.Implies(z3.Or(*alts) if alts else z3.BoolVal(False), foreign), 'a deck of triangles is rejected')
    # from here on: the decks that are read
    h.facts = facts
    h.axioms.append(z3.ForAll([t], z3.Implies(M.iselem(t), M.kind(t) == 0), patterns=[M.iselem(t)]))
    h.axioms += [z3.ForAll([t], z3.Not(f(t))) for f in M.others.values()]
    if mesh is None:
        raise Unsupported('no path returns a mesh')
    connectivity(p, M, mesh)
    canary(p, M)
