"""Specification functions (mathematics only, independent of the code text).

Every function takes the World of mesh.py and returns exact values (alg.R).
"""
from fractions import Fraction

from . import alg, shim
from .alg import R, const, var

F = Fraction


def c(a, b=1):
    return const(F(a, b))


class Spec:
    def __init__(self, W, zfix=False):
        self.W = W
        self.names = {'boundary': ['n1', 'n2', 'o1'], 'interior': ['n1', 'n2', 'o1', 'o2'],
                      'tria': ['n1', 'n2', 'n3']}[W.kind]
        self.xy = W.xy

    # -- geometry ---------------------------------------------------------
    def tri(self, k):
        """(corner names, orientation sign, area) of triangle k"""
        W = self.W
        nm = {0: ['n1', 'n2', 'n3' if W.kind == 'tria' else 'o1'], 1: ['n1', 'n2', 'o2']}[k]
        return nm, W.sgn[k], (W.T1, getattr(W, 'T2', None))[k]

    def mid(self, k):
        nm, s, T = self.tri(k)
        x = y = c(0)
        for n in nm:
            x = x + self.xy[n][0]
            y = y + self.xy[n][1]
        return x/3, y/3

    def Ac(self):
        """area of the smoothing domain"""
        W = self.W
        if W.kind == 'tria':
            return W.T1
        if W.kind == 'boundary':
            return W.T1/3
        return self.Acatom()

    def Acatom(self):
        # |s1 - s2|/6 written with the canonical absolute value
        W = self.W
        px, py = var('px'), var('py')
        qx, qy, rx, ry = var('qx'), var('qy'), var('rx'), var('ry')
        s1 = px*qy - py*qx
        s2 = px*ry - py*rx
        return alg.absval(s1 - s2)/6

    def oriented(self):
        """end nodes of the edge such that (a, b, centroid 1) is counter-clockwise"""
        return ('n1', 'n2') if self.W.orient > 0 else ('n2', 'n1')

    # -- smoothed gradient (times the area of the domain) --------------------
    def AcG(self):
        """node -> (AcB_x, AcB_y)"""
        out = {n: (c(0), c(0)) for n in self.names}
        ks = range(len(self.W.trias))
        for k in ks:
            nm, s, T = self.tri(k)
            for i, n in enumerate(nm):
                a, b = nm[(i + 1) % 3], nm[(i + 2) % 3]
                (xa, ya), (xb, yb) = self.xy[a], self.xy[b]
                # domain has one third of the triangle; grad N = s/(2T) (yb.., )
                f = c(s, 6) if self.W.kind != 'tria' else c(s, 2)
                gx, gy = f*(ya - yb), f*(xb - xa)
                out[n] = (out[n][0] + gx, out[n][1] + gy)
        return out

    # -- averaged properties (C10) --------------------------------------------
    def weights(self):
        """list of (property holder, weight)"""
        W = self.W
        d = W.nodes
        if W.kind == 'tria':
            if W.nodemode:
                return [(d[n].prop, c(1, 3)) for n in self.names]
            return [(W.trias[0].prop, c(1))]
        if W.nodemode:
            # linear field averaged over the corners of the domain
            w = {n: c(0) for n in self.names}
            corners = [{'n1': c(1)}, {'n2': c(1)}]
            for k in range(len(W.trias)):
                nm, s, T = self.tri(k)
                corners.append({n: c(1, 3) for n in nm})
            for cr in corners:
                for n, v in cr.items():
                    w[n] = w[n] + v/len(corners)
            return [(d[n].prop, w[n]) for n in self.names]
        if W.kind == 'boundary':
            return [(W.trias[0].prop, c(1))]
        Ac = self.Ac()
        return [(W.trias[0].prop, W.T1/3/Ac), (W.trias[1].prop, W.T2/3/Ac)]

    def avg(self, get):
        s = c(0)
        for p, w in self.weights():
            s = s + w*get(p)
        return s

    def C(self):
        """averaged laminate stiffness, 6x6 ([A B; B D])"""
        out = [[None]*6 for _ in range(6)]
        for i in range(3):
            for j in range(3):
                A = self.avg(lambda p: p.A[i, j])
                B = self.avg(lambda p: p.B[i, j])
                D = self.avg(lambda p: p.D[i, j])
                out[i][j] = A
                out[i][j+3] = out[i+3][j] = B
                out[i+3][j+3] = D
        return out

    def strain_rows(self, G):
        """node, dof -> 6-vector of (area times) strains and curvatures"""
        out = {}
        z = c(0)
        for n, (gx, gy) in G.items():
            out[n, 0] = [gx, z, gy, z, z, z]
            out[n, 1] = [z, gy, gx, z, z, z]
            out[n, 2] = [z]*6
            out[n, 3] = [z, z, z, gx, z, gy]
            out[n, 4] = [z, z, z, z, gy, gx]
        return out

    def k0(self):
        """node, dof, node, dof -> increment of the edge"""
        Bm = self.strain_rows(self.AcG())
        C = self.C()
        Ac = self.Ac()
        inv = const(1)/Ac
        CB = {}
        for k, v in Bm.items():
            CB[k] = [inv*sum((C[i][j]*v[j] for j in range(6) if v[j].t), c(0)) for i in range(6)] if any(x.t for x in v) else None
        out = {}
        for a, va in Bm.items():
            for b, cb in CB.items():
                if cb is None or not any(x.t for x in va):
                    out[a + b] = c(0)
                else:
                    out[a + b] = sum((va[i]*cb[i] for i in range(6) if va[i].t), c(0))
        return out

    # -- geometric stiffness ------------------------------------------------------
    def resultants(self, disp):
        """N = A em + B eb for displacements disp(node, dof)"""
        G = self.AcG()
        Bm = self.strain_rows(G)
        inv = const(1)/self.Ac()
        e = [c(0)]*6
        for (n, k), v in Bm.items():
            u = disp(n, k)
            for i in range(6):
                if v[i].t:
                    e[i] = e[i] + v[i]*u
        e = [x*inv for x in e]
        C = self.C()
        return [sum((C[i][j]*e[j] for j in range(6)), c(0)) for i in range(3)]

    def kG(self, N):
        G = self.AcG()
        inv = const(1)/self.Ac()
        out = {}
        for a, (ax, ay) in G.items():
            for b, (bx, by) in G.items():
                out[a, b] = inv*(N[0]*ax*bx + N[1]*ay*by + N[2]*(ax*by + ay*bx))
        return out

    # -- transverse shear -----------------------------------------------------------
    def lengths(self, area):
        W = self.W
        if area:
            return self.Ac()          # l**2
        pts = self.xy

        def d2(p, q):
            return (p[0] - q[0])**2 + (p[1] - q[1])**2
        if W.kind == 'tria':
            l = [d2(pts['n1'], pts['n2']), d2(pts['n2'], pts['n3']), d2(pts['n3'], pts['n1'])]
        else:
            l = [d2(pts['n1'], pts['n2'])]
            for k in range(len(W.trias)):
                m = self.mid(k)
                l += [d2(pts['n1'], m), d2(pts['n2'], m)]
        m = shim.maxatom([alg.sqrt(x) for x in l], 1)
        return m*m

    def E(self, alpha, area):
        """corrected shear stiffness: (xz, yz, coupling)"""
        k13 = self.avg(lambda p: p.scf_k13)
        k23 = self.avg(lambda p: p.scf_k23)
        E11 = self.avg(lambda p: p.E[1, 1])
        E00 = self.avg(lambda p: p.E[0, 0])
        E01 = self.avg(lambda p: p.E[0, 1])
        h = self.avg(lambda p: p.h)
        f = h*h/(h*h + alpha*self.lengths(area))
        E45 = c(0)
        if self.W.kind == 'interior':
            E45 = f*shim.maxatom([k13, k23], -1)*E01
        return f*k13*E11, f*k23*E00, E45

    @staticmethod
    def dsg(P, b_override=None):
        """2A times the discrete-shear-gap operator of a triangle:
        list of {dof: (xz, yz)} for its vertices, first vertex the origin"""
        (x1, y1), (x2, y2), (x3, y3) = P
        a, b, cc, d = x2 - x1, y2 - y1, x3 - x1, y3 - y1
        if b_override is not None:
            b = b_override
        return a, b, cc, d

    def AcBs(self, smoothing=True, defect=None):
        """node, dof -> (area times) smoothed shear strain operator"""
        W = self.W
        out = {(n, k): [c(0), c(0)] for n in self.names for k in (2, 3, 4)}

        def add(node, dof, i, v):
            if isinstance(node, str):
                out[node, dof][i] = out[node, dof][i] + v
            else:
                for n in node:
                    out[n, dof][i] = out[n, dof][i] + v/len(node)

        def sub(vs, A, b_over=None):
            """vs: three of (vertex, coordinates); A its positive area"""
            (v1, p1), (v2, p2), (v3, p3) = vs
            a, b, cc, d = self.dsg([p1, p2, p3], b_over)
            h = c(1, 2)
            add(v1, 2, 0, h*(b - d))
            add(v1, 3, 0, h*A)
            add(v2, 2, 0, h*d)
            add(v2, 3, 0, h*a*d/2)
            add(v2, 4, 0, h*b*d/2)
            add(v3, 2, 0, -h*b)
            add(v3, 3, 0, -h*b*cc/2)
            add(v3, 4, 0, -h*b*d/2)
            add(v1, 2, 1, h*(cc - a))
            add(v1, 4, 1, h*A)
            add(v2, 2, 1, -h*cc)
            add(v2, 3, 1, -h*a*cc/2)
            add(v2, 4, 1, -h*b*cc/2)
            add(v3, 2, 1, h*a)
            add(v3, 3, 1, h*a*cc/2)
            add(v3, 4, 1, h*a*d/2)
        # coefficients above: (1/(2A))*A = 1/2 of the polynomials; phi1: A*(1/2)
        xy = self.xy
        if W.kind == 'tria':
            n1, n2, n3 = ('n1', 'n2', 'n3') if W.orient > 0 else ('n2', 'n1', 'n3')
            if not smoothing:
                sub([(n1, xy[n1]), (n2, xy[n2]), (n3, xy[n3])], W.T1)
            else:
                m = self.mid(0)
                all3 = ['n1', 'n2', 'n3']
                for a, b in ((n1, n2), (n2, n3), (n3, n1)):
                    sub([(all3, m), (a, xy[a]), (b, xy[b])], W.T1/3)
        else:
            a, b = self.oriented()
            m1 = self.mid(0)
            sub([(['n1', 'n2', 'o1'], m1), (a, xy[a]), (b, xy[b])], W.T1/3, defect)
            if W.kind == 'interior':
                m2 = self.mid(1)
                sub([(a, xy[a]), (['n1', 'n2', 'o2'], m2), (b, xy[b])], W.T2/3)
        return out

    def k0s(self, Bs, E):
        E44, E55, E45 = E
        inv = const(1)/self.Ac()
        out = {}
        for a, (ax, ay) in Bs.items():
            ex, ey = inv*(E44*ax + E45*ay), inv*(E45*ax + E55*ay)
            for b, (bx, by) in Bs.items():
                out[a + b] = ex*bx + ey*by
        return out
