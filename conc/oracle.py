"""Independent numerical oracles for a concrete mesh description (case)."""
import numpy as np

from .meshes import Lam, sides


class Geo:
    def __init__(self, case, nodemode=None):
        self.case = case
        self.nodemode = case['nodemode'] if nodemode is None else nodemode
        self.xy = np.array(case['xy'], dtype=float)
        self.tris = case['tris']
        self.lams = [Lam(d) for d in case['lams']]
        self.sd = sides(self.tris)
        self.edges = [(a, b, list(self.sd[tuple(sorted((a, b)))])) for a, b in case['edges']]
        for k in case.get('etrev', ()):
            self.edges[k][2].reverse()
        self.n = len(self.xy)
        self.cross = []
        self.grad = []
        for t in self.tris:
            p = self.xy[t]
            cr = (p[1, 0] - p[0, 0])*(p[2, 1] - p[0, 1]) - (p[1, 1] - p[0, 1])*(p[2, 0] - p[0, 0])
            self.cross.append(cr)
            g = np.zeros((3, 2))
            for i in range(3):
                a, b = p[(i + 1) % 3], p[(i + 2) % 3]
                g[i] = [(a[1] - b[1])/cr, (b[0] - a[0])/cr]
            self.grad.append(g)
        self.area = [abs(c)/2 for c in self.cross]
        self.mid = [self.xy[t].mean(axis=0) for t in self.tris]

    def nprop(self, i):
        return self.lams[self.case['nprop'][i]]

    def tprop(self, t):
        return self.lams[self.case['tprop'][t]]

    # weights of the laminates: list of (laminate, weight)
    def eweights(self, e):
        a, b, ts = e
        if self.nodemode:
            corners = [{a: 1.}, {b: 1.}] + [{i: 1/3. for i in self.tris[t]} for t in ts]
            w = {}
            for c in corners:
                for i, v in c.items():
                    w[i] = w.get(i, 0.) + v/len(corners)
            return [(self.nprop(i), v) for i, v in w.items()]
        s = sum(self.area[t] for t in ts)
        return [(self.tprop(t), self.area[t]/s) for t in ts]

    def tweights(self, t):
        if self.nodemode:
            return [(self.nprop(i), 1/3.) for i in self.tris[t]]
        return [(self.tprop(t), 1.)]

    @staticmethod
    def avg(ws, f):
        return sum(w*f(p) for p, w in ws)

    def Ac(self, e):
        return sum(self.area[t] for t in e[2])/3

    def egrad(self, e):
        """node -> smoothed gradient"""
        out = {}
        s = sum(self.area[t] for t in e[2])
        for t in e[2]:
            for i, nd in enumerate(self.tris[t]):
                out[nd] = out.get(nd, 0.) + self.grad[t][i]*self.area[t]/s
        return out

    def bmat(self, e):
        B = {}
        for nd, (gx, gy) in self.egrad(e).items():
            b = np.zeros((6, 5))
            b[0, 0] = gx
            b[1, 1] = gy
            b[2, 0], b[2, 1] = gy, gx
            b[3, 3] = gx
            b[4, 4] = gy
            b[5, 3], b[5, 4] = gy, gx
            B[nd] = b
        return B

    def index(self, mesh):
        return [n.index for n in mesh.nodelist]

    def k0(self, idx):
        K = np.zeros((5*self.n, 5*self.n))
        for e in self.edges:
            B = self.bmat(e)
            C = self.avg(self.eweights(e), lambda p: p.C())
            Ac = self.Ac(e)
            for a, ba in B.items():
                for b, bb in B.items():
                    K[5*idx[a]:5*idx[a] + 5, 5*idx[b]:5*idx[b] + 5] += Ac*ba.T @ C @ bb
        return K

    def kG(self, idx, d):
        K = np.zeros((5*self.n, 5*self.n))
        for e in self.edges:
            B = self.bmat(e)
            G = self.egrad(e)
            C = self.avg(self.eweights(e), lambda p: p.C())
            Ac = self.Ac(e)
            eps = sum(b @ d[5*idx[a]:5*idx[a] + 5] for a, b in B.items())
            N = C[:3] @ eps
            Nm = np.array([[N[0], N[2]], [N[2], N[1]]])
            for a, ga in G.items():
                for b, gb in G.items():
                    K[5*idx[a] + 2, 5*idx[b] + 2] += Ac*ga @ Nm @ gb
        return K

    # -- transverse shear
    def oriented(self, e):
        a, b, ts = e
        m = self.mid[ts[0]]
        p, q = self.xy[a], self.xy[b]
        if (q[0] - p[0])*(m[1] - p[1]) - (q[1] - p[1])*(m[0] - p[0]) < 0:
            a, b = b, a
        return a, b

    def dist(self, p, q):
        return float(np.hypot(*(np.asarray(p) - np.asarray(q))))

    def shearE(self, ws, l2, alpha, coupling):
        k13 = self.avg(ws, lambda p: p.scf_k13)
        k23 = self.avg(ws, lambda p: p.scf_k23)
        E = self.avg(ws, lambda p: p.E)
        h = self.avg(ws, lambda p: p.h)
        f = 1/(1 + alpha*l2/h**2)
        c = min(k13, k23)*E[0, 1]*f if coupling else 0.
        return np.array([[k13*E[1, 1]*f, c], [c, k23*E[0, 0]*f]])

    def triE(self, t, alpha, area):
        p = [self.xy[i] for i in self.tris[t]]
        l2 = self.area[t] if area else max(self.dist(p[0], p[1]), self.dist(p[1], p[2]), self.dist(p[2], p[0]))**2
        return self.shearE(self.tweights(t), l2, alpha, False)

    def edgeE(self, e, alpha, area):
        a, b, ts = e
        if area:
            l2 = self.Ac(e)
        else:
            l = [self.dist(self.xy[a], self.xy[b])]
            for t in ts:
                l += [self.dist(self.xy[a], self.mid[t]), self.dist(self.xy[b], self.mid[t])]
            l2 = max(l)**2
        return self.shearE(self.eweights(e), l2, alpha, len(ts) == 2)

    @staticmethod
    def dsg(P, b=None):
        """A times the discrete shear gap operator: three 2x3 blocks (w, phix, phiy)"""
        (x1, y1), (x2, y2), (x3, y3) = P
        a, bb, c, d = x2 - x1, y2 - y1, x3 - x1, y3 - y1
        A = (a*d - bb*c)/2
        if b is None:
            b = bb
        return [np.array([[(b - d)/2, A/2, 0], [(c - a)/2, 0, A/2]]),
                np.array([[d/2, a*d/4, b*d/4], [-c/2, -a*c/4, -b*c/4]]),
                np.array([[-b/2, -b*c/4, -b*d/4], [a/2, a*c/4, a*d/4]])]

    def edgeB(self, e, z=None):
        """node -> Ac times shear operator (2x3); z: the recorded defect"""
        a, b = self.oriented(e)
        ts = e[2]
        out = {}

        def add(v, M):
            for i in (v if isinstance(v, (list, tuple)) else [v]):
                out[i] = out.get(i, 0.) + (M/3 if isinstance(v, (list, tuple)) else M)
        m = self.mid[ts[0]]
        bo = None if (z is None or len(ts) == 1) else z - m[1]
        P = [m, self.xy[a], self.xy[b]]
        if bo is None:
            M = self.dsg(P)
        else:
            M = self.dsg(P, bo)
            A = self.area[ts[0]]/3
            M[0] = np.array([[M[0][0, 0], A/2, 0], [M[0][1, 0], 0, A/2]])
        for v, X in zip((self.tris[ts[0]], a, b), M):
            add(v, X)
        if len(ts) == 2:
            M = self.dsg([self.xy[a], self.mid[ts[1]], self.xy[b]])
            for v, X in zip((a, self.tris[ts[1]], b), M):
                add(v, X)
        return out

    def shear_energy(self, method, alpha, area, val, val2, z=None):
        """energy form of two constant shear states (w0, wx, wy, phix, phiy)"""
        if method != 'edge-based':
            g = np.array([val[1] + val[3], val[2] + val[4]])
            g2 = np.array([val2[1] + val2[3], val2[2] + val2[4]])
            return sum(self.area[t]*g @ self.triE(t, alpha, area) @ g2 for t in range(len(self.tris)))
        s = 0.
        for e in self.edges:
            if z is not None and len(e[2]) == 2:
                B = self.edgeB(e, z)
                A = self.Ac(e)
                g = sum(M @ self.local(val, i) for i, M in B.items())/A
                g2 = sum(M @ self.local(val2, i) for i, M in B.items())/A
            else:
                g = np.array([val[1] + val[3], val[2] + val[4]])
                g2 = np.array([val2[1] + val2[3], val2[2] + val2[4]])
            s += self.Ac(e)*g @ self.edgeE(e, alpha, area) @ g2
        return s

    def local(self, val, i):
        x, y = self.xy[i]
        return np.array([val[0] + val[1]*x + val[2]*y, val[3], val[4]])

    def field(self, idx, val):
        u = np.zeros(5*self.n)
        for i in range(self.n):
            u[5*idx[i] + 2:5*idx[i] + 5] = self.local(val, i)
        return u
