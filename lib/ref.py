"""Reference formulas on the staggered grid, evaluated on the dumped state (scaled units)."""
import numpy as np


class G:
    """view of a snapshot: 2-D arrays, row index = z (upwards), column index = x"""
    def __init__(self, s):
        self.s = s
        self.Nx, self.Nz = int(s["p.Nx"][0]), int(s["p.Nz"][0])
        self.ncx, self.ncz = self.Nx - 1, self.Nz - 1
        self.dx, self.dz, self.dt = (float(s["p." + n][0]) for n in ("dx", "dz", "dt"))
        self.shape = {self.ncx * self.ncz: (self.ncz, self.ncx), self.Nx * self.Nz: (self.Nz, self.Nx), self.Nx * (self.Nz + 1): (self.Nz + 1, self.Nx), (self.Nx + 1) * self.Nz: (self.Nz, self.Nx + 1),
                      (self.Nx + 1) * (self.Nz + 1): (self.Nz + 1, self.Nx + 1)}

    def p(self, n):
        return self.s["p." + n][0]

    def has(self, n):
        return "m." + n in self.s

    def C(self, n):
        return self.s["m." + n].reshape(self.ncz, self.ncx)

    def V(self, n):
        return self.s["m." + n].reshape(self.Nz, self.Nx)

    def U(self, n):
        return self.s["m." + n].reshape(self.Nz + 1, self.Nx)

    def W(self, n):
        return self.s["m." + n].reshape(self.Nz, self.Nx + 1)

    @property
    def air(self):
        return np.isin(self.C("BCp.type"), (30, 31))

    @property
    def airv(self):
        return self.V("BCg.type") == 30

    def c2v(self, a):
        """mean of the cell values around each vertex that exist (clipped at the sides)"""
        s = np.zeros((self.Nz, self.Nx)); n = np.zeros((self.Nz, self.Nx))
        for i in (0, 1):
            for j in (0, 1):
                s[i:i + self.ncz, j:j + self.ncx] += a
                n[i:i + self.ncz, j:j + self.ncx] += 1
        return s / n

    @staticmethod
    def v2c(a):
        return 0.25 * (a[:-1, :-1] + a[1:, :-1] + a[:-1, 1:] + a[1:, 1:])


# ---------------------------------------------------------------------------------------------- markers <-> grid
class Grid:
    """node coordinates of the box described by a snapshot's parameters"""
    def __init__(self, s):
        self.Nx, self.Nz = int(s["p.Nx"][0]), int(s["p.Nz"][0])
        x0, x1, z0, z1 = (float(s["p." + n][0]) for n in ("xmin", "xmax", "zmin", "zmax"))
        self.x0, self.x1, self.z0, self.z1 = x0, x1, z0, z1
        self.dx, self.dz = (x1 - x0) / (self.Nx - 1), (z1 - z0) / (self.Nz - 1)
        self.xg, self.zg = x0 + self.dx * np.arange(self.Nx), z0 + self.dz * np.arange(self.Nz)
        self.xc, self.zc = self.xg[:-1] + self.dx / 2, self.zg[:-1] + self.dz / 2
        self.xe, self.ze = x0 - self.dx / 2 + self.dx * np.arange(self.Nx + 1), z0 - self.dz / 2 + self.dz * np.arange(self.Nz + 1)

    def axes(self, kind):
        return {"c": (self.xc, self.zc), "v": (self.xg, self.zg), "u": (self.xg, self.ze), "w": (self.xe, self.zg)}[kind]


def weights(g, kind, x, z, sten=1, per=0):
    """(node index, weight, marker index) of every marker-node pair"""
    X, Z = g.axes(kind)
    nx, nz = len(X), len(Z)
    ip = np.clip(np.ceil((x - X[0]) / g.dx + 0.5).astype(int) - 1, 0, nx - 1)
    jp = np.clip(np.ceil((z - Z[0]) / g.dz + 0.5).astype(int) - 1, 0, nz - 1)
    h = 0.5 if sten == 1 else 1.5
    node, w, mk = [], [], []
    m = np.arange(len(x))
    for di in ((0,) if sten == 1 else (-1, 0, 1)):
        for dj in ((0,) if sten == 1 else (-1, 0, 1)):
            i, j = ip + di, jp + dj
            ok = (j >= 0) & (j < nz)
            if per:
                ii = i % nx
            else:
                ok &= (i >= 0) & (i < nx)
                ii = i
            ww = (1 - np.abs(X[ip] + di * g.dx - x) / (h * g.dx)) * (1 - np.abs(Z[jp] + dj * g.dz - z) / (h * g.dz))
            node.append((ii + j * nx)[ok]); w.append(ww[ok]); mk.append(m[ok])
    return np.concatenate(node), np.concatenate(w), np.concatenate(mk)


def p2g(g, kind, x, z, val, sten=1, per=0, avg=0, wts=None):
    """weighted mean of the marker values at the nodes (NaN where no marker contributes)"""
    X, Z = g.axes(kind)
    n = len(X) * len(Z)
    node, w, mk = wts if wts is not None else weights(g, kind, x, z, sten, per)
    f, fi = ((lambda a: a, lambda a: a), (lambda a: 1 / a, lambda a: 1 / a), (np.log, np.exp))[avg]
    W = np.bincount(node, w, n)
    B = np.bincount(node, w * f(val)[mk], n)
    with np.errstate(all="ignore"):
        r = fi(np.where(W > 1e-12, B / W, np.nan)).reshape(len(Z), len(X))
    if per and kind in "vu":
        a = 0.5 * (r[:, 0] + r[:, -1])
        r[:, 0] = a; r[:, -1] = a
    return r


def g2p(g, kind, x, z, f, per=0, air=None, norm=False):
    """bilinear interpolation of a nodal field to the markers; cells are continued constantly beyond the outermost centres; a value in the air is replaced by the one across, above or below, or by those of the other column"""
    X, Z = g.axes(kind)
    nx, nz = len(X), len(Z)
    fx, fz = (x - X[0]) / g.dx, (z - Z[0]) / g.dz
    i, j = np.ceil(fx).astype(int) - 1, np.ceil(fz).astype(int) - 1
    if kind == "v":
        i, j = np.clip(i, 0, nx - 2), np.clip(j, 0, nz - 2)
    p, q = fx - i, fz - j
    if per and kind == "c":
        i0, i1 = i % nx, (i + 1) % nx
    else:
        i0, i1 = np.clip(i, 0, nx - 1), np.clip(i + 1, 0, nx - 1)
    j0, j1 = np.clip(j, 0, nz - 1), np.clip(j + 1, 0, nz - 1)
    a = np.zeros_like(f, bool) if air is None else air
    r = 0.0
    if norm:                                  # mean over the nodes that are not air
        n = d = 0.0
        for ii, wi in ((i0, 1 - p), (i1, p)):
            for jj, wj in ((j0, 1 - q), (j1, q)):
                w = np.where(a[jj, ii], 0.0, wi * wj)
                n = n + w * f[jj, ii]; d = d + w
        return np.where(d > 1e-13, n / np.where(d > 1e-13, d, 1), n)
    def col(ii, jj): return f[jj, ii], a[jj, ii]
    wa, ea = a[j0, i0] & a[j1, i0], a[j0, i1] & a[j1, i1]     # a column entirely in the air takes the values of the other one
    iw, ie = np.where(wa & ~ea, i1, i0), np.where(ea & ~wa, i0, i1)
    for ii, wi in ((iw, 1 - p), (ie, p)):
        (lo, al), (hi, ah) = col(ii, j0), col(ii, j1)
        r = r + wi * ((1 - q) * np.where(al, hi, lo) + q * np.where(ah, lo, hi))
    return r


# ---------------------------------------------------------------------------------------------- advection
def velocity(g, x, z, u, w, airu, airw, corr=0):
    """velocity at the markers: bilinear in each component (with a curvature correction along its own direction if corr), air nodes replaced by the nearest rock node of the cell"""
    def comp(a, A, B, s, t, air, along):      # a[row, col]; s, t: marker coordinates along/across in units of spacing
        n, m = len(A), len(B)
        i = np.clip(np.ceil(s).astype(int) - 1, 0, n - 2)
        j = np.clip(np.ceil(t).astype(int) - 1, 0, m - 2)
        p, q = s - i, t - j
        f = (lambda k, l: a[l, k]) if along == "x" else (lambda k, l: a[k, l])
        h = (lambda k, l: air[l, k]) if along == "x" else (lambda k, l: air[k, l])
        v = {(e, r): f(i + e, j + r) for e in (0, 1) for r in (0, 1)}
        d = {k: h(i + k[0], j + k[1]) for k in v}
        return n, i, p, q, f, h, v, d, j
    X, Z = g.axes("u")
    n, i, p, q, f, h, v, d, j = comp(u, X, Z, (x - X[0]) / g.dx, (z - Z[0]) / g.dz, airu, "x")
    r = {}
    for e in (0, 1):                          # air above or below: take the other; both: take the other column
        for b in (0, 1):
            r[e, b] = np.where(d[e, b], v[e, 1 - b], v[e, b])
    for e in (1, 0):
        both = d[e, 0] & d[e, 1]
        src = r[1 - e, 0]
        r[e, 0] = np.where(both, src, r[e, 0]); r[e, 1] = np.where(both, src, r[e, 1])
    lo, hi = [(1 - p) * r[0, b] + p * r[1, b] for b in (0, 1)]
    if corr:
        lo, hi = [c + _curv(n, i, p, f, h, r[0, b], r[1, b], j + b) for b, c in ((0, lo), (1, hi))]
    vx = (1 - q) * lo + q * hi
    X, Z = g.axes("w")
    n, i, p, q, f, h, v, d, j = comp(w, Z, X, (z - Z[0]) / g.dz, (x - X[0]) / g.dx, airw, "z")
    r = {}
    for c in (0, 1):                          # c: column, e: row
        for e in (0, 1):
            r[e, c] = np.where(d[e, c], v[1 - e, c], v[e, c])
    for c in (1, 0):
        both = d[0, c] & d[1, c]
        src = r[0, 1 - c]
        r[0, c] = np.where(both, src, r[0, c]); r[1, c] = np.where(both, src, r[1, c])
    we, ea = [(1 - p) * r[0, c] + p * r[1, c] for c in (0, 1)]
    if corr:
        we, ea = [a + _curv(n, i, p, f, h, r[0, c], r[1, c], j + c) for c, a in ((0, we), (1, ea))]
    vz = (1 - q) * we + q * ea
    return vx, vz


def _curv(n, i, p, f, h, a, b, j):
    up = np.clip(i + 2, 0, n - 1); dn = np.clip(i - 1, 0, n - 1)
    vu = np.where(h(up, j), a, f(up, j)); vd = np.where(h(dn, j), b, f(dn, j))
    e = 0.5 * (p - 0.5) ** 2
    return np.where(p >= 0.5, np.where(i < n - 2, e * (a - 2 * b + vu), 0), np.where(i > 0, e * (vd - 2 * a + b), 0))


def advect(g, x, z, u, w, airu, airw, dt, per=0, corr=0):
    """one fourth-order Runge-Kutta step; returns position, mean velocity, alive"""
    alive = np.ones(len(x), bool)
    def out(xx, zz):
        nonlocal alive
        if per:
            L = g.x1 - g.x0
            xx = np.where(xx < g.x0, xx + L, xx)
            xx = np.where(xx > g.x1, xx - L, xx)
        else:
            alive &= (xx >= g.x0) & (xx <= g.x1)
        alive &= (zz >= g.z0) & (zz <= g.z1)
        return xx, zz
    V = [velocity(g, x, z, u, w, airu, airw, corr)]
    for c in (0.5, 0.5, 1.0):
        xx, zz = out(x + c * dt * V[-1][0], z + c * dt * V[-1][1])
        V.append(velocity(g, xx, zz, u, w, airu, airw, corr))
    vx, vz = [(V[0][c] + 2 * V[1][c] + 2 * V[2][c] + V[3][c]) / 6 for c in (0, 1)]
    xx, zz = out(x + dt * vx, z + dt * vz)
    return xx, zz, vx, vz, alive


def side_velocities(s, q):
    """mean velocity of the moving sides W, E, S, N (prescribed normal velocities)"""
    a = G(s)
    U, W, tu, tw = a.U("u_in"), a.W("v_in"), G(q).U("BCu.type"), G(q).W("BCv.type")
    vals = []
    for v, t in ((U[:-1, 0], tu[:-1, 0]), (U[:-1, -1], tu[:-1, -1]), (W[0, :-1], tw[0, :-1]), (W[-1, :-1], tw[-1, :-1])):
        vals.append(v[t == 0].mean() if (t == 0).any() else 0.0)
    return vals


def courant(s, dt0, dt_solve=None):
    """time step asked for by the velocity field of snapshot s"""
    P = lambda n: float(s["p." + n][0])
    if int(s["p.constant_dt"][0]):
        return P("dt_start")
    vmax = max(np.abs(s["m.u_in"]).max(), np.abs(s["m.v_in"]).max())
    dmin = min(P("dx"), P("dz"))
    with np.errstate(all="ignore"):
        dt = P("Courant") * dmin / vmax
    dt = min(dt, (1.25 if int(s["p.elastic"][0]) else 2.0) * dt0)
    if int(s["p.surface_processes"][0]) > 0 and P("surf_Vinc") != 0:
        dt = min(dt, P("Courant") * dmin / abs(P("surf_Vinc")))
    if int(s["p.chemical_diffusion"][0]) and P("user1") > 0:
        dt = min(dt, P("user1") / float(s["s.t"][0]) / P("dt_reduction_factor"))
    if dt > 1e30 or vmax < 1e-30:
        dt = P("dt_start")
    return max(min(dt, P("dt_max")), P("dt_min"))


# ---------------------------------------------------------------------------------------------- diffusion
def diffuse(g, old, cap, kx, kz, src, dt, bc, air, axes):
    """one implicit step of cap*dT/dt = div(k grad T) + src on the cells that are not air. bc: side -> (type, value(x, z)) with 1 = prescribed value, 0 = prescribed flux, -2 = periodic;
    FS: the value at faces to the air around the cells with air above. kx at the vertical faces (rows of the Vx nodes), kz at the horizontal ones."""
    nz, nx = old.shape
    xc, zc = axes
    idx = np.full(old.shape, -1)
    idx[~air] = np.arange((~air).sum())
    n = (~air).sum()
    A = np.zeros((n, n)); b = np.zeros(n)
    for l in range(nz):
        for k in range(nx):
            i = idx[l, k]
            if i < 0:
                continue
            A[i, i] += cap[l, k] / dt
            b[i] += cap[l, k] * old[l, k] / dt + src[l, k]
            faces = (("W", -1, 0, kx[l + 1, k], g.dx), ("E", 1, 0, kx[l + 1, k + 1], g.dx), ("S", 0, -1, kz[l, k + 1], g.dz), ("N", 0, 1, kz[l + 1, k + 1], g.dz))
            ks = 0.25 * sum(f[3] for f in faces)
            surf = l < nz - 1 and air[l + 1, k] and bc.get("FS", (0,))[0] == 1
            for side, dk, dl, c, h in faces:
                kk, ll = k + dk, l + dl
                if 0 <= kk < nx and 0 <= ll < nz or bc.get(side, (0,))[0] == -2:
                    kk %= nx
                    if not air[ll, kk]:
                        A[i, i] += c / h ** 2; A[i, idx[ll, kk]] -= c / h ** 2
                    elif surf:
                        A[i, i] += 2 * ks / h ** 2; b[i] += 2 * ks / h ** 2 * bc["FS"][1](xc[k], zc[l])
                elif side in bc:
                    v = bc[side][1](xc[k], zc[l])
                    if bc[side][0] == 1:
                        A[i, i] += 2 * c / h ** 2; b[i] += 2 * c / h ** 2 * v
                    else:
                        b[i] -= v / h
    r = np.full(old.shape, np.nan)
    r[~air] = np.linalg.solve(A, b)
    return r


def sides(spec, L, sc):
    """side specification (type, a, b, c: a + b x + c z in SI) of a job -> scaled functions of scaled coordinates; sc = scale of (type 1, type 0)"""
    r = {}
    for k, v in spec.items():
        t, a, b, c = (tuple(v) + (0.0,) * 3)[:4]
        s = sc[0] if t == 1 else sc[1]
        r[k] = (t, lambda x, z, a=a, b=b, c=c, s=s: (a + b * x * L + c * z * L) / s)
    return r
