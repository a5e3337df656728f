"""reference motion of the free surface: surface markers carried by the flow, projection on the vertices, surface processes"""
import numpy as np


def fit(g, h, x):
    """piecewise linear surface through the vertex heights h, continued outside the box"""
    i = np.clip(np.floor((x - g.x0) / g.dx).astype(int), 0, g.Nx - 2)
    return h[i] + (h[i + 1] - h[i]) * (x - g.xg[i]) / g.dx


def project(g, x, val, live, h0):
    """vertex heights: mean of the two adjacent columns, each the hat-weighted mean of its markers"""
    n = g.Nx - 1
    i = np.floor((x - g.x0) / g.dx).astype(int)
    m = live & (i >= 0) & (i < n)
    w = 1 - 2 * np.abs(g.xc[i[m]] - x[m]) / g.dx
    W, B = np.bincount(i[m], w, n), np.bincount(i[m], w * val[m], n)
    with np.errstate(all="ignore"):
        c = np.where(W < 1e-30, 0, B / W)
    h = np.empty(g.Nx)
    h[1:-1] = 0.5 * (c[1:] + c[:-1]) + h0[1:-1]
    h[0], h[-1] = h[1], h[-2]
    return h


class Chain:
    """surface markers (x, z, z0) and heights (h, h0)"""
    def __init__(self, x, z, live, h):
        self.x, self.z, self.live, self.h = x.copy(), z.copy(), live.copy(), h.copy()

    def start(self):
        self.z0, self.h0 = self.z.copy(), self.h.copy()

    def carry(self, g, adv):
        x, z = self.x.copy(), self.z.copy()
        m = self.live
        X, Z, _, _, al = adv(x[m], z[m])
        # a marker that is outside the box on its way is lost; one that leaves through the top or bottom only is not judged
        side = (np.minimum(x[m], X) < g.x0) | (np.maximum(x[m], X) > g.x1)
        self.sure = (al | side).all()
        self.dead = np.zeros(len(x), bool)
        self.dead[m] = ~al
        x[m], z[m] = X, Z
        self.x, self.z = x, z

    def update(self, g, upd):
        """project, add markers where there are few, project again; returns False when a count is undecided"""
        self.live = (self.x >= g.x0) & (self.x <= g.x1) & ~self.dead
        for p in (0, 1):
            if p:
                half = g.dx / 2
                cnt = []
                for eps in (-1e-9, 0, 1e-9):
                    c = np.clip(np.floor((self.x[self.live] - g.x0) / half + eps).astype(int), 0, 2 * g.Nx - 3)
                    cnt.append(np.bincount(c, minlength=2 * g.Nx - 2) < 4)
                sure = self.sure and (cnt[0] == cnt[1]).all() and (cnt[1] == cnt[2]).all()
                add = np.concatenate([g.x0 + k * half + half * np.array((0.25, 0.75)) for k in np.flatnonzero(cnt[1])]) if cnt[1].any() else np.zeros(0)
                # markers that left are not part of the surface any more
                X = np.concatenate([self.x[self.live], add])
                self.z = np.concatenate([self.z[self.live], fit(g, self.h, add)])
                self.z0 = np.concatenate([self.z0[self.live], fit(g, self.h0, add)])
                self.x, self.live = X, np.ones(len(X), bool)
                self.added = len(add)
            self.h = project(g, self.x, self.z - self.z0 if upd else self.z, self.live, self.h0 if upd else 0 * self.h0)
        return sure


def erode(g, h, dt, P):
    """surface processes: hillslope diffusion, deposition below the base level, river incision; returns heights and whether all decisions are clear"""
    h = h.copy()
    mode, sure = int(P("surface_processes")), True
    base, rate = P("surf_baselev"), P("surf_sedirate")
    span = max(np.ptp(h), g.dx * 1e-3)
    if mode in (1, 5):
        D = P("surf_diff")
        lim = 0.4 * g.dx ** 2 / D if D > 0 else np.inf
        n = 1 if lim > dt else int(dt / lim + 1)
        if abs(dt / lim - round(dt / lim)) < 1e-6 and dt / lim > 0.5:
            sure = False
        d = dt / n
        W, V = P("surf_Winc"), P("surf_Vinc")
        val = np.abs(g.xg) < W / 2
        val[0] = val[-1] = False
        if mode == 5 and (np.abs(np.abs(g.xg[1:-1]) - W / 2) < 1e-6 * g.dx).any():
            sure = False
        for _ in range(n):
            lap = np.zeros_like(h)
            lap[1:-1] = (h[2:] + h[:-2] - 2 * h[1:-1]) / g.dx ** 2
            low = h < base
            if rate and (np.abs(h - base)[1:-1] < 1e-9 * span).any():
                sure = False
            low[0] = low[-1] = False
            h += d * D * lap + np.where(low, rate * d, 0)
            if mode == 5 and val.any():
                h -= np.where(val, d * V * W / (val.sum() * g.dx), 0)
    elif mode == 2:
        if (np.abs(h - base) < 1e-9 * span).any():
            sure = False
        h = h + np.where(h < base, rate * dt, 0)
    return h, sure
