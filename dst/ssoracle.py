"""Reference model for linear Gaussian state spaces: the joint distribution written out densely.

No recursion is shared with the code under test: the joint mean and covariance of every latent
state and every observation are assembled by matrix powers, and everything a filter or smoother
should report is read off by one Gaussian conditioning per query.
"""
import numpy as np


def at(M, t, nd):
    M = np.asarray(M, float)
    return M[t] if M.ndim == nd + 1 else M


class Dense:
    def __init__(self, n, a0, P0, c, d, T, Z, R, H, Q, jitter=0.0):
        self.n = n
        m = len(a0)
        p = at(Z, 0, 2).shape[0]
        self.m, self.p = m, p
        mu = np.zeros((n, m))
        mu[0] = a0
        # x_t = mu_t + L_t e, e ~ N(0, S), e = (x0 - a0, eta_0, ..., eta_{n-2})
        blocks = [np.asarray(P0, float)]
        L = [[np.eye(m)]]
        for t in range(1, n):
            Tt, ct = at(T, t - 1, 2), at(c, t - 1, 1)
            Rt, Qt = at(R, t - 1, 2), at(Q, t - 1, 2)
            mu[t] = Tt @ mu[t - 1] + ct
            L.append([Tt @ l for l in L[-1]] + [np.eye(m)])
            blocks.append(Rt @ Qt @ Rt.T)
        self.mu = mu
        Lx = np.zeros((n * m, n * m))
        S = np.zeros((n * m, n * m))
        for t in range(n):
            for k, l in enumerate(L[t]):
                Lx[t * m:(t + 1) * m, k * m:(k + 1) * m] = l
            S[t * m:(t + 1) * m, t * m:(t + 1) * m] = blocks[t]
        self.Cxx = Lx @ S @ Lx.T
        Zb = np.zeros((n * p, n * m))
        Hb = np.zeros((n * p, n * p))
        my = np.zeros(n * p)
        for t in range(n):
            Zt = at(Z, t, 2)
            Zb[t * p:(t + 1) * p, t * m:(t + 1) * m] = Zt
            Hb[t * p:(t + 1) * p, t * p:(t + 1) * p] = at(H, t, 2)
            my[t * p:(t + 1) * p] = at(d, t, 1) + Zt @ mu[t]
        self.my = my
        self.Cyx = Zb @ self.Cxx
        self.Cyy = Zb @ self.Cxx @ Zb.T + Hb

    def _cond(self, y, idx, rows, kind):
        """Mean/cov of x (kind 'x') or y rows given observed y[idx]."""
        if kind == "x":
            m0 = self.mu.ravel()[rows]
            C0 = self.Cxx[np.ix_(rows, rows)]
            C1 = self.Cyx[np.ix_(idx, rows)]
        else:
            m0 = self.my[rows]
            C0 = self.Cyy[np.ix_(rows, rows)]
            C1 = self.Cyy[np.ix_(idx, rows)]
        if len(idx) == 0:
            return m0, C0
        F = self.Cyy[np.ix_(idx, idx)]
        K = np.linalg.solve(F, C1)
        return m0 + K.T @ (y.ravel()[idx] - self.my[idx]), C0 - K.T @ C1

    def run(self, y):
        """y: (n, p), NaN = not observed."""
        n, m, p = self.n, self.m, self.p
        obs = ~np.isnan(y)
        flat = np.flatnonzero(obs.ravel())
        out = {k: [] for k in ("filt_m", "filt_P", "pred_m", "pred_P", "smooth_m", "smooth_P",
                               "yhat", "F", "ll")}
        for t in range(n):
            xr = np.arange(t * m, (t + 1) * m)
            yr = np.arange(t * p, (t + 1) * p)
            past = flat[flat < t * p]
            now = flat[flat < (t + 1) * p]
            a, P = self._cond(y, past, xr, "x")
            out["pred_m"].append(a); out["pred_P"].append(P)
            a, P = self._cond(y, now, xr, "x")
            out["filt_m"].append(a); out["filt_P"].append(P)
            a, P = self._cond(y, flat, xr, "x")
            out["smooth_m"].append(a); out["smooth_P"].append(P)
            a, P = self._cond(y, past, yr, "y")
            out["yhat"].append(a); out["F"].append(P)
            cur = obs[t]
            k = int(cur.sum())
            if k == 0:
                out["ll"].append(0.0)
            else:
                v = y[t, cur] - a[cur]
                Fc = P[np.ix_(cur, cur)]
                s, ld = np.linalg.slogdet(Fc)
                out["ll"].append(-0.5 * (k * np.log(2 * np.pi) + ld + v @ np.linalg.solve(Fc, v)))
        return {k: np.array(v) for k, v in out.items()}
