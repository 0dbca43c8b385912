"""Stand-in for the compiled Hankel transform (decided separately under C16): a fixed
linear map between the documented sample points, one per order, bias and size."""
import numpy as np, math
class HankelTransform:
    def __init__(self, mu, q, x, kr_c, lowring=True, extrap=0, extrap_exp=2., threaded=False):
        x = np.array([float(v) for v in x]); n = len(x)
        if extrap not in (0, 1, 2, 3): raise NotImplementedError('native log-linear extrapolation in the stand-in transform')
        nt = n
        if extrap:
            nt = 1
            while nt < extrap_exp * n: nt *= 2
        self.order, self.bias, self._nsamp, self._nsamp_trans = mu, q, n, nt; self.native, self.ne = extrap, (nt - n) // 2
        self._logres = math.log(x[-1] / x[0]) / (n - 1)
        self._pivot = (kr_c or 1.) * (1 + mu / 16 if lowring else 1)
        self._pre_sampts = list(x); self._post_sampts = [self._pivot * math.exp(-self._logres) / x[n - 1 - i] for i in range(n)]
        a = int(2 * mu) + 3 * int(2 * q)
        self.K = [[((3 * j + 5 * k + a + j * k * (a + 1)) % 7 - 3) / 4. + (1. if j == k else 0.) for k in range(nt)] for j in range(nt)]
    def extended(self, f):
        m, f = self.ne, list(f)
        if not self.native: return f
        lo, hi = {1: (lambda j: 0., lambda j: 0.), 2: (lambda j: f[0], lambda j: f[-1]), 3: (lambda j: f[0] - j * (f[1] - f[0]), lambda j: f[-1] + j * (f[-1] - f[-2]))}[self.native]
        return [lo(j) for j in range(m, 0, -1)] + f + [hi(j) for j in range(1, m + 1)]
    @property
    def size(self): return self._nsamp_trans
    @property
    def pivot(self): return self._pivot
    def transform(self, fx):
        f = np.asarray(fx)
        if f.dtype == object:
            import sym as S
            f = self.extended(f); g = np.empty(len(f), dtype=object).view(S.OA)
            for j in range(len(f)): g[j] = S.SymC.of(sum((f[k] * self.K[j][k] for k in range(len(f)) if self.K[j][k]), S.Sym.of(0)))
        else: g = np.array(self.K) @ np.array(self.extended(f.astype(complex)))
        g = g[self.ne:len(g) - self.ne]
        return np.array(self._post_sampts), g
