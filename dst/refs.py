"""Reference models, written from the documentation of the circuit and of the filter and independent of moirae:
a cell described by an equivalent circuit, and the unscented Kalman filter with additive noise"""
import numpy as np
from scipy.interpolate import CubicSpline, make_interp_spline

REFERENCE_TEMPERATURE = 25.


class Curve:
    """Values at states of charge, evenly spaced unless given"""

    def __init__(self, values, cubic=False, grid=None, style='linear'):
        self.values = np.asarray(values, dtype=float).ravel()
        self.grid = np.linspace(0, 1, len(self.values)) if grid is None else np.asarray(grid, dtype=float)
        self.style = style
        self.spline = None
        if len(self.values) > 1:
            if cubic or style == 'cubic':
                self.spline = CubicSpline(self.grid, self.values, bc_type='not-a-knot', extrapolate=True)
            elif style == 'quadratic':
                self.spline = make_interp_spline(self.grid, self.values, k=2)

    def jumps(self):
        """States of charge where the values jump"""
        if len(self.values) == 1 or self.style in ('linear', 'slinear', 'quadratic', 'cubic'):
            return []
        g = self.grid
        return list((g[1:] + g[:-1]) / 2) if self.style.startswith('nearest') else list(g)

    def __call__(self, soc):
        v = self.values
        if len(v) == 1:
            return float(v[0])
        if self.spline is not None:
            return float(self.spline(soc))
        if self.style in ('nearest', 'nearest-up'):
            return float(v[np.argmin(np.abs(self.grid - soc))])
        k = int(np.clip(np.searchsorted(self.grid, soc, side='right') - 1, 0, len(v) - 2))
        if self.style in ('previous', 'zero', 'next'):  # Not defined beyond the grid
            return float(v[k + (self.style == 'next')])
        f = (soc - self.grid[k]) / (self.grid[k + 1] - self.grid[k])
        return float(v[k] + f * (v[k + 1] - v[k]))


def default_ocv():
    s = np.linspace(0, 1, 20)
    m = 0.9 * s + 0.05
    return 3.5 + 0.1 * np.log(m / (1 - m))


class Cell:
    """One cell: parameters as plain numbers"""

    def __init__(self, c, behavior='constant', ocv=None):
        self.behavior = behavior
        self.qt = float(c['qt'])
        self.ce = float(c['ce'])
        self.r0 = list(c['r0'])
        self.h0 = list(c['h0'])
        self.gamma = float(c['gamma'])
        self.c0 = None if c['c0'] is None else list(c['c0'])
        self.rc = [[list(r), list(q)] for r, q in c['rc']]
        self.tdep = float(c['tdep'])
        self.ent = float(c['ent'])
        self.extra = c.get('extra') or {}
        if c.get('r0_soc'):
            self.extra = {**self.extra, 'r0': {'grid': c['r0_soc']}}
        if c['ocv'] == 'default':
            self.ocv_curve = Curve(default_ocv(), **{'style': 'cubic', **self._how('ref')})
        else:
            self.ocv_curve = Curve(c['ocv'] if isinstance(c['ocv'], list) else ocv, **self._how('ref'))

    def _how(self, part):
        """How the values of a component are interpolated"""
        return {k: v for k, v in self.extra.get(part, {}).items() if k in ('grid', 'style')}

    def curve(self, part, values):
        return Curve(values, **self._how(part))

    def jumps(self):
        """States of charge where parameters jump"""
        parts = [('r0', self.r0), ('h0', self.h0)] + ([('c0', self.c0)] if self.c0 is not None else [])
        parts += [(f'rc{k}{x}', v) for k, rc in enumerate(self.rc) for x, v in zip('rc', rc)]
        parts += [('ent', self.extra.get('ent', {}).get('rel', [1.]))]
        return self.ocv_curve.jumps() + [j for part, v in parts for j in self.curve(part, v).jumps()]

    # State: soc, q0 (only if there is a series capacitor), i_rc..., hyst
    def names(self):
        n = ['soc'] + (['q0'] if self.c0 is not None else [])
        n += ['i_rc'] if len(self.rc) == 1 else [f'i_rc[{k}]' for k in range(len(self.rc))]
        return n + ['hyst']

    def split(self, x):
        x = [float(v) for v in x]
        k = 2 if self.c0 is not None else 1
        return x[0], (x[1] if k == 2 else None), x[k:-1], x[-1]

    def resistance(self, part, values, soc, temp):
        e = self.extra.get(part, {})
        factor = self.tdep * e.get('tdep', 1.)
        return self.curve(part, values)(soc) * np.exp(-factor * (temp - e.get('tref', REFERENCE_TEMPERATURE)))

    def ocv(self, soc, temp):
        e = self.extra.get('ent', {})
        entropy = self.curve('ent', [self.ent * x for x in e.get('rel', [1.])])(soc)
        return self.ocv_curve(soc) + (temp - self.extra.get('ref', {}).get('tref', REFERENCE_TEMPERATURE)) * entropy

    def voltage(self, x, u):
        _, current, temp = u
        soc, q0, irc, hyst = self.split(x)
        v = self.ocv(soc, temp) + current * self.resistance('r0', self.r0, soc, temp) + hyst
        if q0 is not None:
            v += q0 / self.curve('c0', self.c0)(soc)
        for k, (i, (r, _)) in enumerate(zip(irc, self.rc)):
            v += i * self.resistance(f'rc{k}r', r, soc, temp)
        return v

    def charge(self, u, w):
        """Charge passed between two inputs"""
        dt = w[0] - u[0]
        return dt * u[1] if self.behavior == 'constant' else dt * (u[1] + w[1]) / 2

    def step(self, x, u, w):
        """State at input w, from that at input u"""
        soc, q0, irc, hyst = self.split(x)
        dt = w[0] - u[0]
        linear = self.behavior == 'linear' and dt != 0
        slope = (w[1] - u[1]) / dt if linear else 0.
        q = self.charge(u, w)
        eff = 1.0 if u[1] < 0 else self.ce
        capacity = 3600 * self.qt
        out = [soc + eff * q / capacity]
        if q0 is not None:
            out.append(q0 + q)
        for k, (i, (r, c)) in enumerate(zip(irc, self.rc)):
            tau = self.resistance(f'rc{k}r', r, soc, u[2]) * self.curve(f'rc{k}c', c)(soc)
            decay = np.exp(-dt / tau)
            if linear:
                # Particular solution of i' = (I(t) - i) / tau is I(t) - slope * tau
                out.append(w[1] - slope * tau + (i - u[1] + slope * tau) * decay)
            else:
                out.append(w[1] + (i - w[1]) * decay)
        # Hysteresis approaches +-M at a rate proportional to the charge passed, whatever its sign
        m = self.curve('h0', self.h0)(soc)
        rate = eff * self.gamma / capacity
        for sign, amount in self._legs(u, w, dt, linear):
            e = np.exp(-rate * amount)
            hyst = hyst * e + (1 - e) * m * sign
        return np.array(out + [hyst])

    def _legs(self, u, w, dt, linear):
        """Sign of the current and charge passed, in the parts of the interval between changes of sign"""
        if not linear:
            return [(np.sign(u[1]), abs(u[1]) * dt)]
        if u[1] * w[1] < 0:
            f = u[1] / (u[1] - w[1])
            return [(np.sign(u[1]), abs(u[1]) * f * dt / 2), (np.sign(w[1]), abs(w[1]) * (1 - f) * dt / 2)]
        return [(np.sign(u[1]) or np.sign(w[1]), abs(u[1] + w[1]) / 2 * dt)]

    # -- health parameters, by their names in moirae
    def lengths(self, names):
        return [len(self._get(n)) for n in names]

    def _get(self, name):
        part, attribute = _locate(name)
        if part in ('q_t', 'ce', 'h0.gamma'):
            return [{'q_t': self.qt, 'ce': self.ce, 'h0.gamma': self.gamma}[part]]
        if attribute == 'temperature_dependence_factor':
            return [self.tdep * self.extra.get(part, {}).get('tdep', 1.)]
        if attribute == 'reference_temperature':
            return [self.extra.get(part, {}).get('tref', REFERENCE_TEMPERATURE)]
        if part == 'ref':
            return list(self.ocv_curve.values)
        if part == 'ent':
            return [self.ent * x for x in self.extra.get('ent', {}).get('rel', [1.])]
        if part.startswith('rc'):
            return self.rc[int(part[2:-1])]['rc'.index(part[-1])]
        return getattr(self, part)

    def _set(self, name, values):
        part, attribute = _locate(name)
        if part in ('q_t', 'ce', 'h0.gamma'):
            setattr(self, {'q_t': 'qt', 'ce': 'ce', 'h0.gamma': 'gamma'}[part], values[0])
        elif attribute == 'temperature_dependence_factor':
            self._note(part, 'tdep', values[0] / self.tdep if self.tdep else values[0])
            if not self.tdep:  # Factors are relative to that of the circuit, which all others share
                for p in ['r0'] + [f'rc{k}r' for k in range(len(self.rc))]:
                    if p != part:
                        self._note(p, 'tdep', 0.)
                self.tdep = 1.
        elif attribute == 'reference_temperature':
            self._note(part, 'tref', values[0])
        elif part == 'ref':
            c = self.ocv_curve
            self.ocv_curve = Curve(values, grid=c.grid, style=c.style)
        elif part == 'ent':
            self._note('ent', 'rel', values)
            self.ent = 1.
        elif part.startswith('rc'):
            self.rc[int(part[2:-1])]['rc'.index(part[-1])] = values
        else:
            setattr(self, part, values)

    def _note(self, part, key, value):
        self.extra[part] = {**self.extra.get(part, {}), key: value}

    def with_health(self, names, values):
        import copy
        new = copy.copy(self)
        new.rc = [list(p) for p in self.rc]
        new.extra = dict(self.extra)
        pos = 0
        for name in names:
            n = len(self._get(name))
            new._set(name, [float(v) for v in values[pos:pos + n]])
            pos += n
        return new

    def health(self, names):
        return np.array([v for n in names for v in self._get(n)], dtype=float)


def _locate(name):
    """Component and attribute of a parameter"""
    words = name.split('.')
    if words[0] == 'rc_elements':
        return f'rc{words[1]}{words[2]}', words[3]
    if words[0] == 'ocv':
        return words[1][-3:], words[2]
    return ('h0.gamma' if name == 'h0.gamma' else words[0]), words[-1]


def health_order(names):
    """Order in which health parameters appear in a state"""
    rank = ['q_t', 'ce', 'ocv', 'r0', 'c0', 'rc_elements', 'h0']

    def key(n):
        words = n.split('.')
        inner = ['ocv_ref', 'ocv_ent', 'r', 'c', 'base_values', 'gamma', 'temperature_dependence_factor', 'reference_temperature']
        return (rank.index(words[0]), *((0, int(w)) if w.isdigit() else (1, inner.index(w)) for w in words[1:]))
    return sorted(names, key=key)


class Ukf:
    """One step of the unscented Kalman filter for x' = f(x) + w, y = h(x') + v"""

    def __init__(self, alpha=1., beta=2., kappa=0.):
        self.alpha, self.beta, self.kappa = alpha, beta, kappa

    def weights(self, n):
        kappa = 3 - n if self.kappa == 'automatic' else self.kappa
        lam = self.alpha ** 2 * (n + kappa) - n
        wm = np.full(2 * n + 1, 1 / (2 * (n + lam)))
        wc = wm.copy()
        wm[0] = lam / (n + lam)
        wc[0] = wm[0] + 1 - self.alpha ** 2 + self.beta
        return np.sqrt(n + lam), wm, wc

    def step(self, f, h, mean, cov, w, v, y):
        """None if the covariance is numerically singular. Otherwise prior, prediction and posterior"""
        n, m = len(mean), len(v)
        size = 2 * n + m
        spread, wm, wc = self.weights(size)
        scale = np.sqrt(np.maximum(np.diag(cov), 1e-300))
        try:
            root = np.linalg.cholesky((cov + cov.T) / 2 / np.outer(scale, scale)) * scale[:, None]
            if np.min(np.linalg.eigvalsh(cov / np.outer(scale, scale))) < 1e-9:
                return None
            roots = [root, np.linalg.cholesky(w), np.linalg.cholesky(v)]
        except np.linalg.LinAlgError:
            return None
        points = [(mean, np.zeros(n), np.zeros(m))]
        for k, block in enumerate(roots):
            for col in block.T:
                for s in (spread, -spread):
                    d = [np.zeros(n), np.zeros(n), np.zeros(m)]
                    d[k] = s * col
                    points.append((mean + d[0], d[1], d[2]))
        # The weights of all points but the first are equal, so their order is not relevant
        x = np.array([f(p[0]) + p[1] for p in points])
        z = np.array([h(a) + p[2] for a, p in zip(x, points)])
        xm, ym = wm @ x, wm @ z
        dx, dy = x - xm, z - ym
        pxx, pyy, pxy = dx.T @ (wc[:, None] * dx), dy.T @ (wc[:, None] * dy), dx.T @ (wc[:, None] * dy)
        gain = pxy @ np.linalg.inv(pyy)
        return {'prior': (xm, pxx), 'output': (ym, pyy),
                'posterior': (xm + gain @ (y - ym), pxx - gain @ pyy @ gain.T), 'total': np.sum(np.abs(wc))}
