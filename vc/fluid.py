"""Stand-in for a fluid property back end: uninterpreted in symbolic runs,
smooth closed forms in concrete runs."""
from __future__ import annotations

from .engine import _CUR, Sym, Unsupported, is_sym

_FLUIDS = {}


def _k(name):
    """small deterministic number per fluid, so fluids differ"""
    return (sum(ord(c) * (i + 1) for i, c in enumerate(name)) % 17) / 100.0


class FakeWrapper:
    """Same interface as tespy's FluidPropertyWrapper."""
    MM = {"H2O": 0.018015, "O2": 0.032, "N2": 0.028, "CO2": 0.044,
          "CH4": 0.01604, "H2": 0.002016, "Ar": 0.03995}

    def __init__(self, fluid, back_end=None, **kw):
        self.fluid = fluid
        self.back_end = back_end
        self._molar_mass = self.MM.get(fluid, 0.018 + _k(fluid) / 10)
        self._T_min, self._T_max = 200.0, 2200.0
        self._p_min, self._p_max = 1e2, 1e9
        self._p_crit, self._T_crit = 2.2e7, 647.0
        self._aliases = [fluid]
        k = _k(fluid)
        # T = a + h/b + c p + e h p
        self.a, self.b, self.c, self.e = 273.0, 4000.0 * (1 + k), 1e-6, 1e-12

    def _u(self, f, args, positive=False):
        ctx = _CUR[0]
        if ctx is not None and (any(is_sym(a) for a in args)):
            return ctx.fn(f"{self.fluid}.{f}", *args, positive=positive)
        return None

    def is_set(self):
        return True

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        raise Unsupported("property back end: " + k)

    def T_ph(self, p, h):
        r = self._u("T_ph", (p, h), True)
        return r if r is not None else \
            self.a + h / self.b + self.c * p + self.e * h * p

    def h_pT(self, p, T):
        r = self._u("h_pT", (p, T))
        return r if r is not None else \
            (T - self.a - self.c * p) / (1 / self.b + self.e * p)

    def s_ph(self, p, h):
        r = self._u("s_ph", (p, h))
        return r if r is not None else \
            1000.0 + h / 350.0 - 3e-4 * p + 1e-10 * h * p

    def h_ps(self, p, s):
        r = self._u("h_ps", (p, s))
        return r if r is not None else \
            (s - 1000.0 + 3e-4 * p) / (1 / 350.0 + 1e-10 * p)

    def T_ps(self, p, s):
        return self.T_ph(p, self.h_ps(p, s))

    def s_pT(self, p, T):
        r = self._u("s_pT", (p, T))
        return r if r is not None else self.s_ph(p, self.h_pT(p, T))

    def d_QT(self, Q, T):
        r = self._u("d_QT", (Q, T), True)
        return r if r is not None else \
            (1.0 - Q) * (1000.0 - 0.2 * T) + Q * (0.01 + 1e-3 * T)

    def _is_below_T_critical(self, T):
        return T < self._T_crit

    def isentropic(self, p_1, h_1, p_2):
        return self.h_ps(p_2, self.s_ph(p_1, h_1))

    def d_ph(self, p, h):
        r = self._u("d_ph", (p, h), True)
        return r if r is not None else \
            50.0 + 2e-6 * p - 5e-6 * h + 1e-13 * p * h + 4e-12 * h * h

    def d_pT(self, p, T):
        r = self._u("d_pT", (p, T), True)
        return r if r is not None else self.d_ph(p, self.h_pT(p, T))

    def T_sat(self, p):
        r = self._u("T_sat", (p,), True)
        return r if r is not None else 300.0 + 2e-5 * p - 1e-13 * p * p

    def p_sat(self, T):
        r = self._u("p_sat", (T,), True)
        return r if r is not None else 10.0 * T + T * T

    def h_pQ(self, p, Q):
        r = self._u("h_pQ", (p, Q))
        return r if r is not None else \
            (4e5 + 0.05 * p + 1e-9 * p * p) + Q * (2e6 - 0.1 * p)

    def h_QT(self, Q, T):
        r = self._u("h_QT", (Q, T))
        return r if r is not None else \
            4e5 + 900.0 * (T - 300.0) + Q * (2e6 - 1000.0 * (T - 300.0))

    def s_QT(self, Q, T):
        r = self._u("s_QT", (Q, T))
        return r if r is not None else self.h_QT(Q, T) / 350.0 + 900.0

    def Q_ph(self, p, h):
        r = self._u("Q_ph", (p, h))
        return r if r is not None else \
            (h - (4e5 + 0.05 * p + 1e-9 * p * p)) / (2e6 - 0.1 * p)

    def d_pQ(self, p, Q):
        r = self._u("d_pQ", (p, Q), True)
        return r if r is not None else self.d_ph(p, self.h_pQ(p, Q))

    def s_pQ(self, p, Q):
        r = self._u("s_pQ", (p, Q))
        return r if r is not None else self.s_ph(p, self.h_pQ(p, Q))

    two_phase = False        # decide the phase by the saturation enthalpies

    def phase_ph(self, p, h):
        if not self.two_phase:
            return "l"
        if h < self.h_pQ(p, 0):
            return "l"
        return "g" if h > self.h_pQ(p, 1) else "tp"

    def viscosity_ph(self, p, h):
        r = self._u("viscosity_ph", (p, h), True)
        return r if r is not None else 1e-3 + 1e-13 * p - 1e-10 * h

    def viscosity_pT(self, p, T):
        r = self._u("viscosity_pT", (p, T), True)
        return r if r is not None else self.viscosity_ph(p, self.h_pT(p, T))
