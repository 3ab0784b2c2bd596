"""Terms over the reals: hash-consed DAG, differentiation, a field normaliser,
float evaluation.

Everything the verification condition generator (vc.engine) knows about a
value computed by the code under contract is one of these terms.  Floats are
mathematical reals here (stated in every evidence file).
"""
from __future__ import annotations

import math
from fractions import Fraction

_TABLE = {}
_COUNT = [0]


class Term:
    __slots__ = ("op", "args", "val", "id", "_diff", "_nf")

    def __repr__(self):
        return to_str(self)


def _mk(op, args=(), val=None):
    key = (op, tuple(a.id for a in args), val)
    t = _TABLE.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.args = tuple(args)
        t.val = val
        _COUNT[0] += 1
        t.id = _COUNT[0]
        t._diff = None
        t._nf = None
        _TABLE[key] = t
    return t


def reset():
    """Forget all terms (between harnesses, to bound memory)."""
    _TABLE.clear()
    global ZERO, ONE
    ZERO = const(0)
    ONE = const(1)


def const(x):
    if isinstance(x, Fraction):
        f = x
    elif isinstance(x, bool):
        f = Fraction(int(x))
    elif isinstance(x, int):
        f = Fraction(x)
    else:
        x = float(x)
        if math.isnan(x) or math.isinf(x):
            raise ValueError("nan/inf constant in symbolic arithmetic")
        # shortest decimal: 0.1 means 1/10
        f = Fraction(repr(x))
    return _mk("c", (), f)


def var(name):
    return _mk("v", (), name)


def bvar(name):
    return _mk("bv", (), name)


def add(a, b):
    if a.op == "c" and b.op == "c":
        return const(a.val + b.val)
    if a.op == "c" and a.val == 0:
        return b
    if b.op == "c" and b.val == 0:
        return a
    if a.id > b.id:
        a, b = b, a
    return _mk("+", (a, b))


def mul(a, b):
    if a.op == "c" and b.op == "c":
        return const(a.val * b.val)
    if a.op == "c":
        if a.val == 0:
            return a
        if a.val == 1:
            return b
    if b.op == "c":
        if b.val == 0:
            return b
        if b.val == 1:
            return a
    if a.id > b.id:
        a, b = b, a
    return _mk("*", (a, b))


def neg(a):
    return mul(const(-1), a)


def sub(a, b):
    if a is b:
        return const(0)
    return add(a, neg(b))


def power(a, e):
    """a ** e with e a Fraction."""
    e = Fraction(e)
    if e == 1:
        return a
    if e == 0:
        return const(1)
    if a.op == "c" and e.denominator == 1:
        if a.val == 0 and e < 0:
            raise ZeroDivisionError("division by constant zero")
        return const(a.val ** int(e))
    if a.op == "^" and e.denominator == 1:
        # (x^q)^n = x^(qn): valid for integer n
        return power(a.args[0], a.val * e)
    return _mk("^", (a,), e)


def div(a, b):
    if b.op == "c":
        if b.val == 0:
            raise ZeroDivisionError("symbolic division by zero")
        return mul(a, const(1 / b.val))
    return mul(a, power(b, -1))


# functions whose meaning is fixed; everything else is uninterpreted
_LN10 = math.log(10)
INTERP = {
    "log": (math.log, lambda x: power(x, -1)),
    "log10": (math.log10, lambda x: mul(const(1 / _LN10), power(x, -1))),
    "exp": (math.exp, lambda x: fun("exp", (x,))),
    "sin": (math.sin, lambda x: fun("cos", (x,))),
    "cos": (math.cos, lambda x: neg(fun("sin", (x,)))),
}


def fun(name, args):
    args = tuple(args)
    if name in INTERP and all(a.op == "c" for a in args):
        return const(INTERP[name][0](float(args[0].val)))
    return _mk("f", args, name)


# ------------------------------------------------------------ booleans
TRUE = _mk("true")
FALSE = _mk("false")


def lt(a, b):
    if a is b:
        return FALSE
    if a.op == "c" and b.op == "c":
        return TRUE if a.val < b.val else FALSE
    return _mk("<", (a, b))


def le(a, b):
    if a is b:
        return TRUE
    if a.op == "c" and b.op == "c":
        return TRUE if a.val <= b.val else FALSE
    return _mk("<=", (a, b))


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "c" and b.op == "c":
        return TRUE if a.val == b.val else FALSE
    if a.id > b.id:
        a, b = b, a
    return _mk("==", (a, b))


def bnot(a):
    if a.op == "true":
        return FALSE
    if a.op == "false":
        return TRUE
    if a.op == "not":
        return a.args[0]
    return _mk("not", (a,))


def band(*xs):
    out = []
    for x in xs:
        if x.op == "false":
            return FALSE
        if x.op == "true":
            continue
        out.append(x)
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mk("and", tuple(out))


def bor(*xs):
    return bnot(band(*[bnot(x) for x in xs]))


ZERO = const(0)
ONE = const(1)


# ------------------------------------------------------- differentiation
def diff(t, v):
    """Partial derivative of term t with respect to variable term v."""
    if t._diff is None:
        t._diff = {}
    r = t._diff.get(v.id)
    if r is not None:
        return r
    op = t.op
    if op == "c":
        r = const(0)
    elif op == "v":
        r = const(1) if t is v else const(0)
    elif op == "+":
        r = add(diff(t.args[0], v), diff(t.args[1], v))
    elif op == "*":
        a, b = t.args
        r = add(mul(diff(a, v), b), mul(a, diff(b, v)))
    elif op == "^":
        a = t.args[0]
        da = diff(a, v)
        if da.op == "c" and da.val == 0:
            r = const(0)
        else:
            r = mul(mul(const(t.val), power(a, t.val - 1)), da)
    elif op == "f":
        r = const(0)
        for i, a in enumerate(t.args):
            da = diff(a, v)
            if da.op == "c" and da.val == 0:
                continue
            r = add(r, mul(fderiv(t, i), da))
    else:
        raise ValueError("cannot differentiate " + op)
    t._diff[v.id] = r
    return r


def fderiv(t, i):
    """Partial derivative of a function application in its i-th argument."""
    if t.val in INTERP:
        return INTERP[t.val][1](t.args[0])
    base, _, ds = t.val.partition("|d")
    idx = sorted([int(x) for x in ds.split(",") if x] + [i])
    return fun(base + "|d" + ",".join(map(str, idx)), t.args)


# ------------------------------------------------------ field normaliser
# polynomial: dict {monomial: Fraction}; monomial: tuple of (atom_key, exp)
class TooBig(Exception):
    pass


LIMIT = 20000


def p_const(c):
    return {(): c} if c != 0 else {}


def p_add(a, b):
    r = dict(a)
    for m, c in b.items():
        s = r.get(m, 0) + c
        if s == 0:
            r.pop(m, None)
        else:
            r[m] = s
    return r


def p_scale(a, k):
    if k == 0:
        return {}
    return {m: c * k for m, c in a.items()}


def m_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for k, e in m2:
        d[k] = d.get(k, 0) + e
    return tuple(sorted((k, e) for k, e in d.items() if e != 0))


def p_mul(a, b):
    if len(a) * len(b) > LIMIT * 10:
        raise TooBig()
    if len(a) > len(b):
        a, b = b, a
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            s = r.get(m, 0) + c1 * c2
            if s == 0:
                r.pop(m, None)
            else:
                r[m] = s
    if len(r) > LIMIT:
        raise TooBig()
    return r


def p_pow(a, n):
    r = p_const(Fraction(1))
    for _ in range(n):
        r = p_mul(r, a)
    return r


class Normaliser:
    """Normal forms num/den with den a monomial of *factor atoms*.

    Atoms: variables, function applications (identified up to provable
    equality of their arguments), non-integer powers, and inverses of
    non-monomial polynomials (an atom standing for 1/q, with q normalised).
    Two terms are equal if the difference normalises to 0 after the inverse
    atoms are cleared.
    """

    def __init__(self):
        self.atoms = {}      # key -> description
        self.apps = {}       # (name, nargs) -> list of (args terms, key)
        self.pows = {}       # Fraction frac part -> list of (term, key)
        self.invs = []       # list of (poly, key)
        self.cache = {}

    # -- polynomials over atoms (inverse atoms included)
    def norm(self, t):
        r = self.cache.get(t.id)
        if r is not None:
            return r
        op = t.op
        if op == "c":
            r = p_const(t.val)
        elif op == "v":
            r = {((("v", t.val), 1),): Fraction(1)}
        elif op == "+":
            r = p_add(self.norm(t.args[0]), self.norm(t.args[1]))
        elif op == "*":
            r = p_mul(self.norm(t.args[0]), self.norm(t.args[1]))
        elif op == "^":
            r = self._pow(t.args[0], t.val)
        elif op == "f":
            r = {((self._app(t), 1),): Fraction(1)}
        else:
            raise ValueError("not a real term: " + op)
        self.cache[t.id] = r
        return r

    def _app(self, t):
        lst = self.apps.setdefault((t.val, len(t.args)), [])
        for args, key in lst:
            if all(a is b or self.equal(a, b) for a, b in zip(args, t.args)):
                return key
        key = ("f", t.val + "#" + str(len(lst)) + "/" + str(len(t.args)))
        lst.append((t.args, key))
        return key

    def _pow(self, base, e):
        n = math.floor(e)
        r = e - n
        out = p_const(Fraction(1))
        if r != 0:
            lst = self.pows.setdefault(r, [])
            for b, key in lst:
                if b is base or self.equal(b, base):
                    break
            else:
                key = ("p", str(r) + "#" + str(len(lst)))
                lst.append((base, key))
            out = {((key, 1),): Fraction(1)}
        if n > 0:
            out = p_mul(out, p_pow(self.norm(base), n))
        elif n < 0:
            out = p_mul(out, self._inv(self.norm(base), -n))
        return out

    def _inv(self, poly, n):
        if not poly:
            raise ZeroDivisionError("normalised denominator is zero")
        if len(poly) == 1:
            (m, c), = poly.items()
            inv = tuple(sorted((k, -e * n) for k, e in m))
            # 1/(1/q)^n = q^n is handled when clearing
            return {inv: 1 / c ** n}
        # extract leading coefficient and common monomial
        keys = {k for m in poly for k, _ in m}
        common = {k: min(dict(m).get(k, 0) for m in poly) for k in keys}
        common = {k: e for k, e in common.items() if e != 0}
        cm = tuple(sorted((k, -e) for k, e in common.items()))
        q = {m_mul(m, cm): c for m, c in poly.items()}
        lead = q[min(q)]
        q = p_scale(q, 1 / lead)
        for poly2, key in self.invs:
            if poly2 == q:
                break
        else:
            key = ("i", len(self.invs))
            self.invs.append((q, key))
        mono = m_mul(tuple(sorted((k, -e * n) for k, e in common.items())),
                     ((key, n),))
        return {mono: (1 / lead) ** n}

    def clear(self, poly):
        """Multiply by denominators until polynomial (no inverse atoms, no
        negative exponents)."""
        for _ in range(200):
            # negative exponents
            low = {}
            for m in poly:
                for k, e in m:
                    if e < 0:
                        low[k] = min(low.get(k, 0), e)
            if low:
                mm = tuple(sorted((k, -e) for k, e in low.items()))
                new = {}
                for m, c in poly.items():
                    new[m_mul(m, mm)] = c
                poly = new
            # inverse atoms, last introduced first
            top = {}
            for m in poly:
                for k, e in m:
                    if k[0] == "i":
                        top[k] = max(top.get(k, 0), e)
            if not top:
                if not low:
                    return poly
                continue
            k = max(top)
            n = top[k]
            q = self.invs[k[1]][0]
            new = {}
            for m, c in poly.items():
                d = dict(m)
                e = d.pop(k, 0)
                mono = tuple(sorted(d.items()))
                piece = p_mul({mono: c}, p_pow(q, n - e))
                new = p_add(new, piece)
                if len(new) > LIMIT:
                    raise TooBig()
            poly = new
        raise TooBig()

    def diff_poly(self, a, b):
        return self.clear(p_add(self.norm(a), p_scale(self.norm(b), -1)))

    def equal(self, a, b):
        if a is b:
            return True
        pa, pb = self.norm(a), self.norm(b)
        if pa == pb:
            return True
        d = self.clear(p_add(pa, p_scale(pb, -1)))
        if not d:
            return True
        # rounding of decimal constants: coefficients that cancel up to 1e-9
        ref = self.clear(pa) if pa else {}
        if not ref:
            return False
        for m, c in d.items():
            r = ref.get(m)
            if r is None or abs(c) > abs(r) * Fraction(1, 10 ** 9):
                # denominators may differ, so compare against the scale of
                # the polynomial obtained from lhs on the common denominator
                return self._close(pa, pb)
        return True

    def _close(self, pa, pb):
        # put both on one denominator: add marker variable to keep them apart
        mark = ("v", "\0mark")
        comb = p_add(p_mul(pa, {((mark, 1),): Fraction(1)}), pb)
        comb = self.clear(comb)
        left, right = {}, {}
        for m, c in comb.items():
            d = dict(m)
            if d.pop(mark, 0):
                left[tuple(sorted(d.items()))] = c
            else:
                right[m] = c
        for m in set(left) | set(right):
            x, y = left.get(m, Fraction(0)), right.get(m, Fraction(0))
            if abs(x - y) > max(abs(x), abs(y)) * Fraction(1, 10 ** 9):
                return False
        return True

    def ratio_const(self, a, b):
        """If a == c*b for a nonzero constant c, return c, else None."""
        pa, pb = self.norm(a), self.norm(b)
        if not pa or not pb:
            return None
        mark = ("v", "\0mark")
        comb = self.clear(p_add(p_mul(pa, {((mark, 1),): Fraction(1)}), pb))
        left, right = {}, {}
        for m, c in comb.items():
            d = dict(m)
            if d.pop(mark, 0):
                left[tuple(sorted(d.items()))] = c
            else:
                right[m] = c
        if set(left) != set(right):
            return None
        c = None
        for m in left:
            r = left[m] / right[m]
            if c is None:
                c = r
            elif abs(r - c) > abs(c) * Fraction(1, 10 ** 9):
                return None
        return c


# ------------------------------------------------------------ evaluation
def evaluate(t, env, fenv, memo=None):
    """Float value of a term; env: variable name -> float; fenv(name, args)."""
    if memo is None:
        memo = {}
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop()
            continue
        todo = [a for a in x.args if a.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        a = [memo[y.id] for y in x.args]
        op = x.op
        if op == "c":
            r = float(x.val)
        elif op in ("v", "bv"):
            r = env[x.val]
        elif op == "+":
            r = a[0] + a[1]
        elif op == "*":
            r = a[0] * a[1]
        elif op == "^":
            r = a[0] ** float(x.val) if x.val.denominator != 1 else \
                a[0] ** int(x.val)
        elif op == "f":
            if x.val in INTERP:
                r = INTERP[x.val][0](a[0])
            else:
                r = fenv(x.val, a)
        elif op == "<":
            r = a[0] < a[1]
        elif op == "<=":
            r = a[0] <= a[1]
        elif op == "==":
            r = a[0] == a[1]
        elif op == "not":
            r = not a[0]
        elif op == "and":
            r = all(a)
        elif op == "true":
            r = True
        elif op == "false":
            r = False
        else:
            raise ValueError(op)
        memo[x.id] = r
    return memo[t.id]


PRIME = (1 << 61) - 1


def _h(*k):
    import hashlib
    d = hashlib.blake2b(repr(k).encode(), digest_size=8).digest()
    return int.from_bytes(d, "big") % PRIME


def fingerprint(t, memo):
    """value of the term in a prime field at a pseudo-random point; terms that
    are equal by field arithmetic (also within arguments of functions) have
    the same value.  Only used to find candidates for the normaliser."""
    stack = [t]
    while stack:
        x = stack[-1]
        if x.id in memo:
            stack.pop()
            continue
        todo = [a for a in x.args if a.id not in memo]
        if todo:
            stack.extend(todo)
            continue
        stack.pop()
        v = [memo[a.id] for a in x.args]
        op = x.op
        if op == "c":
            q = Fraction(x.val)
            r = q.numerator * pow(q.denominator, -1, PRIME) % PRIME
        elif op == "+":
            r = sum(v) % PRIME
        elif op == "*":
            r = 1
            for y in v:
                r = r * y % PRIME
        elif op == "^" and Fraction(x.val).denominator == 1:
            e = int(x.val)
            r = 0 if v[0] == 0 else pow(v[0], e, PRIME)
        elif op == "^":
            r = _h("^", v[0], str(x.val))
        elif op == "f":
            r = _h("f", x.val, tuple(v))
        else:
            r = _h(op, str(x.val), tuple(v))
        memo[x.id] = r
    return memo[t.id]


def variables(t, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op in ("v", "bv"):
            acc.add(x)
        stack.extend(x.args)
    return acc


def functions(t, acc=None, seen=None):
    acc = set() if acc is None else acc
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "f":
            acc.add(x.val)
        stack.extend(x.args)
    return acc


def to_str(t, depth=0):
    if depth > 12:
        return "..."
    d = depth + 1
    op = t.op
    if op == "c":
        f = float(t.val)
        return repr(f) if f != int(f) or abs(f) > 1e15 else str(int(f))
    if op in ("v", "bv"):
        return t.val
    if op in ("+", "*", "<", "<=", "=="):
        return "(" + to_str(t.args[0], d) + " " + op + " " + \
            to_str(t.args[1], d) + ")"
    if op == "^":
        return to_str(t.args[0], d) + "^" + str(t.val)
    if op == "f":
        return t.val + "(" + ", ".join(to_str(a, d) for a in t.args) + ")"
    if op == "not":
        return "!" + to_str(t.args[0], d)
    if op == "and":
        return "(" + " & ".join(to_str(a, d) for a in t.args) + ")"
    return op


def subst(t, m, memo=None):
    """Replace variables: m maps term id -> Term."""
    memo = {} if memo is None else memo
    r = memo.get(t.id)
    if r is not None:
        return r
    if t.id in m:
        r = m[t.id]
    elif not t.args:
        r = t
    else:
        a = [subst(x, m, memo) for x in t.args]
        if all(x is y for x, y in zip(a, t.args)):
            r = t
        elif t.op == "+":
            r = add(*a)
        elif t.op == "*":
            r = mul(*a)
        elif t.op == "^":
            r = power(a[0], t.val)
        elif t.op == "f":
            r = fun(t.val, a)
        elif t.op == "<=":
            r = le(*a)
        elif t.op == "==":
            r = eq(*a)
        elif t.op == "not":
            r = bnot(a[0])
        elif t.op == "and":
            r = band(*a)
        else:
            raise ValueError(t.op)
    memo[t.id] = r
    return r
