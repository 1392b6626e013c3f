"""Integer polynomials over named variables (sizes and indices)."""


class P:
    """Immutable integer polynomial: dict monomial(tuple of sorted var names) -> int."""

    __slots__ = ("d", "_h", "_k")

    def __init__(self, d):
        self.d = d
        self._h = None
        self._k = None

    @staticmethod
    def const(c):
        if c != int(c):
            raise ValueError("not an integer: %r" % (c,))
        return P({(): int(c)}) if c else ZERO

    @staticmethod
    def var(name):
        return P({(name,): 1})

    def key(self):
        if self._k is None:
            self._k = tuple(sorted(self.d.items()))
        return self._k

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.d.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, P) and self.d == o.d

    def is_const(self):
        return not self.d or (len(self.d) == 1 and () in self.d)

    def cval(self):
        return self.d.get((), 0)

    def __add__(self, o):
        o = topoly(o)
        if not o.d:
            return self
        if not self.d:
            return o
        d = dict(self.d)
        for m, c in o.d.items():
            v = d.get(m, 0) + c
            if v:
                d[m] = v
            else:
                d.pop(m, None)
        return P(d)

    __radd__ = __add__

    def __neg__(self):
        return P({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        return self + (-topoly(o))

    def __rsub__(self, o):
        return topoly(o) - self

    def __mul__(self, o):
        o = topoly(o)
        d = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = tuple(sorted(m1 + m2)) if m1 and m2 else (m1 or m2)
                v = d.get(m, 0) + c1 * c2
                if v:
                    d[m] = v
                else:
                    d.pop(m, None)
        return P(d)

    __rmul__ = __mul__

    def vars(self):
        s = set()
        for m in self.d:
            s.update(m)
        return s

    def has(self, v):
        for m in self.d:
            if v in m:
                return True
        return False

    def degree(self):
        return max((len(m) for m in self.d), default=0)

    def lin_coef(self, v):
        """coefficient c if v occurs only as the linear monomial c*v, else None (0 if absent)."""
        c = 0
        for m, k in self.d.items():
            if v in m:
                if m == (v,):
                    c = k
                else:
                    return None
        return c

    def subst(self, mp):
        """mp: dict var -> P"""
        hit = False
        for m in self.d:
            for v in m:
                if v in mp:
                    hit = True
                    break
            if hit:
                break
        if not hit:
            return self
        res = {}
        for m, c in self.d.items():
            if not any(v in mp for v in m):
                v = res.get(m, 0) + c
                if v:
                    res[m] = v
                else:
                    res.pop(m, None)
                continue
            t = P({tuple(v for v in m if v not in mp): c})
            for v in m:
                if v in mp:
                    t = t * mp[v]
            for mm, cc in t.d.items():
                v = res.get(mm, 0) + cc
                if v:
                    res[mm] = v
                else:
                    res.pop(mm, None)
        return P(res)

    def divexact_split(self, k):
        """Split self = k*q + r by leading-variable polynomial division; k a polynomial."""
        if k.is_const():
            c = k.cval()
            q = {}
            r = {}
            for m, v in self.d.items():
                a, b = divmod(v, c)
                # keep small remainders symmetric only for the constant
                if m == ():
                    if a:
                        q[m] = a
                    if b:
                        r[m] = b
                elif b == 0:
                    q[m] = a
                else:
                    if a:
                        q[m] = a
                    r[m] = b
            return P(q), P(r)
        lead = max((m for m in k.d if m), key=lambda m: (len(m), m))
        lc = k.d[lead]
        q = P({})
        r = self
        while True:
            done = True
            for m, v in sorted(r.d.items(), key=lambda t: (-len(t[0]), t[0])):
                rest = _mdiv(m, lead)
                if rest is not None and v % lc == 0:
                    t = P({rest: v // lc})
                    q = q + t
                    r = r - t * k
                    done = False
                    break
            if done:
                return q, r

    def __repr__(self):
        if not self.d:
            return "0"
        out = []
        for m, c in sorted(self.d.items(), key=lambda t: (-len(t[0]), t[0])):
            s = "*".join(m)
            if not m:
                s = str(abs(c))
            elif abs(c) != 1:
                s = "%d*%s" % (abs(c), s)
            out.append(("-" if c < 0 else "+") + s)
        r = "".join(out)
        return r[1:] if r[0] == "+" else r


def _mdiv(m, lead):
    m = list(m)
    for v in lead:
        if v in m:
            m.remove(v)
        else:
            return None
    return tuple(m)


ZERO = P({})
ONE = P({(): 1})


def topoly(x):
    if isinstance(x, P):
        return x
    if isinstance(x, bool):
        return P.const(int(x))
    if isinstance(x, int):
        return P.const(x)
    p = getattr(x, "p", None)
    if isinstance(p, P):
        return p
    raise TypeError("not an integer: %r" % (x,))
