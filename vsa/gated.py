"""Gated value numbering.

A function is evaluated once to *gated* terms: where control flow joins, a value is `ite(condition, left, right)`
(gated SSA).  Conditions, comparisons and arithmetic are brought to a normal form (rational functions over opaque
atoms, comparisons as sign sets of a polynomial), so that two ways of writing the same computation get the same
normal form.  Values are compared for equality by resolving the gates their normal forms still contain, one
condition at a time.  Nothing is executed and no solver is involved.
"""
import ast
import time
import hashlib
import math
from fractions import Fraction

from .flow import Frame, State
from .program import Assign, ClassInfo, Ext, FunctionInfo, Module
from .terms import BIN, C, CMP, NONE, P, T, TermFlow, UNK, cval, show, subterms

TRUE, FALSE = C(True), C(False)
RAISE = T("raise")


def NOT(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.kind == "op" and c.args[0] == "not":
        return c.args[1]
    return T("op", "not", c)


def AND(*cs):
    out = []
    for c in cs:
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        for x in (c.args[1:] if c.kind == "op" and c.args[0] == "and" else (c,)):
            if x not in out:
                out.append(x)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else T("op", "and", *out)


def OR(*cs):
    out = []
    for c in cs:
        if c is TRUE:
            return TRUE
        if c is FALSE:
            continue
        for x in (c.args[1:] if c.kind == "op" and c.args[0] == "or" else (c,)):
            if x not in out:
                out.append(x)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else T("op", "or", *out)


def ITE(c, a, b):
    if c is TRUE or a is b:
        return a
    if c is FALSE:
        return b
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return NOT(c)
    if c.kind == "op" and c.args[0] == "not":
        return ITE(c.args[1], b, a)
    if a.kind in ("tup",) and b.kind == a.kind and len(a.args) == len(b.args):
        return T(a.kind, *[ITE(c, x, y) for x, y in zip(a.args, b.args)])
    if a.kind == "nt" and b.kind == "nt" and a.args[0] is b.args[0]:
        return T("nt", a.args[0], *[(n, ITE(c, x, dict(b.args[1:])[n])) for n, x in a.args[1:]])
    return T("ite", c, a, b)


# ---------------------------------------------------------------------------------------------------------------
# normal form

class Ids:
    tab = {}

    @classmethod
    def of(cls, key):
        i = cls.tab.get(key)
        if i is None:
            i = len(cls.tab)
            cls.tab[key] = i
            cls.rev.append(key)
        return i
    rev = []


class TooBig(Exception):
    pass


def padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pmul(a, b):
    if len(a) * len(b) > 20000:
        raise TooBig()
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            e = dict(m)
            for k, x in n:
                e[k] = e.get(k, 0) + x
                if not e[k]:
                    del e[k]
            k = tuple(sorted(e.items()))
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


ONE = {(): Fraction(1)}


class Rat:
    __slots__ = ("n", "d", "_key")

    def __init__(self, n, d=None):
        self.n, self.d, self._key = n, d or ONE, None
        if not self.n:
            self.d = ONE

    def __add__(self, o):
        if self.d == o.d:
            return Rat(padd(self.n, o.n), self.d)
        return Rat(padd(pmul(self.n, o.d), pmul(o.n, self.d)), pmul(self.d, o.d))

    def __neg__(self):
        return Rat({m: -c for m, c in self.n.items()}, self.d)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        return Rat(pmul(self.n, o.n), pmul(self.d, o.d)).simp()

    def __truediv__(self, o):
        return Rat(pmul(self.n, o.d), pmul(self.d, o.n)).simp()

    def simp(self):
        """Cancel a common monomial factor and a proportional numerator/denominator."""
        if not self.n:
            return Rat({}, ONE)
        if len(self.d) == 1 or len(self.n) >= 1:
            common = None
            for m in list(self.n) + list(self.d):
                dm = dict(m)
                common = dm if common is None else {k: min(v, dm[k]) for k, v in common.items() if k in dm}
                if not common:
                    break
            if common:
                def div(p):
                    return {tuple(sorted((k, e - common.get(k, 0)) for k, e in m if e - common.get(k, 0))): c for m, c in p.items()}
                self = Rat(div(self.n), div(self.d))
        if len(self.d) > 1 and len(self.n) % len(self.d) == 0:
            # exact division when the numerator is a multiple of the denominator
            q = pdiv(self.n, self.d)
            if q is not None:
                self = Rat(q, ONE)
        lead = self.d[max(self.d)]
        if lead != 1:
            self = Rat({m: c / lead for m, c in self.n.items()}, {m: c / lead for m, c in self.d.items()})
        return self

    @property
    def zero(self):
        return not self.n

    def const(self):
        if not self.n:
            return Fraction(0)
        if len(self.n) == 1 and () in self.n and len(self.d) == 1 and () in self.d:
            return self.n[()] / self.d[()]
        return None

    def key(self):
        if self._key is None:
            s = self.simp()
            self._key = (frozenset(s.n.items()), frozenset(s.d.items()))
        return self._key

    def atoms(self):
        return {k for p in (self.n, self.d) for m in p for k, _ in m}


def pdiv(a, b):
    """Exact polynomial quotient a / b (lexicographic leading terms), or None."""
    q, r = {}, dict(a)
    bl = max(b)
    for _ in range(200):
        if not r:
            return q
        rl = max(r)
        d = dict(rl)
        for k, e in bl:
            if d.get(k, 0) < e:
                return None
            d[k] -= e
            if not d[k]:
                del d[k]
        m = tuple(sorted(d.items()))
        c = r[rl] / b[bl]
        q[m] = q.get(m, 0) + c
        r = padd(r, pmul({m: c}, b), -1)
        if r and max(r) >= rl and max(r) == rl:
            return None
    return None


def rconst(v):
    f = Fraction(v) if isinstance(v, (int, bool)) else Fraction(repr(v))
    return Rat({(): f} if f else {})


SIGNS = {"<": {-1}, "<=": {-1, 0}, ">": {1}, ">=": {0, 1}, "==": {0}, "!=": {-1, 1}}


BOOL_NAMES = set()      # parameter and field names that always hold booleans
INT_NAMES = set()       # parameter and field names that always hold integers
INT_LV = set()          # (name, loop) of loop-carried variables that always hold integers


BOOL_LV = set()         # (name, loop) of loop-carried variables that always hold booleans


def text_number(v):
    """Strings as distinct numbers: equal to themselves only."""
    return 10 ** 18 + int.from_bytes(hashlib.sha256(v.encode()).digest()[:8], "big")


def int_key(k):
    """Does the atom with this key always hold an integer?"""
    if not isinstance(k, tuple):
        return False
    if k[0] == "it":
        return True
    if k[0] in ("lv", "after"):
        return (k[1], k[2]) in INT_LV
    if k[0] == "p":
        return k[1] in INT_NAMES
    if k[0] == "a":
        return k[2] in INT_NAMES or k[2] in ("size", "ndim")
    if k[0] == "i":
        return isinstance(k[1], tuple) and k[1][0] == "a" and k[1][2] == "shape"
    if k[0] == "f":
        return k[1] == ("g", "builtins.len")
    return False


class Iv:
    """What is known about a linear form: bounds and excluded values."""
    __slots__ = ("lo", "los", "hi", "his", "ex")

    def __init__(self, lo=None, los=False, hi=None, his=False, ex=frozenset()):
        self.lo, self.los, self.hi, self.his, self.ex = lo, los, hi, his, ex

    def meet(self, o):
        lo, los, hi, his = self.lo, self.los, self.hi, self.his
        if o.lo is not None and (lo is None or o.lo > lo or (o.lo == lo and o.los)):
            lo, los = o.lo, o.los
        if o.hi is not None and (hi is None or o.hi < hi or (o.hi == hi and o.his)):
            hi, his = o.hi, o.his
        ex = self.ex | o.ex
        if lo in ex and lo is not None:
            los = True
        if hi in ex and hi is not None:
            his = True
        return Iv(lo, los, hi, his, ex)

    def tight(self, integer):
        """The same for an integer form."""
        if not integer:
            return self
        lo, hi = self.lo, self.hi
        if lo is not None:
            lo = lo + 1 if self.los and lo == math.floor(lo) else Fraction(math.ceil(lo))
            while lo in self.ex:
                lo += 1
        if hi is not None:
            hi = hi - 1 if self.his and hi == math.ceil(hi) else Fraction(math.floor(hi))
            while hi in self.ex:
                hi -= 1
        return Iv(lo, False, hi, False, self.ex)

    @property
    def empty(self):
        if self.lo is None or self.hi is None:
            return False
        return self.lo > self.hi or (self.lo == self.hi and (self.los or self.his))

    @property
    def point(self):
        return self.lo if self.lo is not None and self.lo == self.hi and not (self.los or self.his) else None

    def implies(self, o):
        if o.lo is not None and (self.lo is None or self.lo < o.lo or (self.lo == o.lo and o.los and not self.los)):
            return False
        if o.hi is not None and (self.hi is None or self.hi > o.hi or (self.hi == o.hi and o.his and not self.his)):
            return False
        return all(self.excludes(x) for x in o.ex)

    def excludes(self, x):
        return x in self.ex or (self.lo is not None and (x < self.lo or (x == self.lo and self.los))) or \
            (self.hi is not None and (x > self.hi or (x == self.hi and self.his)))

    def key(self):
        return (self.lo, self.los, self.hi, self.his, self.ex)


def interval(op, k):
    return {"<": Iv(hi=k, his=True), "<=": Iv(hi=k), ">": Iv(lo=k, los=True), ">=": Iv(lo=k), "==": Iv(k, False, k, False), "!=": Iv(ex=frozenset([k]))}[op]


FLIP = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}
NEGOP = {"<": ">=", "<=": ">", ">": "<=", ">=": "<", "==": "!=", "!=": "=="}


def linear(p):
    """Split a polynomial: (form without constant scaled to leading coefficient 1, scale, constant); None if constant."""
    q = {m: v for m, v in p.items() if m != ()}
    if not q:
        return None
    lead = q[max(q)]
    return frozenset((m, v / lead) for m, v in q.items()), lead, p.get((), Fraction(0))


def int_form(lk):
    return all(v.denominator == 1 and all(int_key(Ids.rev[a]) and x > 0 for a, x in m) for m, v in lk)


class Facts:
    """What is assumed on the current case: values substituted for atoms, truth of boolean atoms, sign sets."""

    conds = ()      # the conditions assumed so far, with their truth

    def __init__(self, bools=None, signs=None, subst=None, trail=(), elim=None):
        self.bools, self.signs, self.subst, self.trail, self.elim = bools or {}, signs or {}, subst or {}, trail, elim or {}

    def with_subst(self, term, value):
        return Facts(self.bools, self.signs, {**self.subst, term: value}, self.trail + (f"{show(term)} = {show(value)}",), self.elim)


class Canon:
    def __init__(self, facts, rules=()):
        self.f = facts
        self.memo, self.kmemo, self.cmemo = {}, {}, {}

    # ---- numbers ----
    def rat(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self._rat(t)
            self.memo[t] = r
        return r

    def atom(self, key):
        k = Ids.of(key)
        e = self.f.elim.get(k)
        return e if e is not None else Rat({((k, 1),): Fraction(1)})

    def _rat(self, t):
        s = self.f.subst.get(t)
        if s is not None:
            return self.rat(s)
        k, a = t.kind, t.args
        if k == "c":
            v = cval(t)
            if isinstance(v, (bool, int)):
                return rconst(int(v))
            if isinstance(v, float) and math.isfinite(v):
                return rconst(v)
            if isinstance(v, str):
                return rconst(text_number(v))
            return self.atom(("c", repr(v)))
        if k == "op":
            op = a[0]
            if op in ("+", "-", "*", "/"):
                x, y = self.rat(a[1]), self.rat(a[2])
                if op == "+":
                    return x + y
                if op == "-":
                    return x - y
                if op == "*":
                    return x * y
                if not y.zero:
                    return x / y
                return self.atom(("div0", x.key()))
            if op == "neg":
                return -self.rat(a[1])
            if op == "pos":
                return self.rat(a[1])
            if op == "**" and a[2].kind == "c" and isinstance(cval(a[2]), int) and 0 <= cval(a[2]) <= 4:
                r = rconst(1)
                for _ in range(cval(a[2])):
                    r = r * self.rat(a[1])
                return r
            if op == "**":
                return self.atom(("**", self.rat(a[1]).key(), self.rat(a[2]).key()))
            if op in ("not", "and", "or") or op in SIGNS:
                d = self.decide(t)
                if d is not None:
                    return rconst(int(d))
                return self.atom(self.ckey(t))
        if k in ("isnan", "isinf", "close"):
            d = self.decide(t)
            if d is not None:
                return rconst(int(d))
            return self.atom(self.ckey(t))
        if k == "ite":
            d = self.decide(a[0])
            if d is True:
                return self.rat(a[1])
            if d is False:
                return self.rat(a[2])
            x, y = self.rat(a[1]), self.rat(a[2])
            if (x - y).zero:
                return x
            z = self.rounding(a[0], x, y)
            if z is not None:
                return z
            return self.atom(("ite", self.ckey(a[0]), x.key(), y.key()))
        return self.atom(self.key(t))

    def rounding(self, c, x, y):
        """ite(close(v, 0), 0, v) is v up to rounding."""
        neg = False
        if c.kind == "op" and c.args[0] == "not":
            c, neg = c.args[1], True
            x, y = y, x
        if c.kind == "op" and c.args[0] in ("==", "!="):
            if c.args[0] == "!=":
                x, y = y, x
            d = self.rat(c.args[1]) - self.rat(c.args[2])
            if x.const() == 0 and ((d - y).zero or (d + y).zero):
                return y
        return None

    def atoms_of(self, c):
        if c.kind == "op" and c.args[0] in ("not", "and", "or"):
            out = []
            for x in c.args[1:]:
                if self.decide(x) is None:
                    out += self.atoms_of(x)
            return out
        if c.kind == "ite":
            d = self.decide(c.args[0])
            if d is None:
                return self.atoms_of(c.args[0])
            return self.atoms_of(c.args[1] if d else c.args[2])
        s = self.f.subst.get(c)
        if s is not None:
            return self.atoms_of(s)
        return [c]

    def undecided(self, t, seen=None):
        """First undecided condition a value depends on (outermost first), not looking inside conditions."""
        seen = set() if seen is None else seen
        if not isinstance(t, T):
            if isinstance(t, (tuple, frozenset)):
                for x in t:
                    r = self.undecided(x, seen)
                    if r is not None:
                        return r
            return None
        if t in seen:
            return None
        seen.add(t)
        t = self.resolve(t)
        if t.kind == "op" and (t.args[0] in ("not", "and", "or") or t.args[0] in SIGNS) or t.kind in ("isnan", "isinf", "close"):
            if self.decide(t) is not None:
                return None
            a = self.atoms_of(t)
            return a[0] if a else None
        if t.kind == "ite":
            x, y = self.rat(t.args[1]), self.rat(t.args[2])
            if (x - y).zero:
                return self.undecided(t.args[1], seen)
            if self.rounding(t.args[0], x, y) is not None:
                return self.undecided(t.args[1], seen) or self.undecided(t.args[2], seen)
            a = self.atoms_of(t.args[0])
            return a[0] if a else None
        for x in t.args:
            r = self.undecided(x, seen)
            if r is not None:
                return r
        return None

    def inner(self, c, depth=0):
        """The condition to decide first so that the operands of c are free of gates."""
        if depth > 60:
            return c
        for x in c.args:
            r = self.undecided(x) if isinstance(x, (T, tuple)) else None
            if r is not None and r is not c:
                return self.inner(r, depth + 1)
        return c

    # ---- structure ----
    def key(self, t):
        if not isinstance(t, T):
            if isinstance(t, tuple):
                return tuple(self.key(x) for x in t)
            return t if isinstance(t, (str, int, float, bool, type(None))) else repr(t)
        r = self.kmemo.get(t)
        if r is None:
            r = self._key(t)
            self.kmemo[t] = r
        return r

    def _key(self, t):
        s = self.f.subst.get(t)
        if s is not None:
            return self.key(s)
        k, a = t.kind, t.args
        if k == "c" and not isinstance(cval(t), (int, float, bool, str)):
            return ("c", repr(cval(t)))
        if k in ("c",) or (k == "op" and a[0] in ("+", "-", "*", "/", "neg", "pos", "**")) or k == "ite":
            r = self.rat(t)
            if len(r.n) == 1 and r.d == ONE:
                (m, c), = r.n.items()
                if c == 1 and len(m) == 1 and m[0][1] == 1:
                    return Ids.rev[m[0][0]]
            return ("r",) + r.key()
        if k == "op" and (a[0] in ("not", "and", "or") or a[0] in SIGNS) or k in ("cmp", "close"):
            d = self.decide(t)
            if d is not None:
                return ("r",) + rconst(int(d)).key()
            return self.ckey(t)
        if k == "g":
            e = a[0]
            return ("g", getattr(e, "qualname", None) or getattr(e, "name", str(e)))
        if k == "f":
            f = a[0]
            return ("f", self.key(f), tuple(self.key(x) for x in a[1]), tuple((n, self.key(x)) for n, x in a[2]))
        return (k,) + tuple(self.key(x) for x in a)

    def ckey(self, c):
        r = self.cmemo.get(c)
        if r is None:
            if c.kind == "op" and c.args[0] == "not":
                r = ("not", self.ckey(c.args[1]))
            elif c.kind == "op" and c.args[0] in ("and", "or"):
                r = (c.args[0], frozenset(self.ckey(x) for x in c.args[1:]))
            elif c.kind == "op" and c.args[0] in SIGNS:
                r = self.relkey(c)
            elif c.kind == "close":
                d = self.rat(c.args[0]) - self.rat(c.args[1])
                dk, dn = d.key(), (-d).key()
                r = ("close",) + (dk if repr(sorted(dk[0], key=repr)) <= repr(sorted(dn[0], key=repr)) else dn)
            elif c.kind == "op" and c.args[0] in ("is", "is not"):
                r = ("is", self.key(c.args[1]), self.key(c.args[2]))
                if c.args[0] == "is not":
                    r = ("not", r)
            else:
                r = ("b", self.key(c) if c.kind not in ("ite",) else ("ite",) + tuple(self.ckey(x) for x in c.args))
            self.cmemo[c] = r
        return r

    def relkey(self, c):
        lk, iv = self.rel(c.args[0], c)
        if lk is None:
            return ("r",) + rconst(int(iv)).key()
        op = c.args[0]
        integer = int_form(lk)
        iv = iv.tight(integer)
        if iv.empty:
            return ("r",) + rconst(0).key()
        if integer and iv.ex and any(x.denominator != 1 for x in iv.ex):
            return ("r",) + rconst(1).key()
        # one of a condition and its negation is the canonical one
        if iv.hi is not None and iv.lo is None:
            n = Iv(lo=iv.hi, los=not iv.his).tight(integer)
            return ("not", ("rel", lk) + n.key())
        if iv.ex:
            (x,) = iv.ex
            return ("not", ("rel", lk) + interval("==", x).key())
        return ("rel", lk) + iv.key()

    def rel(self, op, c):
        """(linear form, interval) of a comparison; (None, truth) when it is constant."""
        d = self.rat(c.args[1]) - self.rat(c.args[2])
        p = pmul(d.n, d.d) if d.d != ONE else d.n
        l = linear(p)
        if l is None:
            v = p.get((), 0)
            return None, ((v > 0) - (v < 0)) in SIGNS[op]
        lk, lead, const = l
        return lk, interval(op if lead > 0 else FLIP[op], -const / lead)

    def is_zero(self, d):
        """Known to be zero from an assumed equality."""
        l = linear(d.n)
        if l is None:
            return not d.n
        iv = self.f.signs.get(l[0])
        return iv is not None and iv.point is not None and iv.point == -l[2] / l[1]

    def decide(self, c):
        if c.kind == "c":
            v = cval(c)
            return bool(v) if isinstance(v, (bool, int, float)) or v is None or isinstance(v, str) else None
        s = self.f.subst.get(c)
        if s is not None:
            return self.decide(s)
        if c.kind == "op":
            op = c.args[0]
            if op == "not":
                d = self.decide(c.args[1])
                return None if d is None else not d
            if op in ("and", "or"):
                stop = op == "or"
                unk = False
                for x in c.args[1:]:
                    d = self.decide(x)
                    if d is stop:
                        return stop
                    unk |= d is None
                return None if unk else not stop
            if op in SIGNS:
                ka, kb = self.special(c.args[1]), self.special(c.args[2])
                if ka or kb:
                    r = self.cmp_special(op, ka, kb, c)
                    if r is not None:
                        return r
                d = self.rat(c.args[1]) - self.rat(c.args[2])
                v = d.const()
                if v is not None and not (ka or kb):
                    return ((v > 0) - (v < 0)) in SIGNS[op]
                lk, iv = self.rel(op, c)
                if lk is None:
                    return iv
                integer = int_form(lk)
                iv = iv.tight(integer)
                if iv.empty:
                    return False
                if integer and iv.ex and any(x.denominator != 1 for x in iv.ex):
                    return True
                have = self.f.signs.get(lk)
                if have is None and integer and len(lk) == 1:
                    # counters and lengths are never negative
                    (m, v), = lk
                    k = Ids.rev[m[0][0]] if len(m) == 1 else ("",)
                    if k[0] == "i" or k[0] == "f":
                        have = Iv(lo=Fraction(0))
                elif have is not None and integer and len(lk) == 1:
                    (m, v), = lk
                    k = Ids.rev[m[0][0]] if len(m) == 1 else ("",)
                    if k[0] == "i" and k[1][0] == "a" and k[1][-1] == "shape" and v > 0:
                        have = have.meet(Iv(lo=Fraction(0))).tight(True)
                if have is not None:
                    if have.implies(iv):
                        return True
                    if have.meet(iv).tight(integer).empty:
                        return False
                return None
            if op in ("is", "is not"):
                a, b = self.key(c.args[1]), self.key(c.args[2])
                if a == b:
                    return op == "is"
                if a[0] in ("c", "r") and b[0] in ("c", "r"):
                    return op != "is"
                k = ("is", a, b)
                v = self.f.bools.get(k)
                if v is None and c.args[2] is NONE and self.f.bools.get(("b", a)) is True:
                    v = False           # true values are not None
                return v if v is None else (v == (op == "is"))
            if op in ("in", "not in") and c.args[2].kind in ("tup", "lst", "set"):
                d = self.decide(OR(*[T("op", "==", c.args[1], x) for x in c.args[2].args]))
                return d if d is None or op == "in" else not d
        if c.kind == "ite":
            d = self.decide(c.args[0])
            if d is not None:
                return self.decide(c.args[1] if d else c.args[2])
            x, y = self.decide(c.args[1]), self.decide(c.args[2])
            return x if x is not None and x == y else None
        if c.kind == "close":
            d = self.rat(c.args[0]) - self.rat(c.args[1])
            if d.zero:
                return True
            v = d.const()
            if v is not None:
                return abs(v) < Fraction(1, 10 ** 9)
            return self.f.bools.get(self.ckey(c))
        if c.kind == "isnan":
            x = self.resolve(c.args[0])
            if self.special(x) == "nan":
                return True
            if self.special(x) or self.rat(x).const() is not None:
                return False
            return self.f.bools.get(self.ckey(c))
        if c.kind == "isinf":
            x = self.resolve(c.args[0])
            sp = self.special(x)
            if sp in ("inf", "-inf"):
                return True
            if sp == "nan" or self.rat(x).const() is not None:
                return False
            return self.f.bools.get(self.ckey(c))
        k = self.ckey(c)
        v = self.f.bools.get(k)
        if v is None and k[0] == "b" and self.f.bools.get(("is", k[1], self.key(NONE))) is True:
            return False                # None is false
        return v

    def resolve(self, t):
        """Follow decided gates."""
        while True:
            s = self.f.subst.get(t)
            if s is not None:
                t = s
            elif t.kind == "ite":
                d = self.decide(t.args[0])
                if d is None:
                    return t
                t = t.args[1] if d else t.args[2]
            elif t.kind == "op" and t.args[0] == "neg" and t.args[1].kind == "g":
                return t
            else:
                return t

    def special(self, t):
        t = self.resolve(t)
        neg = False
        if t.kind == "op" and t.args[0] == "neg":
            t, neg = self.resolve(t.args[1]), True
        if t.kind == "g" and isinstance(t.args[0], Ext):
            n = t.args[0].name
            if n in ("numpy.nan", "math.nan"):
                return "nan"
            if n in ("numpy.inf", "math.inf"):
                return "-inf" if neg else "inf"
        return None

    def cmp_special(self, op, a, b, c):
        if a == "nan" or b == "nan":
            return op == "!="
        if a and b:
            v = {"inf": 1, "-inf": -1}
            return ((v[a] > v[b]) - (v[a] < v[b])) in SIGNS[op]
        if a and self.rat(c.args[2]).const() is not None:
            return (1 if a == "inf" else -1) in SIGNS[op]
        if b and self.rat(c.args[1]).const() is not None:
            return (-1 if b == "inf" else 1) in SIGNS[op]
        return None

    # ---- assuming ----
    def assume(self, c, truth):
        """Facts with the atomic condition c having the given truth; None when contradictory."""
        g = self.assume1(c, truth)
        if g is None:
            return None
        if g is self.f:
            return g
        g.conds = self.f.conds + ((c, truth),)
        if g.subst is not self.f.subst or g.elim is not self.f.elim:
            # atoms may read differently now: carry the earlier conditions over
            for x, t in self.f.conds:
                own = {y: v for y, v in g.subst.items() if y is x.args[-1] or y in x.args}
                w = Facts(g.bools, g.signs, {y: v for y, v in g.subst.items() if y not in own}, g.trail, g.elim) if own else g
                cn = Canon(w)
                d = cn.decide(x)
                if d is None:
                    h = cn.assume1(x, t)
                    if h is None:
                        return None
                    h.trail, h.conds, h.subst = g.trail, g.conds, {**h.subst, **own}
                    g = h
                elif d != t:
                    return None
        return g

    def assume1(self, c, truth):
        f = self.f
        tr = f.trail + ((show(c) if truth else "not " + show(c)),)
        if c.kind == "op" and c.args[0] in SIGNS:
            lk, iv = self.rel(c.args[0] if truth else NEGOP[c.args[0]], c)
            if lk is None:
                return f if iv else None
            have = f.signs.get(lk)
            if have is not None:
                iv = have.meet(iv)
            iv = iv.tight(int_form(lk))
            if iv.empty:
                return None
            subst = f.subst
            if iv.point is not None:
                for x, y in ((c.args[1], c.args[2]), (c.args[2], c.args[1])):
                    if self.rat(y).const() is not None and x.kind not in ("c", "op", "ite") and x not in subst:
                        r = self.rat(x)
                        l = linear(r.n) if r.d == ONE else None
                        if l is not None and l[0] == lk:
                            v = (iv.point * l[1] + l[2])
                            subst = {**subst, x: C(int(v)) if v.denominator == 1 else C(float(v))}
                            break
            g = Facts(f.bools, {**f.signs, lk: iv}, subst, tr, f.elim)
            return g if iv.point is None else eliminate(g, lk, iv.point)
        k = self.ckey(c)
        neg = False
        while k[0] == "not":
            k, neg = k[1], not neg
        v = truth != neg
        if f.bools.get(k, v) != v:
            return None
        subst = f.subst
        b = c
        while b.kind == "op" and b.args[0] == "not":
            b = b.args[1]
        if b.kind == "p" and b.args[0] in BOOL_NAMES or b.kind == "a" and b.args[1] in BOOL_NAMES or b.kind in ("lv", "after") and b.args in BOOL_LV:
            subst = {**subst, b: C(v)}
        if c.kind == "op" and c.args[0] in ("is", "is not") and truth == (c.args[0] == "is") and (c.args[1] is NONE) != (c.args[2] is NONE):
            b = c.args[1] if c.args[2] is NONE else c.args[2]
            if b.kind in ("p", "a", "i", "f", "lv", "after"):
                subst = {**subst, b: NONE}
        return Facts({**f.bools, k: v}, f.signs, subst, tr, f.elim)


def psubst(p, x, r):
    """Polynomial p with atom x replaced by the rational r."""
    out, rest = Rat({}), {}
    for m, c in p.items():
        e = dict(m).get(x, 0)
        if not e:
            rest[m] = c
            continue
        t = Rat({tuple(y for y in m if y[0] != x): c})
        for _ in range(e):
            t = t * r
        out = out + t
    return out + Rat(rest) if rest else out


def eliminate(f, lk, point):
    """Use the equation (form lk) = point to remove an atom; None when that contradicts the facts."""
    p = dict(lk)
    p[()] = -point
    for m, c in sorted(p.items(), key=lambda x: repr(x[0]), reverse=True):
        if len(m) == 1 and m[0][1] == 1 and all(m[0][0] not in dict(o) for o in p if o != m):
            x = m[0][0]
            r = Rat({o: -d / c for o, d in p.items() if o != m and d})
            break
    else:
        return f
    try:
        elim = {k: psubst(v.n, x, r) / psubst(v.d, x, r) for k, v in f.elim.items()}
        elim[x] = r
        signs = {}
        for q, iv in f.signs.items():
            if q == lk:
                continue
            if any(x in dict(m) for m, _ in q):
                n = psubst(dict(q), x, r)
                if n.d != ONE and {iv.lo, iv.hi} | iv.ex > {None, 0}:
                    continue
                n = pmul(n.n, n.d) if n.d != ONE else n.n
                l = linear(n)
                if l is None:
                    v = n.get((), Fraction(0))
                    if iv.meet(interval("==", v)).empty or iv.excludes(v):
                        return None
                    continue
                q, lead, const = l
                iv = scale(iv, lead, const)
            if q in signs:
                iv = signs[q].meet(iv)
            iv = iv.tight(int_form(q))
            if iv.empty:
                return None
            signs[q] = iv
        return Facts(f.bools, signs, f.subst, f.trail, elim)
    except ZeroDivisionError:
        return None


def scale(iv, lead, const):
    """The interval of L when lead * L + const lies in iv."""
    g = lambda v: None if v is None else (v - const) / lead
    ex = frozenset(g(v) for v in iv.ex)
    if lead > 0:
        return Iv(g(iv.lo), iv.los, g(iv.hi), iv.his, ex)
    return Iv(g(iv.hi), iv.his, g(iv.lo), iv.los, ex)


class Result:
    def __init__(self, ok, facts=None, why=None, diff=None):
        self.ok, self.facts, self.why, self.diff = ok, facts, why, diff

    def __bool__(self):
        return self.ok is True


SECONDS = 15     # one comparison gives up (no answer) after this long


def equal(a, b, facts=None, limit=4000, hyp=()):
    """Result(True) | Result(False, case) | Result(None, why) -- equality of two gated terms.

    hyp: conditions assumed to hold (cases in which one is decided false are skipped).
    First pass: values inside conditions are left opaque (enough to prove equality).  Second pass, when the first finds
    a difference: conditions are decided innermost first, so that a difference is tied to a path of the program."""
    if a is b:
        return Result(True, why="identical")
    r = split(a, b, facts, min(limit, 1500), hyp, False)
    if r.ok is True:
        return r
    return split(a, b, facts, limit, hyp, True)


def split(a, b, facts, limit, hyp, precise):
    work = [facts or Facts()]
    n = 0
    end = time.monotonic() + SECONDS
    while work:
        f = work.pop()
        n += 1
        if n > limit or time.monotonic() > end:
            return Result(None, f, "too many cases")
        cn = Canon(f)
        try:
            ds = [cn.decide(h) for h in hyp]
            if False in ds:
                continue
            bad = differs(cn, a, b)
            if bad is None:
                continue
            c = cn.undecided(T("tup", *bad))
            if c is None:
                for h, d in zip(hyp, ds):
                    if d is None:
                        at = cn.atoms_of(h)
                        if at:
                            c = at[0]
                            break
            if c is None:
                return Result(False, f, None, bad)
            if precise:
                c = cn.inner(c)
            for truth in (False, True):
                g = cn.assume(c, truth)
                if g is not None:
                    work.append(g)
        except TooBig:
            return Result(None, f, "expression too large")
        except RecursionError:
            return Result(None, f, "recursion")
    return Result(True, why=f"{n} cases")


def last_operand(cn, t):
    """The value of `x or y` with x known to be false, of `x and y` with x known to be true."""
    if t.kind == "op" and t.args[0] in ("and", "or") and len(t.args) > 2:
        if all(cn.decide(x) is (t.args[0] == "and") for x in t.args[1:-1]):
            return t.args[-1]
    return None


def differs(cn, a, b):
    """None when equal under cn, else a pair that differs."""
    a, b = cn.resolve(a), cn.resolve(b)
    if a is b:
        return None
    if a is last_operand(cn, b) or b is last_operand(cn, a):
        return None
    if a.kind == "tup" and b.kind == "tup" and len(a.args) == len(b.args):
        for x, y in zip(a.args, b.args):
            d = differs(cn, x, y)
            if d is not None:
                return d
        return None
    if a.kind == "nt" and b.kind == "nt":
        da, db = dict(a.args[1:]), dict(b.args[1:])
        for n in sorted(set(da) | set(db)):
            if n not in da or n not in db:
                return (a, b)
            d = differs(cn, da[n], db[n])
            if d is not None:
                return d
        return None
    if (a.kind == "ite" or b.kind == "ite") and any(x.kind in ("tup", "nt") for t in (a, b) for x in ((t,) if t.kind != "ite" else t.args[1:])):
        return (a, b)
    d = cn.rat(a) - cn.rat(b)
    if d.zero or cn.is_zero(d):
        return None
    return (a, b)


# ---------------------------------------------------------------------------------------------------------------
# evaluation

MATH = {"is_close_nb", "is_close_or_less_nb", "is_less_nb", "is_addition_zero_nb", "add_nb"}


def set_ints(prog):
    """Names of parameters and record fields that are annotated as integers wherever they are annotated."""
    if getattr(prog, "_ints_done", False):
        return
    prog._ints_done = True
    kinds = {}

    def see(name, ann):
        if ann is not None:
            if isinstance(ann, ast.Subscript) and ast.unparse(ann.value).endswith("Optional"):
                ann = ann.slice
            kinds.setdefault(name, set()).add(ann.id if isinstance(ann, ast.Name) else "?")
    for m in prog.modules.values():
        if m.name.split(".")[-1] not in ("nb", "enums"):
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.arg):
                see(n.arg, n.annotation)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                see(n.target.id, n.annotation)
    INT_NAMES.clear()
    INT_NAMES.update(n for n, k in kinds.items() if k == {"int"})
    BOOL_NAMES.clear()
    BOOL_NAMES.update(n for n, k in kinds.items() if k == {"bool"})


AXIS_SECOND = {"sum", "mean", "cumsum", "cumprod", "prod", "any", "all", "max", "min", "argmax", "argmin", "argsort", "nanmean", "nansum", "nanmax", "nanmin"}


class GFlow(TermFlow):
    MAX_DEPTH = 10

    def __init__(self, prog, inline=None, call_hook=None, opaque=()):
        self.attempts = {}
        super().__init__(prog, inline=inline or self.default_inline, call_hook=call_hook)
        self.opaque = set(opaque)
        set_ints(prog)
        self.enum_cache = {}
        self.tree = []

    def default_inline(self, callee, rec, depth):
        return callee.cls is None and callee.name not in self.opaque and callee.name not in MATH

    # ---- facts (st.aux: tuple of conditions known to hold) ----
    def facts_of(self, st):
        return st.aux or ()

    def with_fact(self, st, c):
        if c is TRUE:
            return st
        st.aux = (st.aux or ()) + tuple(x for x in (c.args[1:] if c.kind == "op" and c.args[0] == "and" else (c,)) if x not in (st.aux or ()))
        return st

    def known(self, c, st):
        """Cheap syntactic decision from the path facts."""
        t = self.truth(c)
        if t is not None:
            return t
        fs = self.facts_of(st)
        if c in fs:
            return True
        if NOT(c) in fs:
            return False
        if c.kind == "op" and c.args[0] == "not":
            k = self.known(c.args[1], st)
            return None if k is None else not k
        if c.kind == "op" and c.args[0] in ("and", "or"):
            ks = [self.known(x, st) for x in c.args[1:]]
            stop = c.args[0] == "or"
            if stop in ks:
                return stop
            if None not in ks:
                return not stop
        return None

    def s_If(self, s, st, fr):
        c = self.boolean(self.expr(s.test, st, fr))
        if st.dead:
            return None
        k = self.known(c, st)
        if k is True:
            return self.block(s.body, st, fr)
        if k is False:
            return self.block(s.orelse, st, fr)
        base = self.facts_of(st)
        saved = self.tree
        self.tree = []
        a = self.block(s.body, self.with_fact(st.copy(), c), fr)
        ta, self.tree = self.tree, []
        b = self.block(s.orelse, self.with_fact(st.copy(), NOT(c)), fr)
        tb, self.tree = self.tree, saved
        if ta or tb:
            self.tree.append(("if", c, ta, tb))
        return self.gjoin(c, a, b, base)

    def s_Try(self, s, st, fr):
        base = self.facts_of(st)
        pre = st.copy()
        saved, self.tree = self.tree, []
        body = self.block(s.body, st, fr)
        single = len(s.body) == 1 and isinstance(s.body[0], (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.Return, ast.Expr, ast.Import, ast.ImportFrom))
        mid = pre.copy() if single else self.join(pre.copy(), body.copy() if body is not None else None)
        if mid is None:
            mid = pre.copy()
        mid.aux, mid.dead = pre.aux, False
        if body is not None and s.orelse:
            body = self.block(s.orelse, body, fr)
        tree, res = self.tree, body
        for h in reversed(s.handlers):
            c = self.failed(h)
            self.tree = []
            hs = self.with_fact(mid.copy(), c)
            if h.name:
                self.bind(ast.Name(id=h.name, ctx=ast.Store()), self.exc_value(h), hs, fr, h)
            hs = self.block(h.body, hs, fr)
            if tree or self.tree:
                tree = [("if", c, self.tree, tree)]
            res = self.gjoin(c, hs, res, base) if hs is not None or res is not None else None
        self.tree = saved + tree
        if s.finalbody:
            f = self.block(s.finalbody, res if res is not None else mid, fr)
            res = f if res is not None else None
        return res

    def s_Global(self, s, st, fr):
        for n in s.names:
            st.vars.setdefault(n, self.expr(ast.Name(id=n, ctx=ast.Load()), st, fr))
        return st

    def failed(self, h):
        """The condition under which this handler runs: the nth attempt guarded against these exceptions."""
        types = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type] if h.type is not None else []
        names = ",".join(sorted(ast.unparse(t) for t in types))
        n = self.attempts[names] = self.attempts.get(names, -1) + 1
        return T("exc", names, n)

    # ---- exits: a tree of the ways out of a block, in program order ----
    def s_Return(self, s, st, fr):
        n = len(fr.returns)
        r = super().s_Return(s, st, fr)
        if len(fr.returns) > n:
            self.tree.append(("ret", n))
        return r

    def s_Raise(self, s, st, fr):
        self.tree.append(("raise",))
        return super().s_Raise(s, st, fr)

    def s_Break(self, s, st, fr):
        if fr.loops:
            self.tree.append(("brk", len(fr.loops[-1][0])))
        return super().s_Break(s, st, fr)

    def s_Continue(self, s, st, fr):
        if fr.loops:
            self.tree.append(("cont", len(fr.loops[-1][1])))
        return super().s_Continue(s, st, fr)

    def build(self, tree, leaf, hole):
        """Gated value over the exits of a block: leaf(kind, index) at exits, `hole` where it falls through."""
        out = hole
        for nd in reversed(tree):
            if nd[0] == "if":
                out = ITE(nd[1], self.build(nd[2], leaf, out), self.build(nd[3], leaf, out))
            else:
                out = leaf(*nd)
        return out

    def run(self, fi, st):
        saved = self.tree
        self.tree = []
        fr = super().run(fi, st)
        fr.tree, self.tree = self.tree, saved
        if isinstance(fi.node, ast.Lambda) or getattr(fr, "end", None) is not None:
            fr.tree.append(("ret", len(fr.returns) - 1))
        return fr

    def out_value(self, fr, get, raised=RAISE):
        return self.build(fr.tree, lambda k, i=None: get(fr.returns[i]) if k == "ret" else raised, UNK)

    def boolean(self, t):
        return t

    def gjoin(self, c, a, b, base):
        if a is None or a.dead:
            return b
        if b is None or b.dead:
            return a
        out = State()
        for k in a.vars.keys() | b.vars.keys():
            x, y = a.vars.get(k), b.vars.get(k)
            out.vars[k] = y if x is None else x if y is None else ITE(c, x, y)
        for k in a.heap.keys() | b.heap.keys():
            out.heap[k] = ITE(c, self.heap_get(a, k), self.heap_get(b, k))
        fa, fb = a.aux or (), b.aux or ()
        common = tuple(x for x in fa if x in fb)
        ea = AND(*[x for x in fa if x not in common])
        eb = AND(*[x for x in fb if x not in common])
        out.aux = common
        if ea is not TRUE and eb is not TRUE and NOT(ea) is not eb:
            out.aux = common + (OR(ea, eb),)
        return out

    def heap_get(self, st, k):
        if k in st.heap:
            return st.heap[k]
        # value before the write: read through the base
        return k

    # generic joins (loops, try): fall back to an opaque merge
    def join(self, a, b):
        if a is None or b is None:
            return super().join(a, b)
        return super().join(a, b)

    def missing_heap(self, k, v):
        return v if v is k else T("phi", frozenset([k, v]))

    # ---- returns ----
    def value(self, fi, args=None, facts=()):
        """Gated return value of a function over its parameters (RAISE where it raises)."""
        st = self.init_state(fi, args)
        st.aux = tuple(facts)
        self.stack.append(fi)
        fr = self.run(fi, st)
        self.stack.pop()
        self.last_frame = fr
        return self.out_value(fr, lambda r: r[0])

    def final_heap(self, fr):
        """Gated heap at exit."""
        keys = set()
        for _, _, s in fr.returns:
            keys |= set(s.heap)
        return {k: self.out_value(fr, lambda r: self.heap_get(r[2], k), raised=k) for k in keys}

    def do_inline(self, rec, st, fr):
        c = rec.callee
        args = {}
        b = rec.binding or {}
        skip = self.skips_self(rec.func, c) if rec.func.kind != "clo" else False
        for idx, p in enumerate(c.params):
            if p.kind in ("var", "kw"):
                key = ("*" if p.kind == "var" else "**") + p.name
                args[p.name] = b.get(key, T("tup") if p.kind == "var" else T("dict", ()))
            elif skip and idx == 0:
                args[p.name] = rec.func.args[0] if rec.func.kind == "a" else P(p.name)
            elif p.name in b:
                args[p.name] = b[p.name]
            else:
                args[p.name] = self.default_term(p, c)
        s = State(heap=dict(st.heap), aux=st.aux)
        if rec.func.kind == "clo":
            s.vars.update(self.closures[rec.func].state.vars)
            if c.outer is fr.fi:
                s.vars.update(st.vars)
        s.vars.update(args)
        self.stack.append(c)
        ifr = self.run(c, s)
        self.stack.pop()
        if not ifr.returns:
            self.tree.append(("raise",))
            st.dead = True
            return UNK
        if self.raises_in(ifr.tree):
            self.tree.extend(self.as_raises(ifr.tree))
        st.heap = self.final_heap(ifr)
        # facts common to every way out (raising paths are excluded)
        outs = [x.aux or () for _, _, x in ifr.returns]
        st.aux = outs[0] if len(outs) == 1 else tuple(x for x in outs[0] if all(x in o for o in outs[1:]))
        self.on_inlined(rec, ifr, st, fr)
        return self.out_value(ifr, lambda r: r[0])

    def raises_in(self, tree):
        return any(n[0] == "raise" or n[0] == "if" and (self.raises_in(n[2]) or self.raises_in(n[3])) for n in tree)

    def as_raises(self, tree):
        """The exits of an inlined call seen from the caller: raise or go on."""
        bad = self.build(tree, lambda k, i=None: TRUE if k == "raise" else FALSE, FALSE)
        return [("if", bad, [("raise",)], [])]

    # ---- loops: one generic iteration ----
    def assigned(self, body):
        names, bases = set(), set()
        for s in body:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                    names.add(n.id)
                elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                    bases.add(n)
        return names

    def s_For(self, s, st, fr):
        it = self.expr(s.iter, st, fr)
        if st.dead:
            return None
        lid = s.lineno
        names = self.assigned(s.body) | self.assigned([ast.Assign(targets=[s.target], value=ast.Constant(0))])
        return self.generic_loop(s, st, fr, names, lid, lambda e: self.bind(s.target, self.iter_value(s, it, e, fr), e, fr, s), None)

    def iter_value(self, s, it, st, fr):
        nm = s.target.id if isinstance(s.target, ast.Name) else "it"
        return T("it", nm, it)

    def s_While(self, s, st, fr):
        names = self.assigned(s.body)
        return self.generic_loop(s, st, fr, names, s.lineno, None, s.test)

    def generic_loop(self, s, st, fr, names, lid, binder, test):
        self.enter_loop(s, st, fr)
        pre = st.copy()
        head = st.copy()
        for n in names:
            if n in head.vars:
                head.vars[n] = T("lv", n, lid)
        head.heap = {}
        e = head.copy()
        if binder:
            binder(e)
        if test is not None:
            c = self.expr(test, e, fr)
            self.with_fact(e, c)
        breaks, conts = [], []
        fr.loops.append((breaks, conts))
        saved, self.tree = self.tree, []
        nret = len(fr.returns)
        self.block(s.body, e, fr)
        self.tree = saved
        for k in range(nret, len(fr.returns)):
            self.tree.append(("if", T("loopexit", lid, k), [("ret", k)], []))
        fr.loops.pop()
        res = pre
        for n in names:
            res.vars[n] = T("after", n, lid)
        res.heap = {}
        return res

    # ---- values ----
    def join_val(self, a, b):
        return T("phi", frozenset([a, b])) if a is not b else a

    def attr(self, b, name, st, fr):
        if b.kind == "ite":
            return ITE(b.args[0], self.attr(b.args[1], name, st, fr), self.attr(b.args[2], name, st, fr))
        if b.kind == "nt":
            d = dict(b.args[1:])
            if name in d:
                return d[name]
        if b is RAISE:
            return RAISE
        if b.kind == "g" and isinstance(b.args[0], Assign):
            e = self.enum_of(b.args[0])
            if e is not None and name in e:
                return C(e[name])
        return super().attr(b, name, st, fr)

    def enum_of(self, assign):
        k = id(assign)
        if k not in self.enum_cache:
            r = None
            v = assign.value
            if isinstance(v, ast.Call) and not v.args and not v.keywords:
                c = assign.module.program.resolve(v.func, assign.module)
                if isinstance(c, ClassInfo) and c.is_namedtuple:
                    r = {}
                    for n, d in c.attrs.items():
                        try:
                            r[n] = ast.literal_eval(d)
                        except Exception:
                            pass
            self.enum_cache[k] = r
        return self.enum_cache[k]

    def item(self, b, i, n=None):
        if b.kind == "ite":
            return ITE(b.args[0], self.item(b.args[1], i, n), self.item(b.args[2], i, n))
        if b is RAISE:
            return RAISE
        return super().item(b, i, n)

    def e_Subscript(self, n, st, fr):
        b = self.expr(n.value, st, fr)
        i = self.expr(n.slice, st, fr)
        return self.load(b, i, st)

    def load(self, b, i, st):
        if b.kind == "ite":
            return ITE(b.args[0], self.load(b.args[1], i, st), self.load(b.args[2], i, st))
        k = T("i", b, i)
        if k in st.heap:
            return st.heap[k]
        return self.item(b, i)

    def e_BoolOp(self, n, st, fr):
        isand = isinstance(n.op, ast.And)
        vals = []
        cur = st.copy()
        for v in n.values:
            x = self.expr(v, cur, fr)
            vals.append(x)
            t = self.known(x, cur)
            if t is not None and t != isand:
                break
            cur = self.with_fact(cur, x if isand else NOT(x))
        return AND(*vals) if isand else OR(*vals)

    def e_IfExp(self, n, st, fr):
        c = self.boolean(self.expr(n.test, st, fr))
        k = self.known(c, st)
        if k is True:
            return self.expr(n.body, st, fr)
        if k is False:
            return self.expr(n.orelse, st, fr)
        saved, self.tree = self.tree, []
        a = self.expr(n.body, self.with_fact(st.copy(), c), fr)
        ta, self.tree = self.tree, []
        b = self.expr(n.orelse, self.with_fact(st.copy(), NOT(c)), fr)
        tb, self.tree = self.tree, saved
        if ta or tb:
            self.tree.append(("if", c, ta, tb))
        return ITE(c, a, b)

    def e_UnaryOp(self, n, st, fr):
        if isinstance(n.op, ast.Not):
            v = self.expr(n.operand, st, fr)
            t = self.truth(v)
            return C(not t) if t is not None else NOT(v)
        return super().e_UnaryOp(n, st, fr)

    def compare(self, op, a, b):
        r = super().compare(op, a, b)
        if r.kind == "op" and r.args[0] == "not in":
            return NOT(self.compare("in", a, b))
        if r.kind == "op" and r.args[0] == "in" and b.kind in ("tup", "lst", "set") and 0 < len(b.args) <= 8 and all(x.kind == "c" for x in b.args):
            return OR(*[self.compare("==", a, x) for x in b.args])
        if r.kind == "op" and r.args[0] in SIGNS:
            for x, y, f in ((a, b, False), (b, a, True)):
                if x.kind == "ite" and (x.args[1].kind == "c" and x.args[2].kind == "c") and y.kind == "c":
                    p = self.compare(op, x.args[1], y) if not f else self.compare(op, y, x.args[1])
                    q = self.compare(op, x.args[2], y) if not f else self.compare(op, y, x.args[2])
                    if p is TRUE and q is FALSE:
                        return x.args[0]
                    if p is FALSE and q is TRUE:
                        return NOT(x.args[0])
        return r

    def binop(self, op, a, b):
        if op in ("&", "|") and self.isbool(a) and self.isbool(b):
            return AND(a, b) if op == "&" else OR(a, b)
        if op == "^" and self.isbool(a) and self.isbool(b):
            return OR(AND(a, NOT(b)), AND(NOT(a), b))
        if a.kind == "c" and b.kind == "c":
            return super().binop(op, a, b)
        return T("op", op, a, b)

    def isbool(self, t):
        return t in (TRUE, FALSE) or t.kind in ("isnan", "isinf", "close") or \
            t.kind == "op" and (t.args[0] in SIGNS or t.args[0] in ("not", "and", "or", "is", "is not", "in", "not in"))

    # ---- calls ----
    def call(self, n, f, args, kwargs, dstar, st, fr):
        if f.kind == "ite":
            return ITE(f.args[0], self.call(n, f.args[1], args, kwargs, dstar, st.copy(), fr), self.call(n, f.args[2], args, kwargs, dstar, st.copy(), fr))
        return super().call(n, f, args, kwargs, dstar, st, fr)

    def call_result(self, rec, st, fr):
        if self.call_hook is not None:
            r = self.call_hook(self, rec, st, fr)
            if r is not None:
                return r
        c = rec.callee
        if isinstance(c, FunctionInfo) and c.name in MATH and c.module.name.endswith("math_") and not (self.stack and self.stack[0].name.split("__ref")[0] in MATH):
            names = c.param_names
            a, b = (rec.args[k] if k < len(rec.args) else rec.kwargs.get(names[k], UNK) for k in (0, 1))
            if c.name == "add_nb":
                return self.binop("+", a, b)
            if c.name == "is_close_nb":
                return self.compare("==", a, b)
            if c.name == "is_less_nb":
                return self.compare("<", a, b)
            if c.name == "is_close_or_less_nb":
                return self.compare("<=", a, b)
            if c.name == "is_addition_zero_nb":
                return self.compare("==", self.binop("+", a, b), C(0))
        if isinstance(c, ClassInfo) and c.is_namedtuple:
            names = list(c.attrs)
            if not rec.dstar and not any(x.kind == "star" for x in rec.args) and len(rec.args) <= len(names):
                d = dict(zip(names, rec.args))
                d.update(rec.kwargs)
                return T("nt", c, *[(k, d[k]) for k in names if k in d])
        r = super().call_result(rec, st, fr)
        if r.kind == "f" and isinstance(c, FunctionInfo) and r.args[0] is rec.func:
            r = self.normal_call(r, rec, c)
        return r

    def normal_call(self, r, rec, c):
        """One form for all ways of passing the same arguments: positional, in parameter order, defaults filled in."""
        if rec.binding is None or rec.pyb or c.outer is not None or any(x.kind == "star" for x in rec.args) or self.skips_self(rec.func, c):
            return r
        if rec.dstar or any(p.kind not in ("pos", "kwonly") for p in c.params):
            return self.leading(r, rec, c)
        out = []
        for p in c.params:
            if p.name in rec.binding:
                out.append(rec.binding[p.name])
            elif p.default is not None:
                out.append(self.default_term(p, c))
            else:
                return r
        return T("f", rec.func, tuple(out), ())

    def leading(self, r, rec, c):
        """With *args or **kwargs about: as many leading arguments as possible by position, the rest by name."""
        pos = [p.name for p in c.params if p.kind == "pos"]
        args, kw = list(rec.args), dict(rec.kwargs)
        while len(args) < len(pos) and pos[len(args)] in kw:
            args.append(kw.pop(pos[len(args)]))
        return T("f", rec.func, tuple(args), tuple(sorted(kw.items())) + tuple(("**", d) for d in rec.dstar))

    def ext_call(self, name, rec):
        a = rec.args
        short = name.split(".")[-1]
        if name.startswith("numpy.") and len(a) == 1 and set(rec.kwargs) == {"axis"} and short in AXIS_SECOND:
            return T("f", rec.func, (a[0], rec.kwargs["axis"]), ())
        if name in ("builtins.isinstance", "builtins.issubclass") and len(a) == 2 and a[1].kind == "tup" and a[1].args:
            return OR(*[T("f", rec.func, (a[0], x), ()) for x in a[1].args])
        if name.startswith(("numpy.", "builtins.", "math.")) and not rec.kwargs:
            if len(a) == 1:
                x = a[0]
                if short == "isnan":
                    return T("isnan", x)
                if short == "isinf":
                    return T("isinf", x)
                if short == "isfinite":
                    return AND(NOT(T("isnan", x)), NOT(T("isinf", x)))
                if short in ("abs", "absolute", "fabs"):
                    return ITE(self.compare("<", x, C(0)), T("op", "neg", x), x)
                if short == "sign":
                    return ITE(self.compare(">", x, C(0)), C(1), ITE(self.compare("<", x, C(0)), C(-1), C(0)))
                if short in ("int", "float", "bool", "int64", "float64") :
                    return x
                if short == "len" and x.kind == "g" and isinstance(x.args[0], Assign):
                    e = self.enum_of(x.args[0])
                    if e is not None:
                        return C(len(e))
                if short == "len" and x.kind == "tup":
                    return C(len(x.args))
            if len(a) == 2 and short in ("min", "minimum"):
                return ITE(self.compare("<", a[1], a[0]), a[1], a[0])
            if len(a) == 2 and short in ("max", "maximum"):
                return ITE(self.compare(">", a[1], a[0]), a[1], a[0])
        return super().ext_call(name, rec)


def spec_module(prog, name, text):
    """Parse a reference specification (never executed) as a module of the program."""
    m = Module(prog, f"vsa_spec.{name}", f"spec/{name}.py", text)
    prog.modules[m.name] = m
    m.bindings()
    return m


def case_text(f, n=6):
    t = [x for x in f.trail]
    t = [x if len(x) < 140 else x[:137] + "..." for x in t[-n:]]
    return "; ".join(t) if t else "always"
