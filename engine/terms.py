"""Hash-consed value terms of the gated value graph.

Values
  bool      : BDD  -- TRUE, FALSE or ('B', atom, hi, lo), ordered by atom id
  integer   : ('poly', ((monomial, coef), ...)) -- monomial = tuple of atoms sorted by id
  sequence  : ('cat', piece, ...) (vectors, slices, arrays, strings, byte streams)
  aggregate : ('agg', kind, field, ...), kind = ('tuple',) | ('adt', path, variant) | ...
  choice    : ('ite', atom, hi, lo) of the remaining kinds of values (ordered)
  anything else is an opaque atom; `ty` is its type (index in the type table)
"""
from fractions import Fraction
import sys
sys.setrecursionlimit(200000)

class Undecided(Exception):
    where = None
    pass

class NeedSplit(Exception):
    def __init__(self, loc):
        self.loc = loc

class T:
    __slots__ = ('op', 'a', 'id', 'ty', 'fs', 'h', '__weakref__')
    def __repr__(self):
        return show(self)
    def __lt__(self, o):
        return self.id < o.id

_tab = {}
_n = [0]

def mk(op, *a):
    k = (op, a)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.id = _n[0]
        t.ty = None
        t.fs = None
        t.h = None
        _n[0] += 1
        _tab[k] = t
    return t

def shrink():
    """forgets the memoised rewritings and the terms nothing else refers to"""
    import gc, sys
    for n in ('_imp', '_asm', '_not', '_and', '_lits', '_restr', '_mul', '_ind', '_bp', '_pcof', '_pr', '_le', '_eq', '_sub', '_dd', '_av', '_sr', '_len'):
        globals()[n].clear()
    gc.collect()
    ts = sorted(_tab.values(), key=lambda t: -t.id)
    r = sys.getrefcount
    while ts:
        # references: the table, the local variable, the argument
        part = ts[:65536]
        del ts[:65536]
        part.reverse()
        while part:
            t = part.pop()
            if r(t) <= 3:
                del _tab[(t.op, t.a)]
    t = None
    gc.collect()

TRUE = mk('true')
FALSE = mk('false')
UNDEF = mk('undef')
UNIT = mk('agg', ('tuple',))

# ---------------------------------------------------------------- free symbols
EMPTYSET = frozenset()

def syms(t):
    """the loop counters, loop variables and other symbols (op 'sym') of t"""
    if isinstance(t, T):
        if t.fs is None:
            if t.op in ('sym', 'bv', 'bvm'):
                t.fs = frozenset((t,))
            else:
                s = EMPTYSET
                for x in t.a:
                    y = syms(x)
                    if y:
                        s = s | y if s else y
                if s and t.op in ('lam', 'lam2'):
                    s = s - {mk('bv', t.a[0]), mk('bvm', t.a[0])}
                t.fs = s
        return t.fs
    if isinstance(t, tuple):
        s = EMPTYSET
        for x in t:
            if isinstance(x, (T, tuple)):
                y = syms(x)
                if y:
                    s = s | y if s else y
        return s
    return EMPTYSET

def height(t):
    """number of nested binders of t (bound variables are named by the height of their binder)"""
    if isinstance(t, T):
        if t.h is None:
            m = 0
            for x in t.a:
                if isinstance(x, (T, tuple)):
                    y = height(x)
                    if y > m:
                        m = y
            t.h = m + 1 if t.op in ('lam', 'lam2') else m
        return t.h
    if isinstance(t, tuple):
        m = 0
        for x in t:
            if isinstance(x, (T, tuple)):
                y = height(x)
                if y > m:
                    m = y
        return m
    return 0

_atoms_cache = {}
def subterms(t):
    """all the subterms (T) of t, once each"""
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, T):
            if x.id in seen:
                continue
            seen.add(x.id)
            yield x
            st.extend(x.a)
        elif isinstance(x, tuple):
            st.extend(x)

# ---------------------------------------------------------------- BDD
def B(atom, hi, lo):
    if hi is lo:
        return hi
    if _theory(atom):
        hi = assume(hi, atom, True)
        lo = assume(lo, atom, False)
        if hi is lo:
            return hi
        if assume_cached(lo, atom, True) is hi:
            return lo
        if assume_cached(hi, atom, False) is lo:
            return hi
    return mk('B', atom, hi, lo)

def lit(atom):
    return mk('B', atom, TRUE, FALSE)

def _theory(atom):
    return atom.op in ('le0', 'eq0')

_imp = {}
def implied(a, val, b):
    """truth value of the atom b when the atom a is val, or None"""
    if a is b:
        return val
    k = (a, val, b)
    r = _imp.get(k, 0)
    if r == 0:
        r = _implied(a, val, b)
        _imp[k] = r
    return r

def _split_const(p):
    c = 0
    rest = []
    for m, v in p.a[0]:
        if m == ():
            c = v
        else:
            rest.append((m, v))
    return tuple(rest), c

def _implied(a, val, b):
    if a.op not in ('le0', 'eq0') or b.op not in ('le0', 'eq0'):
        return None
    ra, ca = _split_const(a.a[0])
    rb, cb = _split_const(b.a[0])
    sg = 1
    if ra != rb:
        if tuple((m, -v) for m, v in ra) == rb:
            sg = -1
        else:
            return None
    # L = ra ; a: L + ca (<= or =) 0 ; b: sg*L + cb (<= or =) 0
    if a.op == 'eq0':
        if val:
            L = -ca
            v = sg * L + cb
            return v <= 0 if b.op == 'le0' else v == 0
        if b.op == 'eq0':
            return None
        return None
    # a is le0
    if val:
        lo, hi = None, -ca
    else:
        lo, hi = -ca + 1, None
    # range of sg*L + cb
    if sg == 1:
        l2 = None if lo is None else lo + cb
        h2 = None if hi is None else hi + cb
    else:
        l2 = None if hi is None else -hi + cb
        h2 = None if lo is None else -lo + cb
    if b.op == 'le0':
        if h2 is not None and h2 <= 0:
            return True
        if l2 is not None and l2 > 0:
            return False
        return None
    if h2 is not None and h2 < 0:
        return False
    if l2 is not None and l2 > 0:
        return False
    return None

_asm = {}
def assume_cached(f, atom, val):
    return assume(f, atom, val)

def assume(f, atom, val):
    """f simplified knowing that the atom is val"""
    if f is TRUE or f is FALSE:
        return f
    k = (f, atom, val)
    r = _asm.get(k)
    if r is None:
        a, h, l = f.a
        v = implied(atom, val, a)
        if v is True:
            r = assume(h, atom, val)
        elif v is False:
            r = assume(l, atom, val)
        else:
            h2 = assume(h, atom, val)
            l2 = assume(l, atom, val)
            r = f if (h2 is h and l2 is l) else (h2 if h2 is l2 else mk('B', a, h2, l2))
        _asm[k] = r
    return r

_not = {}
def bnot(f):
    if f is TRUE:
        return FALSE
    if f is FALSE:
        return TRUE
    r = _not.get(f)
    if r is None:
        r = mk('B', f.a[0], bnot(f.a[1]), bnot(f.a[2]))
        _not[f] = r
        _not[r] = f
    return r

_and = {}
def band(*fs):
    r = TRUE
    for f in fs:
        r = _band(r, f)
    return r

def _band(f, g):
    if f is TRUE:
        return g
    if g is TRUE:
        return f
    if f is FALSE or g is FALSE:
        return FALSE
    if f is g:
        return f
    if f.id > g.id:
        f, g = g, f
    k = (f, g)
    r = _and.get(k)
    if r is None:
        v = f.a[0] if f.a[0].id <= g.a[0].id else g.a[0]
        f1, f0 = (f.a[1], f.a[2]) if f.a[0] is v else (f, f)
        g1, g0 = (g.a[1], g.a[2]) if g.a[0] is v else (g, g)
        r = B(v, _band(f1, g1), _band(f0, g0))
        _and[k] = r
    return r

def bor(*fs):
    r = FALSE
    for f in fs:
        r = bnot(_band(bnot(r), bnot(f)))
    return r

def bite(c, f, g):
    return bor(band(c, f), band(bnot(c), g))

def biff(f, g):
    return bite(f, g, bnot(g))

def implies(f, g):
    return band(f, bnot(g)) is FALSE

def support(f, acc=None):
    acc = {} if acc is None else acc
    seen = set()
    st = [f]
    while st:
        x = st.pop()
        if x is TRUE or x is FALSE or x.id in seen:
            continue
        seen.add(x.id)
        acc[x.a[0]] = 1
        st.append(x.a[1])
        st.append(x.a[2])
    return list(acc)

_lits = {}
def literals(f):
    """the literals {atom: value} implied by the BDD f"""
    r = _lits.get(f)
    if r is None:
        if f is TRUE or f is FALSE:
            r = {}
        else:
            a, h, l = f.a
            if h is FALSE:
                r = dict(literals(l))
                r[a] = False
            elif l is FALSE:
                r = dict(literals(h))
                r[a] = True
            else:
                lh, ll = literals(h), literals(l)
                r = {}
                for x, v in lh.items():
                    if ll.get(x) is v or implied(a, False, x) is v:
                        r[x] = v
                for x, v in ll.items():
                    if x not in r and implied(a, True, x) is v:
                        r[x] = v
        _lits[f] = r
    return r

_restr = {}
def restrict(f, c):
    """a simplification of f that agrees with f where c holds (Coudert-Madre restrict)"""
    if c is TRUE or f is TRUE or f is FALSE:
        return f
    if c is FALSE:
        return f
    k = (f, c)
    r = _restr.get(k)
    if r is None:
        fa, ca = f.a[0], c.a[0]
        if ca.id < fa.id:
            if c.a[1] is FALSE:
                r = restrict(assume(f, ca, False), c.a[2])
            elif c.a[2] is FALSE:
                r = restrict(assume(f, ca, True), c.a[1])
            else:
                r = restrict(f, bor(c.a[1], c.a[2]))
        elif fa.id < ca.id:
            c1 = assume(c, fa, True)
            c0 = assume(c, fa, False)
            if c1 is FALSE:
                r = restrict(f.a[2], c0)
            elif c0 is FALSE:
                r = restrict(f.a[1], c1)
            else:
                r = B(fa, restrict(f.a[1], c1), restrict(f.a[2], c0))
        else:
            c1, c0 = c.a[1], c.a[2]
            if c1 is FALSE:
                r = restrict(f.a[2], c0)
            elif c0 is FALSE:
                r = restrict(f.a[1], c1)
            else:
                r = B(fa, restrict(f.a[1], c1), restrict(f.a[2], c0))
        if implies(c, r):
            r = TRUE
        elif implies(r, bnot(c)):
            r = FALSE
        _restr[k] = r
    return r

# ---------------------------------------------------------------- polynomials
def _norm_poly(d):
    return mk('poly', tuple(sorted(((m, v) for m, v in d.items() if v != 0), key=lambda x: (len(x[0]), tuple(y.id for y in x[0])))))

def num(c):
    return mk('poly', (((), c),)) if c != 0 else ZERO
ZERO = mk('poly', ())
ONE = mk('poly', (((), 1),))

def P(atom):
    """integer value of an atom"""
    return mk('poly', (((atom,), 1),))

def is_poly(t):
    return isinstance(t, T) and t.op == 'poly'

def const_of(p):
    if p.op != 'poly':
        return None
    if not p.a[0]:
        return 0
    if len(p.a[0]) == 1 and p.a[0][0][0] == ():
        return p.a[0][0][1]
    return None

def add(*ps):
    d = {}
    for p in ps:
        for m, v in p.a[0]:
            d[m] = d.get(m, 0) + v
    return _norm_poly(d)

def scale(p, c):
    if c == 0:
        return ZERO
    if c == 1:
        return p
    return mk('poly', tuple((m, v * c) for m, v in p.a[0]))

def neg(p):
    return scale(p, -1)

def sub(p, q):
    return add(p, neg(q))

def _mono_mul(m1, m2):
    r = list(m1) + list(m2)
    r.sort(key=lambda x: x.id)
    out = []
    for x in r:
        if x.op == 'ind' and out and out[-1] is x:
            continue
        out.append(x)
    return tuple(out)

_mul = {}
def mul(p, q):
    if p.id > q.id:
        p, q = q, p
    k = (p, q)
    r = _mul.get(k)
    if r is None:
        d = {}
        extra = []
        for m1, v1 in p.a[0]:
            for m2, v2 in q.a[0]:
                m = _mono_mul(m1, m2)
                s = _mono_subst(m)
                if s is None:
                    d[m] = d.get(m, 0) + v1 * v2
                else:
                    extra.append(scale(s, v1 * v2))
        r = _norm_poly(d)
        if extra:
            r = add(r, *extra)
        _mul[k] = r
    return r

def _mono_subst(m):
    """[x = c] * x ... -> [x = c] * c ..."""
    for i, x in enumerate(m):
        if x.op == 'ind' and x.a[0].op == 'eq0':
            pol = x.a[0].a[0]
            rest, c = _split_const(pol)
            if len(rest) == 1 and len(rest[0][0]) == 1 and rest[0][1] == 1:
                y = rest[0][0][0]
                if y in m:
                    mm = tuple(z for z in m if z is not y)
                    n = len(m) - len(mm)
                    return scale(mul(mk('poly', ((mm, 1),)), ONE), (-c) ** n)
    xs = [x for x in m if x.op == 'ind']
    if len(xs) > 1 and (len(xs) > 2 or xs[0].a[0].op == 'B' or xs[1].a[0].op == 'B'):
        c = band(*[ind_cond(x) for x in xs])
        if c is FALSE:
            return ZERO
        mm = tuple(x for x in m if x.op != 'ind')
        return mul(mk('poly', ((mm, 1),)), ind(c))
    # mutually exclusive comparisons of the same form
    inds = [x.a[0] for x in m if x.op == 'ind' and x.a[0].op in ('le0', 'eq0')]
    for i in range(len(inds)):
        for j in range(len(inds)):
            if i != j:
                v = implied(inds[i], True, inds[j])
                if v is False:
                    return ZERO
                if v is True:
                    y = mk('ind', inds[j])
                    return mk('poly', ((tuple(z for z in m if z is not y), 1),)) if True else None
    return None

_ind = {}
def ind(f):
    """0/1 value of a BDD"""
    if f is TRUE:
        return ONE
    if f is FALSE:
        return ZERO
    r = _ind.get(f)
    if r is None:
        if bdd_size(f) > 2:
            # a composed condition is one atom
            g = f
            while g.op == 'B':
                g = g.a[2]
            r = P(mk('ind', f)) if g is FALSE else sub(ONE, P(mk('ind', bnot(f))))
        else:
            a = P(mk('ind', f.a[0]))
            r = add(mul(a, ind(f.a[1])), mul(sub(ONE, a), ind(f.a[2])))
        _ind[f] = r
    return r

def bdd_size(f):
    return len(support(f))

def ind_cond(i):
    """the condition of an indicator"""
    a = i.a[0]
    return a if a.op == 'B' else lit(a)

def poly_inds(p):
    s = {}
    for m, v in p.a[0]:
        for x in m:
            if x.op == 'ind':
                s[x] = 1
    return sorted(s, key=lambda x: x.id)

_bp = {}
def bool_of_poly(p):
    """the BDD of a polynomial whose only values are 0 and 1 (None otherwise)"""
    if p in _bp:
        return _bp[p]
    r = None
    c = const_of(p)
    if c is not None:
        r = FALSE if c == 0 else TRUE if c == 1 else None
    else:
        l = poly_inds(p)
        if l and len(l) <= 24:
            i = l[0]
            h = bool_of_poly(poly_cof(p, i, True))
            if h is not None:
                g = bool_of_poly(poly_cof(p, i, False))
                if g is not None:
                    r = bite(ind_cond(i), h, g)
    _bp[p] = r
    return r

def poly_atoms(p):
    s = {}
    for m, v in p.a[0]:
        for x in m:
            s[x] = 1
    return list(s)

_pcof = {}
def poly_cof(p, i, val):
    """p with the indicator i replaced by val, comparisons implied included"""
    k = (p, i, val)
    r = _pcof.get(k)
    if r is None:
        m = {}
        big = i.a[0].op == 'B'
        if big:
            f = i.a[0] if val else bnot(i.a[0])
        for x in poly_inds(p):
            if not big and x.a[0].op != 'B':
                v = implied(i.a[0], val, x.a[0])
                if v is not None:
                    m[x] = ONE if v else ZERO
            elif not big:
                g = assume(x.a[0], i.a[0], val)
                if g is not x.a[0]:
                    m[x] = ind(g)
            else:
                g = ind_cond(x)
                if implies(f, g):
                    m[x] = ONE
                elif implies(f, bnot(g)):
                    m[x] = ZERO
        r = poly_subst(p, m)
        _pcof[k] = r
    return r

def poly_subst(p, m):
    if not m:
        return p
    d = {}
    extra = []
    for mo, v in p.a[0]:
        if any(x in m for x in mo):
            q = num(v)
            for x in mo:
                q = mul(q, m[x] if x in m else P(x))
            extra.append(q)
        else:
            d[mo] = d.get(mo, 0) + v
    r = _norm_poly(d)
    return add(r, *extra) if extra else r

# integer ranges of atoms: {atom: (lo, hi)} through a callback
INT_RANGE = {
    'u8': (0, 2**8 - 1), 'u16': (0, 2**16 - 1), 'u32': (0, 2**32 - 1), 'u64': (0, 2**64 - 1), 'usize': (0, 2**64 - 1), 'u128': (0, 2**128 - 1),
    'i8': (-2**7, 2**7 - 1), 'i16': (-2**15, 2**15 - 1), 'i32': (-2**31, 2**31 - 1), 'i64': (-2**63, 2**63 - 1), 'isize': (-2**63, 2**63 - 1), 'i128': (-2**127, 2**127 - 1),
    'char': (0, 0x10ffff),
}
INF = float('inf')
INTTY = {}   # atom -> name of its integer type

def atom_range(x):
    op = x.op
    if op == 'ind':
        return (0, 1)
    if op == 'mod':
        return (0, x.a[1] - 1)
    if op in ('len', 'slen'):
        return (0, 2**63 - 1)
    if op == 'first':
        lo, hi = prange(x.a[0])
        return (0, max(0, hi - 1))
    if op == 'sum':
        lo, hi = prange(x.a[1].a[1])
        nlo, nhi = prange(x.a[0])
        if lo >= 0:
            return (0, INF)
        return (-INF, INF)
    if op == 'prod':
        lo, hi = prange(x.a[1].a[1])
        return (0, INF) if lo >= 0 else (-INF, INF)
    if op == 'min0':
        lo, hi = prange(x.a[0])
        return (min(lo, 0), 0)
    if op in ('cast', 'wrap'):
        return INT_RANGE[x.a[0]]
    if op == 'sat':
        lo, hi = prange(x.a[1])
        l, h = INT_RANGE[x.a[0]]
        return (max(lo, l), min(hi, h))
    if op == 'div':
        lo, hi = prange(x.a[0])
        return (0, hi) if lo >= 0 else (-INF, INF)
    if op == 'bv':
        return (0, INF)
    if op == 'sym' and x.a[0] == 'k':
        return (0, 2**63 - 1)
    t = INTTY.get(x)
    if t:
        return INT_RANGE[t]
    return (-INF, INF)

_pr = {}
def prange(p):
    r = _pr.get(p)
    if r is None:
        lo = hi = 0
        for m, v in p.a[0]:
            a, b = 1, 1
            for x in m:
                c, d = atom_range(x)
                cs = [_xm(a, c), _xm(a, d), _xm(b, c), _xm(b, d)]
                a, b = min(cs), max(cs)
            a, b = _xm(a, v), _xm(b, v)
            if a > b:
                a, b = b, a
            lo += a
            hi += b
        r = (lo, hi)
        _pr[p] = r
    return r

def _xm(a, b):
    if a == 0 or b == 0:
        return 0
    return a * b

def nonneg(p):
    return prange(p)[0] >= 0

def _content(p):
    """gcd of the coefficients of the non constant part"""
    from math import gcd
    g = 0
    for m, v in p.a[0]:
        if m != ():
            if isinstance(v, Fraction):
                if v.denominator != 1:
                    return 1
                v = v.numerator
            g = gcd(g, abs(v))
    return g or 1

def _lead_neg(p):
    # sign of the highest monomial
    for m, v in reversed(p.a[0]):
        if m != ():
            return v < 0
    return False

def _denoms(p):
    d = 1
    from math import lcm
    for m, v in p.a[0]:
        if isinstance(v, Fraction):
            d = lcm(d, v.denominator)
    return scale(p, d) if d != 1 else p

MAXIND = 2
_le = {}
def le0(p):
    """BDD of p <= 0"""
    r = _le.get(p)
    if r is None:
        r = _le0(p)
        _le[p] = r
    return r

def _le0(p):
    lo, hi = prange(p)
    if hi <= 0:
        return TRUE
    if lo > 0:
        return FALSE
    ii = poly_inds(p)
    if ii and len(ii) <= MAXIND:
        i = ii[0]
        return bite(ind_cond(i), le0(poly_cof(p, i, True)), le0(poly_cof(p, i, False)))
    p = _denoms(p)
    g = _content(p)
    if g > 1:
        rest, c = _split_const(p)
        c = Fraction(c)
        cc = -((-c / g).__floor__())   # ceil(c/g)
        p = _norm_poly({**{m: v // g for m, v in rest}, (): int(cc)})
        lo, hi = prange(p)
        if hi <= 0:
            return TRUE
        if lo > 0:
            return FALSE
    # a non negative quantity at most zero is zero
    if lo == 0:
        return eq0(p)
    if hi == 1:
        return bnot(eq0(sub(p, ONE)))
    if _lead_neg(p):
        return bnot(_mkle(add(neg(p), ONE)))
    return _mkle(p)

def _mkle(p):
    # p has a positive leading coefficient: p <= 0
    lo, hi = prange(p)
    if hi <= 0:
        return TRUE
    if lo > 0:
        return FALSE
    if lo == 0:
        return eq0(p)
    if hi == 1:
        return bnot(eq0(sub(p, ONE)))
    return lit(mk('le0', p))

def lt(p, q):
    return le0(add(sub(p, q), ONE))

def le(p, q):
    return le0(sub(p, q))

_eq = {}
DISCR = [None]    # callback: (atom, value) -> BDD of discr(atom) = value
def eq0(p):
    r = _eq.get(p)
    if r is None:
        r = _eq0(p)
        _eq[p] = r
    return r

def _eq0(p):
    c = const_of(p)
    if c is not None:
        return TRUE if c == 0 else FALSE
    lo, hi = prange(p)
    if hi < 0 or lo > 0:
        return FALSE
    ii = poly_inds(p)
    if ii and len(ii) <= MAXIND:
        i = ii[0]
        return bite(ind_cond(i), eq0(poly_cof(p, i, True)), eq0(poly_cof(p, i, False)))
    p = _denoms(p)
    g = _content(p)
    rest, c = _split_const(p)
    if g > 1:
        if c % g != 0:
            return FALSE
        p = _norm_poly({**{m: v // g for m, v in rest}, (): c // g})
        rest, c = _split_const(p)
    if _lead_neg(p):
        p = neg(p)
        rest, c = _split_const(p)
    if len(rest) == 1 and len(rest[0][0]) == 1 and rest[0][1] == 1:
        x = rest[0][0][0]
        if x.op == 'discr':
            return DISCR[0](x.a[0], -c)
        if x.op == 'mod':
            return lit(mk('eq0', p))
    # a non negative sum is zero iff all the parts are
    if lo == 0 and c == 0 and len(rest) > 1 and all(v > 0 and prange(mk('poly', ((m, 1),)))[0] >= 0 for m, v in rest):
        r = TRUE
        for m, v in rest:
            r = band(r, eq0(mk('poly', ((m, 1),))))
        return r
    if c == 0 and len(rest) == 1 and len(rest[0][0]) > 1:
        r = FALSE
        for x in set(rest[0][0]):
            r = bor(r, eq0(P(x)))
        return r
    if c == 0 and len(rest) == 1:
        x = rest[0][0][0]
        if x.op == 'sum' and prange(x.a[1].a[1])[0] >= 0:
            # every term is zero
            kk = fresh_k()
            body = inst(x.a[1], P(kk))
            return bnot(exists(x.a[0], kk, bnot(eq0(body))))
    return lit(mk('eq0', p))

def eqi(p, q):
    return eq0(sub(p, q))

def ite_int(c, p, q):
    if p is q:
        return p
    if c is TRUE:
        return p
    if c is FALSE:
        return q
    d = sub(p, q)
    if c.op == 'B' and c.a[0].op == 'le0':
        a, h, l = c.a
        if (h is TRUE and l is FALSE) or (h is FALSE and l is TRUE):
            L = a.a[0]
            pp, qq = (p, q) if h is TRUE else (q, p)
            dd = sub(pp, qq)
            for X in (L, sub(L, ONE)):
                m = _multiple(dd, X)
                if m is not None:
                    return add(qq, scale(min0(X), m))
    if c.op == 'B' and c.a[0].op == 'eq0':
        a, h, l = c.a
        if (h is TRUE and l is FALSE) or (h is FALSE and l is TRUE):
            pp, qq = (p, q) if h is TRUE else (q, p)
            if _multiple(sub(pp, qq), a.a[0]) is not None:
                return qq
    return add(mul(ind(c), d), q)

def _multiple(d, L):
    if not d.a[0] or not L.a[0] or len(d.a[0]) != len(L.a[0]):
        return None
    r = None
    for (m1, v1), (m2, v2) in zip(d.a[0], L.a[0]):
        if m1 != m2:
            return None
        q = Fraction(v1, 1) / v2
        if r is None:
            r = q
        elif r != q:
            return None
    return int(r) if r.denominator == 1 else r

def min0(p):
    lo, hi = prange(p)
    if hi <= 0:
        return p
    if lo >= 0:
        return ZERO
    ii = poly_inds(p)
    if ii and len(ii) <= MAXIND:
        i = ii[0]
        return ite_int(ind_cond(i), min0(poly_cof(p, i, True)), min0(poly_cof(p, i, False)))
    if lo == -1:
        return neg(ind(eq0(add(p, ONE))))
    g = _content(p)
    rest, c = _split_const(p)
    if _lead_neg(p):
        # min(p,0) = p - max(p,0) = p + min(-p,0)
        return add(p, min0(neg(p)))
    return P(mk('min0', p))

def imax(p, q):
    return sub(p, min0(sub(p, q)))

def imin(p, q):
    return add(q, min0(sub(p, q)))

def imod(p, m):
    """p mod m, m a positive constant, p an integer polynomial"""
    c = const_of(p)
    if c is not None:
        return num(c % m)
    lo, hi = prange(p)
    if lo >= 0 and hi < m:
        return p
    if m == 1:
        return ZERO
    d = {}
    for mo, v in p.a[0]:
        if isinstance(v, Fraction):
            return P(mk('mod', p, m))
        # mod m' of a multiple
        d[mo] = d.get(mo, 0) + v
    q = ZERO
    for mo, v in d.items():
        w = v % m
        if w == 0:
            continue
        done = False
        if len(mo) == 1 and mo[0].op == 'mod' and mo[0].a[1] % m == 0:
            q = add(q, scale(mo[0].a[0], v))
            done = True
        elif len(mo) == 1 and mo[0].op == 'modr':
            pass
        if not done:
            q = add(q, mk('poly', ((mo, w),)))
    d = {}
    for mo, v in q.a[0]:
        if isinstance(v, Fraction):
            return P(mk('mod', p, m))
        w = v % m
        if w:
            d[mo] = w
    q = _norm_poly(d)
    c = const_of(q)
    if c is not None:
        return num(c % m)
    ii = poly_inds(q)
    # residues of indicators of the same modulus: reduce to the underlying residue
    r = _residue_form(q, m)
    if r is not None:
        return r
    if ii and len(ii) <= MAXIND:
        i = ii[0]
        return ite_int(ind_cond(i), imod(poly_cof(q, i, True), m), imod(poly_cof(q, i, False), m))
    lo, hi = prange(q)
    if lo >= 0 and hi < m:
        return q
    if m > 16:
        return P(mk('mod', q, m))
    # canonical: unit multiple and no constant
    rest, c0 = _split_const(q)
    base = _norm_poly(dict(rest))
    best = None
    from math import gcd
    for u in range(1, m):
        if gcd(u, m) != 1:
            continue
        inv = pow(u, -1, m)
        b2 = {}
        for mo, v in rest:
            w = (v * inv) % m
            if w:
                b2[mo] = w
        key = tuple(b2.get(mo, 0) for mo, v in reversed(rest))
        if best is None or key < best[0]:
            best = (key, u, _norm_poly(b2))
    _, u, b = best
    # value = sum over residues r of ((u*r + c0) mod m) * [b = r mod m]
    return _table(b, m, [(u * r + c0) % m for r in range(m)])

def _table(b, m, vals):
    """function of b mod m given by the values for each residue (ladder of indicators)"""
    r = num(vals[m - 1])
    for k in range(m - 2, -1, -1):
        i = P(mk('ind', mk('res', b, m, k)))
        r = add(mul(i, num(vals[k])), mul(sub(ONE, i), r))
    return r

def _residue_form(q, m):
    """q contains only indicators of residues of one polynomial modulo a multiple of m or the
    polynomial itself linearly: reduce"""
    inds = poly_inds(q)
    rs = [i for i in inds if i.a[0].op == 'res']
    if not rs or any(i.a[0].op == 'B' for i in inds):
        return None
    b, mm = rs[0].a[0].a[0], rs[0].a[0].a[1]
    if mm % m != 0 or any(i.a[0].a[0] is not b or i.a[0].a[1] != mm for i in rs):
        return None
    # replace b mod mm by each residue, and require that the result is constant modulo m,
    # up to a multiple of b
    outs = []
    for r in range(mm):
        sm = {}
        for i in rs:
            k = i.a[0].a[2]
            sm[i] = ONE if k == r else ZERO
            # ladder: variables below r are false, the one at r true, the others irrelevant
        q2 = poly_subst(q, sm)
        outs.append(q2)
    first = None
    vals = []
    for r, q2 in enumerate(outs):
        rest, c = _split_const(q2)
        rest = tuple((mo, v % m) for mo, v in rest if v % m)
        if first is None:
            first = rest
        elif first != rest:
            return None
        vals.append(c)
    if not first:
        return _table(b, mm, [c % m for c in vals])
    # rest must be a multiple of b modulo m
    bb = b.a[0]
    for t in range(m):
        cand = tuple((mo, (v * t) % m) for mo, v in bb if mo != () and (v * t) % m)
        if cand == first:
            return _table(b, mm, [(c + t * r) % m for r, c in enumerate(vals)])
    return None

def idiv(p, m):
    """floor division by a positive constant"""
    c = const_of(p)
    if c is not None:
        return num(c // m)
    lo, hi = prange(p)
    if lo >= 0 and hi < m:
        return ZERO
    q = sub(p, imod(p, m))
    return scale(q, Fraction(1, m)) if any(v % m if not isinstance(v, Fraction) else True for _, v in q.a[0]) else mk('poly', tuple((mo, v // m) for mo, v in q.a[0]))

def as_int_poly(p):
    """coefficients that are integral fractions become ints"""
    if any(isinstance(v, Fraction) for _, v in p.a[0]):
        return mk('poly', tuple((m, int(v) if isinstance(v, Fraction) and v.denominator == 1 else v) for m, v in p.a[0]))
    return p

# ---------------------------------------------------------------- binders
_kc = [0]
def fresh_k():
    _kc[0] += 1
    return mk('sym', 'k', _kc[0])

def close(t, k):
    """lambda over the symbol k"""
    h = height(t) + 1
    bv = mk('bv', h)
    return mk('lam', h, subst(t, {k: P(bv)}))

def inst(l, v):
    """instantiate the lambda with the integer value v"""
    bv = mk('bv', l.a[0])
    return subst(l.a[1], {bv: v})

_sub = {}
def subst(t, m):
    """replace atoms: integer atoms by polynomials, boolean atoms by BDDs, others by values"""
    if not m:
        return t
    key = tuple(sorted(((a.id, b.id) for a, b in m.items())))
    return _subst(t, m, key, tuple(m))

def _contains(t, atoms):
    # quick test: symbols
    return True

def _subst(t, m, key, ks):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return tuple(_subst(x, m, key, ks) if isinstance(x, (T, tuple)) else x for x in t)
        return t
    if t in m:
        return m[t]
    if not t.a:
        return t
    if all(k.op in ('sym', 'bv', 'bvm') for k in ks):
        s = syms(t)
        if not any(k in s for k in ks):
            return t
    c = (t, key)
    r = _sub.get(c)
    if r is None:
        r = rebuild(t, lambda x: _subst(x, m, key, ks))
        _sub[c] = r
    return r

def atom_val(t, v):
    """v is the result of substituting inside the atom t: as integer"""
    if v.op == 'poly':
        return v
    if v.op == 'ite':
        return ite_dd(v, lambda x: atom_val(t, x))
    return P(v)

def ite_dd(v, f):
    return ite(lit(v.a[0]), f(v.a[1]), f(v.a[2]))

def atom_bool(v):
    if v is TRUE or v is FALSE or v.op == 'B':
        return v
    if v.op == 'ite':
        return bite(lit(v.a[0]), atom_bool(v.a[1]), atom_bool(v.a[2]))
    return lit(v)

def rebuild(t, f):
    op = t.op
    a = t.a
    if op == 'poly':
        m = {}
        ch = False
        for mo, v in a[0]:
            for x in mo:
                if x not in m:
                    y = f(x)
                    if x.op == 'ind':
                        y = y if y.op == 'poly' else P(y)
                    y = y if y.op == 'poly' else atom_val(x, y)
                    m[x] = y
                    if not (len(y.a[0]) == 1 and y.a[0][0] == ((x,), 1)):
                        ch = True
        if not ch:
            return t
        return as_int_poly(poly_subst(t, m))
    if op == 'ind':
        return ind(atom_bool(f(a[0])))
    if op == 'B':
        c = atom_bool(f(a[0]))
        return bite(c, f(a[1]), f(a[2]))
    if op == 'ite':
        return ite(atom_bool(f(a[0])), f(a[1]), f(a[2]))
    if op == 'le0':
        return le0(f(a[0]))
    if op == 'eq0':
        return eq0(f(a[0]))
    if op == 'res':
        return residue(f(a[0]), a[1], a[2])
    if op == 'mod':
        return imod(f(a[0]), a[1])
    if op == 'min0':
        return min0(f(a[0]))
    if op == 'agg':
        return mk_agg(a[0], *[f(x) for x in a[1:]])
    if op == 'cat':
        return cat(*[_piece_rebuild(p, f) for p in a])
    if op == 'lam':
        kk, body = _reopen(t, f)
        return t if kk is None else close(body, kk)
    if op == 'len':
        return length_of_atom(f(a[0]))
    if op in ('sum', 'prod', 'exists', 'first', 'fold'):
        return rebuild_binder(t, f)
    fn = REBUILD.get(op)
    if fn:
        return fn(t, *[f(x) if isinstance(x, (T, tuple)) else x for x in a])
    r = mk(op, *[f(x) if isinstance(x, (T, tuple)) else x for x in a])
    if r is not t:
        if r.ty is None:
            r.ty = t.ty
        if t in INTTY and r not in INTTY:
            INTTY[r] = INTTY[t]
    return r

REBUILD = {}

def residue(b, m, k):
    """BDD: b mod m = k given that it is not a lower residue (ladder)"""
    c = const_of(b)
    if c is not None:
        return TRUE if c % m == k else FALSE
    return _lad_eq(imod(b, m), k)

def _lad_eq(p, k):
    return eq0(sub(p, num(k)))

def _reopen(l, f):
    """(fresh counter, rebuilt body) of the lambda l, (None, None) when nothing changes"""
    body = f(l.a[1])
    if body is l.a[1]:
        return None, None
    s = syms(body)
    j = 0
    while True:
        k = mk('sym', 'k', 'r', l.a[0], j)
        if k not in s:
            break
        j += 1
    if height(body) < l.a[0]:
        return k, subst(body, {mk('bv', l.a[0]): P(k)})
    return k, f(inst(l, P(k)))

def fold(n, l, v0):
    """state after n iterations of the lambda over (counter, state) l, from v0"""
    c = const_of(n)
    if c is not None and c <= 0:
        return v0
    return mk('fold', n, l, v0)

def close2(body, k, m):
    """lambda over the counter k and the state symbols m (a list)"""
    h = height(body) + 1
    d = {k: P(mk('bv', h))}
    for i, x in enumerate(m):
        y = mk('fldx', mk('bvm', h), i)
        y.ty = x.ty
        if x in INTTY:
            INTTY[y] = INTTY[x]
        d[x] = y
    return mk('lam2', h, subst(body, d))

def rebuild_binder(t, f):
    op = t.op
    if op == 'fold':
        n, l, v0 = f(t.a[0]), t.a[1], f(t.a[2])
        body = f(l.a[1])
        if body is not l.a[1]:
            h = l.a[0]
            h2 = height(body) + 1
            if h2 <= h:
                body = subst(body, {mk('bv', h): P(mk('bv', h2)), mk('bvm', h): mk('bvm', h2)}) if h2 != h else body
                l = mk('lam2', h2, body)
            else:
                k, m = fresh_k(), mk('sym', 'm', fresh_k())
                body = f(subst(l.a[1], {mk('bv', h): P(k), mk('bvm', h): m}))
                h2 = height(body) + 1
                l = mk('lam2', h2, subst(body, {k: P(mk('bv', h2)), m: mk('bvm', h2)}))
        return fold(n, l, v0)
    n = f(t.a[0])
    l = t.a[1]
    k, b = _reopen(l, f)
    if k is None:
        if n is t.a[0]:
            return t
        k = fresh_k()
        b = inst(l, P(k))
    if op == 'sum':
        return isum(n, k, b)
    if op == 'prod':
        return iprod(n, k, b)
    if op == 'exists':
        return exists(n, k, b)
    return first(n, k, b)

def isum(n, k, body):
    """sum for k < n of body"""
    if k not in syms(body):
        return mul(body, n)
    c = const_of(n)
    if c is not None and c <= 4:
        return add(*[subst(body, {k: num(i)}) for i in range(int(c))]) if c > 0 else ZERO
    # linear, and constant parts out
    inv = {}
    dep = {}
    for m, v in body.a[0]:
        mi = tuple(x for x in m if k not in syms(x))
        md = tuple(x for x in m if k in syms(x))
        dep.setdefault(md, {})
        dep[md][mi] = dep[md].get(mi, 0) + v
    r = ZERO
    for md, d in dep.items():
        co = _norm_poly(d)
        if md == ():
            r = add(r, mul(co, n))
        elif md == (k,):
            r = add(r, mul(co, scale(mul(n, sub(n, ONE)), Fraction(1, 2))))
        else:
            b = mk('poly', ((md, 1),))
            r = add(r, mul(co, sum_atom(n, k, b)))
    return as_int_poly(r)

def sum_atom(n, k, b):
    # domain transformation: sum over the elements of a composed sequence
    d = domain_split(n, k, b)
    if d is not None:
        r = ZERO
        for (n2, k2, cond, b2) in d:
            r = add(r, isum(n2, k2, mul(ind(cond), b2)))
        return r
    return P(mk('sum', n, close(b, k)))

def iprod(n, k, body):
    if body is ONE:
        return ONE
    c = const_of(n)
    if c is not None and c <= 4:
        r = ONE
        for i in range(int(c)):
            r = mul(r, subst(body, {k: num(i)}))
        return r
    return P(mk('prod', n, close(body, k)))

def exists(n, k, body):
    """BDD: there is k < n with body"""
    if body is FALSE:
        return FALSE
    if body is TRUE:
        return bnot(le0(n))
    c = const_of(n)
    if c is not None:
        if c <= 0:
            return FALSE
        if c <= 4:
            r = FALSE
            for i in range(int(c)):
                r = bor(r, subst(body, {k: num(i)}))
            return r
    # the atoms that do not depend on k are taken out
    for x in support(body):
        if k not in syms(x):
            return bite(lit(x), exists(n, k, assume(body, x, True)), exists(n, k, assume(body, x, False)))
    # comparisons of k with its own bound are decided
    b2 = body
    d = domain_split(n, k, b2)
    if d is not None:
        r = FALSE
        for (n2, k2, cond, b3) in d:
            r = bor(r, exists(n2, k2, band(cond, b3)))
        return r
    # disjunctions are split
    if body.op == 'B' and body.a[1] is TRUE:
        return bor(exists(n, k, lit(body.a[0])), exists(n, k, body.a[2])) if body.a[2] is not FALSE else lit_exists(n, k, body)
    if body.op == 'B' and body.a[2] is TRUE:
        return bor(exists(n, k, bnot(lit(body.a[0]))), exists(n, k, body.a[1])) if body.a[1] is not FALSE else lit_exists(n, k, body)
    return lit_exists(n, k, body)

def lit_exists(n, k, body):
    # single comparison k with something: solved
    if body.op == 'B' and body.a[0].op == 'eq0' and body.a[1] is TRUE and body.a[2] is FALSE:
        p = body.a[0].a[0]
        x = _solve_k(p, k)
        if x is not None:
            return band(bnot(lt(x, ZERO)), lt(x, n))
    return lit(mk('exists', n, close(body, k)))

def _solve_k(p, k):
    """p = 0 solved for k when p is k + invariant (or -k + invariant)"""
    co = None
    rest = {}
    for m, v in p.a[0]:
        if m == (k,):
            co = v
        elif any(k in syms(x) for x in m):
            return None
        else:
            rest[m] = v
    if co == 1:
        return neg(_norm_poly(rest))
    if co == -1:
        return _norm_poly(rest)
    return None

def first(n, k, body):
    """the least k < n with body (knowing that there is one)"""
    if body is TRUE:
        return ZERO
    c = const_of(n)
    if c == 1:
        return ZERO
    if body.op == 'B' and body.a[0].op == 'eq0' and body.a[1] is TRUE and body.a[2] is FALSE:
        x = _solve_k(body.a[0].a[0], k)
        if x is not None:
            return x
    return P(mk('first', n, close(body, k)))

# ---------------------------------------------------------------- choices
def is_bool(v):
    return v is TRUE or v is FALSE or v.op == 'B'

def ite(c, a, b):
    """general choice"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    if is_bool(a) and is_bool(b):
        return bite(c, a, b)
    if a.op == 'poly' and b.op == 'poly':
        return ite_int(c, a, b)
    if a.op == 'cat' and b.op == 'cat':
        return ite_seq(c, a, b)
    if a.op == 'poly' or b.op == 'poly' or a.op == 'cat' or b.op == 'cat' or is_bool(a) or is_bool(b):
        return mk('mix', c, a, b)
    if a.op == 'agg' or b.op == 'agg':
        x, y = a, b
        if a.op == 'agg' and struct_kind(a.a[0]):
            y = expand_like(b, a)
        elif b.op == 'agg' and struct_kind(b.a[0]):
            x = expand_like(a, b)
        if x.op == 'agg' and y.op == 'agg' and x.a[0] == y.a[0] and len(x.a) == len(y.a):
            return mk_agg(x.a[0], *[ite(c, u, v) for u, v in zip(x.a[1:], y.a[1:])])
    return _ite_dd(c, a, b)

def struct_kind(kind):
    if kind[0] in ('tuple', 'closure', 'iter', 'file', 'lazy'):
        return True
    return kind[0] == 'adt' and kind[3:] == ('s',)

EXPAND = [None]
def expand_like(v, a):
    """v (opaque) expanded into an aggregate of the kind of a"""
    if v.op == 'agg':
        return v
    if v.op == 'ite':
        return ite_dd(v, lambda x: expand_like(x, a))
    if EXPAND[0]:
        r = EXPAND[0](v, a)
        if r is not None:
            return r
    return v

_dd = {}
def _top(v):
    return v.a[0] if v.op in ('ite', 'B') else None

def _cofv(v, atom, val):
    """cofactor of a choice"""
    if v.op == 'B':
        return assume(v, atom, val)
    if v.op != 'ite':
        return v
    return assume_v(v, atom, val)

_av = {}
def assume_v(v, atom, val):
    if v.op == 'ite':
        k = (v, atom, val)
        r = _av.get(k)
        if r is None:
            x = implied(atom, val, v.a[0])
            if x is True:
                r = assume_v(v.a[1], atom, val)
            elif x is False:
                r = assume_v(v.a[2], atom, val)
            else:
                h, l = assume_v(v.a[1], atom, val), assume_v(v.a[2], atom, val)
                r = v if (h is v.a[1] and l is v.a[2]) else _mkite(v.a[0], h, l)
            _av[k] = r
        return r
    return v

def _mkite(atom, h, l):
    if h is l:
        return h
    return mk('ite', atom, h, l)

def _ite_dd(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is UNDEF:
        return b
    if b is UNDEF:
        return a
    k = (c, a, b)
    r = _dd.get(k)
    if r is None:
        tops = [x for x in (_top(c), _top(a), _top(b)) if x is not None]
        v = min(tops, key=lambda x: x.id)
        h = _ite_dd(_cofv(c, v, True), _cofv(a, v, True), _cofv(b, v, True))
        l = _ite_dd(_cofv(c, v, False), _cofv(a, v, False), _cofv(b, v, False))
        if h is l:
            r = h
        elif (h.op == 'agg' and l.op == 'agg' and h.a[0] == l.a[0] and len(h.a) == len(l.a)):
            r = mk_agg(h.a[0], *[ite(lit(v), x, y) for x, y in zip(h.a[1:], l.a[1:])])
        else:
            if _theory(v) and assume_v(l, v, True) is h:
                r = l
            elif _theory(v) and assume_v(h, v, False) is l:
                r = h
            else:
                r = mk('ite', v, h, l)
        _dd[k] = r
    return r

def leaves(v, c=TRUE):
    """the (condition, leaf) pairs of a choice"""
    acc = {}
    def go(v, c):
        if c is FALSE:
            return
        if v.op == 'ite':
            go(v.a[1], band(c, lit(v.a[0])))
            go(v.a[2], band(c, bnot(lit(v.a[0]))))
        else:
            acc[v] = bor(acc.get(v, FALSE), c)
    go(v, c)
    return [(c2, v2) for v2, c2 in acc.items()]

def map_leaves(v, f):
    if v.op == 'ite':
        return ite(lit(v.a[0]), map_leaves(v.a[1], f), map_leaves(v.a[2], f))
    return f(v)

_sr = {}
def simp(v, pc):
    """the value v simplified knowing that the BDD pc holds"""
    if pc is TRUE or not isinstance(v, T):
        return v
    if is_bool(v):
        return restrict(v, pc)
    if v.op not in ('ite', 'poly', 'cat', 'agg'):
        return v
    k = (v, pc)
    r = _sr.get(k)
    if r is None:
        r = _simp(v, pc)
        _sr[k] = r
    return r

def _simp(v, pc):
    if v.op == 'ite':
        a = v.a[0]
        c1 = band(pc, lit(a))
        if c1 is FALSE:
            return simp(v.a[2], pc)
        c0 = band(pc, bnot(lit(a)))
        if c0 is FALSE:
            return simp(v.a[1], pc)
        h, l = simp(v.a[1], c1), simp(v.a[2], c0)
        if h is v.a[1] and l is v.a[2]:
            return v
        return ite(lit(a), h, l)
    if v.op == 'poly':
        ii = poly_inds(v)
        if not ii:
            return v
        m = {}
        for i in ii:
            l = ind_cond(i)
            if band(pc, l) is FALSE:
                m[i] = ZERO
            elif band(pc, bnot(l)) is FALSE:
                m[i] = ONE
            elif i.a[0].op == 'B':
                g = restrict(l, pc)
                if g is not l:
                    m[i] = ind(g)
        return poly_subst(v, m)
    if v.op == 'agg':
        return mk_agg(v.a[0], *[simp(x, pc) for x in v.a[1:]])
    if v.op == 'cat':
        out = []
        for p in v.a:
            if p[0] == 'iteq':
                l = lit(p[1])
                if band(pc, l) is FALSE:
                    out.append(simp(p[3], pc))
                elif band(pc, bnot(l)) is FALSE:
                    out.append(simp(p[2], pc))
                else:
                    out.append(ite_seq(l, simp(p[2], band(pc, l)), simp(p[3], band(pc, bnot(l)))))
            elif p[0] == 'u':
                out.append(cat(('u', simp(p[1], pc))))
            elif p[0] == 'be':
                out.append(be(simp(p[1], pc), p[2]))
            elif p[0] == 'rep':
                out.append(cat(('rep', p[1], simp(p[2], pc))))
            else:
                out.append(cat(p))
        return concat(*out)
    return v

# ---------------------------------------------------------------- aggregates
def mk_agg(kind, *fs):
    # a structure made of all the fields of an opaque structure is this structure
    if kind[0] == 'adt' and fs:
        f0 = fs[0]
        s = _fld_base(f0, kind, 0)
        if s is not None and all(_fld_base(f, kind, i) is s for i, f in enumerate(fs)):
            if s.ty is not None and NFIELDS[0](s.ty, kind[2]) == len(fs) and struct_kind(kind):
                return s
    return mk('agg', kind, *fs)

NFIELDS = [lambda ty, v: -1]

def _raw_atom(f):
    if f.op == 'poly':
        if len(f.a[0]) == 1 and f.a[0][0][1] == 1 and len(f.a[0][0][0]) == 1:
            return f.a[0][0][0][0]
        return None
    if f.op == 'cat':
        if len(f.a) == 1 and f.a[0][0] == 'seq':
            return f.a[0][1]
        return None
    if f.op == 'B':
        return f.a[0] if f.a[1] is TRUE and f.a[2] is FALSE else None
    return f

def _fld_base(f, kind, i):
    x = _raw_atom(f)
    if x is not None and x.op == 'fld' and x.a[1] == kind[2] and x.a[2] == i:
        return x.a[0]
    return None

# ---------------------------------------------------------------- sequences
EMPTY = mk('cat')

def seq_atom(s):
    return mk('cat', ('seq', s))

def unit(x):
    return cat(('u', x))

def _const_byte(x):
    if x.op == 'poly':
        c = const_of(x)
        if c is not None and 0 <= c <= 255 and int(c) == c:
            return int(c)
    return None

def cat(*pieces):
    out = []
    for p in pieces:
        k = p[0]
        if k == 'cat_':
            for q in p[1].a:
                _push(out, q)
            continue
        _push(out, p)
    return mk('cat', *out)

def _push(out, p):
    k = p[0]
    if k == 'u':
        out.append(p)
        return
    if k == 'rep':
        n = const_of(p[2])
        if n is not None and n <= 16:
            for _ in range(int(n)):
                out.append(('u', p[1]))
            return
        ii = poly_inds(p[2])
        if out and out[-1][0] == 'rep' and out[-1][1] is p[1]:
            out[-1] = ('rep', p[1], add(out[-1][2], p[2]))
            return
        out.append(p)
        return
    if k == 'sub':
        s, a, b = p[1], p[2], p[3]
        if a is b:
            return
        if out and out[-1][0] == 'sub' and out[-1][1] is s and out[-1][3] is a:
            q = out.pop()
            _push(out, ('sub', s, q[2], b))
            return
        if a is ZERO and b is length(seq_atom(s)):
            out.append(('seq', s))
            return
        out.append(p)
        return
    if k == 'map':
        n, l = p[1], p[2]
        c = const_of(n)
        if c is not None and c <= 0:
            return
        body = l.a[1]
        if body.op == 'cat' and not body.a:
            return
        if c is not None and c <= 4:
            for i in range(int(c)):
                for q in inst(l, num(i)).a:
                    _push(out, q)
            return
        out.append(p)
        return
    if k == 'iteq':
        if p[2] is p[3]:
            for q in p[2].a:
                _push(out, q)
            return
        out.append(p)
        return
    out.append(p)

def concat(*ss):
    out = []
    for s in ss:
        for q in s.a:
            _push(out, q)
    return mk('cat', *out)

def mapseq(n, k, body):
    """concatenation for k < n of the sequences body"""
    c = const_of(n)
    if c is not None and c <= 0:
        return EMPTY
    if not body.a:
        return EMPTY
    if k not in syms(body) and len(body.a) == 1 and body.a[0][0] == 'u':
        return cat(('rep', body.a[0][1], n))
    # identity map of a sequence
    if len(body.a) == 1 and body.a[0][0] == 'u':
        x = _raw_atom(body.a[0][1])
        if x is not None and x.op == 'elem' and k not in syms(x.a[0]):
            off = sub(x.a[1], P(k))
            if k not in syms(off):
                return slice_atom(x.a[0], off, add(off, n))
    d = domain_split(n, k, body)
    if d is not None:
        r = []
        for (n2, k2, cond, b2) in d:
            r.append(mapseq(n2, k2, ite_seq(cond, b2, EMPTY)))
        return concat(*r)
    return cat(('map', n, close(body, k)))

def slice_atom(s, a, b):
    return cat(('sub', s, a, b))

_len = {}
def length(s):
    r = _len.get(s)
    if r is None:
        r = ZERO
        for p in s.a:
            r = add(r, plen(p))
        _len[s] = r
    return r

def plen(p):
    k = p[0]
    if k == 'u':
        return ONE
    if k == 'be':
        return num(p[2])
    if k == 'rep':
        return p[2]
    if k == 'sub':
        return sub(p[3], p[2])
    if k == 'seq':
        return length_of_atom(p[1])
    if k == 'map':
        kk = fresh_k()
        return isum(p[1], kk, length(inst(p[2], P(kk))))
    if k == 'iteq':
        return ite_int(lit(p[1]), length(p[2]), length(p[3]))
    raise Exception('plen ' + k)

ARRAY_LEN = [lambda ty: None]
def length_of_atom(s):
    if s.op == 'cat':
        return length(s)
    if s.op == 'ite':
        return ite_dd(s, length_of_atom)
    if s.ty is not None:
        n = ARRAY_LEN[0](s.ty)
        if n is not None:
            return num(n)
    return P(mk('len', s))

def _piece_rebuild(p, f):
    k = p[0]
    if k == 'u':
        return ('u', f(p[1]))
    if k == 'be':
        return ('cat_', be(f(p[1]), p[2]))
    if k == 'rep':
        return ('cat_', cat(('rep', f(p[1]), f(p[2]))))
    if k == 'sub':
        s = f(p[1])
        a, b = f(p[2]), f(p[3])
        if s.op == 'cat':
            return ('cat_', subseq(s, a, b))
        return ('cat_', cat(('sub', s, a, b)))
    if k == 'seq':
        s = f(p[1])
        return ('cat_', as_seq(s))
    if k == 'map':
        n = f(p[1])
        l = p[2]
        kk, body = _reopen(l, f)
        if kk is None:
            if n is p[1]:
                return p
            kk = fresh_k()
            body = inst(l, P(kk))
        return ('cat_', mapseq(n, kk, body))
    if k == 'iteq':
        return ('cat_', ite_seq(atom_bool(f(p[1])), f(p[2]), f(p[3])))
    raise Exception('piece ' + k)

def as_seq(s):
    if s.op == 'cat':
        return s
    if s.op == 'ite':
        return ite_dd(s, as_seq)
    return seq_atom(s)

def be(x, n):
    """big-endian bytes of the integer or float x on n bytes"""
    if x.op == 'poly':
        c = const_of(x)
        if c is not None and int(c) == c:
            c = int(c) & (2 ** (8 * n) - 1)
            return mk('cat', *[('u', num((c >> (8 * (n - 1 - i))) & 255)) for i in range(n)])
    if x.op == 'fconst':
        c = x.a[1]
        return mk('cat', *[('u', num((c >> (8 * (n - 1 - i))) & 255)) for i in range(n)])
    if n == 1 and x.op == 'poly' and prange(x)[0] >= 0 and prange(x)[1] <= 255:
        return unit(x)
    return mk('cat', ('be', x, n))

def ite_seq(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    # common prefix and suffix
    i = 0
    pa, pb = a.a, b.a
    while i < len(pa) and i < len(pb) and pa[i] == pb[i]:
        i += 1
    j = 0
    while j < len(pa) - i and j < len(pb) - i and pa[len(pa) - 1 - j] == pb[len(pb) - 1 - j]:
        j += 1
    ma, mb = mk('cat', *pa[i:len(pa) - j]), mk('cat', *pb[i:len(pb) - j])
    # repetitions of the same element
    mid = None
    ra, rb = _as_rep(ma), _as_rep(mb)
    if ra is not None and rb is not None and (ra[0] is rb[0] or ra[0] is None or rb[0] is None):
        x = ra[0] or rb[0]
        if x is not None:
            mid = cat(('rep', x, ite_int(c, ra[1], rb[1])))
    # aligned single pieces are chosen piecewise
    if mid is None and len(ma.a) == len(mb.a) and len(ma.a) > 0 and all(x[0] == y[0] and x[0] in ('u', 'be') and (x[0] == 'u' or x[2] == y[2]) for x, y in zip(ma.a, mb.a)):
        mid = concat(*[(unit(ite(c, x[1], y[1])) if x[0] == 'u' else be(ite(c, x[1], y[1]), x[2])) for x, y in zip(ma.a, mb.a)])
    if mid is None and len(ma.a) == 1 and len(mb.a) == 1 and ma.a[0][0] == 'sub' and mb.a[0][0] == 'sub' and ma.a[0][1] is mb.a[0][1]:
        x, y = ma.a[0], mb.a[0]
        mid = cat(('sub', x[1], ite_int(c, x[2], y[2]), ite_int(c, x[3], y[3])))
    if mid is None and not ma.a and len(mb.a) == 1 and mb.a[0][0] == 'map':
        # nothing if the condition is that the domain is empty
        if implies(c, le0(mb.a[0][1])):
            mid = mb
    if mid is None and not mb.a and len(ma.a) == 1 and ma.a[0][0] == 'map':
        if implies(bnot(c), le0(ma.a[0][1])):
            mid = ma
    if mid is None:
        mid = _ite_seq_dd(c, ma, mb)
    return concat(mk('cat', *pa[:i]), mid, mk('cat', *pa[len(pa) - j:])) if (i or j) else mid

def _as_rep(s):
    """(element, count) if all the elements are the same; element None when empty"""
    x = None
    n = ZERO
    for p in s.a:
        if p[0] == 'u':
            y, m = p[1], ONE
        elif p[0] == 'rep':
            y, m = p[1], p[2]
        else:
            return None
        if x is None:
            x = y
        elif x is not y:
            return None
        n = add(n, m)
    return (x, n)

def _stop(s):
    return s.a[0][1] if len(s.a) == 1 and s.a[0][0] == 'iteq' else None

def _cofs(s, atom, val):
    if len(s.a) == 1 and s.a[0][0] == 'iteq':
        p = s.a[0]
        v = implied(atom, val, p[1])
        if v is True:
            return _cofs(p[2], atom, val)
        if v is False:
            return _cofs(p[3], atom, val)
    return s

def _ite_seq_dd(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    tops = [x for x in (_top(c), _stop(a), _stop(b)) if x is not None]
    v = min(tops, key=lambda x: x.id)
    h = ite_seq(_cofv(c, v, True), _cofs(a, v, True), _cofs(b, v, True))
    l = ite_seq(_cofv(c, v, False), _cofs(a, v, False), _cofs(b, v, False))
    if h is l:
        return h
    if len(h.a) == 1 and len(l.a) == 1 and h.a[0][0] == 'map' and l.a[0][0] == 'map' and h.a[0][1] is l.a[0][1]:
        k = fresh_k()
        return mapseq(h.a[0][1], k, ite_seq(lit(v), inst(h.a[0][2], P(k)), inst(l.a[0][2], P(k))))
    return mk('cat', ('iteq', v, h, l))

def elem(s, i):
    """value at the position i of the sequence s (within bounds)"""
    off = ZERO
    ci = const_of(i)
    for idx, p in enumerate(s.a):
        n = plen(p)
        cn, co = const_of(n), const_of(off)
        if cn is not None and co is not None and ci is not None:
            if ci >= co + cn:
                off = add(off, n)
                continue
            return pelem(p, sub(i, off))
        d = sub(i, off)
        # i < off + n ?
        c = lt(d, n)
        if c is TRUE:
            return pelem(p, d)
        if c is FALSE:
            off = add(off, n)
            continue
        rest = mk('cat', *s.a[idx + 1:])
        if not rest.a:
            return pelem(p, d)
        x, y = pelem(p, d), elem(rest, sub(d, n))
        return ite(c, x, y)
    return UNDEF

def elem_opt(s, i):
    return elem(s, i)

def pelem(p, i):
    k = p[0]
    if k == 'u':
        return p[1]
    if k == 'rep':
        return p[1]
    if k == 'sub':
        return elem_atom(p[1], add(i, p[2]))
    if k == 'seq':
        return elem_atom(p[1], i)
    if k == 'map':
        body = p[2].a[1]
        if len(body.a) == 1 and body.a[0][0] == 'u':
            b = inst(p[2], i)
            return b.a[0][1] if len(b.a) == 1 and b.a[0][0] == 'u' else pelem_generic(p, i)
        return pelem_generic(p, i)
    if k == 'iteq':
        return ite(lit(p[1]), elem(p[2], i), elem(p[3], i))
    if k == 'be':
        return P(_u8(mk('byte', p[1], p[2], i)))
    raise Exception('pelem ' + k)

def _u8(t):
    INTTY[t] = 'u8'
    return t

ELEM_WRAP = [None]
def pelem_generic(p, i):
    s = mk('cat', p)
    t = mk('elem', s, i)
    # type of the elements: that of any unit of the body
    kk = None
    body = p[2].a[1] if p[0] == 'map' else None
    x = _sample(mk('cat', p))
    if x is not None and x.op == 'ref' and p[0] == 'map':
        r = _ref_elem(p, x, i)
        if r is not None:
            return r
    return wrap_like(t, x)

def _map_units(S, f):
    out = []
    for q in S.a:
        if q[0] == 'u':
            y = f(q[1])
            if y is None:
                return None
            out.append(mk('cat', ('u', y)))
        elif q[0] == 'rep':
            y = f(q[1])
            if y is None:
                return None
            out.append(cat(('rep', y, q[2])))
        elif q[0] == 'map':
            k = fresh_k()
            b = _map_units(inst(q[2], P(k)), f)
            if b is None:
                return None
            out.append(mapseq(q[1], k, b))
        elif q[0] == 'iteq':
            a, b = _map_units(q[2], f), _map_units(q[3], f)
            if a is None or b is None:
                return None
            out.append(ite_seq(lit(q[1]), a, b))
        else:
            return None
    return concat(*out)

def _ref_elem(p, x, i):
    """element i of a selection of references into one place: a reference whose indices are the elements of selections"""
    root, pr = x.a[0], x.a[1]
    if any(t.op == 'bv' for t in subterms(root)):
        return None
    shape = tuple(q if q[0] != 'idx' else ('idx',) for q in pr)
    if any(q[0] == 'sl' for q in pr) or sum(1 for q in pr if q[0] == 'idx') < 1:
        return None
    def comp(j):
        def f(y):
            if y.op != 'ref' or y.a[0] is not root or len(y.a[1]) != len(pr):
                return None
            if tuple(q if q[0] != 'idx' else ('idx',) for q in y.a[1]) != shape:
                return None
            return y.a[1][j][1]
        return f
    out = []
    for j, q in enumerate(pr):
        if q[0] != 'idx':
            out.append(q)
            continue
        S = _map_units(mk('cat', p), comp(j))
        if S is None:
            return None
        e = elem(S, i)
        if not is_poly(e):
            return None
        out.append(('idx', e))
    r = mk('ref', root, tuple(out))
    if r.ty is None:
        r.ty = x.ty
    return r

def _sample(s):
    for p in s.a:
        if p[0] in ('u', 'rep'):
            return p[1]
        if p[0] == 'map':
            x = _sample(p[2].a[1])
            if x is not None:
                return x
        if p[0] == 'iteq':
            for q in (p[2], p[3]):
                x = _sample(q)
                if x is not None:
                    return x
        if p[0] == 'be':
            return ZERO
        if p[0] in ('seq', 'sub'):
            return elem_atom(p[1], ZERO)
    return None

def wrap_like(t, x):
    """wrap the atom t as a value of the same kind as x"""
    if x is None:
        return t
    if x.op == 'poly':
        return P(t)
    if is_bool(x):
        return lit(t)
    if x.op == 'cat':
        return seq_atom(t)
    if x.op == 'agg' and struct_kind(x.a[0]):
        fs = []
        for i, y in enumerate(x.a[1:]):
            fs.append(wrap_like(mk('fldx', t, i), y))
        return mk('agg', x.a[0], *fs)
    return t

def elem_atom(s, i):
    if s.op == 'cat':
        return elem(s, i)
    if s.op == 'ite':
        return ite_dd(s, lambda x: elem_atom(x, i))
    return ELEM_WRAP[0](s, i)

def _reb_elem(t, s, i):
    if s.op == 'cat' and len(s.a) == 1 and s.a[0][0] == 'seq':
        s = s.a[0][1]
    if s.op == 'cat':
        v = elem(s, i)
        return v
    return elem_atom(s, i)
REBUILD['elem'] = _reb_elem

def subseq(s, a, b):
    """positions a <= i < b of the sequence s"""
    if a is b:
        return EMPTY
    if a is ZERO and b is length(s):
        return s
    out = []
    off = ZERO
    for p in s.a:
        n = plen(p)
        end = add(off, n)
        # overlap of [off, end) and [a, b)
        c1 = le(end, a)     # entirely before
        c2 = le(b, off)     # entirely after
        if c1 is TRUE:
            off = end
            continue
        if c2 is TRUE:
            break
        if le(a, off) is TRUE and le(end, b) is TRUE:
            out.append(mk('cat', p))
            off = end
            continue
        lo = sub(imax(a, off), off)
        hi = sub(imin(b, end), off)
        out.append(psub(p, lo, hi))
        off = end
    return concat(*out)

def psub(p, lo, hi):
    k = p[0]
    if k == 'u':
        n = sub(hi, lo)
        c = const_of(n)
        if c == 1:
            return mk('cat', p)
        if c is not None and c <= 0:
            return EMPTY
        return cat(('rep', p[1], imax(n, ZERO)))
    if k == 'rep':
        return cat(('rep', p[1], imax(sub(hi, lo), ZERO)))
    if k == 'seq':
        return cat(('sub', p[1], lo, hi))
    if k == 'sub':
        return cat(('sub', p[1], add(p[2], lo), add(p[2], hi)))
    if k == 'map' and len(p[2].a[1].a) == 1 and p[2].a[1].a[0][0] == 'u':
        kk = fresh_k()
        return mapseq(sub(hi, lo), kk, inst(p[2], add(P(kk), lo)))
    if k == 'be':
        kk = fresh_k()
        return mapseq(sub(hi, lo), kk, unit(P(_u8(mk('byte', p[1], p[2], add(P(kk), lo))))))
    t = mk('subs', mk('cat', p), lo, hi)
    return mk('cat', ('sub', mk('cat', p), lo, hi))

# ---------------------------------------------------------------- domains
def domain_split(n, k, body):
    """The bound n is the length of a composed sequence S whose elements are used in the body only
    as elem(S, k): the comprehension is distributed over the pieces of S.
    Returns [(n', k', condition, body')] or None."""
    cand = None
    for t in subterms(body):
        if t.op == 'elem' and t.a[0].op == 'cat' and k in syms(t.a[1]):
            if const_of(sub(t.a[1], P(k))) == 0:
                cand = t.a[0]
                break
    if cand is None:
        return None
    S = cand
    if length(S) is not n or k in syms(S):
        return None
    out = []
    for p in S.a:
        r = _gen(p, TRUE)
        if r is None:
            return None
        out.extend(r)
    # replace elem(S,k) by the generated element; prefix sums over S by prefix sums over the domain
    res = []
    for (n2, k2, cond, x) in out:
        b2 = _subst_elem(body, S, k, x, k2)
        if b2 is None:
            return None
        res.append((n2, k2, cond, b2))
    return res

def _gen(p, cond):
    k = p[0]
    if k == 'u':
        kk = fresh_k()
        return [(ONE, kk, cond, p[1])]
    if k == 'map':
        kk = fresh_k()
        body = inst(p[2], P(kk))
        r = _gen_body(body, cond)
        if r is None:
            return None
        return [(p[1], kk, c, x) for (c, x) in r]
    if k in ('seq', 'sub'):
        kk = fresh_k()
        if k == 'seq':
            return [(length_of_atom(p[1]), kk, cond, elem_atom(p[1], P(kk)))]
        return [(sub(p[3], p[2]), kk, cond, elem_atom(p[1], add(p[2], P(kk))))]
    if k == 'iteq':
        kk = fresh_k()
        r = _gen_body(mk('cat', p), cond)
        if r is None:
            return None
        return [(ONE, kk, c, x) for (c, x) in r]
    return None

def _gen_body(body, cond):
    if not body.a:
        return []
    if len(body.a) != 1:
        return None
    p = body.a[0]
    if p[0] == 'u':
        return [(cond, p[1])]
    if p[0] == 'iteq':
        a = _gen_body(p[2], band(cond, lit(p[1])))
        b = _gen_body(p[3], band(cond, bnot(lit(p[1]))))
        if a is None or b is None:
            return None
        if len(a) + len(b) > 1:
            return None
        return a + b
    return None

def _subst_elem(body, S, k, x, k2):
    m = {}
    ok = [True]
    def go(t):
        if not isinstance(t, T):
            if isinstance(t, tuple):
                return tuple(go(y) if isinstance(y, (T, tuple)) else y for y in t)
            return t
        if k not in syms(t):
            return t
        r = m.get(t)
        if r is not None:
            return r
        if t is k:
            ok[0] = False
            return t
        if t.op == 'elem' and t.a[0] is S and const_of(sub(t.a[1], P(k))) == 0:
            r = x
        elif t.op == 'fldx':
            b = go(t.a[0])
            r = fldx(b, t.a[1])
        else:
            r = rebuild(t, go)
        m[t] = r
        return r
    r = go(body)
    return r if ok[0] else None

def fldx(b, i):
    if b.op == 'agg':
        return b.a[1 + i]
    if b.op == 'ite':
        return ite_dd(b, lambda x: fldx(x, i))
    return mk('fldx', b, i)
def _reb_fldx(t, b, i):
    r = fldx(b, i)
    if r.op == 'fldx' and r is not t:
        if r.ty is None:
            r.ty = t.ty
        if t in INTTY and r not in INTTY:
            INTTY[r] = INTTY[t]
    return r
REBUILD['fldx'] = _reb_fldx

# ---------------------------------------------------------------- display
def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ','.join(show(x, d) for x in t) + ')'
        return str(t)
    op = t.op
    if d > 40:
        return '...'
    if op == 'poly':
        if not t.a[0]:
            return '0'
        s = []
        for m, v in t.a[0]:
            if m == ():
                s.append(str(v))
            else:
                ms = '*'.join(show(x, d + 1) for x in m)
                s.append(ms if v == 1 else ('-' + ms if v == -1 else str(v) + '*' + ms))
        r = ' + '.join(s)
        return r if len(s) == 1 else '(' + r + ')'
    if op in ('true', 'false', 'undef'):
        return op
    if op == 'B':
        if t.a[1] is TRUE and t.a[2] is FALSE:
            return show(t.a[0], d + 1)
        if t.a[1] is FALSE and t.a[2] is TRUE:
            return '!' + show(t.a[0], d + 1)
        if t.a[2] is FALSE:
            return '(' + show(t.a[0], d + 1) + ' & ' + show(t.a[1], d + 1) + ')'
        if t.a[1] is FALSE:
            return '(!' + show(t.a[0], d + 1) + ' & ' + show(t.a[2], d + 1) + ')'
        if t.a[1] is TRUE:
            return '(' + show(t.a[0], d + 1) + ' | ' + show(t.a[2], d + 1) + ')'
        if t.a[2] is TRUE:
            return '(!' + show(t.a[0], d + 1) + ' | ' + show(t.a[1], d + 1) + ')'
    if op in ('B', 'ite'):
        return '{' + show(t.a[0], d + 1) + ' ? ' + show(t.a[1], d + 1) + ' : ' + show(t.a[2], d + 1) + '}'
    if op == 'ind':
        return '[' + show(t.a[0], d + 1) + ']'
    if op == 'le0':
        return show(t.a[0], d + 1) + '<=0'
    if op == 'eq0':
        return show(t.a[0], d + 1) + '==0'
    if op == 'lam':
        return 'λ%d.%s' % (t.a[0], show(t.a[1], d + 1))
    if op == 'bv':
        return 'b%d' % t.a[0]
    if op == 'sym':
        return ''.join(str(x) if not isinstance(x, T) else show(x) for x in t.a)
    if op == 'cat':
        return '⟨' + ' '.join(_showp(p, d + 1) for p in t.a) + '⟩'
    if op == 'agg':
        k = t.a[0]
        n = k[0] if k[0] != 'adt' else k[1].split('::')[-1] + '#' + str(k[2])
        return n + '(' + ', '.join(show(x, d + 1) for x in t.a[1:]) + ')'
    if op == 'fld':
        return show(t.a[0], d + 1) + '.' + (str(t.a[1]) + ':' if t.a[1] else '') + str(t.a[2])
    if op == 'elem':
        return show(t.a[0], d + 1) + '[' + show(t.a[1], d + 1) + ']'
    if op == 'deref':
        return '*' + show(t.a[0], d + 1)
    if op == 'len':
        return '#' + show(t.a[0], d + 1)
    return op + '(' + ', '.join(show(x, d + 1) for x in t.a) + ')'

def _showp(p, d):
    if p[0] == 'u':
        return show(p[1], d)
    if p[0] == 'seq':
        return '..' + show(p[1], d)
    return p[0] + '(' + ', '.join(show(x, d) for x in p[1:]) + ')'
