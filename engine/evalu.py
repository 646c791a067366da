"""Random interpretation of value-graph terms (Gulwani and Necula): the value of a term under one
valuation of its free symbols.  Used to decide whether two value numbers, or a value number and
its specification, can differ when their normal forms do not settle it."""
import struct
from fractions import Fraction
from terms import *
import terms
from interp import INT_RANGE

class Abstain(Exception):
    """the valuation gives no verdict (opaque operation, budget, undefined value)"""

class A:
    """structure, enumeration value or tuple"""
    __slots__ = ('path', 'v', 'fs')
    def __init__(self, path, v, fs):
        self.path = path
        self.v = v
        self.fs = tuple(fs)
    def __eq__(self, o):
        return isinstance(o, A) and self.v == o.v and self.fs == o.fs
    def __ne__(self, o):
        return not self == o
    def __hash__(self):
        return hash((self.v, self.fs))
    def __repr__(self):
        n = self.path.split('::')[-1] if self.path else ''
        return '%s#%d(%s)' % (n, self.v, ', '.join(repr(x)[:200] for x in self.fs))

class Obj:
    """a memory object: identity and initial value"""
    __slots__ = ('val', 'name')
    def __init__(self, val, name=''):
        self.val = val
        self.name = name
    def __repr__(self):
        return '@' + (self.name or hex(id(self))[-5:])

class Ptr:
    __slots__ = ('obj', 'projs')
    def __init__(self, obj, projs=()):
        self.obj = obj
        self.projs = tuple(projs)
    def __eq__(self, o):
        return isinstance(o, Ptr) and self.obj is o.obj and self.projs == o.projs
    def __hash__(self):
        return hash((id(self.obj), self.projs))
    def __repr__(self):
        return '&%r%s' % (self.obj, self.projs or '')

class FileObj:
    """file on the disk as seen at the entry"""
    __slots__ = ('data', 'pos', 'name')
    def __init__(self, data=(), pos=0, name='file'):
        self.data = data if isinstance(data, tuple) else tuple(data)
        self.pos = pos
        self.name = name
    def __repr__(self):
        return 'File(%s)' % self.name

class FV:
    """current state of a file handle: object, log of effects, position"""
    __slots__ = ('f', 'log', 'pos')
    def __init__(self, f, log, pos):
        self.f, self.log, self.pos = f, log, pos
    def __eq__(self, o):
        return isinstance(o, FV) and self.f is o.f and self.log == o.log and self.pos == o.pos
    def __hash__(self):
        return hash((id(self.f), self.log))
    def __repr__(self):
        return 'FV(%r,%d,%r)' % (self.f, len(self.log), self.pos)

class Fl:
    """floating point value by its bits"""
    __slots__ = ('w', 'bits')
    def __init__(self, w, bits):
        self.w, self.bits = w, bits
    def __eq__(self, o):
        return isinstance(o, Fl) and self.w == o.w and self.bits == o.bits
    def __hash__(self):
        return hash((self.w, self.bits))
    def val(self):
        return struct.unpack('>f' if self.w == 4 else '>d', self.bits.to_bytes(self.w, 'big'))[0]
    def __repr__(self):
        return 'f%d:%x' % (8 * self.w, self.bits)

class Inf:
    """infinite sequence"""
    def __init__(self, f):
        self.f = f
    def __getitem__(self, i):
        if isinstance(i, slice):
            return tuple(self.f(j) for j in range(i.start or 0, i.stop))
        return self.f(i)

class Sym:
    """opaque constant"""
    __slots__ = ('what',)
    def __init__(self, what):
        self.what = what
    def __eq__(self, o):
        return isinstance(o, Sym)
    def __hash__(self):
        return 7
    def __repr__(self):
        return '?' + str(self.what)[:30]

class Junk(A):
    """undefined value"""
    __slots__ = ()
    def __init__(self):
        A.__init__(self, 'junk', 99, ())

SOME = lambda x: A('Option', 1, (x,))
NONE_ = A('Option', 0, ())
OK = lambda x: A('Result', 0, (x,))
ERR = lambda x: A('Result', 1, (x,))
UNITV = A(None, 0, ())
def TUP(*x):
    return A(None, 0, x)
INFN = float('inf')
MAXSEQ = 400000

def world_default(kind, f, log, pos, args):
    return True

class World:
    """outside of the program: files by path and outcome of each operation"""
    def __init__(self, files=None, fault=None):
        self.files = files or {}       # path (bytes) -> FileObj
        self.fault = fault             # (kind, f, log, pos, args) -> True: this operation fails
        self.ops = {}                  # operations evaluated
        self.failed = []
        self.short = None              # (kind, n) -> number of bytes moved by a partial operation

def apply_log(f, log, start):
    """content of the file after the log: (bytearray, writes [(pos, byte)])"""
    data = bytearray(x & 255 for x in f.data)
    pos = start
    w = []
    for x in log:
        if isinstance(x, int):
            if pos is None:
                raise Abstain('write at an unknown position')
            if pos > 1 << 24:
                w.append((pos, x & 255))
            else:
                if pos >= len(data):
                    data.extend(bytes(pos + 1 - len(data)))
                data[pos] = x & 255
                w.append((pos, x & 255))
            pos += 1
        elif isinstance(x, tuple) and x[0] == 'seek':
            pos = x[1]
        elif isinstance(x, tuple) and x[0] == 'setlen':
            n = x[1]
            if n > 1 << 24:
                raise Abstain('large file')
            del data[n:]
            data.extend(bytes(n - len(data)))
            w.append(('setlen', n))
        elif isinstance(x, tuple) and x[0] == 'partial':
            w.append(('partial', pos))
            pos = None
        else:
            raise Abstain('log item %r' % (x,))
    return data, w

class Ev:
    def __init__(self, I, env, world, summaries=None, junk=0, budget=3000000, depth=0):
        self.I = I
        self.F = I.F
        self.env = dict(env)           # T -> value
        self.world = world
        self.sums = summaries or (lambda name: None)
        self.memo = {}
        self.junk = junk
        self.budget = budget
        self.steps = 0
        self.rcs = {}
        self.apps = {}
        self.depth = depth
        self.locals = {}
        self.final = {}
        self.symkey = {}
        self.foldkey = {}
        self.folds = {}

    # ------------------------------------------------------------------
    def ev(self, t, env=None):
        if env is None:
            env = self.env
        fs = syms(t)
        if fs:
            ks = self.symkey.get(fs)
            if ks is None:
                ks = tuple(sorted(fs, key=lambda x: x.id))
                self.symkey[fs] = ks
            key = (t.id,) + tuple(self.hk(env.get(x)) for x in ks)
        else:
            key = t.id
        r = self.memo.get(key, self)
        if r is not self:
            return r
        self.steps += 1
        if self.steps > self.budget:
            raise Abstain('budget')
        m = getattr(self, 'o_' + t.op, None)
        if m is None:
            raise Abstain('op ' + t.op)
        r = m(t, env, *t.a)
        self.memo[key] = r
        return r

    def hk(self, v):
        if isinstance(v, (int, Ptr)) or v is None:
            return v
        return self.ident(v)

    def ident(self, v):
        try:
            return ('h', v)
        except TypeError:
            return id(v)

    def jint(self, t):
        return 7770000000 + (t.id * 2654435761 + self.junk * 40503) % 100000 if t is not None else 7770000000

    def undef(self, t):
        raise Abstain('undefined %s' % t.op)

    def as_int(self, v, t=None):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            return v
        if isinstance(v, Junk) or v is None:
            return self.jint(t)
        raise Abstain('int expected: %r' % (v,))

    # booleans
    def o_true(self, t, env):
        return True
    def o_false(self, t, env):
        return False
    def o_undef(self, t, env):
        return JUNK
    def truth(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return v != 0
        if isinstance(v, Junk):
            return bool(self.junk)
        raise Abstain('bool expected: %r' % (v,))
    def o_B(self, t, env, a, h, l):
        while True:
            x = h if self.truth(self.ev(a, env)) else l
            if x.op != 'B':
                return x.op == 'true'
            a, h, l = x.a
    def o_ite(self, t, env, a, h, l):
        return self.ev(h if self.truth(self.ev(a, env)) else l, env)
    o_mix = o_ite
    def o_le0(self, t, env, p):
        return self.ev(p, env) <= 0
    def o_eq0(self, t, env, p):
        return self.ev(p, env) == 0
    def o_ind(self, t, env, f):
        return 1 if self.truth(self.ev(f, env)) else 0
    def o_res(self, t, env, b, m, k):
        return self.ev(b, env) % m == k

    # integers
    def o_poly(self, t, env, ms):
        r = 0
        for m, c in ms:
            x = c
            for y in m:
                if y.op == 'ind':
                    if not self.truth(self.ev(y.a[0], env)):
                        x = 0
                        break
            if x != 0:
                for y in m:
                    if y.op != 'ind':
                        v = self.ev(y, env)
                        if type(v) is not int and v is not INFN and type(v) is not Fraction:
                            v = self.as_int(v, y)
                        x = x * v
            r += x
        if isinstance(r, Fraction):
            if r.denominator != 1:
                return r
            r = r.numerator
        return r
    def o_min0(self, t, env, p):
        return min(self.ev(p, env), 0)
    def o_mod(self, t, env, p, m):
        m = m if isinstance(m, int) else self.ev(m, env)
        if m == 0:
            return self.jint(t)
        return self.ev(p, env) % m
    def o_div(self, t, env, p, m):
        m = m if isinstance(m, int) else self.ev(m, env)
        if m == 0:
            return self.jint(t)
        return self.ev(p, env) // m
    def o_rem(self, t, env, a, b):
        x, y = self.ev(a, env), self.ev(b, env)
        if y == 0:
            return self.jint(t)
        r = abs(x) % abs(y)
        return r if x >= 0 else -r
    def o_quot(self, t, env, a, b):
        x, y = self.ev(a, env), self.ev(b, env)
        if y == 0:
            return self.jint(t)
        q = abs(x) // abs(y)
        return q if (x >= 0) == (y >= 0) else -q
    def o_divceil(self, t, env, a, b):
        y = self.ev(b, env)
        return -(-self.ev(a, env) // y) if y else self.jint(t)
    def o_nextmul(self, t, env, a, b):
        y = self.ev(b, env)
        return -(-self.ev(a, env) // y) * y if y else self.jint(t)
    def o_pow(self, t, env, a, b):
        y = self.ev(b, env)
        if y > 4096:
            raise Abstain('pow')
        return self.ev(a, env) ** y
    def o_ovf(self, t, env, name, p):
        lo, hi = INT_RANGE[name]
        v = self.ev(p, env)
        return not (lo <= v <= hi)
    def o_cast(self, t, env, name, p):
        lo, hi = INT_RANGE[name]
        v = self.ev(p, env)
        if isinstance(v, Fl):
            raise Abstain('float cast')
        return (v - lo) % (hi - lo + 1) + lo
    o_wrap = o_cast
    def o_sat(self, t, env, name, p):
        lo, hi = INT_RANGE[name]
        return max(lo, min(hi, self.ev(p, env)))
    def o_sum(self, t, env, n, l):
        return sum(self.as_int(self.app1(l, i, env)) for i in range(self.count(n, env)))
    def o_prod(self, t, env, n, l):
        r = 1
        for i in range(self.count(n, env)):
            r *= self.as_int(self.app1(l, i, env))
        return r
    def count(self, n, env):
        c = self.ev(n, env)
        if c == INFN:
            return 10 ** 9
        if c > MAXSEQ:
            raise Abstain('long loop')
        return max(int(c), 0)
    def o_exists(self, t, env, n, l):
        c = self.ev(n, env)
        i = 0
        while i < c:
            if self.truth(self.app1(l, i, env)):
                return True
            i += 1
            if i > 5000 and (c == INFN or c > MAXSEQ):
                raise Abstain('long loop')
        return False
    def o_first(self, t, env, n, l):
        c = self.ev(n, env)
        i = 0
        while i < c:
            if self.truth(self.app1(l, i, env)):
                return i
            i += 1
            if i > MAXSEQ:
                raise Abstain('long search')
        return i if c != INFN else self.jint(t)
    def app1(self, l, i, env):
        e = dict(env)
        e[mk('bv', l.a[0])] = i
        return self.ev(l.a[1], e)
    def o_fold(self, t, env, n, l, v0):
        c = self.count(n, env)
        bv, bm = mk('bv', l.a[0]), mk('bvm', l.a[0])
        key = self.foldkey.get((l, v0))
        if key is None:
            key = tuple(sorted((syms(l) | syms(v0)) - {bv, bm}, key=lambda x: x.id))
            self.foldkey[(l, v0)] = key
        try:
            k = (l.id, v0.id) + tuple(self.hk(env.get(x)) for x in key)
            pre = self.folds.get(k)
        except TypeError:
            k = pre = None
        if pre is None:
            pre = [self.ev(v0, env)]
            if k is not None:
                self.folds[k] = pre
        if len(pre) <= c:
            e = dict(env)
            for i in range(len(pre) - 1, c):
                e[bv] = i
                e[bm] = pre[i]
                pre.append(self.ev(l.a[1], e))
        return pre[c]
    def o_bv(self, t, env, h):
        if t not in env:
            raise Abstain('free counter')
        return env[t]
    o_bvm = o_bv
    def o_sym(self, t, env, *a):
        if t in env:
            return env[t]
        if a and a[0] == 'inf':
            return INFN
        raise Abstain('free symbol')
    def o_lam(self, t, env, *a):
        raise Abstain('lambda')
    o_lam2 = o_lam

    # aggregates
    def o_agg(self, t, env, kind, *fs):
        k = kind[0]
        if k == 'file':
            f = self.ev(fs[0], env)
            return FV(f, self.ev(fs[1], env), self.ev(fs[2], env))
        vs = tuple(self.ev(x, env) for x in fs)
        if k == 'adt':
            return A(kind[1], kind[2], vs)
        if k == 'tuple':
            return A(None, 0, vs)
        return A(k + ':' + str(kind[1]) if len(kind) > 1 else k, 0, vs)
    def o_fld(self, t, env, b, v, i):
        x = self.ev(b, env)
        return self.field(x, v, i, t)
    def field(self, x, v, i, t=None):
        if isinstance(x, A) and not isinstance(x, Junk):
            if x.v == v and i < len(x.fs):
                return x.fs[i]
            return JUNK
        if isinstance(x, Junk):
            return JUNK
        raise Abstain('field of %r' % (x,))
    def o_fldx(self, t, env, b, i):
        x = self.ev(b, env)
        if isinstance(x, A) and not isinstance(x, Junk):
            return x.fs[i] if i < len(x.fs) else JUNK
        if isinstance(x, Junk):
            return JUNK
        raise Abstain('component of %r' % (x,))
    def o_lv(self, t, env, x, j):
        v = self.ev(x, env)
        if isinstance(v, Junk):
            return bool(self.junk)
        if isinstance(v, A):
            return v.v == j
        raise Abstain('variant of %r' % (v,))
    o_isv = o_lv
    def discr_of(self, v, ty):
        if isinstance(v, Junk):
            return 7770
        if not isinstance(v, A):
            raise Abstain('discriminant')
        if ty is None and v.path:
            try:
                ty = self.F.ty_of_adt(v.path)
            except Exception:
                ty = None
        if ty is None:
            return v.v
        vs = self.F.variants(ty)
        return vs[v.v]['d']
    def o_discr(self, t, env, x):
        return self.discr_of(self.ev(x, env), x.ty)
    o_dv = o_discr
    def o_isd(self, t, env, x, d):
        return self.discr_of(self.ev(x, env), x.ty) == d

    # pointers
    def o_arg(self, t, env, *a):
        if t in env:
            return env[t]
        raise Abstain('argument without value')
    def o_heap(self, t, env, p):
        return self.ev(p, env)
    def o_loc(self, t, env, *a):
        o = self.locals.get(t)
        if o is None:
            o = Obj(JUNK, 'local')
            o.name = t
            self.locals[t] = o
        return Ptr(o)
    o_pl = o_clo = o_tmpval = o_loc
    def o_cst(self, t, env, v):
        return Ptr(Obj(self.ev(v, env), 'cst'))
    def o_ref(self, t, env, root, projs):
        b = self.ev(root, env)
        if isinstance(b, Junk):
            return JUNK
        if not isinstance(b, Ptr):
            raise Abstain('reference into %r' % (b,))
        return Ptr(b.obj, b.projs + tuple(self.projv(p, env) for p in projs))
    def projv(self, p, env):
        if p[0] == 'f':
            return ('f', p[1], p[2])
        if p[0] == 'idx':
            return ('idx', self.ev(p[1], env))
        if p[0] == 'sl':
            return ('sl', self.ev(p[1], env), None if p[2] is None else self.ev(p[2], env))
        raise Abstain('projection')
    def project(self, v, projs):
        for p in projs:
            if isinstance(v, Junk):
                return v
            if p[0] == 'f':
                if isinstance(v, A):
                    v = self.field(v, p[1], p[2])
                else:
                    raise Abstain('projection of %r' % (v,))
            elif p[0] == 'idx':
                if isinstance(v, Inf) or 0 <= p[1] < len(v):
                    v = v[p[1]]
                else:
                    v = JUNK
            else:
                a, b = p[1], p[2]
                v = v[a:(len(v) if b is None else b)]
        return v
    def o_deref(self, t, env, p):
        x = self.ev(p, env)
        if isinstance(x, Ptr):
            if isinstance(x.obj.name, T):
                raise Abstain('initial content of a local')
            return self.project(x.obj.val, x.projs)
        if isinstance(x, Junk):
            return JUNK
        return x      # a reference to a value kept as the value
    def o_rcnew(self, t, env, rid, v):
        k = self.rckey(rid, env)
        o = self.rcs.get(k)
        if o is None:
            o = Obj(None, 'new')
            self.rcs[k] = o
            o.val = self.ev(v, env)
        return Ptr(o)
    def rckey(self, x, env):
        if isinstance(x, T):
            if x.op in ('rcid', 'frame', 'frame0', 'site'):
                return (x.op,) + tuple(self.rckey(y, env) for y in x.a)
            return self.hk(self.ev(x, env)) if syms(x) else x.id
        if isinstance(x, tuple):
            return tuple(self.rckey(y, env) for y in x)
        return x
    def o_peq(self, t, env, a, b):
        x, y = self.ev(a, env), self.ev(b, env)
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            return x.obj is y.obj and x.projs == y.projs
        raise Abstain('peq')
    def o_asref(self, t, env, x):
        return self.ev(x, env)

    # sequences
    def o_cat(self, t, env, *ps):
        out = []
        for i, p in enumerate(ps):
            k = p[0]
            if k == 'u':
                out.append(self.item(self.ev(p[1], env)))
            elif k == 'be':
                out.extend(self.tobytes(self.ev(p[1], env), p[2]))
            elif k == 'rep':
                n = self.ev(p[2], env)
                if n == INFN:
                    x = self.item(self.ev(p[1], env))
                    return self.inf(out, lambda j: x)
                if n > MAXSEQ:
                    raise Abstain('long sequence')
                if n > 0:
                    out.extend([self.item(self.ev(p[1], env))] * int(n))
            elif k == 'seq':
                out.extend(self.seqv(self.ev(p[1], env)))
            elif k == 'sub':
                s = self.seqv(self.ev(p[1], env))
                a, b = self.ev(p[2], env), self.ev(p[3], env)
                if isinstance(s, Inf):
                    out.extend(s[a:b])
                elif a < b:
                    if b > len(s):
                        if b - a > MAXSEQ:
                            raise Abstain('long slice')
                        out.extend(s[a:b])
                        out.extend([JUNK] * (b - max(a, len(s))))
                    else:
                        out.extend(s[a:b])
            elif k == 'map':
                n = self.ev(p[1], env)
                l = p[2]
                if n == INFN:
                    return self.inf(out, lambda j: self.app1(l, j, env)[0])
                if n > MAXSEQ:
                    raise Abstain('long sequence')
                bv = mk('bv', l.a[0])
                e = dict(env)
                for j in range(int(n)):
                    e[bv] = j
                    out.extend(self.seqv(self.ev(l.a[1], dict(e))))
            elif k == 'iteq':
                out.extend(self.seqv(self.ev(p[2] if self.truth(self.ev(p[1], env)) else p[3], env)))
            else:
                raise Abstain('piece ' + k)
        return tuple(out)
    def inf(self, out, f):
        out = list(out)
        return Inf(lambda j: out[j] if j < len(out) else f(j - len(out)))
    def item(self, v):
        return v
    def seqv(self, v):
        if isinstance(v, (tuple, Inf)):
            return v
        if isinstance(v, Ptr):
            return self.seqv(self.project(v.obj.val, v.projs))
        if isinstance(v, Junk):
            return ()
        raise Abstain('sequence expected: %r' % (v,))
    def tobytes(self, v, n):
        if isinstance(v, Fl):
            v = v.bits
        if isinstance(v, Junk):
            return [v] * n
        v = self.as_int(v) & ((1 << (8 * n)) - 1)
        return list(v.to_bytes(n, 'big'))
    def o_len(self, t, env, s):
        v = self.seqv(self.ev(s, env))
        if isinstance(v, Inf):
            return INFN
        return len(v)
    def o_elem(self, t, env, s, i):
        v = self.seqv(self.ev(s, env))
        j = self.ev(i, env)
        if isinstance(v, Inf):
            return v[j]
        if 0 <= j < len(v):
            return v[j]
        return JUNK
    def o_cyc(self, t, env, s, k):
        v = self.seqv(self.ev(s, env))
        return v[self.ev(k, env) % len(v)] if v else JUNK
    def o_byte(self, t, env, x, n, i):
        j = self.ev(i, env)
        b = self.tobytes(self.ev(x, env), n)
        return b[j] if 0 <= j < n else JUNK
    def o_dec(self, t, env, name, s):
        v = self.seqv(self.ev(s, env))
        w = {'8': 1, '6': 2, '2': 4, '4': 8}[name[-1]]
        if any(isinstance(x, Junk) for x in v) or len(v) != w:
            return JUNK
        x = int.from_bytes(bytes(v), 'big')
        if name[0] == 'f':
            return Fl(w, x)
        lo, hi = INT_RANGE[name]
        return x - (1 << 8 * w) if x > hi else x
    def o_swapped(self, t, env, x):
        v = self.ev(x, env)
        raise Abstain('swapped')
    def o_tobe(self, t, env, x):
        n = self.I_intty(t)
        v = self.ev(x, env)
        w = {'8': 1, '6': 2, '2': 4, '4': 8}[n[-1]]
        y = int.from_bytes((v & ((1 << 8 * w) - 1)).to_bytes(w, 'little'), 'big')
        lo, hi = INT_RANGE[n]
        return y if y <= hi else y - (1 << 8 * w)
    def I_intty(self, t):
        n = terms.INTTY.get(t)
        if not n:
            raise Abstain('type')
        return n
    def o_fromle(self, t, env, n, x):
        v = self.seqv(self.ev(x, env))
        y = int.from_bytes(bytes(v), 'little')
        lo, hi = INT_RANGE[n]
        return y if y <= hi else y - (1 << 8 * len(v))
    def o_bits(self, t, env, x):
        v = self.ev(x, env)
        return v.bits if isinstance(v, Fl) else self.as_int(v, t)
    def o_fconst(self, t, env, w, bits):
        return Fl(w if w in (4, 8) else w // 8, bits)
    def o_isnan(self, t, env, x):
        v = self.ev(x, env).val()
        return v != v
    def o_fcmp(self, t, env, op, a, b):
        x, y = self.ev(a, env).val(), self.ev(b, env).val()
        return {'Eq': x == y, 'Ne': x != y, 'Lt': x < y, 'Le': x <= y, 'Gt': x > y, 'Ge': x >= y}[op]
    def o_fcast(self, t, env, ck, name, x):
        v = self.ev(x, env)
        if name in ('f32', 'f64'):
            w = 4 if name == 'f32' else 8
            f = v.val() if isinstance(v, Fl) else float(v)
            if f != f and isinstance(v, Fl):
                return v if v.w == w else Fl(w, 0x7fc00000 if w == 4 else 0x7ff8000000000000)
            try:
                return Fl(w, int.from_bytes(struct.pack('>f' if w == 4 else '>d', f), 'big'))
            except OverflowError:
                return Fl(w, (0x7f800000 if f > 0 else 0xff800000))
        f = v.val()
        lo, hi = INT_RANGE[name]
        if f != f:
            return 0
        if f in (INFN, -INFN):
            return hi if f > 0 else lo
        return max(lo, min(hi, int(f)))
    def o_fneg(self, t, env, x):
        v = self.ev(x, env)
        return Fl(v.w, v.bits ^ (1 << (8 * v.w - 1)))
    def o_fop(self, t, env, op, a, b):
        x, y = self.ev(a, env), self.ev(b, env)
        try:
            r = {'Add': lambda: x.val() + y.val(), 'Sub': lambda: x.val() - y.val(), 'Mul': lambda: x.val() * y.val(), 'Div': lambda: x.val() / y.val()}[op]()
            return Fl(x.w, int.from_bytes(struct.pack('>f' if x.w == 4 else '>d', r), 'big'))
        except (ZeroDivisionError, OverflowError, KeyError):
            raise Abstain('float operation')
    # equality
    def eqv(self, x, y):
        if isinstance(x, Junk) or isinstance(y, Junk):
            return bool(self.junk)
        if isinstance(x, Ptr):
            x = self.project(x.obj.val, x.projs)
            return self.eqv(x, y)
        if isinstance(y, Ptr):
            return self.eqv(x, self.project(y.obj.val, y.projs))
        if isinstance(x, Fl) and isinstance(y, Fl):
            return x.val() == y.val()
        if isinstance(x, A) and isinstance(y, A):
            return x.v == y.v and len(x.fs) == len(y.fs) and all(self.eqv(a, b) for a, b in zip(x.fs, y.fs))
        if isinstance(x, tuple) and isinstance(y, tuple):
            return len(x) == len(y) and all(self.eqv(a, b) for a, b in zip(x, y))
        if isinstance(x, (int, frozenset)) and isinstance(y, (int, frozenset)):
            return x == y
        if isinstance(x, Sym) or isinstance(y, Sym):
            raise Abstain('comparison of an opaque value')
        raise Abstain('comparison')
    def o_eq(self, t, env, a, b):
        return self.eqv(self.ev(a, env), self.ev(b, env))
    o_seqeq = o_eq
    def o_prefix(self, t, env, v, p):
        x, y = self.seqv(self.ev(v, env)), self.seqv(self.ev(p, env))
        n = min(len(x), len(y))
        return x[:n] == y[:n]
    def ordkey(self, x):
        if isinstance(x, Ptr):
            return self.ordkey(self.project(x.obj.val, x.projs))
        if isinstance(x, tuple):
            return tuple(self.ordkey(y) for y in x)
        if isinstance(x, A):
            return (x.v,) + tuple(self.ordkey(y) for y in x.fs)
        if isinstance(x, int):
            return x
        if isinstance(x, Fl):
            return x.val()
        raise Abstain('order')
    def o_cmp(self, t, env, name, a, b):
        x, y = self.ordkey(self.ev(a, env)), self.ordkey(self.ev(b, env))
        return {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[name]
    def o_cmpv(self, t, env, a, b):
        x, y = self.ordkey(self.ev(a, env)), self.ordkey(self.ev(b, env))
        return A('Ordering', 0 if x < y else (1 if x == y else 2), ())
    def o_best(self, t, env, w, s):
        v = self.seqv(self.ev(s, env))
        if not v:
            return JUNK
        b = v[0]
        for x in v[1:]:
            if w == 'min' and self.ordkey(x) < self.ordkey(b):
                b = x
            if w == 'max' and self.ordkey(x) >= self.ordkey(b):
                b = x
        return b

    def o_argbest(self, t, env, w, s):
        v = self.seqv(self.ev(s, env))
        if not v:
            return self.jint(t)
        b = 0
        for i in range(1, len(v)):
            if w == 'min' and self.ordkey(v[i]) < self.ordkey(v[b]):
                b = i
            if w == 'max' and self.ordkey(v[i]) >= self.ordkey(v[b]):
                b = i
        return b
    def o_sorted(self, t, env, s):
        return tuple(sorted(self.seqv(self.ev(s, env)), key=self.ordkey))
    def o_bit(self, t, env, op, a, b):
        x, y = self.ev(a, env), self.ev(b, env)
        if isinstance(x, bool) and isinstance(y, bool):
            return {'BitAnd': x and y, 'BitOr': x or y, 'BitXor': x != y}[op]
        x, y = self.as_int(x, t), self.as_int(y, t)
        lo, hi = INT_RANGE[self.I_intty(t)]
        if op == 'BitAnd':
            r = x & y
        elif op == 'BitOr':
            r = x | y
        elif op == 'BitXor':
            r = x ^ y
        elif op in ('Shl', 'Shr'):
            w = (hi - lo + 1).bit_length() - 1
            if not 0 <= y < w:
                return self.jint(t)
            r = x << y if op == 'Shl' else x >> y
        else:
            raise Abstain('operator ' + op)
        return (r - lo) % (hi - lo + 1) + lo
    def o_bitnot(self, t, env, x):
        v = self.ev(x, env)
        n = terms.INTTY.get(t)
        if not n:
            raise Abstain('type')
        lo, hi = INT_RANGE[n]
        return (-1 - v) if lo < 0 else hi - v

    # text
    def text(self, v):
        v = self.seqv(v)
        try:
            return bytes(v)
        except (TypeError, ValueError):
            raise Abstain('text')
    def o_chars(self, t, env, s):
        try:
            return tuple(ord(c) for c in self.text(self.ev(s, env)).decode('utf-8'))
        except UnicodeDecodeError:
            return ()
    def o_utf8ok(self, t, env, s):
        try:
            self.text(self.ev(s, env)).decode('utf-8')
            return True
        except UnicodeDecodeError:
            return False
    def o_strascii(self, t, env, s):
        return all(x < 128 for x in self.text(self.ev(s, env)))
    def o_len_utf8(self, t, env, c):
        v = self.ev(c, env)
        return 1 if v < 0x80 else 2 if v < 0x800 else 3 if v < 0x10000 else 4
    def o_chp(self, t, env, name, c):
        ch = chr(self.ev(c, env))
        return {'is_ascii': ch.isascii(), 'is_alphanumeric': ch.isalnum(), 'is_alphabetic': ch.isalpha(), 'is_numeric': ch.isnumeric(),
                'is_whitespace': ch.isspace(), 'is_control': ord(ch) < 32 or 127 <= ord(ch) < 160}[name]
    def o_lossy(self, t, env, s):
        return tuple(self.text(self.ev(s, env)).decode('utf-8', 'replace').encode())
    # opaque constants
    def opaque(self, t, env, *a):
        return Sym(t.op)
    o_utf8err = o_tryfromint = o_nomkind = o_needed = o_zst = o_fnitem = o_pyfn = o_subs = opaque
    def o_constant(self, t, env, s):
        return Sym(s)
    def o_default(self, t, env, ty):
        raise Abstain('default')
    def o_garbage(self, t, env):
        return (self.junk * 37) % 256

    # sets
    def o_set(self, t, env, l, n):
        return frozenset(i for i in range(self.count(n, env)) if self.truth(self.app1(l, i, env)))
    def o_setof(self, t, env, s):
        try:
            return frozenset(self.seqv(self.ev(s, env)))
        except TypeError:
            raise Abstain('set')
    def o_mem(self, t, env, v, k):
        return self.ev(k, env) in self.setv(self.ev(v, env))
    def setv(self, v):
        if isinstance(v, frozenset):
            return v
        if isinstance(v, tuple):
            return frozenset(v)
        raise Abstain('set expected')
    def o_setbound(self, t, env, v):
        s = self.setv(self.ev(v, env))
        return max(s) + 1 if s else 0
    def o_bnd(self, t, env, s):
        v = self.seqv(self.ev(s, env))
        return max(v) + 1 if v else 0
    def o_card(self, t, env, v):
        return len(self.setv(self.ev(v, env)))

    # files
    def o_fh(self, t, env, f):
        return self.ev(f, env)
    def o_fpos(self, t, env, f):
        x = self.ev(f, env)
        return x.pos if isinstance(x, FileObj) else x.pos
    def o_content(self, t, env, f):
        x = self.ev(f, env)
        if isinstance(x, FV):
            x = x.f
        return x.data
    def o_flen(self, t, env, f, log):
        x = self.ev(f, env)
        l = self.ev(log, env)
        if all(isinstance(y, tuple) and y[0] == 'seek' for y in l):
            return len(x.data)
        d, w = apply_log(x, l, x.pos)
        n = len(d)
        for p in w:
            if isinstance(p[0], int):
                n = max(n, p[0] + 1)
        return n
    def o_file(self, t, env, flags, path):
        p = self.bytes_path(self.ev(path, env))
        fl = self.flags(flags, env)
        k = ('file', p, fl)
        f = self.rcs.get(k)
        if f is None:
            g = self.world.files.get(p)
            if g is None:
                f = FileObj((), 0, p)
            else:
                f = FileObj(() if fl[3] else g.data, 0, p)
            self.rcs[k] = f
        return f
    def flags(self, flags, env):
        if flags == 'r':
            return (True, False, False, False, False, False)
        return tuple(self.truth(x) for x in self.ev(flags, env).fs)
    def bytes_path(self, v):
        if isinstance(v, Ptr):
            v = self.project(v.obj.val, v.projs)
        return bytes(v)
    def o_pathof(self, t, env, x):
        return self.seqv(self.ev(x, env))
    def o_pathlen(self, t, env, q):
        f = self.world.files.get(self.bytes_path(self.ev(q, env)))
        return len(f.data) if f is not None else 0
    def o_exists_path(self, t, env, q):
        return self.bytes_path(self.ev(q, env)) in self.world.files
    def o_pathjoin(self, t, env, a, b):
        x, y = self.seqv(self.ev(a, env)), self.seqv(self.ev(b, env))
        if y[:1] == (47,):
            return y
        return x + ((47,) if x[-1:] != (47,) else ()) + y
    def o_iook(self, t, env, kind, *a):
        vs = []
        for i, x in enumerate(a):
            vs.append(self.ev(x, env) if isinstance(x, T) else x)
        return self.io(kind, vs)
    def io(self, kind, vs):
        w = self.world
        fail = None
        if kind == 'open':
            p = self.bytes_path(vs[1])
            fl = tuple(self.truth(x) for x in vs[0].fs)
            if p not in w.files and not (fl[4] or fl[5]):
                fail = 'NotFound'
            if p in w.files and fl[5]:
                fail = 'AlreadyExists'
            if not (fl[0] or fl[1] or fl[2]):
                fail = 'InvalidInput'
            if fl[3] and not fl[1]:
                fail = 'InvalidInput'
            if (fl[4] or fl[5]) and not (fl[1] or fl[2]):
                fail = 'InvalidInput'
            key = ('open', p, fl)
        elif kind in ('readall', 'fsmetadata'):
            p = self.bytes_path(vs[0])
            if p not in w.files:
                fail = 'NotFound'
            key = (kind, p)
        else:
            f, log = vs[0], vs[1]
            pos = vs[2] if len(vs) > 2 else None
            args = vs[3:]
            key = (kind, id(f), len(log), pos) + tuple(x if isinstance(x, (int, tuple)) else None for x in args)
            if kind == 'read':
                n = args[0]
                if pos + n > self.flen_now(f, log):
                    fail = 'UnexpectedEof'
            elif kind == 'seek':
                if args[0] < 0 or args[0] >= 1 << 63:
                    fail = 'InvalidInput'
            elif kind == 'write' or kind == 'write_all':
                if pos is not None and pos + len(args[0]) >= 1 << 63:
                    fail = 'InvalidInput'
        if fail is None and w.fault is not None and w.fault(kind, key, vs):
            fail = 'Other'
        w.ops[key] = fail
        if fail:
            return False
        return True
    def io_key(self, kind, vs):
        if kind == 'open':
            return ('open', self.bytes_path(vs[1]), tuple(self.truth(x) for x in vs[0].fs))
        if kind in ('readall', 'fsmetadata'):
            return (kind, self.bytes_path(vs[0]))
        return (kind, id(vs[0]), len(vs[1]), vs[2] if len(vs) > 2 else None) + tuple(x if isinstance(x, (int, tuple)) else None for x in vs[3:])
    def io_done(self, S):
        """keys of the file operations executed"""
        r = []
        for e, env, ev in self.happening(S, ('io',))[0]:
            vs = [ev.ev(x, env) if isinstance(x, T) else x for x in e['data'][1:]]
            r.append(ev.io_key(e['data'][0], vs))
        return r
    def flen_now(self, f, log):
        if all(isinstance(y, tuple) and y[0] == 'seek' for y in log):
            return len(f.data)
        d, ws = apply_log(f, log, f.pos)
        n = len(d)
        for p in ws:
            if isinstance(p[0], int):
                n = max(n, p[0] + 1)
        return n
    def o_nread(self, t, env, v, n):
        x = self.ev(v, env)
        m = max(0, min(self.ev(n, env), len(x.f.data) - x.pos))
        return self.world.short('read', m) if self.world.short and m else m
    def o_nwritten(self, t, env, v, data):
        m = len(self.ev(data, env))
        return self.world.short('write', m) if self.world.short and m else m
    def o_seek(self, t, env, p):
        return ('seek', self.ev(p, env))
    def o_partial(self, t, env, d):
        return ('partial', self.ev(d, env))
    def o_setlen(self, t, env, n):
        return ('setlen', self.ev(n, env))
    def o_errpos(self, t, env, v):
        return self.jint(t) % 1000
    def o_ioerr(self, t, env, x):
        if x.op == 'of':
            return A('io::Error', 0, (Sym('of ' + str(x.a[0])), self.errkind(x, env)))
        v = self.ev(x, env)
        return A('io::Error', 0, (Sym('made'), v))
    def errkind(self, x, env):
        kind = x.a[0]
        name = None
        try:
            vs = [self.ev(y, env) if isinstance(y, T) else y for y in x.a[1:]]
            if kind == 'open':
                key = ('open', self.bytes_path(vs[1]), tuple(self.truth(y) for y in vs[0].fs))
                name = self.world.ops.get(key)
            elif kind == 'read':
                f, pos, n = vs
                name = 'UnexpectedEof' if pos + n > len(f.data) else 'Other'
            elif kind == 'seek':
                name = 'InvalidInput' if vs[-1] < 0 or vs[-1] >= 1 << 63 else 'Other'
        except (Abstain, ValueError, TypeError):
            pass
        name = name or 'Other'
        try:
            ty = self.F.ty_of_adt('std::io::ErrorKind')
            for j, v in enumerate(self.F.variants(ty)):
                if v['n'] == name:
                    return A('std::io::ErrorKind', j, ())
        except Exception:
            pass
        return Sym(name)
    def o_ekind(self, t, env, x):
        v = self.ev(x, env)
        if isinstance(v, A) and v.path == 'io::Error':
            return v.fs[1]
        if isinstance(v, Junk):
            return v
        return Sym('kind')
    def o_unk(self, t, env, name, *a):
        """library operation without a model in the summaries but with one on values"""
        import re
        n = re.sub(r'<[^<>]*>', '', re.sub(r'::<[^<>]*>', '', name)) if '<impl' not in name else name
        m = re.search(r'<impl ([^>]*)>::(\w+)$', name)
        if m:
            key = ('slice' if m.group(1).startswith('[') else m.group(1)) + '::' + m.group(2)
        else:
            key = '::'.join(n.split('::')[-2:])
        f = PURE.get(key)
        if f is None:
            raise Abstain('unmodelled operation ' + key)
        vs = [self.ev(x, env) if isinstance(x, T) else x for x in a]
        vs = [self.seqv(v) if isinstance(v, (tuple, Ptr)) and not isinstance(v, A) else v for v in vs]
        try:
            r = f(self, *vs)
        except (TypeError, ValueError, UnicodeDecodeError, AttributeError, IndexError):
            raise Abstain('operation ' + key)
        return r
    def o_unkmut(self, t, env, *a):
        raise Abstain('unmodelled operation')
    def o_tell(self, t, env, *a):
        raise Abstain('tell')

    # functions kept as symbols
    def o_app(self, t, env, name, *args):
        base, _, out = name.partition('!')
        vals = tuple(self.ev(x, env) for x in args)
        try:
            key = (base, vals)
            r = self.apps.get(key)
        except TypeError:
            key, r = None, None
        if r is None:
            r = self.call_summary(base, vals)
            if key is not None:
                self.apps[key] = r
        if out == '':
            return r[0]
        return r[1][int(out)]

    def call_summary(self, base, vals):
        S = self.sums(base)
        if S is None or self.depth > 12:
            raise Abstain('no summary for ' + base)
        ev, args = bind(S, vals, self.world, self.sums, self.junk, self.budget - self.steps, self.depth + 1, deep=True)
        ret = ev.ev(S.ret)
        outs = {}
        ev.finalise(S)
        new = {}
        for i, a in enumerate(args):
            if isinstance(a, Ptr):
                outs[i] = ev.escape(ev.final.get(a.obj, a.obj.val), new)
        ret = ev.escape(ret, new)
        self.steps += ev.steps
        return ret, outs

    def escape(self, v, new, d=0):
        """value leaving the call: the objects changed by the call are replaced by their new states"""
        if d > 40:
            raise Abstain('deep')
        if isinstance(v, Ptr):
            o = v.obj
            if isinstance(o, FileObj) or isinstance(o.name, T):
                return v
            n = new.get(o)
            if n is None:
                x = self.final.get(o, o.val)
                new[o] = o
                y = self.escape(x, new, d + 1)
                if y is not o.val and y != o.val:
                    n = new[o] = Obj(y, o.name)
                else:
                    n = o
            return v if n is o else Ptr(n, v.projs)
        if isinstance(v, Junk):
            return v
        if isinstance(v, A):
            fs = [self.escape(x, new, d + 1) for x in v.fs]
            return v if all(x is y for x, y in zip(fs, v.fs)) else A(v.path, v.v, fs)
        if isinstance(v, tuple) and not (v and isinstance(v[0], int)):
            fs = [self.escape(x, new, d + 1) for x in v]
            return v if all(x is y for x, y in zip(fs, v)) else tuple(fs)
        return v

    # ------------------------------------------------------------------ final memory
    def finalise(self, S):
        """content of every object after the call"""
        for root, x in S.mem.items():
            if root.op == 'heap':
                if any(y not in self.env and y.a[:1] != ('inf',) for y in syms(root)):
                    continue
                p = self.ev(root.a[0])
                if isinstance(p, FileObj):
                    self.final[p] = self.ev(x)
                    continue
                if not isinstance(p, Ptr):
                    continue
                v = self.ev(x)
                if p.projs:
                    self.final[p.obj] = self.put(self.final.get(p.obj, p.obj.val), p.projs, v)
                else:
                    self.final[p.obj] = v

    # ------------------------------------------------------------------ events
    def happening(self, S, kinds, limit=4000):
        """[(event, environment)] of the events of these kinds which happen under the valuation, those of
        the functions called included; second result: number of events whose condition is not decided"""
        out = []
        und = [0]
        for e in S.events:
            if e['kind'] != 'call' and e['kind'] not in kinds:
                continue
            try:
                self.enum(S, e, 0, self.env, kinds, out, [limit], und)
            except Abstain:
                und[0] += 1
        return out, und[0]

    def enum(self, S, e, i, env, kinds, out, left, und):
        if i == len(e['loops']):
            left[0] -= 1
            if left[0] < 0:
                raise Abstain('many iterations')
            if self.truth(self.ev(e['pc'], env)):
                if e['kind'] == 'call':
                    self.nested(e, env, kinds, out, und)
                else:
                    out.append((e, dict(env), self))
            return
        l = e['loops'][i]
        if not self.truth(self.ev(l.pc, env)):
            return
        n = self.ev(l.n, env) if l.n is not None else INFN
        j = 0
        while j <= n:
            e2 = dict(env)
            e2[l.k] = j
            self.enum(S, e, i + 1, e2, kinds, out, left, und)
            if l.early.op != 'false' and self.truth(self.ev(l.early, e2)):
                break
            j += 1

    def nested(self, e, env, kinds, out, und):
        name, args = e['data']
        vals = tuple(self.ev(x, env) for x in args)
        S = self.sums(name)
        if S is None or self.depth > 6:
            raise Abstain('no summary for ' + name)
        try:
            key = ('ev', name, vals, tuple(kinds))
            r = self.apps.get(key)
        except TypeError:
            key, r = None, None
        if r is None:
            ev, _ = bind(S, vals, self.world, self.sums, self.junk, self.budget, self.depth + 1, deep=True)
            r = ev.happening(S, kinds)
            if key is not None:
                self.apps[key] = r
        out.extend(r[0])
        und[0] += r[1]

    def put(self, v, projs, new):
        if not projs:
            return new
        p = projs[0]
        if p[0] == 'f':
            fs = list(v.fs)
            fs[p[2]] = self.put(fs[p[2]], projs[1:], new)
            return A(v.path, v.v, fs)
        if p[0] == 'idx':
            l = list(v)
            l[p[1]] = self.put(l[p[1]], projs[1:], new)
            return tuple(l)
        raise Abstain('put')

    def now(self, obj, S=None):
        if obj in self.final:
            return self.final[obj]
        if isinstance(obj, FileObj):
            return FV(obj, (), obj.pos)
        if isinstance(obj.name, T):
            x = S.mem.get(obj.name) if S is not None else None
            if x is None:
                raise Abstain('local')
            v = self.ev(x)
            self.final[obj] = v
            return v
        return obj.val

    def deep(self, v, S=None, d=0):
        """value with every pointer replaced by what it designates after the call"""
        if d > 60:
            raise Abstain('deep')
        if isinstance(v, Ptr):
            return self.deep(self.project(self.now(v.obj, S), v.projs), S, d + 1)
        if isinstance(v, Junk):
            return v
        if isinstance(v, A):
            return A(v.path, v.v, [self.deep(x, S, d + 1) for x in v.fs])
        if isinstance(v, tuple):
            if v and isinstance(v[0], int):
                return v
            return tuple(self.deep(x, S, d + 1) for x in v)
        if isinstance(v, Inf):
            raise Abstain('infinite')
        return v

JUNK = Junk()

class Summary:
    """value-graph summary of a function"""
    def __init__(self, name, I, fn, args, st, ret):
        self.name, self.I, self.fn, self.args, self.st, self.ret = name, I, fn, args, st, ret
        self.mem = {r: x for r, x in st.mem.items() if x is not I.init(r) or r.op != 'heap'}
        self.events = I.events
        self.unknown = I.unknown

def bind(S, vals, world, sums, junk=0, budget=3000000, depth=0, deep=False):
    """valuation of the arguments; with deep, references are given by what they designate"""
    env = {}
    args = []
    tys = S.I.F.types
    for i, v in enumerate(vals):
        t = tys[S.fn['locals'][i + 1]]
        a = mk('arg', S.fn['id'], i)
        if deep and t['k'] == 'ref' and not isinstance(v, Ptr):
            v = Ptr(Obj(v, 'arg%d' % i))
        args.append(v)
        env[a] = v
    return Ev(S.I, env, world, sums, junk, budget, depth), args

def _s(v):
    return bytes(v).decode('utf-8')
def _b(s):
    return tuple(s.encode('utf-8'))
def _pat(p):
    """pattern: text, a character or nothing known"""
    if isinstance(p, int):
        return chr(p)
    return _s(p)
WS = ' \t\n\x0b\x0c\r\x85\xa0\u1680\u2000\u2001\u2002\u2003\u2004\u2005\u2006\u2007\u2008\u2009\u200a\u2028\u2029\u202f\u205f\u3000'
AWS = b' \t\n\x0c\r'
def _lower(v):
    return tuple(x + 32 if 65 <= x <= 90 else x for x in v)
def _upper(v):
    return tuple(x - 32 if 97 <= x <= 122 else x for x in v)
PURE = {
    'slice::is_ascii': lambda E, v: all(x < 128 for x in v),
    'Cow::into_owned': lambda E, v: v,
    'str::starts_with': lambda E, v, p: _s(v).startswith(_pat(p)),
    'str::ends_with': lambda E, v, p: _s(v).endswith(_pat(p)),
    'str::trim': lambda E, v: _b(_s(v).strip(WS)),
    'str::trim_end': lambda E, v: _b(_s(v).rstrip(WS)),
    'str::trim_start': lambda E, v: _b(_s(v).lstrip(WS)),
    'str::trim_end_matches': lambda E, v, p: _b(_s(v).rstrip(_pat(p))) if isinstance(p, int) else (_ for _ in ()).throw(ValueError()),
    'str::trim_start_matches': lambda E, v, p: _b(_s(v).lstrip(_pat(p))) if isinstance(p, int) else (_ for _ in ()).throw(ValueError()),
    'str::eq_ignore_ascii_case': lambda E, v, p: _lower(v) == _lower(p),
    'str::to_ascii_lowercase': lambda E, v: _lower(v),
    'str::to_ascii_uppercase': lambda E, v: _upper(v),
    'slice::to_ascii_lowercase': lambda E, v: _lower(v),
    'slice::to_ascii_uppercase': lambda E, v: _upper(v),
    'str::to_lowercase': lambda E, v: _b(_s(v).lower()),
    'str::to_uppercase': lambda E, v: _b(_s(v).upper()),
    'str::replace': lambda E, v, a, b: _b(_s(v).replace(_pat(a), _pat(b))),
    'str::repeat': lambda E, v, n: tuple(v) * n,
    'str::find': lambda E, v, p: (lambda i: NONE_ if i < 0 else SOME(len(_s(v)[:i].encode())))(_s(v).find(_pat(p))),
    'str::is_char_boundary': lambda E, v, n: n == 0 or n == len(v) or (n < len(v) and not 128 <= v[n] < 192),
    'slice::ends_with': lambda E, v, p: len(p) <= len(v) and tuple(v[len(v) - len(p):]) == tuple(p),
    'slice::starts_with': lambda E, v, p: tuple(v[:len(p)]) == tuple(p),
    'char::to_ascii_lowercase': lambda E, c: c + 32 if 65 <= c <= 90 else c,
    'char::to_ascii_uppercase': lambda E, c: c - 32 if 97 <= c <= 122 else c,
    'char::is_lowercase': lambda E, c: chr(c).islower(),
    'char::is_uppercase': lambda E, c: chr(c).isupper(),
    'char::is_ascii_uppercase': lambda E, c: 65 <= c <= 90,
    'char::is_ascii_lowercase': lambda E, c: 97 <= c <= 122,
    'char::is_ascii_whitespace': lambda E, c: c < 128 and c in AWS,
    'char::is_ascii_hexdigit': lambda E, c: c < 128 and chr(c) in '0123456789abcdefABCDEF',
    'u8::is_ascii_whitespace': lambda E, c: c < 128 and c in AWS,
    'u8::is_ascii_digit': lambda E, c: 48 <= c <= 57,
    'u8::is_ascii_alphabetic': lambda E, c: 65 <= c <= 90 or 97 <= c <= 122,
    'u8::is_ascii_control': lambda E, c: c < 32 or c == 127,
    'u8::is_ascii_graphic': lambda E, c: 33 <= c <= 126,
    'u8::is_ascii_punctuation': lambda E, c: c < 128 and chr(c) in '!"#$%&\'()*+,-./:;<=>?@[\\]^_`{|}~',
    'usize::count_ones': lambda E, n: bin(n).count('1'),
    'usize::is_multiple_of': lambda E, n, m: n == 0 if m == 0 else n % m == 0,
    'usize::abs_diff': lambda E, n, m: abs(n - m),
    'i32::abs': lambda E, n: abs(n), 'i64::abs': lambda E, n: abs(n), 'i32::signum': lambda E, n: (n > 0) - (n < 0),
    'i32::is_negative': lambda E, n: n < 0, 'i64::is_negative': lambda E, n: n < 0, 'i32::is_positive': lambda E, n: n > 0,
    'i32::unsigned_abs': lambda E, n: abs(n), 'i64::unsigned_abs': lambda E, n: abs(n),
    'u32::swap_bytes': lambda E, n: int.from_bytes(n.to_bytes(4, 'big'), 'little'),
    'u32::leading_zeros': lambda E, n: 32 - n.bit_length(), 'usize::leading_zeros': lambda E, n: 64 - n.bit_length(), 'usize::trailing_zeros': lambda E, n: (n & -n).bit_length() - 1 if n else 64,
    'f32::is_finite': lambda E, v: abs(v.val()) != float('inf') and v.val() == v.val(), 'f64::is_finite': lambda E, v: abs(v.val()) != float('inf') and v.val() == v.val(),
    'f32::is_infinite': lambda E, v: abs(v.val()) == float('inf'), 'f64::is_infinite': lambda E, v: abs(v.val()) == float('inf'),
    'f32::is_sign_negative': lambda E, v: v.bits >> 31 == 1, 'f64::is_sign_negative': lambda E, v: v.bits >> 63 == 1,
}
