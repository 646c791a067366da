"""Summaries of the functions of the library, valuations of its types, and their abstraction."""
import os, sys, time, random
from terms import *
import interp, prims, terms
from dev import opaque_of
from evalu import *

class Missing(Exception):
    """a function or a field the rule needs is not there"""

DT = ('I8', 'U8', 'I16', 'I32', 'F32', 'F64')
TY = ('i8', 'u8', 'i16', 'i32', 'f32', 'f64')
SIZE = {'I8': 1, 'U8': 1, 'I16': 2, 'I32': 4, 'F32': 4, 'F64': 8}
CODE = {'I8': 1, 'U8': 2, 'I16': 3, 'I32': 4, 'F32': 5, 'F64': 6}

class Lib:
    def __init__(self, facts_path, exact=True):
        self.F = interp.Facts(facts_path)
        self.exact = exact
        self.byname = {}
        for f in self.F.raw['fns']:
            self.byname.setdefault(f['name'], f['id'])
        self.roots = {}
        for r in self.F.raw['roots']:
            self.roots[r['path']] = r
        self.sum = {}
        self.fail = {}
        self.adts = {a['path']: a for a in self.F.raw['adts']}
        self.analysed = 0
        self.wall = 0.0

    def fid(self, path):
        if path in self.roots and self.roots[path]['fn'] is not None:
            return self.roots[path]['fn']
        return self.byname.get(path)

    def summary(self, path):
        """value-graph summary of the function (None: not analysable)"""
        if path in self.sum:
            return self.sum[path]
        fid = self.fid(path)
        if fid is None:
            raise Missing('function ' + path)
        t = time.time()
        fn = self.F.fns[fid]
        I = interp.Interp(self.F, exact=self.exact)
        I.root_fid = fid
        for f in self.F.raw['fns']:
            if f['name'] in opaque_of(fn['name']):
                I.opaque[f['id']] = f['name']
        S = None
        try:
            st = interp.State({}, TRUE)
            args = []
            for i in range(fn['argc']):
                args.append(I.wrap(mk('arg', fid, i), fn['locals'][i + 1]))
            s, v = I.call_fn(st, fid, args, ('root',))
            S = Summary(fn['name'], I, fn, args, s, v)
            self.analysed += 1
        except Undecided as e:
            self.fail[path] = 'not summarised: %s' % str(e)[:200]
        except (RecursionError, MemoryError, KeyError, IndexError, AttributeError, TypeError, ValueError, AssertionError) as e:
            self.fail[path] = 'not summarised (%s: %s)' % (type(e).__name__, str(e)[:200])
        self.wall += time.time() - t
        self.sum[path] = S
        return S

    def sums(self, name):
        try:
            return self.summary(name)
        except Missing:
            return None

    # -------------------------------------------------------------- values of the types
    def fields(self, path):
        a = self.adts.get(path)
        if a is None:
            raise Missing('type ' + path)
        return self.F.types[a['ty']]['vs']

    def struct(self, path, **kw):
        vs = self.fields(path)
        names = [f[0] for f in vs[0]['f']]
        if set(names) != set(kw):
            raise Missing('fields of %s: %s' % (path, ', '.join(names)))
        return A(path, 0, [kw[n] for n in names])

    def variant(self, path, name, *fs):
        for j, v in enumerate(self.fields(path)):
            if v['n'] == name:
                if len(v['f']) != len(fs):
                    raise Missing('variant %s of %s' % (name, path))
                return A(path, j, fs)
        raise Missing('variant %s of %s' % (name, path))

    def vname(self, path, v):
        """name of the variant of an enumeration value"""
        if not isinstance(v, A) or isinstance(v, Junk):
            raise Abstain('variant of %r' % (v,))
        vs = self.fields(path)
        return vs[v.v]['n'] if v.v < len(vs) else '?'

    def get(self, path, v, name):
        for i, f in enumerate(self.fields(path)[0]['f']):
            if f[0] == name:
                if not isinstance(v, A) or isinstance(v, Junk) or i >= len(v.fs):
                    raise Abstain('field %s of %r' % (name, v))
                return v.fs[i]
        raise Missing('field %s of %s' % (name, path))

    def dtype(self, name):
        return self.variant('data_type::DataType', name)

    def dvec(self, dt, vals):
        return self.variant('data_vector::DataVector', dt, tuple(vals))

    # -------------------------------------------------------------- calls
    def call(self, path, vals, world=None, junk=0, budget=3000000):
        S = self.summary(path)
        if S is None:
            raise Abstain(self.fail.get(path, 'no summary'))
        return Call(self, S, vals, world or World(), junk, budget)

class Call:
    """the summary S under a valuation of its arguments (references: pointers to objects)"""
    def __init__(self, lib, S, vals, world, junk=0, budget=3000000):
        self.lib, self.S, self.world = lib, S, world
        if len(vals) != S.fn['argc']:
            raise Missing('arguments of ' + S.name)
        self.ev, self.args = bind(S, vals, world, lib.sums, junk, budget)
        self.raw = self.ev.ev(S.ret)
        self.ev.finalise(S)
    @property
    def ret(self):
        return self.ev.deep(self.raw, self.S)
    def now(self, obj):
        return self.ev.now(obj, self.S)
    def deep(self, v):
        return self.ev.deep(v, self.S)

def txt(s):
    return tuple(s.encode('utf-8') if isinstance(s, str) else s)

def ref(v, name=''):
    return Ptr(Obj(v, name))

D = 'data_set::DataSet'
V = 'data_set::variable::Variable'
AT = 'data_set::attribute::Attribute'
DI = 'data_set::dimension::Dimension'
DS = 'data_set::dimension::DimensionSize'

class M:
    """abstract data set: dims [(name, size or None)], nrec, unl (index of the unlimited dimension or None),
    attrs [(name, type, values)], vars [(name, type, [dimension index], unl?, [attrs])]"""
    def __init__(self, dims=(), nrec=0, unl=None, attrs=(), vars=()):
        self.dims, self.nrec, self.unl, self.attrs, self.vars = list(dims), nrec, unl, list(attrs), list(vars)
    def key(self):
        return (tuple(self.dims), self.nrec if self.unl is not None else None, self.unl, tuple(self.attrs), tuple((v[0], v[1], tuple(v[2]), v[3], tuple(v[4])) for v in self.vars))
    def copy(self):
        return M(self.dims, self.nrec, self.unl, self.attrs, [(v[0], v[1], list(v[2]), v[3], list(v[4])) for v in self.vars])
    def __repr__(self):
        def n(x):
            return bytes(x).decode('utf-8', 'replace') if isinstance(x, tuple) else repr(x)
        return 'dims=[%s] unl=%s nrec=%s attrs=[%s] vars=[%s]' % (', '.join('%s:%s' % (n(d), s) for d, s in self.dims), self.unl, self.nrec,
            ', '.join('%s:%s%s' % (n(a[0]), a[1], list(a[2])[:3]) for a in self.attrs),
            ', '.join('%s:%s%s%s{%s}' % (n(v[0]), v[1], v[2], 'u' if v[3] is not None else '', ','.join(n(a[0]) for a in v[4])) for v in self.vars))

def build_attr(L, a):
    return L.struct(AT, name=a[0], data=L.dvec(a[1], a[2]))

def build(L, m):
    """(value of the data set, its dimension objects)"""
    objs = []
    for i, (n, s) in enumerate(m.dims):
        size = L.variant(DS, 'Unlimited', m.nrec) if s is None else L.variant(DS, 'Fixed', s)
        objs.append(Obj(L.struct(DI, name=n, size=size), 'dim%d' % i))
    vs = []
    for n, t, ds, u, at in m.vars:
        vs.append(L.struct(V, name=n, unlimited_dim=SOME(Ptr(objs[u])) if u is not None else NONE_, dims=tuple(Ptr(objs[i]) for i in ds),
                           attrs=tuple(build_attr(L, a) for a in at), data_type=L.dtype(t)))
    v = L.struct(D, unlimited_dim=SOME(Ptr(objs[m.unl])) if m.unl is not None else NONE_, dims=tuple(Ptr(o) for o in objs),
                 attrs=tuple(build_attr(L, a) for a in m.attrs), vars=tuple(vs))
    return v, objs

def read_attr(L, c, v):
    d = L.get(AT, v, 'data')
    return (L.get(AT, v, 'name'), L.vname('data_vector::DataVector', d), d.fs[0])

def read(L, c, v):
    """abstraction of a data set value after the call c"""
    dims = L.get(D, v, 'dims')
    objs = []
    m = M()
    for p in dims:
        if not isinstance(p, Ptr) or p.projs:
            raise Abstain('dimension pointer')
        objs.append(p.obj)
        x = c.now(p.obj)
        s = L.get(DI, x, 'size')
        n = L.vname(DS, s)
        if n == 'Unlimited':
            m.nrec = s.fs[0]
        m.dims.append((L.get(DI, x, 'name'), None if n == 'Unlimited' else s.fs[0]))
    def idx(p):
        for i, o in enumerate(objs):
            if o is p.obj:
                return i
        x = c.now(p.obj)
        return ('foreign', L.get(DI, x, 'name'))
    def opt(o):
        return idx(o.fs[0]) if o.v == 1 else None
    u = L.get(D, v, 'unlimited_dim')
    m.unl = opt(u)
    m.attrs = [read_attr(L, c, a) for a in L.get(D, v, 'attrs')]
    for x in L.get(D, v, 'vars'):
        m.vars.append((L.get(V, x, 'name'), L.vname('data_type::DataType', L.get(V, x, 'data_type')), [idx(p) for p in L.get(V, x, 'dims')],
                       opt(L.get(V, x, 'unlimited_dim')), [read_attr(L, c, a) for a in L.get(V, x, 'attrs')]))
    return m
