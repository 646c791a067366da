"""Specification of the queries of data sets, variables, attributes, dimensions and vectors."""
from lib import *
import gen, par
from dsspec import *

DVP = 'data_vector::DataVector'
DTY = 'data_type::DataType'
VER = 'version::Version'

def utf8(v):
    try:
        bytes(v).decode('utf-8')
        return True
    except (UnicodeDecodeError, ValueError):
        return False

def opt(x, f=lambda y: y):
    return NONE_ if x is None else SOME(f(x))
def clen(m, v):
    r = 1
    for i in v[2]:
        if m.dims[i][1] is not None:
            r *= m.dims[i][1]
    return min(r, (1 << 64) - 1)
def sat(x):
    return min(x, (1 << 64) - 1)
def csize(m, v):
    b = sat(clen(m, v) * SIZE[v[1]])
    return sat(b + (-b) % 4)
def nchunks(m, v):
    return m.nrec if v[3] is not None else 1
def vlen(m, v):
    return sat(clen(m, v) * nchunks(m, v))

class Cx:
    """values of one valuation: data set m, its value v, its dimension objects, the language L"""
    def __init__(self, L, m):
        self.L, self.m = L, m
        self.v, self.objs = build(L, m)
        self.vars = L.get(D, self.v, 'vars')
        self.attrs = L.get(D, self.v, 'attrs')
    def vattrs(self, i):
        return self.L.get(V, self.vars[i], 'attrs')
    def dt(self, t):
        return self.L.dtype(t)
    def dtype_of_dim(self, d):
        return self.L.variant('data_set::dimension::DimensionType', 'UnlimitedSize' if d[1] is None else 'FixedSize')

def dsize(m, i):
    return m.nrec if m.dims[i][1] is None else m.dims[i][1]

def typed(a, t):
    """typed getter"""
    return SOME(tuple(a[2])) if a is not None and a[1] == t else NONE_
def string(a):
    return SOME(tuple(a[2])) if a is not None and a[1] == 'U8' and utf8(a[2]) else NONE_

# queries of the data set: name -> (generator, expected value)
Q = {}
def gn(f):
    return lambda r, m: [gen.other_name(r, f(m))]
def byname(find, lst, f):
    """answer about the item of that name"""
    def e(x, n):
        i = find(x.m, n)
        return NONE_ if i is None else SOME(f(x, i))
    return e
vn = lambda m: varnames(m)
dn = lambda m: dimnames(m)
an = lambda m: attnames(m.attrs)
def pickv(r, m):
    return [g_pick(r, varnames(m))]
def pickd(r, m):
    return [g_pick(r, dimnames(m))]
def picka(r, m):
    return [g_pick(r, attnames(m.attrs))]
def pickva(r, m):
    x = vname(r, m)
    return [x, g_pick(r, ofvar(m, x))]
no = lambda r, m: []

Q['num_dims'] = (no, lambda x: len(x.m.dims))
Q['has_dim'] = (pickd, lambda x, n: dim(x.m, n) is not None)
Q['get_dim'] = (pickd, byname(dim, None, lambda x, i: Ptr(x.objs[i])))
Q['get_dims'] = (no, lambda x: tuple(Ptr(o) for o in x.objs))
Q['dim_names'] = (no, lambda x: tuple(dimnames(x.m)))
Q['has_unlimited_dim'] = (no, lambda x: x.m.unl is not None)
Q['get_unlimited_dim'] = (no, lambda x: opt(x.m.unl, lambda i: Ptr(x.objs[i])))
Q['dim_size'] = (pickd, byname(dim, None, lambda x, i: dsize(x.m, i)))
Q['dim_type'] = (pickd, byname(dim, None, lambda x, i: x.dtype_of_dim(x.m.dims[i])))
def _gids(x, ids):
    if all(i < len(x.objs) for i in ids):
        return OK(tuple(Ptr(x.objs[i]) for i in ids))
    return 'Err'
Q['get_dims_from_dim_ids'] = (lambda r, m: [[r.randrange(len(m.dims) + (r.random() < 0.15)) for _ in range(r.randint(0, 3))] if m.dims else []], _gids)
Q['num_vars'] = (no, lambda x: len(x.m.vars))
Q['has_var'] = (pickv, lambda x, n: var(x.m, n) is not None)
Q['is_record_var'] = (pickv, byname(var, None, lambda x, i: x.m.vars[i][3] is not None))
Q['var_len'] = (pickv, byname(var, None, lambda x, i: vlen(x.m, x.m.vars[i])))
Q['var_data_type'] = (pickv, byname(var, None, lambda x, i: x.dt(x.m.vars[i][1])))
Q['get_var'] = (pickv, byname(var, None, lambda x, i: x.vars[i]))
Q['get_var_mut'] = (pickv, byname(var, None, lambda x, i: x.vars[i]))
Q['get_vars'] = (no, lambda x: x.vars)
Q['get_var_names'] = (no, lambda x: tuple(varnames(x.m)))
def _va(x, n, a):
    i = var(x.m, n)
    if i is None:
        return None, None
    return i, att(x.m.vars[i][4], a)
def vattr(f):
    def e(x, n, a):
        i, j = _va(x, n, a)
        return NONE_ if j is None else SOME(f(x, i, j))
    return e
def vat(x, n, a):
    i, j = _va(x, n, a)
    return None if j is None else x.m.vars[i][4][j]
Q['get_var_attr'] = (pickva, vattr(lambda x, i, j: x.vattrs(i)[j]))
Q['get_var_attr_len'] = (pickva, vattr(lambda x, i, j: len(x.m.vars[i][4][j][2])))
Q['get_var_attr_data_type'] = (pickva, vattr(lambda x, i, j: x.dt(x.m.vars[i][4][j][1])))
Q['get_var_attrs'] = (pickv, byname(var, None, lambda x, i: x.vattrs(i)))
Q['has_var_attr'] = (pickva, lambda x, n, a: NONE_ if var(x.m, n) is None else SOME(_va(x, n, a)[1] is not None))
Q['num_var_attrs'] = (pickv, byname(var, None, lambda x, i: len(x.m.vars[i][4])))
Q['get_global_attr'] = (picka, lambda x, a: opt(att(x.m.attrs, a), lambda i: x.attrs[i]))
Q['get_global_attrs'] = (no, lambda x: x.attrs)
Q['get_global_attr_len'] = (picka, lambda x, a: opt(att(x.m.attrs, a), lambda i: len(x.m.attrs[i][2])))
Q['get_global_attr_data_type'] = (picka, lambda x, a: opt(att(x.m.attrs, a), lambda i: x.dt(x.m.attrs[i][1])))
Q['num_global_attrs'] = (no, lambda x: len(x.m.attrs))
Q['has_global_attr'] = (picka, lambda x, a: att(x.m.attrs, a) is not None)
Q['get_global_attr_names'] = (no, lambda x: tuple(attnames(x.m.attrs)))
Q['record_size'] = (no, lambda x: NONE_ if x.m.unl is None else SOME(sat(sum(csize(x.m, v) for v in x.m.vars if v[3] is not None))))
Q['num_records'] = (no, lambda x: NONE_ if x.m.unl is None else SOME(x.m.nrec))
T6 = {}
def gat(x, a):
    i = att(x.m.attrs, a)
    return None if i is None else x.m.attrs[i]
for _T, _t in zip(DT, TY):
    T6['get_var_attr_' + _t] = (pickva, lambda x, n, a, T=_T: typed(vat(x, n, a), T))
    T6['get_global_attr_' + _t] = (picka, lambda x, a, T=_T: typed(gat(x, a), T))
T6['get_var_attr_as_string'] = (pickva, lambda x, n, a: string(vat(x, n, a)))
T6['get_global_attr_as_string'] = (picka, lambda x, a: string(gat(x, a)))

# queries of a variable (first argument: the index of the variable)
VQ = {}
def pk(r, m):
    return [r.randrange(len(m.vars))] if m.vars else None
def pkn(f):
    def g(r, m):
        if not m.vars:
            return None
        i = r.randrange(len(m.vars))
        return [i, g_pick(r, f(m, m.vars[i]))]
    return g
ofa = lambda m, v: attnames(v[4])
ofd = lambda m, v: [m.dims[i][0] for i in v[2]] or dimnames(m)
VQ['name'] = (pk, lambda x, i: x.m.vars[i][0])
VQ['data_type'] = (pk, lambda x, i: x.dt(x.m.vars[i][1]))
VQ['len'] = (pk, lambda x, i: vlen(x.m, x.m.vars[i]))
VQ['use_dim'] = (pkn(ofd), lambda x, i, n: n in [x.m.dims[j][0] for j in x.m.vars[i][2]])
VQ['num_dims'] = (pk, lambda x, i: len(x.m.vars[i][2]))
VQ['get_dims'] = (pk, lambda x, i: tuple(Ptr(x.objs[j]) for j in x.m.vars[i][2]))
VQ['dim_names'] = (pk, lambda x, i: tuple(x.m.dims[j][0] for j in x.m.vars[i][2]))
VQ['is_record_var'] = (pk, lambda x, i: x.m.vars[i][3] is not None)
VQ['num_attrs'] = (pk, lambda x, i: len(x.m.vars[i][4]))
VQ['has_attr'] = (pkn(ofa), lambda x, i, a: att(x.m.vars[i][4], a) is not None)
VQ['get_attrs'] = (pk, lambda x, i: x.vattrs(i))
VQ['get_attr_names'] = (pk, lambda x, i: tuple(attnames(x.m.vars[i][4])))
VQ['get_attr'] = (pkn(ofa), lambda x, i, a: opt(att(x.m.vars[i][4], a), lambda j: x.vattrs(i)[j]))
VSZ = {}
VSZ['chunk_len'] = (pk, lambda x, i: clen(x.m, x.m.vars[i]))
VSZ['chunk_size'] = (pk, lambda x, i: csize(x.m, x.m.vars[i]))
VSZ['num_chunks'] = (pk, lambda x, i: nchunks(x.m, x.m.vars[i]))
VQ.update(VSZ)
V6 = {}
def vaa(x, i, a):
    j = att(x.m.vars[i][4], a)
    return None if j is None else x.m.vars[i][4][j]
for _T, _t in zip(DT, TY):
    V6['get_attr_' + _t] = (pkn(ofa), lambda x, i, a, T=_T: typed(vaa(x, i, a), T))
V6['get_attr_as_string'] = (pkn(ofa), lambda x, i, a: string(vaa(x, i, a)))

# dimensions (first argument: index)
DQ = {}
def pd(r, m):
    return [r.randrange(len(m.dims))] if m.dims else None
DQ['name'] = (pd, lambda x, i: x.m.dims[i][0])
DQ['size'] = (pd, lambda x, i: dsize(x.m, i))
DQ['dim_type'] = (pd, lambda x, i: x.dtype_of_dim(x.m.dims[i]))
DQ['is_unlimited'] = (pd, lambda x, i: x.m.dims[i][1] is None)
DQ['is_fixed'] = (pd, lambda x, i: x.m.dims[i][1] is not None)

# attributes and vectors (first argument: index of a global attribute)
AQ = {}
def pa(r, m):
    return [r.randrange(len(m.attrs))] if m.attrs else None
AQ['name'] = (pa, lambda x, i: x.m.attrs[i][0])
A6 = {}
A6['data_type'] = (pa, lambda x, i: x.dt(x.m.attrs[i][1]))
A6['len'] = (pa, lambda x, i: len(x.m.attrs[i][2]))
for _T, _t in zip(DT, TY):
    A6['get_' + _t] = (pa, lambda x, i, T=_T: typed(x.m.attrs[i], T))
A6['get_as_string'] = (pa, lambda x, i: string(x.m.attrs[i]))
X6 = dict(A6)
for _T, _t in zip(DT, TY):
    X6['get_%s_into' % _t] = (pa, lambda x, i, T=_T: OK(tuple(x.m.attrs[i][2])) if x.m.attrs[i][1] == T else ERR(x.L.dvec(x.m.attrs[i][1], x.m.attrs[i][2])))

KINDS = {'D': (D, lambda x, i: None), 'V': (V, lambda x, i: x.vars[i]), 'DI': (DI, lambda x, i: x.objs[i].val),
         'A': (AT, lambda x, i: x.attrs[i]), 'X': (DVP, lambda x, i: x.L.get(AT, x.attrs[i], 'data'))}
TABLE = {'P07': [('D', Q), ('V', VQ), ('DI', DQ), ('A', AQ)], 'P06': [('D', T6), ('V', V6), ('A', A6), ('X', X6)], 'P11': [('V', VSZ), ('D', {'record_size': Q['record_size'], 'num_records': Q['num_records']})]}

def big(rng):
    """a data set with large sizes"""
    while True:
        m = big0(rng)
        if all(clen(m, v) < 1 << 50 and vlen(m, v) < 1 << 60 for v in m.vars):
            return m
def big0(rng):
    return gen.data_set(rng, sizes=lambda r: r.choice([1, 2, 3, 255, 65535, 65536, 1 << 20, gen.MAXDIM, 10, 7]), nrec=rng.choice([None, 100000, (1 << 32) + 3, (1 << 64) - 1]))

def check(rng, out, prop, kind, name, n):
    L = par.lib()
    tpath, pick = KINDS[kind]
    tab = dict(TABLE[prop])[kind]
    g, e = tab[name]
    path = tpath + '::' + name
    key = path.split('::')[-2] + '::' + name
    S = L.summary(path)
    if S is None:
        out.append((key, 'residual', L.fail[path]))
        return
    if prop == 'P07':
        # no memory is changed: the summary leaves every location at its initial value
        ch = [r for r in S.mem if r.op == 'heap' and S.mem[r] is not S.I.init(r)]
        if not ch and not S.unknown:
            out.append((key + ' changes nothing', 'ok', 'the value number of every location after the call is its initial one'))
        elif name not in ('get_var_mut',):
            out.append((key + ' changes nothing', 'residual', 'a location may change'))
    done = abst = 0
    last = ''
    bad = None
    some = set()
    for k in range(n):
        k = rng.random()
        m = gen.data_set(rng) if k < 0.5 else gen.wide(rng) if k < 0.75 else big(rng)
        a = g(rng, m)
        if a is None:
            continue
        r = query(L, S, m, kind, pick, a, e, 0, prop, name)
        if isinstance(r, str):
            abst += 1
            last = r
            if abst > 20 and done == 0:
                break
            continue
        done += 1
        some.add(r[1])
        if r[0]:
            r2 = query(L, S, m, kind, pick, a, e, 1, prop, name)
            if not isinstance(r2, str) and r2[0]:
                bad = '%s: %s\n  data set: %r\n  arguments: %s' % (where(S), r[0], m, show(list(a)))
                break
    if bad:
        out.append((key, 'bad', bad))
    elif done >= max(5, n // 10):
        out.append((key, 'agreed', 'equal to its specification under %d valuations' % done))
    else:
        out.append((key, 'residual', 'only %d valuations conclusive: %s' % (done, last)))
    out.append(('valuations', 'count', done))

def query(L, S, m, kind, pick, a, e, junk, prop, name):
    try:
        x = Cx(L, m)
        exp = e(x, *a)
        if kind == 'D':
            root = Obj(x.v, 'self')
            rest = a
        else:
            root = Obj(pick(x, a[0]), 'self')
            rest = a[1:]
        if S.fn['argc'] != 1 + len(rest):
            raise Missing('arguments of ' + S.name)
        first = Ptr(root) if is_ref(S, 0) else root.val
        c = Call(L, S, [first] + [arg(L, S, j + 1, y) for j, y in enumerate(rest)], World(), junk)
        got = c.ret
        if exp == 'Err':
            ok = isinstance(got, A) and got.v == 1
            cls = 'err'
        else:
            exp = c.deep(exp)
            ok = same(got, exp)
            cls = exp.v if isinstance(exp, A) else 0
        t = ''
        if not ok:
            t = 'it returns %s instead of %s' % (show(got), show(exp))
        elif prop == 'P07' and kind == 'D':
            post = read(L, c, c.now(root))
            if post.key() != m.key():
                t = 'it changes the data set into %r' % post
        return t, cls
    except Abstain as ex:
        return str(ex) or 'abstain'

def same(a, b):
    if isinstance(a, Junk) or isinstance(b, Junk):
        raise Abstain('undefined value')
    if isinstance(a, bool) or isinstance(b, bool):
        return bool(a) == bool(b)
    return a == b

def jobs(prop):
    n = 20000 if par.thorough() else 3000
    js = []
    for kind, tab in TABLE[prop]:
        for x in sorted(tab):
            js.append((check, KINDS[kind][0].split('::')[-1] + '::' + x, (prop, kind, x, n)))
    return js
