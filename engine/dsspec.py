"""Specification of the editing and querying operations of a data set, as functions on abstract data sets (independent of the code)."""
from lib import *
import gen, par
from gen import name_ok

# outcome of the specification: (reasons of refusal, data set after, value returned)
class Out:
    def __init__(self, why=(), post=None, ret=None):
        self.why, self.post, self.ret = why, post, ret

def dimnames(m): return [d[0] for d in m.dims]
def varnames(m): return [v[0] for v in m.vars]
def attnames(l): return [a[0] for a in l]
def var(m, n):
    for i, v in enumerate(m.vars):
        if v[0] == n:
            return i
    return None
def dim(m, n):
    for i, d in enumerate(m.dims):
        if d[0] == n:
            return i
    return None
def att(l, n):
    for i, a in enumerate(l):
        if a[0] == n:
            return i
    return None

# reasons of refusal, by property
DUP, NAME, DIMS, ABSENT = 'P01', 'P02', 'P04', 'P05'

def s_add_fixed_dim(m, n, s):
    w = []
    if dim(m, n) is not None: w.append((DUP, 'the name is already used by a dimension'))
    if not name_ok(n): w.append((NAME, 'the name is not valid'))
    if s == 0: w.append((DIMS, 'the size is zero'))
    if s > gen.MAXDIM: w.append((DIMS, 'the size exceeds the maximum'))
    p = m.copy(); p.dims.append((n, s))
    return Out(w, p)

def s_set_unlimited_dim(m, n, s):
    w = []
    if m.unl is not None: w.append((DIMS, 'the data set already has an unlimited-size dimension'))
    if dim(m, n) is not None: w.append((DUP, 'the name is already used by a dimension'))
    if not name_ok(n): w.append((NAME, 'the name is not valid'))
    p = m.copy(); p.dims.append((n, None)); p.unl = len(p.dims) - 1; p.nrec = s
    return Out(w, p)

def s_rename_dim(m, a, b):
    if a == b:
        return Out((), m.copy())
    w = []
    i = dim(m, a)
    if i is None: w.append((ABSENT, 'there is no such dimension'))
    if dim(m, b) is not None: w.append((DUP, 'the new name is already used by a dimension'))
    if not name_ok(b): w.append((NAME, 'the new name is not valid'))
    p = m.copy()
    if i is not None: p.dims[i] = (b, p.dims[i][1])
    return Out(w, p)

def shift(m, k):
    """dimension indexes after the removal of the dimension k"""
    f = lambda i: i - 1 if isinstance(i, int) and i > k else i
    m.unl = None if m.unl == k else (f(m.unl) if m.unl is not None else None)
    m.vars = [(v[0], v[1], [f(i) for i in v[2]], f(v[3]) if v[3] is not None else None, v[4]) for v in m.vars]

def s_remove_dim(m, a):
    i = dim(m, a)
    if i is None:
        return Out([(ABSENT, 'there is no such dimension')], None)
    w = []
    if any(i in v[2] for v in m.vars): w.append((DIMS, 'the dimension is used by a variable'))
    p = m.copy()
    r = p.dims[i]
    if not w:
        del p.dims[i]
        shift(p, i)
    return Out(w, p, ('dim', i))

def s_add_var(m, n, ds, t):
    w = []
    ii = [dim(m, x) for x in ds]
    if None in ii: w.append((DIMS, 'a dimension is not defined'))
    if var(m, n) is not None: w.append((DUP, 'the name is already used by a variable'))
    if not name_ok(n): w.append((NAME, 'the name is not valid'))
    if m.unl is not None and m.unl in ii[1:]: w.append((DIMS, 'the unlimited-size dimension is not the first one'))
    jj = [i for i in ii if i is not None]
    if len(set(jj)) < len(jj): w.append((DIMS, 'a dimension is used twice'))
    if len(ii) > 1024: w.append((DIMS, 'more than 1024 dimensions'))
    p = m.copy()
    p.vars.append((n, t, ii, m.unl if ii and m.unl is not None and ii[0] == m.unl else None, []))
    return Out(w, p)

def s_rename_var(m, a, b):
    if a == b:
        return Out((), m.copy())
    w = []
    i = var(m, a)
    if i is None: w.append((ABSENT, 'there is no such variable'))
    if var(m, b) is not None: w.append((DUP, 'the new name is already used by a variable'))
    if not name_ok(b): w.append((NAME, 'the new name is not valid'))
    p = m.copy()
    if i is not None: p.vars[i] = (b,) + tuple(p.vars[i][1:])
    return Out(w, p)

def s_remove_var(m, a):
    i = var(m, a)
    if i is None:
        return Out([(ABSENT, 'there is no such variable')], None)
    p = m.copy()
    del p.vars[i]
    return Out((), p, ('var', i))

def l_add(l, n, t, v):
    w = []
    if att(l, n) is not None: w.append((DUP, 'the name is already used by an attribute of the list'))
    if not name_ok(n): w.append((NAME, 'the name is not valid'))
    return w, list(l) + [(n, t, v)]
def l_rename(l, a, b):
    if a == b:
        return [], list(l)
    w = []
    i = att(l, a)
    if i is None: w.append((ABSENT, 'there is no such attribute'))
    if att(l, b) is not None: w.append((DUP, 'the new name is already used by an attribute of the list'))
    if not name_ok(b): w.append((NAME, 'the new name is not valid'))
    l = list(l)
    if i is not None: l[i] = (b,) + tuple(l[i][1:])
    return w, l
def l_remove(l, a):
    i = att(l, a)
    if i is None:
        return [(ABSENT, 'there is no such attribute')], list(l), None
    return [], l[:i] + l[i + 1:], i

def with_attrs(m, i, l):
    p = m.copy()
    v = p.vars[i]
    p.vars[i] = (v[0], v[1], v[2], v[3], l)
    return p

NOVAR = [(ABSENT, 'there is no such variable')]

def s_add_global(m, n, t, v):
    w, l = l_add(m.attrs, n, t, v)
    p = m.copy(); p.attrs = l
    return Out(w, p)
def s_rename_global(m, a, b):
    w, l = l_rename(m.attrs, a, b)
    p = m.copy(); p.attrs = l
    return Out(w, p)
def s_remove_global(m, a):
    w, l, i = l_remove(m.attrs, a)
    p = m.copy(); p.attrs = l
    return Out(w, p, ('gattr', i))
def s_add_vattr(m, x, n, t, v):
    i = var(m, x)
    if i is None:
        return Out(NOVAR + l_add([], n, t, v)[0])
    w, l = l_add(m.vars[i][4], n, t, v)
    return Out(w, with_attrs(m, i, l))
def s_rename_vattr(m, x, a, b):
    i = var(m, x)
    if i is None:
        return Out(NOVAR)
    w, l = l_rename(m.vars[i][4], a, b)
    return Out(w, with_attrs(m, i, l))
def s_remove_vattr(m, x, a):
    i = var(m, x)
    if i is None:
        return Out(NOVAR)
    w, l, j = l_remove(m.vars[i][4], a)
    return Out(w, with_attrs(m, i, l), ('vattr', i, j))

# ---------------------------------------------------------------- generators of arguments
def g_size(rng):
    return rng.choice([0, 1, 2, 10, gen.MAXDIM, gen.MAXDIM + 1, gen.MAXDIM - 1, (1 << 31) - 1, 1 << 31, 1 << 32, (1 << 32) + 5, (1 << 64) - 1])
def g_usize(rng):
    return rng.choice([0, 1, 2, 10, gen.MAXDIM + 1, 1 << 32, (1 << 64) - 1])
def anyatt(rng, m):
    r = attnames(m.attrs)
    for v in m.vars:
        r += attnames(v[4])
    return r
def vname(rng, m):
    if m.vars and rng.random() < 0.8:
        return rng.choice(varnames(m))
    return gen.other_name(rng, varnames(m) + dimnames(m))
def ofvar(m, x):
    i = var(m, x)
    return attnames(m.vars[i][4]) if i is not None else []
def g_rename(rng, ns):
    if ns and rng.random() < 0.8:
        a = rng.choice(ns)
    else:
        a = gen.other_name(rng, ns)
    b = a if rng.random() < 0.15 else gen.other_name(rng, ns)
    return [a, b]
def g_pick(rng, ns):
    if ns and rng.random() < 0.75:
        return rng.choice(ns)
    return gen.other_name(rng, ns)
def g_dims(rng, m):
    ns = dimnames(m)
    k = rng.choice([0, 1, 1, 2, 2, 3]) if len(ns) < 4 or rng.random() < 0.5 else rng.randint(3, len(ns))
    r = []
    for _ in range(k):
        if ns and rng.random() < 0.92:
            r.append(rng.choice(ns))
        else:
            r.append(gen.other_name(rng, ns))
    if rng.random() < 0.6:
        seen = []
        for x in r:
            if x not in seen:
                seen.append(x)
        r = seen
        if m.unl is not None and m.dims[m.unl][0] in r and rng.random() < 0.7:
            u = m.dims[m.unl][0]
            r.remove(u)
            r.insert(0, u)
    return r
def g_vals(rng, t):
    return gen.text_values(rng) if t == 'U8' and rng.random() < 0.3 else gen.values(t, rng)
def g_text(rng):
    return txt(rng.choice(['', 'hello', 'é', 'a\0b', 'x' * 9]))

def gs_add_attr(t):
    def g(rng, m):
        return [gen.other_name(rng, attnames(m.attrs)), t, g_text(rng) if t == 'string' else g_vals(rng, t)]
    return g
def gs_add_vattr(t):
    def g(rng, m):
        x = vname(rng, m)
        return [x, gen.other_name(rng, ofvar(m, x)), t, g_text(rng) if t == 'string' else g_vals(rng, t)]
    return g

# name of the function -> (generator of arguments, specification, which of the arguments the function takes)
OPS = {}
def op(name, g, s, take=None):
    OPS[name] = (g, s, take)
op('add_fixed_dim', lambda r, m: [gen.other_name(r, dimnames(m)), g_size(r)], s_add_fixed_dim)
op('set_unlimited_dim', lambda r, m: [gen.other_name(r, dimnames(m)), g_usize(r)], s_set_unlimited_dim)
op('rename_dim', lambda r, m: g_rename(r, dimnames(m)), s_rename_dim)
op('remove_dim', lambda r, m: [g_pick(r, dimnames(m))], s_remove_dim)
op('add_var', lambda r, m: [gen.other_name(r, varnames(m)), g_dims(r, m), r.choice(DT)], s_add_var)
for _T, _t in zip(DT, TY):
    op('add_var_' + _t, lambda r, m, T=_T: [gen.other_name(r, varnames(m)), g_dims(r, m), T], s_add_var, (0, 1))
    op('add_global_attr_' + _t, gs_add_attr(_T), s_add_global, (0, 2))
    op('add_var_attr_' + _t, gs_add_vattr(_T), s_add_vattr, (0, 1, 3))
op('add_global_attr_string', gs_add_attr('string'), lambda m, n, t, v: s_add_global(m, n, 'U8', v), (0, 2))
op('add_var_attr_string', gs_add_vattr('string'), lambda m, x, n, t, v: s_add_vattr(m, x, n, 'U8', v), (0, 1, 3))
op('rename_var', lambda r, m: g_rename(r, varnames(m)), s_rename_var)
op('remove_var', lambda r, m: [g_pick(r, varnames(m))], s_remove_var)
op('rename_global_attr', lambda r, m: g_rename(r, attnames(m.attrs)), s_rename_global)
op('remove_global_attr', lambda r, m: [g_pick(r, attnames(m.attrs))], s_remove_global)
def _grv(r, m):
    x = vname(r, m)
    return [x] + g_rename(r, ofvar(m, x))
op('rename_var_attr', _grv, s_rename_vattr)
def _grm(r, m):
    x = vname(r, m)
    return [x, g_pick(r, ofvar(m, x))]
op('remove_var_attr', _grm, s_remove_vattr)
# through a mutable variable
VOPS = {}
for _T, _t in zip(DT + ('string',), TY + ('string',)):
    VOPS['add_attr_' + _t] = (gs_add_vattr(_T), (lambda m, x, n, t, v: s_add_vattr(m, x, n, 'U8' if t == 'string' else t, v)), (1, 3))
VOPS['remove_attr'] = (_grm, s_remove_vattr, (1,))

def is_ref(S, i):
    return S.I.F.types[S.fn['locals'][i + 1]]['k'] == 'ref'

def arg(L, S, i, x):
    """value of the argument i"""
    ty = S.I.F.types[S.fn['locals'][i + 1]]
    if isinstance(x, str):
        v = L.dtype(x)
    elif isinstance(x, list):
        v = tuple(ref(y) if isinstance(y, tuple) and DEREF.get('strs', False) else y for y in x)
    else:
        v = x
    return ref(v) if ty['k'] == 'ref' else v
DEREF = {}

# ---------------------------------------------------------------- invariants
def invariants(m):
    """[(property, what is wrong)]"""
    r = []
    def n(x):
        return repr(bytes(x).decode('utf-8', 'replace'))[:40]
    def uniq(what, ns):
        for i, x in enumerate(ns):
            if x in ns[:i]:
                r.append(('P01', 'two %s are named %s' % (what, n(x))))
                break
        for x in ns:
            if not name_ok(x):
                r.append(('P02', 'one of the %s is named %s' % (what, n(x))))
                break
    uniq('dimensions', dimnames(m)); uniq('variables', varnames(m)); uniq('global attributes', attnames(m.attrs))
    for v in m.vars:
        uniq('attributes of a variable', attnames(v[4]))
        if any(isinstance(i, tuple) for i in v[2]) or isinstance(v[3], tuple):
            r.append(('P04', 'the variable %s uses a dimension which is not in the data set' % n(v[0])))
        elif len(set(v[2])) < len(v[2]):
            r.append(('P04', 'the variable %s uses a dimension twice' % n(v[0])))
        if len(v[2]) > 1024:
            r.append(('P04', 'the variable %s uses %d dimensions' % (n(v[0]), len(v[2]))))
        us = [k for k, i in enumerate(v[2]) if isinstance(i, int) and m.dims[i][1] is None]
        if any(k > 0 for k in us):
            r.append(('P04', 'the variable %s uses the unlimited-size dimension in position %d' % (n(v[0]), us[-1])))
        if (v[3] is not None) != (us == [0]) and not any(k > 0 for k in us):
            r.append(('P04', 'the variable %s is %sa record variable but its dimensions say otherwise' % (n(v[0]), '' if v[3] is not None else 'not ')))
    us = [i for i, d in enumerate(m.dims) if d[1] is None]
    if len(us) > 1:
        r.append(('P04', 'there are %d unlimited-size dimensions' % len(us)))
    if isinstance(m.unl, tuple) or (m.unl is None) != (not us) or (m.unl is not None and m.unl not in us):
        r.append(('P04', 'the unlimited-size dimension is not the one of the list of dimensions'))
    for d in m.dims:
        if d[1] is not None and not (1 <= d[1] <= gen.MAXDIM):
            r.append(('P04', 'the fixed-size dimension %s has size %d' % (n(d[0]), d[1])))
    return r

def show(x):
    if isinstance(x, tuple) and all(isinstance(y, int) and 0 <= y < 256 for y in x):
        s = bytes(x).decode('utf-8', 'replace')
        return repr(s if len(s) < 30 else s[:12] + '..(%d chars)' % len(s))
    if isinstance(x, list):
        return '[' + ', '.join(show(y) for y in x) + ']'
    return repr(x)[:60]

def where(S):
    return '%s (%s:%s)' % (S.name, S.fn.get('file', '?'), S.fn.get('line', '?'))

def ret_value(L, pre, c0, out):
    """expected returned item, as an abstract value"""
    k = out.ret
    if k is None:
        return None
    return k

def check_op(rng, out, name, variable, props, n):
    """compares the operation with its specification; reports (property, key, text)"""
    L = par.lib()
    path = (V if variable else D) + '::' + name
    g, spec, take = (VOPS if variable else OPS)[name]
    S = L.summary(path)
    key = path.split('::')[-2] + '::' + name
    if S is None:
        for p in props:
            out.append(('%s:%s' % (p, key), 'residual', L.fail[path]))
        return
    badp = {}
    done = abst = oks = 0
    last = ''
    for k in range(n):
        m = gen.data_set(rng) if rng.random() < 0.7 else gen.wide(rng)
        a = g(rng, m)
        o = spec(m, *a)
        if variable and o.why and o.why[0][1] == NOVAR[0][1]:
            continue
        r = verdict(L, S, variable, name, m, a, take, o, 0)
        if isinstance(r, str):
            abst += 1
            last = r
            if abst > 20 and done == 0:
                break
            continue
        done += 1
        oks += not o.why
        if r:
            r2 = verdict(L, S, variable, name, m, a, take, o, 1)
            if isinstance(r2, str):
                continue
            for p, t in r:
                if p in [x[0] for x in r2] and p not in badp:
                    badp[p] = '%s: %s\n  data set: %r\n  arguments: %s' % (where(S), t, m, show(list(a)))
    for p in props:
        kk = '%s' % key
        if p in badp:
            out.append((kk, 'bad', badp[p], p))
        elif done >= max(5, n // 10) and oks >= 2:
            out.append((kk, 'agreed', 'equal to its specification under %d valuations' % done, p))
        else:
            out.append((kk, 'residual', 'only %d valuations conclusive: %s' % (done, last), p))
    out.append(('valuations', 'count', done, None))

def verdict(L, S, variable, name, m, a, take, o, junk):
    try:
        v, objs = build(L, m)
        root = Obj(v, 'ds')
        vals = [a[i] for i in take] if take is not None else list(a)
        if variable:
            i = var(m, a[0])
            vf = [f[0] for f in L.fields(D)[0]['f']].index('vars')
            selfv = Obj(L.get(D, v, 'vars')[i], 'var')
            first = Ptr(selfv)
        else:
            first = Ptr(root)
        if len(vals) + 1 != S.fn['argc']:
            raise Missing('arguments of ' + S.name)
        args = [first] + [arg(L, S, j + 1, x) for j, x in enumerate(vals)]
        c = Call(L, S, args, World(), junk)
        ret = c.raw
        now = c.now(first.obj)
        if variable:
            fs = list(v.fs)
            l = list(fs[vf])
            l[i] = now
            fs[vf] = tuple(l)
            now = A(v.path, v.v, fs)
        post = read(L, c, now)
        if not isinstance(ret, A) or isinstance(ret, Junk) or ret.v not in (0, 1):
            return 'returned value %r' % (ret,)
        r = []
        if ret.v == 1:
            if post.key() != m.key():
                r.append(('P03', 'it returns an error and the data set is changed into %r' % post))
            if not o.why:
                r.append(('P05', 'it refuses (error %s) an edit which breaks no rule' % L.vname('error::InvalidDataSet', ret.fs[0])))
        else:
            for p, t in o.why:
                r.append((p, 'it succeeds although %s' % t))
            if not o.why:
                if post.key() != o.post.key():
                    r.append(('P05', 'the data set becomes %r instead of %r' % (post, o.post)))
                elif o.ret is not None:
                    e = expected_item(L, c, m, v, objs, o.ret)
                    if c.deep(ret.fs[0]) != e:
                        r.append(('P05', 'it returns %r instead of the removed item' % (c.deep(ret.fs[0]),)))
        r += [(p, 'afterwards ' + t) for p, t in invariants(post)]
        return r
    except Abstain as e:
        return str(e) or 'abstain'

def expected_item(L, c, m, v, objs, k):
    if k[0] == 'dim':
        return c.deep(objs[k[1]].val)
    if k[0] == 'var':
        return c.deep(L.get(D, v, 'vars')[k[1]])
    if k[0] == 'gattr':
        return c.deep(L.get(D, v, 'attrs')[k[1]])
    if k[0] == 'vattr':
        return c.deep(L.get(V, L.get(D, v, 'vars')[k[1]], 'attrs')[k[2]])

def jobs(prop):
    n = 12000 if par.thorough() else 1500
    js = []
    for x in sorted(OPS):
        if prop != 'P06' or '_attr_' in x and x.startswith('add_'):
            js.append((task, 'DataSet::' + x, (x, False, prop, n)))
    for x in sorted(VOPS):
        if prop != 'P06' or x.startswith('add_'):
            js.append((task, 'Variable::' + x, (x, True, prop, n)))
    return js

def task(rng, out, name, variable, prop, n):
    o = []
    # the additions of attributes store what they are given: the part of P05 which is also P06
    check_op(rng, o, name, variable, ['P05' if prop == 'P06' else prop], n)
    out += [(x[0], x[1], x[2]) for x in o]

NAMEF = 'name_string::is_valid_name'
def valid_names(rng, out, n):
    """the validity rule is exactly the documented one"""
    L = par.lib()
    S = L.summary(NAMEF)
    if S is None:
        out.append(('is_valid_name', 'residual', L.fail[NAMEF]))
        return
    ns = ['', 'a' * 255, 'a' * 256, 'a' * 257, 'é' * 127, 'é' * 128, 'é' * 129, 'a' + 'é' * 127, 'aa' + 'é' * 127, 'a' + 'é' * 128, '日' * 85, '日' * 86, 'a' + '日' * 85, 'aa' + '日' * 85, '😀' * 64, 'a' + '😀' * 64]
    for c in [chr(i) for i in range(128)] + ['é', '日', '\u0300', '\xa0', '😀', '\u2028', 'ß', '²', '\x80']:
        ns += [c, 'a' + c, c + 'a', 'ab' + c + 'cd', 'é' + c, 'a' * 254 + c, 'a' * 255 + c, c + 'a' * 255]
    for _ in range(n):
        k = rng.choice([1, 2, 3, 5, 9])
        ns.append(''.join(rng.choice('ab_9é' if rng.random() < 0.8 else gen.SPECIAL + '/\x01\x7f') for _ in range(k)))
    done = 0
    for s in ns:
        b = txt(s)
        try:
            r = Call(L, S, [ref(b) if is_ref(S, 0) else b], World()).ret
        except Abstain:
            continue
        done += 1
        if bool(r) != name_ok(b):
            out.append(('is_valid_name', 'bad', '%s: the name %s (%d bytes) is %s' % (where(S), show(b), len(b), 'accepted and must not be' if r else 'refused and must not be')))
            return
    out.append(('is_valid_name', 'agreed' if done > 500 else 'residual', 'every ASCII character in first, middle and last position, length limits: %d names' % done))

def many_dims(rng, out):
    """the limit of the number of dimensions of a variable"""
    L = par.lib()
    path = D + '::add_var'
    S = L.summary(path)
    if S is None:
        out.append(('number of dimensions', 'residual', L.fail[path]))
        return
    for k in (1024, 1025):
        m = M([(txt('d%d' % i), 1) for i in range(k)])
        a = [txt('v'), dimnames(m), 'I8']
        v, objs = build(L, m)
        c = L.call(path, [Ptr(Obj(v))] + [arg(L, S, j + 1, x) for j, x in enumerate(a)], budget=60000000)
        r = c.raw
        if not isinstance(r, A) or r.v not in (0, 1):
            raise Abstain('returned value')
        if (r.v == 0) != (k <= 1024):
            out.append(('number of dimensions', 'bad', '%s: a variable with %d dimensions is %s' % (where(S), k, 'accepted' if r.v == 0 else 'refused')))
            return
    out.append(('number of dimensions', 'agreed', '1024 dimensions accepted, 1025 refused'))

def extra(prop):
    if prop == 'P02':
        return [(valid_names, 'is_valid_name', (20000 if par.thorough() else 2000,))]
    if prop == 'P04':
        return [(many_dims, 'number of dimensions', ())]
    return []
