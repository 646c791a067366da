"""Summaries of the library functions (std, byteorder, nom) used by the crate."""
import json, re
from terms import *
import terms

OPT = 'std::option::Option'
RES = 'std::result::Result'
CF = 'std::ops::ControlFlow'
NERR = 'nom::Err'
NONE = mk('agg', ('adt', OPT, 0))
def some(x): return mk('agg', ('adt', OPT, 1), x)
def ok(x): return mk('agg', ('adt', RES, 0), x)
def err(x): return mk('agg', ('adt', RES, 1), x)
OKU = ok(UNIT)
TUP = ('tuple',)
def tup(*xs): return mk('agg', TUP, *xs)
ITER = ('iter',)
def it(S, i, e): return mk('agg', ITER, S, i, e)
def lazy(name, *fs): return mk('agg', ('lazy', name), *fs)

def split_decl(d):
    """(owner, method) of a definition path"""
    m = re.search(r'<impl ([^<>]*(?:<[^<>]*>)?[^<>]*)>::(\w+)$', d)
    if m:
        o = m.group(1)
        if o == 'char':
            return 'char', m.group(2), None
        if o.startswith('['):
            o = 'slice'
        elif o in INT_RANGE:
            return 'int', m.group(2), o
        elif o in ('f32', 'f64'):
            return 'float', m.group(2), o
        else:
            o = o.split('::')[-1]
        return o, m.group(2), None
    s = d
    while True:
        t = re.sub(r'::<[^<>]*>', '', s)
        t = re.sub(r'<[^<>]*>', '', t)
        if t == s:
            break
        s = t
    ps = s.split('::')
    return (ps[-2] if len(ps) > 1 else ''), ps[-1], None

IDENT = {'to_owned', 'clone', 'to_vec', 'cloned', 'copied', 'to_string', 'into_string', 'into_boxed_slice', 'into_vec'}

class Prims:
    def __init__(self, I):
        self.I = I
        self.cache = {}
        self.meth = {}
        for n in dir(self):
            if n.startswith('p_'):
                self.meth[n[2:]] = getattr(self, n)

    # ------------------------------------------------------------------ dispatch
    def call(self, ctx, st, callee, args):
        d = callee['decl']
        key = self.cache.get(d)
        if key is None:
            key = split_decl(d)
            self.cache[d] = key
        owner, m, extra = key
        tr = callee.get('trait')
        h = None
        if tr:
            t = tr.split('::')[-1]
            h = self.meth.get(t + '_' + m)
            if t in ('Clone', 'ToOwned', 'ToString') and m in IDENT:
                return self.ok(st, self.p_copy(ctx, st, args[0]))
            if h is None and t in ('Fn', 'FnMut', 'FnOnce'):
                f = args[0]
                a = args[1]
                aa = list(a.a[1:]) if a.op == 'agg' else [self.I.fld(a, 0, 0)]
                s, v = self.I.call_value(ctx, st, f, aa)
                return self.ok(s, v)
        else:
            h = self.meth.get(owner + '_' + m)
        if h is None:
            return self.unknown(ctx, st, callee, args)
        if extra is not None:
            r = h(ctx, st, extra, *args)
        else:
            r = h(ctx, st, *args)
        if isinstance(r, list):
            return r
        if isinstance(r, T):
            return [('ok', st, r)]
        if isinstance(r, tuple):
            return [('ok', r[0], r[1])]
        raise Exception('primitive %s -> %r' % (d, r))

    def ok(self, st, v):
        return [('ok', st, v)]

    PURE_UNK = re.compile(r'fmt|Display|Debug|format')
    def unknown(self, ctx, st, callee, args):
        d = callee['decl']
        I = self.I
        I.unk(d)
        vals = []
        for i, a in enumerate(args):
            v = a
            if I.is_ptr(a) and not self.PURE_UNK.search(d):
                v = self.deep(st, a)
            vals.append(v)
        base = mk('unk', d, *vals)
        # what a mutable reference reaches is unknown afterwards
        for i, a in enumerate(args):
            ty = ctx.aty[i] if i < len(ctx.aty) else None
            if ty is None:
                continue
            t = I.F.types[ty]
            if t['k'] == 'ref' and t['m'] and 'Formatter' not in t['s']:
                I.store(st, a, (), I.wrap(mk('unkmut', i, base), t['t']))
        return [('ok', st, I.wrap(base, ctx.dty) if ctx.dty is not None else base)]

    def local_override(self, fn, callee):
        return None

    # ------------------------------------------------------------------ helpers
    def deep(self, st, v):
        I = self.I
        n = 0
        while True:
            if v.op == 'ite':
                if any(I.is_ptr(x) for c, x in leaves(v) if x is not UNDEF):
                    v = I.load(st, v)
                else:
                    return v
            elif I.is_ptr(v):
                v = I.load(st, v)
            else:
                return v
            n += 1
            if n > 8:
                return v

    def p_copy(self, ctx, st, r):
        """clone of the referenced value"""
        v = self.I.load(st, r)
        if v.op == 'ite' or self.I.is_ptr(v):
            # to_string / to_owned of a reference to a text
            m = ctx.callee['decl'].split('::')[-1]
            if m in ('to_string',):
                return self.deep(st, v)
        return v

    def ref_to(self, v):
        return self.I.mkref(mk('cst', v), ())

    def bytes_of(self, st, v):
        """sequence behind a reference (or a sequence)"""
        v = self.deep(st, v)
        return v

    def is_some(self, v):
        return self.I.is_variant(v, 1)

    def is_ok(self, v):
        return self.I.is_variant(v, 0)

    def enum_match(self, st, v, cases):
        """cases: {variant: function(state, payload) -> (state, value)}"""
        outs = []
        for j, f in cases.items():
            c = self.I.is_variant(v, j)
            s = st.on(c)
            if s.pc is FALSE:
                continue
            r = f(s, simp(self.I.fld(v, j, 0), s.pc) if j is not None else None)
            if isinstance(r, T):
                r = (s, r)
            outs.append(r)
        return self.I.merge_vals(outs)

    def match_opt(self, st, v, fsome, fnone):
        outs = []
        c = self.is_some(v)
        s = st.on(c)
        if s.pc is not FALSE:
            r = fsome(s, simp(self.I.fld(v, 1, 0), s.pc))
            outs.append((s, r) if isinstance(r, T) else r)
        s = st.on(bnot(c))
        if s.pc is not FALSE:
            r = fnone(s)
            outs.append((s, r) if isinstance(r, T) else r)
        return self.I.merge_vals(outs)

    def match_res(self, st, v, fok, ferr):
        outs = []
        c = self.is_ok(v)
        s = st.on(c)
        if s.pc is not FALSE:
            r = fok(s, simp(self.I.fld(v, 0, 0), s.pc))
            outs.append((s, r) if isinstance(r, T) else r)
        s = st.on(bnot(c))
        if s.pc is not FALSE:
            r = ferr(s, simp(self.I.fld(v, 1, 0), s.pc))
            outs.append((s, r) if isinstance(r, T) else r)
        return self.I.merge_vals(outs)

    def cv(self, ctx, st, f, args, sub=''):
        return self.I.call_value(ctx, st, f, args, sub)

    # ------------------------------------------------------------------ Option / Result
    def p_Option_map(self, ctx, st, v, f):
        def fs(s, x):
            s, r = self.cv(ctx, s, f, [x])
            return s, some(r)
        return self.match_opt(st, v, fs, lambda s: NONE)

    def p_Option_and_then(self, ctx, st, v, f):
        return self.match_opt(st, v, lambda s, x: self.cv(ctx, s, f, [x]), lambda s: NONE)

    def p_Option_filter(self, ctx, st, v, f):
        def fs(s, x):
            s, r = self.cv(ctx, s, f, [self.ref_to(x)])
            return s, ite(r, some(x), NONE)
        return self.match_opt(st, v, fs, lambda s: NONE)

    def p_Option_map_or(self, ctx, st, v, d, f):
        return self.match_opt(st, v, lambda s, x: self.cv(ctx, s, f, [x]), lambda s: d)

    def p_Option_map_or_else(self, ctx, st, v, d, f):
        return self.match_opt(st, v, lambda s, x: self.cv(ctx, s, f, [x], 'f'), lambda s: self.cv(ctx, s, d, [], 'd'))

    def p_Option_is_some_and(self, ctx, st, v, f):
        return self.match_opt(st, v, lambda s, x: self.cv(ctx, s, f, [x]), lambda s: FALSE)

    def p_Option_is_none_or(self, ctx, st, v, f):
        return self.match_opt(st, v, lambda s, x: self.cv(ctx, s, f, [x]), lambda s: TRUE)

    def p_Option_ok_or(self, ctx, st, v, e):
        return self.match_opt(st, v, lambda s, x: ok(x), lambda s: err(e))

    def p_Option_ok_or_else(self, ctx, st, v, f):
        def fn(s):
            s, r = self.cv(ctx, s, f, [])
            return s, err(r)
        return self.match_opt(st, v, lambda s, x: ok(x), fn)

    def p_Option_or(self, ctx, st, v, w):
        return self.match_opt(st, v, lambda s, x: some(x), lambda s: w)

    def p_Option_or_else(self, ctx, st, v, f):
        return self.match_opt(st, v, lambda s, x: some(x), lambda s: self.cv(ctx, s, f, []))

    def p_Option_and(self, ctx, st, v, w):
        return self.match_opt(st, v, lambda s, x: w, lambda s: NONE)

    def p_Option_unwrap_or(self, ctx, st, v, d):
        return self.match_opt(st, v, lambda s, x: x, lambda s: d)

    def p_Option_unwrap_or_else(self, ctx, st, v, f):
        return self.match_opt(st, v, lambda s, x: x, lambda s: self.cv(ctx, s, f, []))

    def p_Option_unwrap_or_default(self, ctx, st, v):
        return self.match_opt(st, v, lambda s, x: x, lambda s: self.default(ctx.dty))

    def default(self, ty):
        k = self.I.F.kind(ty) if ty is not None else None
        if k == 'int':
            return ZERO
        if k == 'bool':
            return FALSE
        if k == 'seq':
            return EMPTY
        return mk('default', ty)

    def p_Default_default(self, ctx, st):
        ty = ctx.dty
        t = self.I.F.types[self.I.F.strip(ty)] if ty is not None else None
        if t and t['k'] == 'adt' and t['path'] == OPT:
            return NONE
        if t and self.I.F.kind(ty) == 'set':
            return self.empty_set()
        return self.default(ty)

    def unwrap(self, ctx, st, v, j, what):
        c = self.I.is_variant(v, j)
        bad = band(st.pc, bnot(c))
        if bad is not FALSE:
            self.I.event('panic', bad, ctx.fr, ctx.line, ('unwrap', what))
        s = st.on(c)
        return s, simp(self.I.fld(v, j, 0), s.pc)

    def p_Option_unwrap(self, ctx, st, v):
        return self.unwrap(ctx, st, v, 1, 'Option')
    def p_Option_expect(self, ctx, st, v, m):
        return self.unwrap(ctx, st, v, 1, 'Option')
    def p_Result_unwrap(self, ctx, st, v):
        return self.unwrap(ctx, st, v, 0, 'Result')
    def p_Result_expect(self, ctx, st, v, m):
        return self.unwrap(ctx, st, v, 0, 'Result')
    def p_Result_unwrap_err(self, ctx, st, v):
        return self.unwrap(ctx, st, v, 1, 'Result')

    def p_Option_is_some(self, ctx, st, r):
        return self.is_some(self.I.load(st, r))
    def p_Option_is_none(self, ctx, st, r):
        return bnot(self.is_some(self.I.load(st, r)))
    def p_Result_is_ok(self, ctx, st, r):
        return self.is_ok(self.I.load(st, r))
    def p_Result_is_err(self, ctx, st, r):
        return bnot(self.is_ok(self.I.load(st, r)))

    def as_ref(self, st, r, j):
        """Option<&T> of &Option<T>"""
        I = self.I
        v = I.load(st, r)
        c = I.is_variant(v, j)
        p = None
        for cc, root, pr in I.targets(r):
            q = I.mkref(root, pr + (('f', j, 0),))
            p = q if p is None else ite(cc, q, p)
        return c, p

    def p_Option_as_ref(self, ctx, st, r):
        c, p = self.as_ref(st, r, 1)
        return ite(c, some(p), NONE)
    p_Option_as_mut = p_Option_as_ref

    def p_Option_as_deref(self, ctx, st, r):
        v = self.I.load(st, r)
        c = self.is_some(v)
        x = self.I.fld(v, 1, 0)
        if self.I.is_ptr(x):
            return ite(c, some(x), NONE)
        c, p = self.as_ref(st, r, 1)
        return ite(c, some(p), NONE)

    def p_Result_as_ref(self, ctx, st, r):
        I = self.I
        v = I.load(st, r)
        c, p = self.as_ref(st, r, 0)
        c2, p2 = self.as_ref(st, r, 1)
        return ite(c, ok(p), err(p2))

    def p_Option_cloned(self, ctx, st, v):
        return self.match_opt(st, v, lambda s, x: some(self.I.load(s, x)), lambda s: NONE)
    p_Option_copied = p_Option_cloned

    def p_Option_take(self, ctx, st, r):
        v = self.I.load(st, r)
        self.I.store(st, r, (), NONE)
        return v

    def p_Option_replace(self, ctx, st, r, x):
        v = self.I.load(st, r)
        self.I.store(st, r, (), some(x))
        return v

    def p_Option_insert(self, ctx, st, r, x):
        self.I.store(st, r, (), some(x))
        return self.as_ref(st, r, 1)[1]

    def p_Option_flatten(self, ctx, st, v):
        return self.match_opt(st, v, lambda s, x: x, lambda s: NONE)

    def p_Option_zip(self, ctx, st, v, w):
        c = band(self.is_some(v), self.is_some(w))
        return ite(c, some(tup(self.I.fld(v, 1, 0), self.I.fld(w, 1, 0))), NONE)

    def p_Option_iter(self, ctx, st, r):
        c, p = self.as_ref(st, r, 1)
        return it(ite_seq(c, unit(p), EMPTY), ZERO, ONE)

    def p_Result_map(self, ctx, st, v, f):
        def fk(s, x):
            s, r = self.cv(ctx, s, f, [x])
            return s, ok(r)
        return self.match_res(st, v, fk, lambda s, e: err(e))

    def p_Result_map_err(self, ctx, st, v, f):
        def fe(s, x):
            s, r = self.cv(ctx, s, f, [x])
            return s, err(r)
        return self.match_res(st, v, lambda s, x: ok(x), fe)

    def p_Result_and_then(self, ctx, st, v, f):
        return self.match_res(st, v, lambda s, x: self.cv(ctx, s, f, [x]), lambda s, e: err(e))

    def p_Result_or_else(self, ctx, st, v, f):
        return self.match_res(st, v, lambda s, x: ok(x), lambda s, e: self.cv(ctx, s, f, [e]))

    def p_Result_and(self, ctx, st, v, w):
        return self.match_res(st, v, lambda s, x: w, lambda s, e: err(e))

    def p_Result_or(self, ctx, st, v, w):
        return self.match_res(st, v, lambda s, x: ok(x), lambda s, e: w)

    def p_Result_ok(self, ctx, st, v):
        return self.match_res(st, v, lambda s, x: some(x), lambda s, e: NONE)

    def p_Result_err(self, ctx, st, v):
        return self.match_res(st, v, lambda s, x: NONE, lambda s, e: some(e))

    def p_Result_unwrap_or(self, ctx, st, v, d):
        return self.match_res(st, v, lambda s, x: x, lambda s, e: d)

    def p_Result_unwrap_or_else(self, ctx, st, v, f):
        return self.match_res(st, v, lambda s, x: x, lambda s, e: self.cv(ctx, s, f, [e]))

    def p_Result_map_or(self, ctx, st, v, d, f):
        return self.match_res(st, v, lambda s, x: self.cv(ctx, s, f, [x]), lambda s, e: d)

    def p_Result_is_ok_and(self, ctx, st, v, f):
        return self.match_res(st, v, lambda s, x: self.cv(ctx, s, f, [x]), lambda s, e: FALSE)

    def p_Option_transpose(self, ctx, st, v):
        return self.match_opt(st, v, lambda s, x: self.match_res(s, x, lambda s2, y: ok(some(y)), lambda s2, e: err(e)), lambda s: ok(NONE))

    def p_Try_branch(self, ctx, st, v):
        I = self.I
        sty = ctx.callee['targs'][0]
        t = I.F.types[sty]
        def cont(x): return mk('agg', ('adt', CF, 0), x)
        def brk(x): return mk('agg', ('adt', CF, 1), x)
        if t.get('path') == OPT:
            c = self.is_some(v)
            return ite(c, cont(I.fld(v, 1, 0)), brk(NONE))
        c = self.is_ok(v)
        x, e = I.fld(v, 0, 0), I.fld(v, 1, 0)
        return ite(c, cont(x) if x is not UNDEF else UNDEF, brk(err(e)) if e is not UNDEF else UNDEF)

    def p_Try_from_output(self, ctx, st, v):
        t = self.I.F.types[ctx.callee['targs'][0]]
        return some(v) if t.get('path') == OPT else ok(v)

    def p_FromResidual_from_residual(self, ctx, st, v):
        I = self.I
        t = I.F.types[ctx.callee['targs'][0]]
        if t.get('path') == OPT:
            return NONE
        e2 = t['args'][1]
        e1 = I.F.types[ctx.callee['targs'][1]]['args'][1]
        x = I.fld(v, 1, 0)
        return self.from_conv(ctx, st, x, e1, e2, err)

    def from_conv(self, ctx, st, x, e1, e2, wrapf=lambda x: x):
        I = self.I
        if e1 == e2:
            return wrapf(x)
        for r in I.F.roots:
            if r.get('trait') == 'std::convert::From' and r.get('self') == e2 and r['trargs'][1] == e1:
                s, y = I.call_fn(st, r['fn'], [x], ctx.site + ('from',))
                return s, wrapf(y)
        s1, s2 = I.F.types[e1]['s'], I.F.types[e2]['s']
        n = I.int_name(e2)
        if n and I.int_name(e1):
            return wrapf(I.as_int(x))
        if s2 == 'std::string::String' or s2 in ('std::vec::Vec<u8>', 'std::path::PathBuf'):
            v = self.deep(st, x)
            if v.op == 'cat':
                return wrapf(v)
        if I.F.types[e2].get('path') == OPT and I.F.types[e2]['args'][0] == e1:
            return wrapf(some(x))
        if I.F.types[e2].get('path') in ('std::rc::Rc', 'std::boxed::Box'):
            return wrapf(self.p_Rc_new(ctx, st, x))
        if s2 == 'std::io::Error' and s1 == 'std::io::ErrorKind':
            return wrapf(mk('ioerr', x))
        if I.F.types[e2].get('path', '').startswith('std::vec::Vec') or s2.startswith('std::vec::Vec'):
            v = self.deep(st, x)
            if v.op == 'cat':
                return wrapf(v)
        I.unk('From<%s> for %s' % (s1, s2))
        return wrapf(I.wrap(mk('unk', 'from', s1, s2, x), e2))

    def p_From_from(self, ctx, st, x):
        ta = ctx.callee['targs']
        return self.from_conv(ctx, st, x, ta[1], ta[0])

    def p_Into_into(self, ctx, st, x):
        ta = ctx.callee['targs']
        return self.from_conv(ctx, st, x, ta[0], ta[1])

    def p_FromStr_from_str(self, ctx, st, x):
        I = self.I
        t = I.F.types[ctx.callee['targs'][0]]
        if t['s'] == 'std::string::String':
            return ok(self.deep(st, x))
        return self.unknown(ctx, st, ctx.callee, [x])

    def p_TryFrom_try_from(self, ctx, st, x):
        I = self.I
        ta = ctx.callee['targs']
        n = I.int_name(ta[0])
        if n and I.int_name(ta[1]):
            return self.int_conv(x, n)
        return self.unknown(ctx, st, ctx.callee, [x])

    def p_TryInto_try_into(self, ctx, st, x):
        I = self.I
        ta = ctx.callee['targs']
        n = I.int_name(ta[1])
        if n and I.int_name(ta[0]):
            return self.int_conv(x, n)
        for r in I.F.roots:
            if r.get('trait') == 'std::convert::TryFrom' and r.get('self') == ta[1] and r['trargs'][1] == ta[0]:
                return I.call_fn(st, r['fn'], [x], ctx.site + ('tryfrom',))
        return self.unknown(ctx, st, ctx.callee, [x])

    def int_conv(self, x, n):
        x = self.I.as_int(x)
        lo, hi = INT_RANGE[n]
        c = TRUE
        a, b = prange(x)
        if b > hi:
            c = band(c, le(x, num(hi)))
        if a < lo:
            c = band(c, le(num(lo), x))
        return ite(c, ok(x), err(mk('tryfromint')))

    # ------------------------------------------------------------------ conversions, references
    def p_AsRef_as_ref(self, ctx, st, r):
        I = self.I
        v = I.load(st, r)
        if v.op == 'cat':
            return r
        if I.is_ptr(v):
            # &&str
            return I.mkref(*self.one(v)) if v.op == 'ref' else v
        ty = v.ty
        if ty is not None and I.F.types[ty]['k'] == 'param':
            a = mk('asref', v)
            a.ty = I.F.by_str.get('str')
            return self.ref_to(seq_atom(a))
        return r

    def one(self, p):
        return (p.a[0], tuple(p.a[1]))

    def p_Borrow_borrow(self, ctx, st, r):
        return r
    def p_BorrowMut_borrow_mut(self, ctx, st, r):
        return r

    def p_Deref_deref(self, ctx, st, r):
        I = self.I
        ty = ctx.callee['targs'][0]
        if I.F.kind(ty) == 'ptr':
            return I.load(st, r)
        return r
    p_DerefMut_deref_mut = p_Deref_deref

    def p_RefCell_borrow(self, ctx, st, r):
        return r
    p_RefCell_borrow_mut = p_RefCell_borrow
    p_RefCell_get_mut = p_RefCell_borrow
    p_RefCell_as_ptr = p_RefCell_borrow
    def p_RefCell_new(self, ctx, st, v):
        return v
    p_RefCell_into_inner = p_RefCell_new
    p_Cell_new = p_RefCell_new
    p_Cell_into_inner = p_RefCell_new
    def p_RefCell_replace(self, ctx, st, r, x):
        v = self.I.load(st, r)
        self.I.store(st, r, (), x)
        return v
    p_Cell_replace = p_RefCell_replace
    p_mem_replace = p_RefCell_replace
    def p_Cell_set(self, ctx, st, r, x):
        self.I.store(st, r, (), x)
        return UNIT
    def p_Cell_get(self, ctx, st, r):
        return self.I.load(st, r)
    def p_mem_take(self, ctx, st, r):
        v = self.I.load(st, r)
        self.I.store(st, r, (), EMPTY if v.op == 'cat' else (NONE if self.is_opt(v) else self.default(ctx.dty)))
        return v
    def is_opt(self, v):
        for c, x in leaves(v):
            if x.op == 'agg':
                return x.a[0][0] == 'adt' and x.a[0][1] == OPT
            if x.ty is not None:
                t = self.I.F.types[self.I.F.strip(x.ty)]
                return t.get('path') == OPT
        return False
    def p_mem_swap(self, ctx, st, a, b):
        x, y = self.I.load(st, a), self.I.load(st, b)
        self.I.store(st, a, (), y)
        self.I.store(st, b, (), x)
        return UNIT
    def p_mem_drop(self, ctx, st, v):
        return UNIT
    def p_mem_size_of(self, ctx, st):
        n = self.I.F.size_of(ctx.callee['targs'][0])
        if n is None:
            return P(mk('sizeof', self.I.F.types[ctx.callee['targs'][0]]['s']))
        return num(n)
    def p_mem_size_of_val(self, ctx, st, r):
        t = ctx.callee['targs'][0]
        n = self.I.F.size_of(t)
        if n is None:
            e = self.I.F.elem_ty(t)
            if e is not None and self.I.F.size_of(e) is not None:
                return scale(self.I.seq_len(self.I.load(st, r)), self.I.F.size_of(e))
            return P(mk('sizeof', self.I.F.types[t]['s']))
        return num(n)

    def p_Rc_new(self, ctx, st, v):
        I = self.I
        n = mk('rcid', ctx.frame_key(), *[l.k for l in I.loops])
        p = mk('rcnew', n, v)
        if p.ty is None:
            p.ty = ctx.dty
        st.mem[mk('heap', p)] = v
        return p
    p_Box_new = p_Rc_new

    def p_Rc_clone(self, ctx, st, r):
        return self.I.load(st, r)
    def p_Rc_as_ref(self, ctx, st, r):
        return self.I.load(st, r)

    def p_Rc_ptr_eq(self, ctx, st, a, b):
        I = self.I
        return I.ptr_eq(I.load(st, a), I.load(st, b))

    def p_Rc_strong_count(self, ctx, st, r):
        return self.I.int_atom(mk('strong', self.I.load(st, r)), 'usize')

    def p_ptr_eq(self, ctx, st, a, b):
        return self.I.ptr_eq(a, b)
    p_ptr_addr_eq = p_ptr_eq

    # ------------------------------------------------------------------ comparisons
    def peq(self, ctx, st, a, b):
        I = self.I
        x, y = self.deep(st, a), self.deep(st, b)
        ty = None
        for z in (x, y):
            for c, l in leaves(z):
                if l.op == 'agg' and l.a[0][0] == 'adt':
                    ty = I.F.ty_of_adt(l.a[0][1])
                elif l.ty is not None:
                    ty = I.F.strip(l.ty)
        if ty is not None and I.F.types[ty]['k'] == 'adt' and I.F.types[ty].get('local'):
            r = self.local_impl('std::cmp::PartialEq', ty, 'eq')
            if r is not None:
                ra, rb = self.place_of(st, a), self.place_of(st, b)
                return I.call_fn(st, r['fn'], [ra, rb], ctx.site + ('eq',))
        return st, I.eq_val(x, y, st)

    def place_of(self, st, a):
        """innermost reference"""
        I = self.I
        p = a
        for _ in range(8):
            v = I.load(st, p)
            if I.is_ptr(v) or (v.op == 'ite' and any(I.is_ptr(x) for c, x in leaves(v) if x is not UNDEF)):
                p = v
            else:
                return p
        return p

    def local_impl(self, trait, self_ty, name):
        for r in self.I.F.roots:
            if r.get('trait') == trait and r.get('self') == self_ty and r['name'] == name:
                return r
        return None

    def p_PartialEq_eq(self, ctx, st, a, b):
        return self.peq(ctx, st, a, b)
    def p_PartialEq_ne(self, ctx, st, a, b):
        s, v = self.peq(ctx, st, a, b)
        return s, bnot(v)

    def ints(self, st, a, b):
        x, y = self.deep(st, a), self.deep(st, b)
        if is_poly(x) and is_poly(y):
            return x, y
        return None

    def ord2(self, ctx, st, a, b, f, name):
        r = self.ints(st, a, b)
        if r is None:
            return lit(mk('cmp', name, self.deep(st, a), self.deep(st, b)))
        return f(*r)
    def p_PartialOrd_lt(self, ctx, st, a, b):
        return self.ord2(ctx, st, a, b, lambda x, y: lt(x, y), 'lt')
    def p_PartialOrd_le(self, ctx, st, a, b):
        return self.ord2(ctx, st, a, b, lambda x, y: le(x, y), 'le')
    def p_PartialOrd_gt(self, ctx, st, a, b):
        return self.ord2(ctx, st, a, b, lambda x, y: lt(y, x), 'gt')
    def p_PartialOrd_ge(self, ctx, st, a, b):
        return self.ord2(ctx, st, a, b, lambda x, y: le(y, x), 'ge')
    def p_cmp_max(self, ctx, st, a, b):
        return imax(self.I.as_int(a), self.I.as_int(b))
    def p_cmp_min(self, ctx, st, a, b):
        return imin(self.I.as_int(a), self.I.as_int(b))
    p_Ord_max = p_cmp_max
    p_Ord_min = p_cmp_min
    def p_Ord_cmp(self, ctx, st, a, b):
        r = self.ints(st, a, b)
        if r is None:
            return mk('cmpv', self.deep(st, a), self.deep(st, b))
        return self.ordering(*r)
    def p_PartialOrd_partial_cmp(self, ctx, st, a, b):
        r = self.ints(st, a, b)
        if r is None:
            return mk('cmpv', self.deep(st, a), self.deep(st, b))
        return some(self.ordering(*r))
    def p_Ord_clamp(self, ctx, st, a, lo, hi):
        return imax(imin(self.I.as_int(a), self.I.as_int(hi)), self.I.as_int(lo))
    def ordering(self, a, b):
        o = 'std::cmp::Ordering'
        L, E, G = (mk('agg', ('adt', o, j)) for j in range(3))
        return ite(lt(a, b), L, ite(eqi(a, b), E, G))

    # ------------------------------------------------------------------ integers
    def fits(self, r, n):
        lo, hi = INT_RANGE[n]
        a, b = prange(r)
        c = TRUE
        if b > hi:
            c = band(c, le(r, num(hi)))
        if a < lo:
            c = band(c, le(num(lo), r))
        return c

    def checked(self, r, n):
        c = self.fits(r, n)
        return ite(c, some(r), NONE)
    def p_int_checked_add(self, ctx, st, n, a, b):
        return self.checked(add(a, b), n)
    def p_int_checked_sub(self, ctx, st, n, a, b):
        return self.checked(sub(a, b), n)
    def p_int_checked_mul(self, ctx, st, n, a, b):
        return self.checked(mul(a, b), n)
    def p_int_checked_div(self, ctx, st, n, a, b):
        z = eq0(b)
        return ite(z, NONE, some(self.I.div(a, b, n)))
    def p_int_checked_rem(self, ctx, st, n, a, b):
        z = eq0(b)
        return ite(z, NONE, some(self.I.rem(a, b, n)))
    p_int_checked_div_euclid = p_int_checked_div
    p_int_checked_rem_euclid = p_int_checked_rem
    def p_int_div_euclid(self, ctx, st, n, a, b):
        return self.I.div(a, b, n)
    def p_int_rem_euclid(self, ctx, st, n, a, b):
        return self.I.rem(a, b, n)
    def p_int_div_ceil(self, ctx, st, n, a, b):
        c = const_of(b)
        if c is not None and c > 0:
            return as_int_poly(idiv(add(a, num(c - 1)), int(c)))
        return self.I.int_atom(mk('divceil', a, b), n)
    def p_int_next_multiple_of(self, ctx, st, n, a, b):
        c = const_of(b)
        if c is not None and c > 0:
            return add(a, imod(neg(a), int(c)))
        return self.I.int_atom(mk('nextmul', a, b), n)
    def p_int_is_multiple_of(self, ctx, st, n, a, b):
        return eqi(self.I.rem(a, b, n), ZERO)
    def p_int_is_power_of_two(self, ctx, st, n, a):
        return lit(mk('pow2', a))

    def saturate(self, r, n):
        """the saturated result (the exact one when the saturation is abstracted)"""
        lo, hi = INT_RANGE[n]
        a, b = prange(r)
        if self.I.exact:
            if a < lo and b <= hi and lo == 0:
                return imax(r, ZERO)
            return r
        if b > hi:
            r = ite_int(le(r, num(hi)), r, num(hi))
        if a < lo:
            r = ite_int(le(num(lo), r), r, num(lo))
        return r
    def p_int_saturating_add(self, ctx, st, n, a, b):
        return self.saturate(add(a, b), n)
    def p_int_saturating_mul(self, ctx, st, n, a, b):
        return self.saturate(mul(a, b), n)
    def p_int_saturating_sub(self, ctx, st, n, a, b):
        r = sub(a, b)
        if INT_RANGE[n][0] == 0:
            return imax(r, ZERO)
        return self.saturate(r, n)
    def wrapping(self, r, n, ctx, st):
        v = self.I.cast_int(r, n)
        if v is not r:
            self.I.event('cast', st.pc, ctx.fr, ctx.line, (n, r))
        return v
    def p_int_wrapping_add(self, ctx, st, n, a, b):
        return self.wrapping(add(a, b), n, ctx, st)
    def p_int_wrapping_sub(self, ctx, st, n, a, b):
        return self.wrapping(sub(a, b), n, ctx, st)
    def p_int_wrapping_mul(self, ctx, st, n, a, b):
        return self.wrapping(mul(a, b), n, ctx, st)
    def p_int_overflowing_add(self, ctx, st, n, a, b):
        r = add(a, b)
        return tup(self.I.cast_int(r, n), bnot(self.fits(r, n)))
    def p_int_overflowing_mul(self, ctx, st, n, a, b):
        r = mul(a, b)
        return tup(self.I.cast_int(r, n), bnot(self.fits(r, n)))
    def p_int_min(self, ctx, st, n, a, b):
        return imin(a, b)
    def p_int_max(self, ctx, st, n, a, b):
        return imax(a, b)
    def p_int_abs(self, ctx, st, n, a):
        return imax(a, neg(a))
    def p_int_pow(self, ctx, st, n, a, b):
        c = const_of(b)
        if c is not None and c < 16:
            r = ONE
            for _ in range(int(c)):
                r = mul(r, a)
            return r
        return self.I.int_atom(mk('pow', a, b), n)

    def p_int_to_be_bytes(self, ctx, st, n, x):
        w = self.width(n)
        return be(self.strip_cast(self.I.as_int(x), w), w)
    def p_float_to_be_bytes(self, ctx, st, n, x):
        return be(x, 4 if n == 'f32' else 8)
    def p_int_to_le_bytes(self, ctx, st, n, x):
        return mk('cat', ('u', P(mk('le', n, self.I.as_int(x)))))
    def p_int_to_ne_bytes(self, ctx, st, n, x):
        return mk('cat', ('u', P(mk('le', n, self.I.as_int(x)))))
    def p_float_to_le_bytes(self, ctx, st, n, x):
        return mk('cat', ('u', P(mk('le', n, x))))
    p_float_to_ne_bytes = p_float_to_le_bytes
    def p_float_to_bits(self, ctx, st, n, x):
        return self.I.int_atom(mk('bits', x), 'u32' if n == 'f32' else 'u64')
    def p_float_is_nan(self, ctx, st, n, x):
        return lit(mk('isnan', x))
    def p_int_to_be(self, ctx, st, n, x):
        return self.I.int_atom(mk('tobe', x), n)
    def p_int_swap_bytes(self, ctx, st, n, x):
        return self.I.int_atom(mk('tobe', x), n)
    def p_int_from_be_bytes(self, ctx, st, n, x):
        return self.dec(x, n)
    def p_float_from_be_bytes(self, ctx, st, n, x):
        return self.dec(x, n)
    def p_int_from_le_bytes(self, ctx, st, n, x):
        return self.I.int_atom(mk('fromle', n, x), n)

    def width(self, n):
        return {'8': 1, '6': 2, '2': 4, '4': 8}[n[-1]] if n not in ('usize', 'isize') else 8

    def strip_cast(self, p, w):
        """conversions that keep the w low bytes"""
        if p.op == 'poly' and len(p.a[0]) == 1 and p.a[0][0][1] == 1 and len(p.a[0][0][0]) == 1:
            x = p.a[0][0][0][0]
            if x.op == 'cast' and self.width(x.a[0]) >= w:
                return self.strip_cast(x.a[1], w)
            if x.op == 'bits' and w == (4 if INTTY.get(x) == 'u32' else 8):
                return x.a[0]
        return p

    def dec(self, seq, n):
        """big-endian value of the bytes"""
        F = self.I.F
        w = self.width(n)
        if seq.op == 'cat' and len(seq.a) == 1 and seq.a[0][0] == 'be' and seq.a[0][2] == w and n[0] != 'f':
            x = seq.a[0][1]
            if x.op == 'poly':
                return self.I.cast_int(x, n)
        if seq.op == 'cat' and all(p[0] == 'u' and p[1].op == 'poly' and const_of(p[1]) is not None for p in seq.a) and len(seq.a) == w and n[0] != 'f':
            v = 0
            for p in seq.a:
                v = v * 256 + int(const_of(p[1]))
            lo, hi = INT_RANGE[n]
            if v > hi:
                v -= 2 ** (8 * w)
            return num(v)
        t = mk('dec', n, seq)
        if n == 'u8' or n == 'i8':
            x = self.I.seq_elem(seq, ZERO)
            if n == 'u8':
                return x
        ty = F.by_str.get(n)
        if n[0] != 'f':
            return self.I.int_atom(t, n)
        return self.I.wrap(t, ty)

    # ------------------------------------------------------------------ chars
    def chp(self, name, c):
        v = const_of(c) if is_poly(c) else None
        if v is not None:
            ch = chr(int(v))
            r = {'is_ascii': ch.isascii(), 'is_alphanumeric': ch.isalnum(), 'is_alphabetic': ch.isalpha(), 'is_numeric': ch.isnumeric()}[name]
            return TRUE if r else FALSE
        return lit(mk('chp', name, c))
    def rng(self, c, a, b):
        return band(le(num(ord(a)), c), le(c, num(ord(b))))
    def ascii(self, c):
        return le(c, num(127))
    def alpha_a(self, c):
        return bor(self.rng(c, 'a', 'z'), self.rng(c, 'A', 'Z'))
    def chval(self, st, c):
        return self.I.as_int(self.deep(st, c))
    def p_char_is_ascii(self, ctx, st, c):
        return self.ascii(self.chval(st, c))
    def p_char_is_alphanumeric(self, ctx, st, c):
        c = self.chval(st, c)
        return bite(self.ascii(c), bor(self.alpha_a(c), self.rng(c, '0', '9')), self.chp('is_alphanumeric', c))
    def p_char_is_alphabetic(self, ctx, st, c):
        c = self.chval(st, c)
        return bite(self.ascii(c), self.alpha_a(c), self.chp('is_alphabetic', c))
    def p_char_is_numeric(self, ctx, st, c):
        c = self.chval(st, c)
        return bite(self.ascii(c), self.rng(c, '0', '9'), self.chp('is_numeric', c))
    def p_char_is_ascii_alphanumeric(self, ctx, st, c):
        c = self.chval(st, c)
        return bor(self.alpha_a(c), self.rng(c, '0', '9'))
    def p_char_is_ascii_alphabetic(self, ctx, st, c):
        return self.alpha_a(self.chval(st, c))
    def p_char_is_ascii_digit(self, ctx, st, c):
        return self.rng(self.chval(st, c), '0', '9')
    def p_char_is_ascii_punctuation(self, ctx, st, c):
        c = self.chval(st, c)
        return bor(self.rng(c, '!', '/'), self.rng(c, ':', '@'), self.rng(c, '[', '`'), self.rng(c, '{', '~'))
    def p_char_is_ascii_graphic(self, ctx, st, c):
        return self.rng(self.chval(st, c), '!', '~')
    def p_char_is_ascii_control(self, ctx, st, c):
        c = self.chval(st, c)
        return bor(le(c, num(31)), eqi(c, num(127)))
    def p_char_is_whitespace(self, ctx, st, c):
        c = self.chval(st, c)
        return bite(self.ascii(c), bor(eqi(c, num(32)), self.rng(c, '\t', '\r')), lit(mk('chp', 'is_whitespace', c)))
    def p_char_is_control(self, ctx, st, c):
        c = self.chval(st, c)
        return bite(self.ascii(c), bor(le(c, num(31)), eqi(c, num(127))), lit(mk('chp', 'is_control', c)))
    def p_char_len_utf8(self, ctx, st, c):
        return self.I.int_atom(mk('len_utf8', self.I.as_int(c)), 'usize')
    def p_int_is_ascii(self, ctx, st, n, c):
        return self.ascii(self.chval(st, c))
    def p_int_is_ascii_alphanumeric(self, ctx, st, n, c):
        return self.p_char_is_ascii_alphanumeric(ctx, st, c)

    def chars_seq(self, st, r):
        I = self.I
        s = self.bytes_of(st, r)
        if s.op == 'cat' and all(p[0] == 'u' and const_of(p[1]) is not None and const_of(p[1]) < 128 for p in s.a):
            return s
        a = mk('chars', s)
        if a.ty is None:
            a.ty = self.synth('[char]', {'k': 'slice', 't': I.F.by_str['char'], 's': '[char]'})
        return seq_atom(a)

    def synth(self, name, t):
        F = self.I.F
        i = F.by_str.get(name)
        if i is None:
            i = len(F.types)
            F.types.append(t)
            F.by_str[name] = i
        return i

    def p_str_chars(self, ctx, st, r):
        S = self.chars_seq(st, r)
        return it(S, ZERO, length(S))

    def p_str_as_bytes(self, ctx, st, r):
        return r
    p_str_bytes_ref = p_str_as_bytes
    p_String_as_bytes = p_str_as_bytes
    p_String_as_str = p_str_as_bytes
    p_str_as_str = p_str_as_bytes
    p_Vec_as_slice = p_str_as_bytes
    p_Vec_as_mut_slice = p_str_as_bytes
    p_slice_as_ref = p_str_as_bytes
    p_slice_as_slice = p_str_as_bytes
    p_array_as_slice = p_str_as_bytes
    p_PathBuf_as_path = p_str_as_bytes
    p_Path_as_ref = p_str_as_bytes
    def p_str_bytes(self, ctx, st, r):
        S = self.bytes_of(st, r)
        return it(S, ZERO, length(S))
    def p_str_len(self, ctx, st, r):
        return self.I.seq_len(self.bytes_of(st, r))
    p_String_len = p_str_len
    def p_str_is_empty(self, ctx, st, r):
        return eqi(self.I.seq_len(self.bytes_of(st, r)), ZERO)
    p_String_is_empty = p_str_is_empty
    def p_str_contains(self, ctx, st, r, pat):
        I = self.I
        s = self.bytes_of(st, r)
        if is_poly(pat) and s.op == 'cat' and all(p[0] == 'u' and const_of(p[1]) is not None and const_of(p[1]) < 128 for p in s.a):
            r = FALSE
            for p in s.a:
                r = bor(r, eqi(pat, p[1]))
            return r
        return self.unknown(ctx, st, ctx.callee, [self.ref_to(s), pat])
    def p_str_to_string(self, ctx, st, r):
        return self.bytes_of(st, r)
    p_str_to_owned = p_str_to_string
    def p_str_is_ascii(self, ctx, st, r):
        return lit(mk('strascii', self.bytes_of(st, r)))
    def p_String_new(self, ctx, st):
        return EMPTY
    def p_String_from_utf8(self, ctx, st, v):
        c = self.utf8ok(v)
        return ite(c, ok(v), err(mk('utf8err', v)))
    def utf8ok(self, v):
        if v.op == 'cat' and all(p[0] == 'u' and const_of(p[1]) is not None and const_of(p[1]) < 128 for p in v.a):
            return TRUE
        if v.op == 'cat' and len(v.a) == 1 and v.a[0][0] == 'seq':
            t = v.a[0][1].ty
            if t is not None and self.I.F.types[t]['s'] in ('str', 'std::string::String'):
                return TRUE
        return lit(mk('utf8ok', v))
    def p_str_from_utf8(self, ctx, st, r):
        v = self.bytes_of(st, r)
        c = self.utf8ok(v)
        return ite(c, ok(r), err(mk('utf8err', v)))
    p_converts_from_utf8 = p_str_from_utf8
    def p_String_from_utf8_lossy(self, ctx, st, r):
        return mk('lossy', self.bytes_of(st, r))
    def p_String_into_bytes(self, ctx, st, v):
        return v
    p_String_into_boxed_str = p_String_into_bytes
    def p_String_push_str(self, ctx, st, r, x):
        I = self.I
        I.store(st, r, (), concat(I.load(st, r), self.bytes_of(st, x)))
        return UNIT

    # ------------------------------------------------------------------ vectors and slices
    def vec(self, st, r):
        v = self.I.load(st, r)
        return v
    def p_Vec_new(self, ctx, st):
        return EMPTY
    def p_Vec_with_capacity(self, ctx, st, n):
        self.I.event('alloc', st.pc, ctx.fr, ctx.line, (self.I.as_int(n),))
        return EMPTY
    def p_Vec_reserve(self, ctx, st, r, n):
        self.I.event('alloc', st.pc, ctx.fr, ctx.line, (self.I.as_int(n),))
        return UNIT
    def p_Vec_push(self, ctx, st, r, x):
        I = self.I
        I.store(st, r, (), self.append(I.load(st, r), unit(x)))
        return UNIT
    def append(self, v, s):
        if v.op == 'ite':
            return ite_dd(v, lambda x: self.append(x, s))
        if v is UNDEF:
            return UNDEF
        if s.op != 'cat':
            s = as_seq(s)
        return concat(v, s)
    def p_vec_from_elem(self, ctx, st, x, n):
        n = self.I.as_int(n)
        self.I.event('alloc', st.pc, ctx.fr, ctx.line, (n,))
        return cat(('rep', x, n))
    def p_Vec_resize(self, ctx, st, r, n, x):
        I = self.I
        v = I.load(st, r)
        I.event('alloc', st.pc, ctx.fr, ctx.line, (n,))
        L = I.seq_len(v)
        c = le(L, n)
        if c is TRUE:
            w = concat(v, cat(('rep', x, sub(n, L))))
        elif c is FALSE:
            w = subseq(v, ZERO, n)
        else:
            w = concat(subseq(v, ZERO, imin(L, n)), cat(('rep', x, imax(sub(n, L), ZERO))))
        I.store(st, r, (), w)
        return UNIT
    def p_Vec_truncate(self, ctx, st, r, n):
        I = self.I
        v = I.load(st, r)
        I.store(st, r, (), subseq(v, ZERO, imin(I.seq_len(v), n)))
        return UNIT
    def p_Vec_clear(self, ctx, st, r):
        self.I.store(st, r, (), EMPTY)
        return UNIT
    def p_slice_len(self, ctx, st, r):
        return self.I.seq_len(self.I.load(st, r))
    p_Vec_len = p_slice_len
    def p_slice_is_empty(self, ctx, st, r):
        return eqi(self.I.seq_len(self.I.load(st, r)), ZERO)
    p_Vec_is_empty = p_slice_is_empty
    def bound(self, ctx, st, i, n, what):
        bad = band(st.pc, bnot(lt(i, n)))
        if bad is not FALSE:
            self.I.event('panic', bad, ctx.fr, ctx.line, (what, i, n))
        return st.on(lt(i, n))
    def p_Vec_remove(self, ctx, st, r, i):
        I = self.I
        v = I.load(st, r)
        n = I.seq_len(v)
        st = self.bound(ctx, st, i, n, 'remove')
        x = I.seq_elem(v, i)
        I.store(st, r, (), concat(subseq(v, ZERO, i), subseq(v, add(i, ONE), n)))
        return st, simp(x, st.pc)
    def p_Vec_swap_remove(self, ctx, st, r, i):
        I = self.I
        v = I.load(st, r)
        n = I.seq_len(v)
        st = self.bound(ctx, st, i, n, 'swap_remove')
        x = I.seq_elem(v, i)
        last = I.seq_elem(v, sub(n, ONE))
        w = concat(subseq(v, ZERO, i), unit(last), subseq(v, add(i, ONE), n))
        I.store(st, r, (), subseq(w, ZERO, sub(n, ONE)))
        return st, simp(x, st.pc)
    def p_Vec_insert(self, ctx, st, r, i, x):
        I = self.I
        v = I.load(st, r)
        n = I.seq_len(v)
        st = self.bound(ctx, st, i, add(n, ONE), 'insert')
        I.store(st, r, (), concat(subseq(v, ZERO, i), unit(x), subseq(v, i, n)))
        return st, UNIT
    def p_Vec_pop(self, ctx, st, r):
        I = self.I
        v = I.load(st, r)
        n = I.seq_len(v)
        e = eqi(n, ZERO)
        m = sub(n, ONE)
        x = I.seq_elem(v, m)
        I.store(st, r, (), ite(e, v, subseq(v, ZERO, m)))
        return ite(e, NONE, some(x))
    def p_Vec_append(self, ctx, st, r, o):
        I = self.I
        I.store(st, r, (), self.append(I.load(st, r), I.load(st, o)))
        I.store(st, o, (), EMPTY)
        return UNIT
    def p_Vec_extend_from_slice(self, ctx, st, r, o):
        I = self.I
        I.store(st, r, (), self.append(I.load(st, r), self.bytes_of(st, o)))
        return UNIT
    def p_Vec_into_boxed_slice(self, ctx, st, v):
        return v
    def p_Vec_retain(self, ctx, st, r, f):
        I = self.I
        acc = self.carry(ctx, 'retain')
        def body(s, y):
            s, v = self.cv(ctx, s, f, [y], 'ret')
            s.mem[acc] = self.append(s.mem[acc], ite_seq(v, unit(self.deep(s, y)), EMPTY))
            return [('next', s)]
        outs = self.loop(ctx, st, self.p_slice_iter(ctx, st, r), body, {acc: EMPTY}, 'retain')
        s, S = self.gather(outs, [acc], lambda t, s: s.mem[acc])
        I.store(s, r, (), S)
        return s, UNIT
    def undecided(self, m):
        return Undecided(m)

    def elem_ref(self, st, r, i):
        """reference to the element i of the sequence behind r"""
        I = self.I
        p = None
        for c, root, pr in I.targets(r):
            q = I.mkref(root, I.pushproj(pr, ('idx', i)))
            p = q if p is None else ite(c, q, p)
        return p
    def slice_ref(self, st, r, a, b):
        I = self.I
        p = None
        for c, root, pr in I.targets(r):
            if a is ZERO and b is None:
                q = I.mkref(root, pr)
            else:
                q = I.mkref(root, I.pushproj(pr, ('sl', a, b)))
            p = q if p is None else ite(c, q, p)
        return p
    def p_slice_first(self, ctx, st, r):
        n = self.I.seq_len(self.I.load(st, r))
        return ite(eqi(n, ZERO), NONE, some(self.elem_ref(st, r, ZERO)))
    def p_slice_last(self, ctx, st, r):
        n = self.I.seq_len(self.I.load(st, r))
        return ite(eqi(n, ZERO), NONE, some(self.elem_ref(st, r, sub(n, ONE))))
    p_slice_first_mut = p_slice_first
    p_slice_last_mut = p_slice_last
    def p_slice_get(self, ctx, st, r, i):
        I = self.I
        n = I.seq_len(I.load(st, r))
        if is_poly(i):
            return ite(lt(i, n), some(self.elem_ref(st, r, i)), NONE)
        a, b, c = self.range_of(i, n)
        if a is None:
            return self.unknown(ctx, st, ctx.callee, [r, i])
        return ite(band(le(a, b), le(b, n)), some(self.slice_ref(st, r, a, b)), NONE)
    p_slice_get_mut = p_slice_get
    def range_of(self, v, n):
        if v.op == 'agg' and v.a[0] == ITER:
            return v.a[2], v.a[3], True
        if v.op == 'zst' and 'RangeFull' in v.a[0]:
            return ZERO, None, True
        if v.op == 'agg' and v.a[0][0] == 'adt':
            p = v.a[0][1].split('::')[-1]
            if p == 'RangeFull':
                return ZERO, None, True
            if p == 'RangeFrom':
                return v.a[1], None, True
            if p == 'RangeTo':
                return ZERO, v.a[1], True
            if p == 'RangeToInclusive':
                return ZERO, add(v.a[1], ONE), True
            if p == 'Range':
                return v.a[1], v.a[2], True
        return None, None, None
    def p_Index_index(self, ctx, st, r, i):
        I = self.I
        v = I.load(st, r)
        n = I.seq_len(v)
        if is_poly(i):
            st = self.bound(ctx, st, i, n, 'index')
            return st, self.elem_ref(st, r, i)
        a, b, c = self.range_of(i, n)
        if a is None:
            return self.unknown(ctx, st, ctx.callee, [r, i])
        good = le(a, n) if b is None else band(le(a, b), le(b, n))
        bad = band(st.pc, bnot(good))
        if bad is not FALSE:
            I.event('panic', bad, ctx.fr, ctx.line, ('slice', a, b or n, n))
        st = st.on(good)
        return st, self.slice_ref(st, r, a, b)
    p_IndexMut_index_mut = p_Index_index
    def p_slice_to_vec(self, ctx, st, r):
        return self.I.load(st, r)
    p_slice_into_vec = p_slice_to_vec
    def p_Box_new_uninit(self, ctx, st):
        return UNDEF
    def p_boxed_box_assume_init_into_vec_unsafe(self, ctx, st, v):
        return v
    def p_slice_concat(self, ctx, st, r):
        x = self.p_slice_iter(ctx, st, r)
        return self.flat(ctx, st, lazy('map', x, mk('pyfn', 'load')))
    def p_slice_split_last(self, ctx, st, r):
        n = self.I.seq_len(self.I.load(st, r))
        m = sub(n, ONE)
        return ite(eqi(n, ZERO), NONE, some(tup(self.elem_ref(st, r, m), self.slice_ref(st, r, ZERO, m))))
    def p_slice_ends_with(self, ctx, st, r, o):
        I = self.I
        a, b = self.bytes_of(st, r), self.bytes_of(st, o)
        n, m = I.seq_len(a), I.seq_len(b)
        return band(le(m, n), I.seq_eq(I.seq_sub(a, sub(n, m), n), b))
    def p_Vec_split_off(self, ctx, st, r, i):
        I = self.I
        v = I.load(st, r)
        n = I.seq_len(v)
        st = self.bound(ctx, st, i, add(n, ONE), 'split_off')
        I.store(st, r, (), subseq(v, ZERO, i))
        return st, subseq(v, i, n)
    def p_Vec_drain(self, ctx, st, r, w):
        I = self.I
        v = I.load(st, r)
        n = I.seq_len(v)
        a, b, c = self.range_of(w, n)
        if a is None:
            raise self.undecided('drain')
        if b is None:
            b = n
        good = band(le(a, b), le(b, n))
        bad = band(st.pc, bnot(good))
        if bad is not FALSE:
            I.event('panic', bad, ctx.fr, ctx.line, ('drain', a, b, n))
        st = st.on(good)
        I.store(st, r, (), concat(subseq(v, ZERO, a), subseq(v, b, n)))
        return st, self.mk_iter(subseq(v, a, b))
    def arith(self, op):
        def f(ctx, st, a, b):
            return self.I.binop_val(st, ctx, op, self.deep(st, a), self.deep(st, b))
        return f
    @property
    def p_Add_add(self): return self.arith('Add')
    @property
    def p_Sub_sub(self): return self.arith('Sub')
    @property
    def p_Mul_mul(self): return self.arith('Mul')
    @property
    def p_Div_div(self): return self.arith('Div')
    @property
    def p_Rem_rem(self): return self.arith('Rem')
    @property
    def p_BitXor_bitxor(self): return self.arith('BitXor')
    @property
    def p_BitAnd_bitand(self): return self.arith('BitAnd')
    @property
    def p_BitOr_bitor(self): return self.arith('BitOr')
    @property
    def p_Shr_shr(self): return self.arith('Shr')
    @property
    def p_Shl_shl(self): return self.arith('Shl')
    def p_Neg_neg(self, ctx, st, a):
        return self.I.binop_val(st, ctx, 'Sub', ZERO, self.deep(st, a))
    def p_Vec_shrink_to_fit(self, ctx, st, r):
        return UNIT
    def p_Vec_dedup(self, ctx, st, r):
        I = self.I
        v = I.load(st, r)
        n = I.seq_len(v)
        k = fresh_k()
        x = elem(v, P(k))
        y = elem(v, sub(P(k), ONE))
        I.store(st, r, (), mapseq(n, k, ite_seq(band(lt(ZERO, P(k)), I.eq_val(x, y, st)), EMPTY, unit(x))))
        return UNIT
    def sorted_(self, ctx, st, r):
        I = self.I
        v = I.load(st, r)
        I.store(st, r, (), self.seq_like(mk('sorted', v), v))
        return UNIT
    p_slice_sort = sorted_
    p_slice_sort_unstable = sorted_
    def seq_like(self, t, v):
        """a sequence of unknown structure with the items of v in another order"""
        n = self.I.seq_len(v)
        k = fresh_k()
        return mapseq(n, k, unit(_samplewrap(mk('elem', t, P(k)), v)))
    def p_slice_contains(self, ctx, st, r, x):
        I = self.I
        S = I.load(st, r)
        k = fresh_k()
        y = self.deep(st, x)
        S = self.aslist(S)
        c = self.any_of(S, lambda e: I.eq_val(self.deep(st, e), y, st))
        return c
    def any_of(self, S, f):
        r = FALSE
        for p in S.a:
            if p[0] == 'u':
                r = bor(r, f(p[1]))
                continue
            k = fresh_k()
            if p[0] == 'iteq':
                c = lit(p[1])
                r = bor(r, bite(c, self.any_of(p[2], f), self.any_of(p[3], f)))
            elif p[0] == 'map' and not self.single(inst(p[2], P(k))):
                r = bor(r, exists(p[1], k, self.any_of(inst(p[2], P(k)), f)))
            else:
                c, x, n = self.piece_item(p, P(k))
                r = bor(r, exists(n, k, band(c, f(x))))
        return r
    def single(self, b):
        return (len(b.a) == 1 and b.a[0][0] == 'u') or self.opt_item(b)[0] is not None
    def sample_item(self, p):
        if p[0] in ('u', 'rep'):
            return p[1]
        if p[0] == 'map':
            return self.sample_of(inst(p[2], P(fresh_k())))
        if p[0] == 'iteq':
            x = self.sample_of(p[2])
            return x if x is not None else self.sample_of(p[3])
        return None
    def sample_of(self, S):
        for q in S.a:
            x = self.sample_item(q)
            if x is not None:
                return x
        return None
    def aslist(self, v):
        return v if v.op == 'cat' else as_seq(v)
    def piece_item(self, p, i):
        """(condition, item, domain size) of the piece p at the domain index i"""
        if p[0] == 'u':
            return TRUE, p[1], ONE
        if p[0] == 'map':
            b = inst(p[2], i)
            if len(b.a) == 1 and b.a[0][0] == 'u':
                return TRUE, b.a[0][1], p[1]
            c, x = self.opt_item(b)
            if c is None:
                raise self.undecided('items of a composed sequence')
            return c, x, p[1]
        if p[0] == 'iteq':
            c, x = self.opt_item(mk('cat', p))
            if c is None:
                raise self.undecided('items of a chosen sequence')
            return c, x, ONE
        if p[0] in ('rep', 'seq', 'sub', 'be'):
            return TRUE, pelem(p, i), plen(p)
        raise self.undecided('items')
    def opt_item(self, b):
        """a sequence of at most one item -> (condition, item)"""
        if not b.a:
            return FALSE, UNDEF
        if len(b.a) != 1:
            return None, None
        p = b.a[0]
        if p[0] == 'u':
            return TRUE, p[1]
        if p[0] == 'rep':
            c = bool_of_poly(p[2])
            return (c, p[1]) if c is not None else (None, None)
        if p[0] == 'iteq':
            c1, x1 = self.opt_item(p[2])
            c2, x2 = self.opt_item(p[3])
            if c1 is None or c2 is None:
                return None, None
            a = lit(p[1])
            return bite(a, c1, c2), ite(a, x1, x2)
        return None, None

    def p_slice_copy_from_slice(self, ctx, st, r, o):
        I = self.I
        v = self.bytes_of(st, o)
        a, b = I.seq_len(I.load(st, r)), I.seq_len(v)
        bad = band(st.pc, bnot(eqi(a, b)))
        if bad is not FALSE:
            I.event('panic', bad, ctx.fr, ctx.line, ('copy_from_slice', a, b))
        I.store(st, r, (), v)
        return UNIT
    p_slice_clone_from_slice = p_slice_copy_from_slice
    def p_slice_fill(self, ctx, st, r, x):
        I = self.I
        I.store(st, r, (), cat(('rep', x, I.seq_len(I.load(st, r)))))
        return UNIT
    def p_slice_repeat(self, ctx, st, r, n):
        I = self.I
        S = I.load(st, r)
        return mapseq(n, fresh_k(), S)
    def p_slice_starts_with(self, ctx, st, r, o):
        I = self.I
        a, b = self.bytes_of(st, r), self.bytes_of(st, o)
        n, m = I.seq_len(a), I.seq_len(b)
        return band(le(m, n), I.seq_eq(I.seq_sub(a, ZERO, m), b))
    def p_slice_split_at(self, ctx, st, r, i):
        I = self.I
        n = I.seq_len(I.load(st, r))
        good = le(i, n)
        bad = band(st.pc, bnot(good))
        if bad is not FALSE:
            I.event('panic', bad, ctx.fr, ctx.line, ('split_at', i, n))
        st = st.on(good)
        return st, tup(self.slice_ref(st, r, ZERO, i), self.slice_ref(st, r, i, None))
    def p_slice_split_first(self, ctx, st, r):
        n = self.I.seq_len(self.I.load(st, r))
        return ite(eqi(n, ZERO), NONE, some(tup(self.elem_ref(st, r, ZERO), self.slice_ref(st, r, ONE, None))))

    def p_slice_sort_by_key(self, ctx, st, r, f):
        I = self.I
        v = I.load(st, r)
        # two complementary selections over the same domain, keyed by the position in the domain
        parts = []
        for p in v.a:
            if p[0] != 'map':
                raise self.undecided('sort')
            k = fresh_k()
            c, x, n = self.piece_item(p, P(k))
            s2, key = self.cv(ctx, st.on(TRUE), f, [self.ref_to(x)], 'key%d' % len(parts))
            if key is not P(k):
                raise self.undecided('sort key')
            parts.append((n, k, c, x))
        if not parts:
            return UNIT
        n0, k0 = parts[0][0], parts[0][1]
        res = None
        tot = FALSE
        for n, k, c, x in parts:
            if n is not n0:
                raise self.undecided('sort domains')
            c = subst(c, {k: P(k0)})
            x = subst(x, {k: P(k0)})
            if band(tot, c) is not FALSE:
                raise self.undecided('sort overlap')
            tot = bor(tot, c)
            b = ite_seq(c, unit(x), EMPTY)
            res = b if res is None else ite_seq(c, unit(x), res)
        I.store(st, r, (), mapseq(n0, k0, res))
        return UNIT
    p_slice_sort_unstable_by_key = p_slice_sort_by_key

    def p_slice_reverse(self, ctx, st, r):
        I = self.I
        v = I.load(st, r)
        n = I.seq_len(v)
        k = fresh_k()
        I.store(st, r, (), mapseq(n, k, unit(elem(v, sub(sub(n, ONE), P(k))))))
        return UNIT
    def p_slice_swap(self, ctx, st, r, i, j):
        I = self.I
        v = I.load(st, r)
        x, y = I.seq_elem(v, i), I.seq_elem(v, j)
        I.store(st, r, (('idx', i),), y)
        I.store(st, r, (('idx', j),), x)
        return UNIT

    # ------------------------------------------------------------------ iterators
    def dom(self, S):
        """number of domain positions of S"""
        r = ZERO
        for p in S.a:
            if p[0] == 'map':
                r = add(r, p[1])
            elif p[0] == 'iteq':
                r = add(r, ONE)
            else:
                r = add(r, plen(p))
        return r
    def mk_iter(self, S):
        S = self.aslist(S)
        return it(S, ZERO, self.dom(S))
    def mk_range(self, a, b):
        # the items of a range are the positions of its domain
        k = fresh_k()
        a, b = self.I.as_int(a), self.I.as_int(b)
        S = mk('cat', ('map', P(mk('sym', 'inf')), close(unit(P(k)), k)))
        return it(S, a, b)

    def p_RangeInclusive_new(self, ctx, st, a, b):
        return self.mk_range(a, add(self.I.as_int(b), ONE))
    def p_RangeInclusive_contains(self, ctx, st, r, x):
        v = self.I.load(st, r)
        y = self.I.as_int(self.deep(st, x))
        if self.plain(v):
            return band(le(v.a[2], y), lt(y, v.a[3]))
        return self.unknown(ctx, st, ctx.callee, [r, x])
    p_Range_contains = p_RangeInclusive_contains
    def p_slice_iter(self, ctx, st, r):
        I = self.I
        v = I.load(st, r)
        n = I.seq_len(v)
        c = const_of(n)
        if c is not None and c <= 16:
            S = mk('cat', *[('u', self.elem_ref(st, r, num(i))) for i in range(int(c))])
            return it(S, ZERO, n)
        k = fresh_k()
        # the positions of a composed vector are those of its pieces
        S = mapseq(n, k, unit(self.elem_ref(st, r, P(k))))
        return it(S, ZERO, n)
    p_slice_iter_mut = p_slice_iter
    p_Vec_iter = p_slice_iter
    def p_slice_into_iter(self, ctx, st, r):
        return self.p_slice_iter(ctx, st, r)

    def p_IntoIterator_into_iter(self, ctx, st, x):
        I = self.I
        if x.op == 'agg' and x.a[0][0] in ('iter', 'lazy'):
            return x
        if I.is_ptr(x) or (x.op == 'ite' and any(I.is_ptr(l) for c, l in leaves(x) if l is not UNDEF)):
            v = I.load(st, x)
            if v.op == 'cat':
                return self.p_slice_iter(ctx, st, x)
            if v.op == 'agg' and v.a[0][0] in ('iter', 'lazy'):
                return lazy('byref', x)
            if v.op == 'set' or (v.ty is not None and I.F.kind(v.ty) == 'set'):
                return self.set_iter(v, True)
            if self.is_opt(v):
                return self.p_Option_iter(ctx, st, x)
        if x.op == 'cat':
            return self.mk_iter(x)
        if x.op == 'set' or (x.ty is not None and I.F.kind(x.ty) == 'set'):
            return self.set_iter(x, False)
        if self.is_opt(x):
            return it(ite_seq(self.is_some(x), unit(I.fld(x, 1, 0)), EMPTY), ZERO, ONE)
        if x.op == 'ite':
            return ite_dd(x, lambda y: self.p_IntoIterator_into_iter(ctx, st, y))
        I.unk('into_iter of ' + x.op)
        return lazy('unknown', x)

    def p_iter_once(self, ctx, st, x):
        return self.mk_iter(unit(x))
    def p_iter_empty(self, ctx, st):
        return self.mk_iter(EMPTY)
    def p_iter_repeat(self, ctx, st, x):
        inf = P(mk('sym', 'inf'))
        return it(mk('cat', ('rep', x, inf)), ZERO, inf)
    p_iter_repeat_n = lambda self, ctx, st, x, n: self.mk_iter(cat(('rep', x, n)))
    p_repeat_repeat = p_iter_repeat
    p_once_once = p_iter_once

    def plain(self, x):
        return x.op == 'agg' and x.a[0] == ITER

    def unit_items(self, S):
        """f(i) -> item at the domain position i, when every position has an item"""
        for p in S.a:
            if p[0] == 'map':
                b = p[2].a[1]
                if not (len(b.a) == 1 and b.a[0][0] == 'u'):
                    return False
            elif p[0] == 'iteq':
                return False
        return True

    def item_at(self, S, i):
        return elem(S, i)

    def slice_of_iter(self, x):
        """the remaining sequence of a plain iterator"""
        S, i, e = x.a[1:]
        if i is ZERO and e is self.dom(S):
            return S
        if len(S.a) == 1 and S.a[0][0] == 'map':
            k = fresh_k()
            return mapseq(imax(sub(e, i), ZERO) if not nonneg(sub(e, i)) else sub(e, i), k, inst(S.a[0][2], add(P(k), i)))
        if self.unit_items(S):
            return subseq(S, i, e)
        raise self.undecided('remaining items')

    # next on the iterator stored at the pointer r -> outcomes
    def next(self, ctx, st, r, depth=0):
        I = self.I
        ts = I.targets(r)
        if len(ts) != 1:
            raise self.undecided('iterator behind a choice')
        c, root, pr = ts[0]
        v = I.load_loc(st, root, pr)
        if v.op != 'agg' or v.a[0][0] not in ('iter', 'lazy'):
            if v.op == 'agg' and v.a[0][0] == 'adt' and v.a[0][1].endswith('RangeInclusive'):
                raise self.undecided('inclusive range')
            raise self.undecided('next of %s' % show(v)[:60])
        if v.a[0] == ITER:
            S, i, e = v.a[1:]
            more = lt(i, e)
            st2 = st.copy()
            if const_of(i) is None and len(S.a) > 1:
                raise NeedSplit((root, pr))
            if const_of(i) is None and len(S.a) == 1 and S.a[0][0] in ('u', 'iteq'):
                raise NeedSplit((root, pr))
            if not S.a:
                return [('ok', st2, NONE)]
            try:
                cc, x = self.dom_item(S, i)
            except Undecided:
                if I.loops and len(S.a) > 1:
                    raise NeedSplit((root, pr))
                raise
            if cc is TRUE:
                I.store_loc(st2, root, pr, it(S, add(i, ONE), e))
                return [('ok', st2, ite(more, some(x), NONE))]
            I.store_loc(st2, root, pr, it(S, add(i, ONE), e))
            sk = st2.on(band(more, bnot(cc)))
            o = st2.on(bor(bnot(more), cc))
            # an exhausted iterator has no item to test
            return [('ok', o, ite(more, some(x), NONE)), ('skip', sk, None)]
        name = v.a[0][1]
        inner = I.mkref(root, pr + (('f', 0, 0),))
        if name == 'byref':
            return self.next(ctx, st, v.a[1])
        if name == 'peekable':
            # fields: inner, option of the peeked item
            pk = v.a[2]
            raise self.undecided('peekable')
        if name == 'zip':
            outs = []
            for k1, s1, a in self.next(ctx, st, inner):
                if k1 == 'skip':
                    raise self.undecided('zip of a selection')
                for k2, s2, b in self.next(ctx, s1, I.mkref(root, pr + (('f', 0, 1),))):
                    if k2 == 'skip':
                        raise self.undecided('zip of a selection')
                    c = band(self.is_some(a), self.is_some(b))
                    outs.append(('ok', s2, ite(c, some(tup(I.fld(a, 1, 0), I.fld(b, 1, 0))), NONE)))
            return outs
        outs = []
        for k, s, x in self.next(ctx, st, inner):
            if s.pc is FALSE:
                continue
            if k == 'skip':
                outs.append((k, s, x))
                continue
            if name in ('map', 'filter', 'filter_map', 'enumerate', 'take_while', 'map_while', 'skip_while', 'inspect'):
                has = self.is_some(x)
                sn = s.on(bnot(has))
                ss = s.on(has)
                if sn.pc is not FALSE:
                    outs.append(('ok', sn, NONE))
                if ss.pc is FALSE:
                    continue
                y = simp(I.fld(x, 1, 0), ss.pc)
                if name == 'enumerate':
                    n = v.a[2]
                    I.store_loc(ss, root, pr + (('f', 0, 1),), add(n, ONE))
                    outs.append(('ok', ss, some(tup(n, y))))
                elif name == 'map':
                    s2, z = self.cv(ctx, ss, v.a[2], [y], 'map%d' % depth)
                    outs.append(('ok', s2, some(z)))
                elif name == 'inspect':
                    s2, z = self.cv(ctx, ss, v.a[2], [self.ref_to(y)], 'ins%d' % depth)
                    outs.append(('ok', s2, some(y)))
                elif name == 'filter':
                    s2, z = self.cv(ctx, ss, v.a[2], [self.ref_to(y)], 'flt%d' % depth)
                    outs.append(('ok', s2.on(z), some(y)))
                    outs.append(('skip', s2.on(bnot(z)), None))
                elif name == 'filter_map':
                    s2, z = self.cv(ctx, ss, v.a[2], [y], 'flt%d' % depth)
                    c = self.is_some(z)
                    outs.append(('ok', s2.on(c), z))
                    outs.append(('skip', s2.on(bnot(c)), None))
                elif name == 'take_while':
                    s2, z = self.cv(ctx, ss, v.a[2], [self.ref_to(y)], 'flt%d' % depth)
                    outs.append(('ok', s2.on(z), some(y)))
                    outs.append(('ok', s2.on(bnot(z)), NONE))
                elif name == 'map_while':
                    s2, z = self.cv(ctx, ss, v.a[2], [y], 'flt%d' % depth)
                    outs.append(('ok', s2, z))
                elif name == 'skip_while':
                    s2, z = self.cv(ctx, ss, v.a[2], [self.ref_to(y)], 'flt%d' % depth)
                    on = bor(lit(v.a[3]) if not is_bool(v.a[3]) else v.a[3], bnot(z))
                    a, b = s2.on(on), s2.on(bnot(on))
                    I.store_loc(a, root, pr + (('f', 0, 2),), TRUE)
                    outs.append(('ok', a, some(y)))
                    outs.append(('skip', b, None))
            else:
                raise self.undecided('adaptor ' + name)
        # one outcome for the items
        oks = [(s, x) for k, s, x in outs if k == 'ok']
        res = []
        if oks:
            s, x = I.merge_vals(oks)
            res.append(('ok', s, x))
        sk = [s for k, s, x in outs if k == 'skip' and s.pc is not FALSE]
        if sk:
            res.append(('skip', I.merge(sk), None))
        return res

    def dom_item(self, S, i):
        ci = const_of(i)
        if len(S.a) == 1 and S.a[0][0] != 'u' and S.a[0][0] != 'iteq':
            c, x, n = self.piece_item(S.a[0], i)
            return c, x
        if ci is None:
            raise self.undecided('position in a composed domain')
        off = ZERO
        for p in S.a:
            n = self.dom(mk('cat', p))
            cn = const_of(n)
            if cn is None:
                if const_of(sub(i, off)) is not None:
                    d = sub(i, off)
                    c, x, n = self.piece_item(p, d)
                    if lt(d, n) is TRUE:
                        return c, x
                raise self.undecided('position in a composed domain')
            if const_of(off) + cn > ci:
                c, x, n = self.piece_item(p, sub(i, off))
                return c, x
            off = add(off, n)
        return TRUE, UNDEF

    def p_Iterator_next(self, ctx, st, r):
        return self.next(ctx, st, r)

    def split_iter(self, x):
        """pieces of a composed iterator: [(iterator, unrolled)]"""
        if x.op != 'agg' or x.a[0] != ITER:
            return None
        S, i, e = x.a[1:]
        if i is not ZERO or e is not self.dom(S):
            # skipped positions of the leading units
            ci = const_of(i)
            if ci is None or e is not self.dom(S):
                return None
            ps = list(S.a)
            while ci > 0 and ps and ps[0][0] in ('u', 'iteq'):
                ps.pop(0)
                ci -= 1
            if ci:
                return None
            S = mk('cat', *ps)
        out = []
        for p in S.a:
            s = mk('cat', p)
            if p[0] in ('u', 'iteq'):
                out.append((it(s, ZERO, ONE), True))
            else:
                out.append((it(s, ZERO, self.dom(s)), False))
        return out

    def empty_iter(self):
        return it(EMPTY, ZERO, ZERO)

    def freeze(self, st, x, m):
        """the items with the values behind their (shared) references"""
        I = self.I
        if x.op == 'cat':
            return x
        if I.is_ptr(x) or (x.op == 'ite' and any(I.is_ptr(l) for c, l in leaves(x) if l is not UNDEF)):
            return self.freeze(st, I.load(st, x), m)
        if x.op == 'agg' and x.a[0] == TUP:
            return tup(*[self.freeze(st, y, m) for y in x.a[1:]])
        return x
    def freeze_seq(self, st, S):
        out = []
        for p in S.a:
            if p[0] == 'u':
                out.append(('u', self.freeze(st, p[1], 0)))
            elif p[0] == 'rep':
                out.append(('rep', self.freeze(st, p[1], 0), p[2]))
            elif p[0] == 'map':
                k = fresh_k()
                b = self.freeze_seq(st, inst(p[2], P(k)))
                out.append(('map', p[1], close(b, k)))
            elif p[0] == 'iteq':
                q = ite_seq(lit(p[1]), self.freeze_seq(st, p[2]), self.freeze_seq(st, p[3]))
                out.extend(q.a)
            elif p[0] == 'sub' and p[1].op == 'cat':
                out.append(('sub', self.freeze_seq(st, p[1]), p[2], p[3]))
            else:
                out.append(p)
        return mk('cat', *out)
    def thaw(self, v, x):
        """the value v of a frozen item in the shape of the item x"""
        I = self.I
        if I.is_ptr(x) or (x.op == 'ite' and any(I.is_ptr(l) for c, l in leaves(x) if l is not UNDEF)):
            return self.ref_to(v)
        if x.op == 'agg' and x.a[0] == TUP:
            return tup(*[self.thaw(I.fld(v, 0, j), y) for j, y in enumerate(x.a[1:])])
        return v
    def opaque(self, ctx, st, x):
        """(state, item(i), number of items) of an iterator, read at once"""
        I = self.I
        before = {r: v for r, v in st.mem.items() if r.op == 'heap'}
        st, S = self.collect_seq(ctx, st, x, 'all')
        for r, v in before.items():
            if st.mem.get(r) is not v:
                raise self.undecided('effects of the items of an iterator')
        smp = self.sample_of(S)
        if smp is None:
            smp = terms._sample(S)
        F = self.freeze_seq(st, S)
        n = length(F)
        if len(F.a) <= 1:
            item = lambda i: elem(F, i)
        elif all(p[0] == 'u' for p in F.a):
            item = lambda i: elem(F, i)
        else:
            item = lambda i: _samplewrap(mk('elem', F, i), F)
        return st, (lambda i: self.thaw(item(i), smp) if smp is not None else item(i)), n
    def by_index(self, n, f):
        k = fresh_k()
        if not nonneg(n):
            n = imax(n, ZERO)
        return it(mk('cat', ('map', n, close(unit(f(P(k))), k))), ZERO, n)
    def uniform(self, ctx, st, x):
        """an iterator whose positions are its items"""
        if self.plain(x) and self.unit_items(x.a[1]):
            return st, x
        st, f, n = self.opaque(ctx, st, x)
        return st, self.by_index(n, f)
    def selective(self, x):
        if x.op != 'agg':
            return False
        if x.a[0] == ITER:
            return not self.unit_items(x.a[1])
        n = x.a[0][1]
        if n in ('map', 'enumerate', 'inspect'):
            return self.selective(x.a[1])
        if n == 'zip':
            return self.selective(x.a[1]) or self.selective(x.a[2])
        if n == 'byref':
            return False
        return True

    # adaptors
    def p_Iterator_map(self, ctx, st, x, f):
        return lazy('map', x, f)
    def p_Iterator_filter(self, ctx, st, x, f):
        return lazy('filter', x, f)
    def p_Iterator_filter_map(self, ctx, st, x, f):
        return lazy('filter_map', x, f)
    def p_Iterator_inspect(self, ctx, st, x, f):
        return lazy('inspect', x, f)
    def p_Iterator_flatten(self, ctx, st, x):
        s, S = self.flat(ctx, st, x)
        return self.uniform(ctx, s, self.mk_iter(S))
    def flat(self, ctx, st, x):
        """(state, concatenation of the items)"""
        I = self.I
        acc = self.carry(ctx, 'flato')
        def body(s, y):
            if not (y.op == 'agg' and y.a[0][0] in ('iter', 'lazy')):
                y = self.p_IntoIterator_into_iter(ctx, s, y)
            s, S = self.collect_seq(ctx, s, y, 'flat')
            s.mem[acc] = self.append(s.mem[acc], S)
            return [('next', s)]
        outs = self.loop(ctx, st, x, body, {acc: EMPTY}, 'flato')
        return self.gather(outs, [acc], lambda t, s: s.mem[acc])
    def p_Iterator_flat_map(self, ctx, st, x, f):
        return self.p_Iterator_flatten(ctx, st, lazy('map', x, f))
    def p_Iterator_take_while(self, ctx, st, x, f):
        return lazy('take_while', x, f)
    def p_Iterator_map_while(self, ctx, st, x, f):
        return lazy('map_while', x, f)
    def p_Iterator_skip_while(self, ctx, st, x, f):
        return lazy('skip_while', x, f, FALSE)
    def p_Iterator_fuse(self, ctx, st, x):
        return x
    def p_Iterator_enumerate(self, ctx, st, x):
        if self.plain(x) and x.a[2] is ZERO and self.unit_items(x.a[1]):
            S, i, e = x.a[1:]
            if len(S.a) == 1 and S.a[0][0] == 'map':
                k = fresh_k()
                b = inst(S.a[0][2], P(k))
                return it(mk('cat', ('map', S.a[0][1], close(unit(tup(P(k), b.a[0][1])), k))), i, e)
            if len(S.a) == 1 and S.a[0][0] not in ('u', 'iteq'):
                k = fresh_k()
                return it(mk('cat', ('map', self.dom(S), close(unit(tup(P(k), pelem(S.a[0], P(k)))), k))), i, e)
            if all(p[0] == 'u' for p in S.a):
                return it(mk('cat', *[('u', tup(num(j), p[1])) for j, p in enumerate(S.a)]), i, e)
        return lazy('enumerate', x, ZERO)
    def p_Iterator_skip(self, ctx, st, x, n):
        if self.plain(x) and self.unit_items(x.a[1]):
            S, i, e = x.a[1:]
            return it(S, imin(add(i, n), imax(i, e)), e)
        st, f, m = self.opaque(ctx, st, x)
        return st, self.by_index(sub(m, imin(n, m)), lambda k: f(add(k, n)))
    def p_Iterator_take(self, ctx, st, x, n):
        if self.plain(x) and self.unit_items(x.a[1]):
            S, i, e = x.a[1:]
            if any('inf' in s.a for s in syms(e)):
                return it(S, i, add(i, n))
            return it(S, i, imax(i, imin(e, add(i, n))))
        if x.op == 'agg' and x.a[0][0] == 'lazy' and x.a[0][1] in ('map', 'enumerate', 'inspect'):
            y = self.p_Iterator_take(ctx, st, x.a[1], n)
            if isinstance(y, T):
                return mk('agg', x.a[0], y, *x.a[2:])
        if x.op == 'agg' and x.a[0] == ('lazy', 'zip'):
            y = self.p_Iterator_take(ctx, st, x.a[1], n)
            if isinstance(y, T):
                return mk('agg', x.a[0], y, *x.a[2:])
        st, f, m = self.opaque(ctx, st, x)
        return st, self.by_index(imin(n, m), f)
    def p_Iterator_rev(self, ctx, st, x):
        if self.plain(x) and self.unit_items(x.a[1]):
            S, i, e = x.a[1:]
            if all(p[0] == 'u' for p in S.a):
                c, d = const_of(i), const_of(e)
                if c is not None and d is not None:
                    ps = S.a[int(c):int(d)]
                    return self.mk_iter(mk('cat', *ps[::-1]))
            if len(S.a) == 1:
                k = fresh_k()
                n = sub(e, i)
                if not nonneg(n):
                    n = imax(n, ZERO)
                c, y, _ = self.piece_item(S.a[0], sub(sub(e, ONE), P(k)))
                return it(mk('cat', ('map', n, close(unit(y), k))), ZERO, n)
        st, f, m = self.opaque(ctx, st, x)
        return st, self.by_index(m, lambda k: f(sub(sub(m, ONE), k)))
    def p_Iterator_chain(self, ctx, st, x, y):
        if not (y.op == 'agg' and y.a[0][0] in ('iter', 'lazy')):
            y = self.p_IntoIterator_into_iter(ctx, st, y)
        if self.plain(x) and self.plain(y):
            a, b = self.slice_of_iter(x), self.slice_of_iter(y)
            return self.mk_iter(concat(a, b))
        st, a = self.collect_seq(ctx, st, x, 'chain1')
        st, b = self.collect_seq(ctx, st, y, 'chain2')
        return st, self.mk_iter(concat(a, b))
    def p_Iterator_zip(self, ctx, st, x, y):
        if not (y.op == 'agg' and y.a[0][0] in ('iter', 'lazy')):
            y = self.p_IntoIterator_into_iter(ctx, st, y)
        if self.selective(x):
            st, x = self.uniform(ctx, st, x)
        if self.selective(y):
            st, y = self.uniform(ctx, st, y)
        return st, lazy('zip', x, y)
    p_iter_zip = p_Iterator_zip
    def p_Iterator_cloned(self, ctx, st, x):
        I = self.I
        if self.plain(x):
            S, i, e = x.a[1:]
            out = []
            for p in S.a:
                k = fresh_k()
                c, y, n = self.piece_item(p, P(k))
                v = I.load(st, y)
                b = ite_seq(c, unit(v), EMPTY)
                if p[0] in ('u', 'iteq'):
                    out.extend(b.a)
                else:
                    out.append(('map', n, close(b, k)))
            return it(mk('cat', *out), i, e)
        return lazy('map', x, mk('pyfn', 'load'))
    p_Iterator_copied = p_Iterator_cloned
    def p_Iterator_cycle(self, ctx, st, x):
        if self.plain(x):
            S = self.slice_of_iter(x)
            n = length(S)
            c = const_of(n)
            inf = P(mk('sym', 'inf'))
            if not S.a:
                return self.mk_iter(EMPTY)
            k = fresh_k()
            if c is not None:
                x0 = None
                if all(p[0] == 'u' for p in S.a) and c == 1:
                    return it(mk('cat', ('rep', S.a[0][1], inf)), ZERO, inf)
                body = unit(mk('cyc', S, P(k)))
                x = _samplewrap(mk('cyc', S, P(k)), S)
                return it(mk('cat', ('map', inf, close(unit(x), k))), ZERO, inf)
            if len(S.a) == 1 and S.a[0][0] == 'rep':
                return it(mk('cat', ('rep', S.a[0][1], inf)), ZERO, inf)
            x = _samplewrap(mk('cyc', S, P(k)), S)
            return it(mk('cat', ('map', inf, close(unit(x), k))), ZERO, inf)
        st, S = self.collect_seq(ctx, st, x, 'cyc')
        return self.p_Iterator_cycle(ctx, st, self.mk_iter(S))
    def p_Iterator_by_ref(self, ctx, st, r):
        return r
    def p_Iterator_peekable(self, ctx, st, x):
        return self.uniform(ctx, st, x)
    def p_Peekable_peek(self, ctx, st, r):
        I = self.I
        c, root, pr = I.targets(r)[0]
        v = I.load_loc(st, root, pr)
        if not (self.plain(v) and self.unit_items(v.a[1])):
            raise self.undecided('peek')
        S, i, e = v.a[1:]
        return ite(lt(i, e), some(self.ref_to(self.item_at(S, i))), NONE)
    def p_Peekable_next_if(self, ctx, st, r, f):
        I = self.I
        c, root, pr = I.targets(r)[0]
        v = I.load_loc(st, root, pr)
        if not (self.plain(v) and self.unit_items(v.a[1])):
            raise self.undecided('next_if')
        S, i, e = v.a[1:]
        x = self.item_at(S, i)
        s, z = self.cv(ctx, st, f, [self.ref_to(x)], 'nif')
        c = band(lt(i, e), z)
        I.store_loc(s, root, pr, it(S, as_int_poly(ite(c, add(i, ONE), i)), e))
        return s, ite(c, some(x), NONE)
    def p_Iterator_step_by(self, ctx, st, x, n):
        if self.plain(x) and self.unit_items(x.a[1]) and len(x.a[1].a) == 1:
            S, i, e = x.a[1:]
            k = fresh_k()
            c = const_of(n)
            if c is not None and c > 0:
                c2, y, _ = self.piece_item(S.a[0], add(i, scale(P(k), c)))
                m = as_int_poly(idiv(add(imax(sub(e, i), ZERO), num(c - 1)), int(c)))
                return it(mk('cat', ('map', m, close(unit(y), k))), ZERO, m)
        c = const_of(n)
        if c is None or c <= 0:
            raise self.undecided('step_by')
        st, f, m = self.opaque(ctx, st, x)
        q = as_int_poly(idiv(add(m, num(c - 1)), int(c)))
        return st, self.by_index(q, lambda k: f(scale(k, c)))
    def p_slice_chunks(self, ctx, st, r, n):
        c = const_of(n)
        if c is None or c <= 0:
            raise self.undecided('chunks')
        m = self.I.seq_len(self.I.load(st, r))
        q = as_int_poly(idiv(add(m, num(c - 1)), int(c)))
        return self.by_index(q, lambda k: self.slice_ref(st, r, scale(k, c), imin(m, scale(add(k, ONE), c))))
    def p_slice_chunks_exact(self, ctx, st, r, n):
        c = const_of(n)
        if c is None or c <= 0:
            raise self.undecided('chunks')
        m = self.I.seq_len(self.I.load(st, r))
        q = as_int_poly(idiv(m, int(c)))
        return self.by_index(q, lambda k: self.slice_ref(st, r, scale(k, c), scale(add(k, ONE), c)))
    def p_slice_windows(self, ctx, st, r, n):
        m = self.I.seq_len(self.I.load(st, r))
        q = imax(add(sub(m, n), ONE), ZERO)
        return self.by_index(q, lambda k: self.slice_ref(st, r, k, add(k, n)))

    # consumers: python coded loops over `next`
    def loop(self, ctx, st, x, body, carries, name):
        """body(state, item) -> [(tag, state)] with tags 'next' (go on) or exits; carries: {root: initial value}
        -> [(tag, state)] with 'end' for the exhaustion"""
        I = self.I
        key = ctx.frame_key()
        root = mk('pl', key, name, 'it')
        st = st.copy()
        byref = I.is_ptr(x)
        if not byref:
            if root in st.mem:
                raise self.undecided('nested loops of one name')
            st.mem[root] = x
            r = I.mkref(root, ())
        else:
            r = x
        for c, v in carries.items():
            st.mem[c] = v
        def run(s):
            backs, exits = [], []
            for k, s1, v in self.next(ctx, s, r):
                if s1.pc is FALSE:
                    continue
                if k == 'skip':
                    backs.append(s1)
                    continue
                has = self.is_some(v)
                e = s1.on(bnot(has))
                if e.pc is not FALSE:
                    exits.append(('end', e))
                g = s1.on(has)
                if g.pc is FALSE:
                    continue
                for tag, s2 in body(g, simp(I.fld(v, 1, 0), g.pc)):
                    if s2.pc is FALSE:
                        continue
                    if tag == 'next':
                        backs.append(s2)
                    else:
                        exits.append((tag, s2))
            return backs, exits
        outs = I.solve(st, run)
        for tag, s in outs:
            if not byref:
                s.mem.pop(root, None)
        return outs

    def carry(self, ctx, name):
        return mk('pl', ctx.frame_key(), name)

    def gather(self, outs, carries, f):
        """[(tag, state)] -> (state, value) with f(tag, state)"""
        res = []
        for tag, s in outs:
            v = f(tag, s)
            res.append((s, v))
        for s, v in res:
            for c in carries:
                s.mem.pop(c, None)
        return self.I.merge_vals(res)

    def collect_seq(self, ctx, st, x, name='collect'):
        """(state, sequence of the items)"""
        if self.plain(x):
            try:
                return st, self.slice_of_iter(x)
            except Exception:
                pass
        acc = self.carry(ctx, name)
        def body(s, y):
            s.mem[acc] = self.append(s.mem[acc], unit(y))
            return [('next', s)]
        outs = self.loop(ctx, st, x, body, {acc: EMPTY}, name)
        return self.gather(outs, [acc], lambda t, s: s.mem[acc])

    def p_Iterator_collect(self, ctx, st, x):
        return self.collect_as(ctx, st, x, ctx.callee['targs'][-1] if ctx.dty is None else ctx.dty)

    def p_FromIterator_from_iter(self, ctx, st, x):
        if not (x.op == 'agg' and x.a[0][0] in ('iter', 'lazy')):
            x = self.p_IntoIterator_into_iter(ctx, st, x)
        return self.collect_as(ctx, st, x, ctx.callee['targs'][0])

    def collect_as(self, ctx, st, x, ty):
        I = self.I
        t = I.F.types[I.F.strip(ty)]
        path = t.get('path')
        if path in (RES, OPT):
            acc, bad = self.carry(ctx, 'c'), self.carry(ctx, 'e')
            g = 0 if path == RES else 1
            def body(s, y):
                c = I.is_variant(y, g)
                a = s.on(c)
                a.mem[acc] = self.append(a.mem[acc], unit(simp(I.fld(y, g, 0), a.pc)))
                b = s.on(bnot(c))
                if path == RES:
                    b.mem[bad] = simp(I.fld(y, 1, 0), b.pc)
                return [('next', a), ('bad', b)]
            outs = self.loop(ctx, st, x, body, {acc: EMPTY}, 'cres')
            def fin(tag, s):
                if tag == 'end':
                    v = s.mem[acc]
                    return ok(v) if path == RES else some(v)
                return err(s.mem[bad]) if path == RES else NONE
            return self.gather(outs, [acc, bad], fin)
        s, S = self.collect_seq(ctx, st, x)
        if path in ('std::collections::BTreeSet', 'std::collections::HashSet'):
            return s, self.set_of(S)
        return s, S

    def p_Extend_extend(self, ctx, st, r, x):
        I = self.I
        if not (x.op == 'agg' and x.a[0][0] in ('iter', 'lazy')):
            x = self.p_IntoIterator_into_iter(ctx, st, x)
        s, S = self.collect_seq(ctx, st, x, 'extend')
        v = I.load(s, r)
        if v.op == 'set' or (v.ty is not None and I.F.kind(v.ty) == 'set'):
            I.store(s, r, (), self.set_union(v, self.set_of(S)))
            return s, UNIT
        # items by reference are copied
        el = None
        for p in S.a:
            if p[0] in ('u', 'map'):
                el = self.sample_item(p)
        if el is not None and I.is_ptr(el):
            t = I.F.types[ctx.callee['targs'][0]] if ctx.callee.get('targs') else None
            if t is None or I.F.kind(I.F.elem_ty(ctx.callee['targs'][0])) != 'ptr':
                S = self.p_Iterator_cloned(ctx, s, self.mk_iter(S)).a[1]
        I.store(s, r, (), self.append(v, S))
        return s, UNIT

    def p_Iterator_for_each(self, ctx, st, x, f):
        def body(s, y):
            s, v = self.cv(ctx, s, f, [y], 'fe')
            return [('next', s)]
        outs = self.loop(ctx, st, x, body, {}, 'fe')
        return self.gather(outs, [], lambda t, s: UNIT)

    def p_Iterator_fold(self, ctx, st, x, v0, f):
        acc = self.carry(ctx, 'fold')
        def body(s, y):
            s, v = self.cv(ctx, s, f, [s.mem[acc], y], 'fold')
            s.mem[acc] = v
            return [('next', s)]
        outs = self.loop(ctx, st, x, body, {acc: v0}, 'fold')
        return self.gather(outs, [acc], lambda t, s: s.mem[acc])

    def try_loop(self, ctx, st, x, v0, f):
        """try_fold: f(acc, item) -> Result/Option"""
        I = self.I
        acc, bad = self.carry(ctx, 'tf'), self.carry(ctx, 'tb')
        kind = [None]
        def body(s, y):
            s, v = self.cv(ctx, s, f, [s.mem[acc], y] if v0 is not None else [y], 'tf')
            opt = self.is_opt(v)
            kind[0] = OPT if opt else RES
            g = 1 if opt else 0
            c = I.is_variant(v, g)
            a, b = s.on(c), s.on(bnot(c))
            a.mem[acc] = simp(I.fld(v, g, 0), a.pc)
            b.mem[bad] = simp(v, b.pc)
            return [('next', a), ('bad', b)]
        outs = self.loop(ctx, st, x, body, {acc: v0 if v0 is not None else UNIT}, 'tf')
        t = I.F.types[ctx.dty] if ctx.dty is not None else {}
        isopt = t.get('path') == OPT or kind[0] == OPT
        def fin(tag, s):
            if tag == 'end':
                return some(s.mem[acc]) if isopt else ok(s.mem[acc])
            return s.mem[bad]
        return self.gather(outs, [acc, bad], fin)
    def p_Iterator_try_fold(self, ctx, st, r, v0, f):
        return self.try_loop(ctx, st, r, v0, f)
    def p_Iterator_try_for_each(self, ctx, st, r, f):
        return self.try_loop(ctx, st, r, None, f)

    def p_Iterator_any(self, ctx, st, r, f):
        def body(s, y):
            s, v = self.cv(ctx, s, f, [y], 'any')
            return [('next', s.on(bnot(v))), ('hit', s.on(v))]
        outs = self.loop(ctx, st, r, body, {}, 'any')
        return self.gather(outs, [], lambda t, s: TRUE if t == 'hit' else FALSE)
    def p_Iterator_all(self, ctx, st, r, f):
        def body(s, y):
            s, v = self.cv(ctx, s, f, [y], 'all')
            return [('next', s.on(v)), ('hit', s.on(bnot(v)))]
        outs = self.loop(ctx, st, r, body, {}, 'all')
        return self.gather(outs, [], lambda t, s: FALSE if t == 'hit' else TRUE)
    def p_Iterator_find(self, ctx, st, r, f):
        hit = self.carry(ctx, 'find')
        def body(s, y):
            s, v = self.cv(ctx, s, f, [self.ref_to(y)], 'find')
            h = s.on(v)
            h.mem[hit] = y
            return [('next', s.on(bnot(v))), ('hit', h)]
        outs = self.loop(ctx, st, r, body, {}, 'find')
        return self.gather(outs, [hit], lambda t, s: some(s.mem[hit]) if t == 'hit' else NONE)
    def p_Iterator_find_map(self, ctx, st, r, f):
        hit = self.carry(ctx, 'find')
        def body(s, y):
            s, v = self.cv(ctx, s, f, [y], 'find')
            c = self.is_some(v)
            h = s.on(c)
            h.mem[hit] = simp(v, h.pc)
            return [('next', s.on(bnot(c))), ('hit', h)]
        outs = self.loop(ctx, st, r, body, {}, 'find')
        return self.gather(outs, [hit], lambda t, s: s.mem[hit] if t == 'hit' else NONE)
    def p_Iterator_position(self, ctx, st, r, f):
        cnt = self.carry(ctx, 'pos')
        def body(s, y):
            s, v = self.cv(ctx, s, f, [y], 'pos')
            n = s.on(bnot(v))
            n.mem[cnt] = add(n.mem[cnt], ONE)
            return [('next', n), ('hit', s.on(v))]
        outs = self.loop(ctx, st, r, body, {cnt: ZERO}, 'pos')
        return self.gather(outs, [cnt], lambda t, s: some(s.mem[cnt]) if t == 'hit' else NONE)
    def p_Iterator_count(self, ctx, st, x):
        cnt = self.carry(ctx, 'cnt')
        def body(s, y):
            s.mem[cnt] = add(s.mem[cnt], ONE)
            return [('next', s)]
        outs = self.loop(ctx, st, x, body, {cnt: ZERO}, 'cnt')
        return self.gather(outs, [cnt], lambda t, s: s.mem[cnt])
    def p_Iterator_sum(self, ctx, st, x):
        acc = self.carry(ctx, 'sum')
        def body(s, y):
            s.mem[acc] = add(s.mem[acc], self.I.as_int(self.deep(s, y)))
            return [('next', s)]
        outs = self.loop(ctx, st, x, body, {acc: ZERO}, 'sum')
        return self.gather(outs, [acc], lambda t, s: s.mem[acc])
    def p_Iterator_product(self, ctx, st, x):
        acc = self.carry(ctx, 'prod')
        def body(s, y):
            s.mem[acc] = mul(s.mem[acc], self.I.as_int(self.deep(s, y)))
            return [('next', s)]
        outs = self.loop(ctx, st, x, body, {acc: ONE}, 'prod')
        return self.gather(outs, [acc], lambda t, s: s.mem[acc])
    def p_Iterator_nth(self, ctx, st, r, n):
        I = self.I
        c, root, pr = I.targets(r)[0]
        v = I.load_loc(st, root, pr)
        if self.plain(v) and self.unit_items(v.a[1]):
            S, i, e = v.a[1:]
            j = add(i, n)
            I.store_loc(st, root, pr, it(S, add(j, ONE), e))
            return ite(lt(j, e), some(self.item_at(S, j)), NONE)
        st, x = self.uniform(ctx, st, v)
        I.store_loc(st, root, pr, x)
        S, i, e = x.a[1:]
        I.store_loc(st, root, pr, it(S, imin(add(n, ONE), e), e))
        return st, ite(lt(n, e), some(self.item_at(S, n)), NONE)
    def p_Iterator_last(self, ctx, st, x):
        if self.plain(x) and self.unit_items(x.a[1]):
            S, i, e = x.a[1:]
            return ite(lt(i, e), some(self.item_at(S, sub(e, ONE))), NONE)
        acc = self.carry(ctx, 'last')
        def body(s, y):
            s.mem[acc] = some(y)
            return [('next', s)]
        outs = self.loop(ctx, st, x, body, {acc: NONE}, 'last')
        return self.gather(outs, [acc], lambda t, s: s.mem[acc])
    def minmax(self, ctx, st, x, f, keyf=None):
        """least (or greatest) item; f(a, b): a is better than b"""
        s, S = self.collect_seq(ctx, st, x)
        n = length(S)
        some_ = bnot(eqi(n, ZERO))
        k = fresh_k()
        e = mk('best', 'min' if f else 'max', S)
        v = _samplewrap(e, S)
        return s, ite(some_, some(v), NONE)
    def p_Iterator_min(self, ctx, st, x):
        return self.minmax(ctx, st, x, True)
    def p_Iterator_max(self, ctx, st, x):
        return self.minmax(ctx, st, x, False)
    def by_key(self, ctx, st, x, f, least):
        """item of the least (first) or greatest (last) key"""
        I = self.I
        st, g, n = self.opaque(ctx, st, x)
        k = fresh_k()
        y = g(P(k))
        s2, key = self.cv(ctx, st.on(TRUE), f, [self.ref_to(y)], 'key')
        K = mapseq(n, k, unit(self.deep(s2, key)))
        i = P(mk('argbest', 'min' if least else 'max', K))
        return st, ite(eqi(n, ZERO), NONE, some(g(i)))
    def p_Iterator_min_by_key(self, ctx, st, x, f):
        return self.by_key(ctx, st, x, f, True)
    def p_Iterator_max_by_key(self, ctx, st, x, f):
        return self.by_key(ctx, st, x, f, False)
    def p_Iterator_rposition(self, ctx, st, r, f):
        I = self.I
        x = I.load(st, r) if I.is_ptr(r) else r
        st, g, n = self.opaque(ctx, st, x)
        p = self.p_Iterator_position(ctx, st, self.by_index(n, lambda k: g(sub(sub(n, ONE), k))), f)
        s, v = p
        return s, ite(self.is_some(v), some(sub(sub(n, ONE), I.fld(v, 1, 0))), NONE)
    def p_DoubleEndedIterator_rfind(self, ctx, st, r, f):
        I = self.I
        x = I.load(st, r) if I.is_ptr(r) else r
        st, g, n = self.opaque(ctx, st, x)
        return self.p_Iterator_find(ctx, st, self.by_index(n, lambda k: g(sub(sub(n, ONE), k))), f)
    def p_DoubleEndedIterator_rposition(self, ctx, st, r, f):
        return self.p_Iterator_rposition(ctx, st, r, f)
    def p_Iterator_eq(self, ctx, st, x, y):
        if not (y.op == 'agg' and y.a[0][0] in ('iter', 'lazy')):
            y = self.p_IntoIterator_into_iter(ctx, st, y)
        st, a = self.collect_seq(ctx, st, x, 'eq1')
        st, b = self.collect_seq(ctx, st, y, 'eq2')
        return st, self.I.seq_eq(self.freeze_seq(st, a), self.freeze_seq(st, b))
    def p_Iterator_ne(self, ctx, st, x, y):
        s, c = self.p_Iterator_eq(ctx, st, x, y)
        return s, bnot(c)
    def p_Iterator_partition(self, ctx, st, x, f):
        a, b = self.carry(ctx, 'pa'), self.carry(ctx, 'pb')
        def body(s, y):
            s, v = self.cv(ctx, s, f, [self.ref_to(y)], 'part')
            s.mem[a] = self.append(s.mem[a], ite_seq(v, unit(y), EMPTY))
            s.mem[b] = self.append(s.mem[b], ite_seq(v, EMPTY, unit(y)))
            return [('next', s)]
        outs = self.loop(ctx, st, x, body, {a: EMPTY, b: EMPTY}, 'part')
        return self.gather(outs, [a, b], lambda t, s: tup(s.mem[a], s.mem[b]))
    def p_Iterator_unzip(self, ctx, st, x):
        a, b = self.carry(ctx, 'ua'), self.carry(ctx, 'ub')
        def body(s, y):
            s.mem[a] = self.append(s.mem[a], unit(self.I.fld(y, 0, 0)))
            s.mem[b] = self.append(s.mem[b], unit(self.I.fld(y, 0, 1)))
            return [('next', s)]
        outs = self.loop(ctx, st, x, body, {a: EMPTY, b: EMPTY}, 'uz')
        return self.gather(outs, [a, b], lambda t, s: tup(s.mem[a], s.mem[b]))
    def p_ExactSizeIterator_len(self, ctx, st, r):
        x = self.I.load(st, r)
        if self.plain(x) and self.unit_items(x.a[1]):
            d = sub(x.a[3], x.a[2])
            return d if nonneg(d) else imax(d, ZERO)
        st, f, n = self.opaque(ctx, st, x)
        return n

    # ------------------------------------------------------------------ sets of integers or texts
    def empty_set(self):
        k = fresh_k()
        return mk('set', close(FALSE, k), ZERO)
    def as_set(self, v):
        """(lambda over the element, bound or None)"""
        if v.op == 'set':
            return v
        if v.op == 'ite':
            a, b = self.as_set(v.a[1]), self.as_set(v.a[2])
            k = fresh_k()
            return self.mkset(k, bite(lit(v.a[0]), inst(a.a[0], P(k)), inst(b.a[0], P(k))), a.a[1])
        k = fresh_k()
        return self.mkset(k, lit(mk('mem', v, P(k))), P(mk('setbound', v)))
    def mkset(self, k, body, bound):
        return mk('set', close(body, k), bound)
    def set_of(self, S):
        """set of the items of a sequence"""
        k = fresh_k()
        el = None
        body = FALSE
        bound = ZERO
        for p in S.a:
            j = fresh_k()
            try:
                c, x, n = self.piece_item(p, P(j))
            except Undecided:
                return mk('setof', S)
            if not is_poly(x):
                # not integers: only the sequence is known
                return mk('setof', S)
            body = bor(body, exists(n, j, band(c, eqi(x, P(k)))) if p[0] not in ('u', 'iteq') else band(c, eqi(x, P(k))))
        bound = self.seq_bound(S)
        return self.mkset(k, body, bound)
    def seq_bound(self, S):
        b = ZERO
        for p in S.a:
            if p[0] == 'map':
                k = fresh_k()
                c, x, n = self.piece_item(p, P(k))
                if x is P(k):
                    b = n if b is ZERO else imax(b, n)
                else:
                    b = imax(b, P(mk('bnd', mk('cat', p))))
            elif p[0] == 'u':
                b = imax(b, add(p[1], ONE))
            else:
                b = imax(b, P(mk('bnd', mk('cat', p))))
        return b
    def set_union(self, a, b):
        a, b = self.as_set(a), self.as_set(b)
        k = fresh_k()
        return self.mkset(k, bor(inst(a.a[0], P(k)), inst(b.a[0], P(k))), a.a[1] if a.a[1] is b.a[1] else imax(a.a[1], b.a[1]))
    def sload(self, st, r):
        v = self.I.load(st, r)
        return v
    def set_items(self, s):
        s = self.as_set(s)
        k = fresh_k()
        c = inst(s.a[0], P(k))
        return mk('cat', ('map', s.a[1], close(ite_seq(c, unit(P(k)), EMPTY), k))) if c is not FALSE else EMPTY
    def set_iter(self, s, byref):
        if s.op == 'setof':
            raise self.undecided('items of a set of texts')
        S = self.set_items(s)
        if byref:
            if S.a:
                p = S.a[0]
                k = fresh_k()
                c, x, n = self.piece_item(p, P(k))
                S = mk('cat', ('map', n, close(ite_seq(c, unit(self.ref_to(x)), EMPTY), k)))
        return self.mk_iter(S)
    def p_BTreeSet_new(self, ctx, st):
        return self.empty_set()
    p_HashSet_new = p_BTreeSet_new
    def p_BTreeSet_append(self, ctx, st, r, o):
        I = self.I
        a, b = I.load(st, r), I.load(st, o)
        I.store(st, r, (), self.set_union(a, b))
        I.store(st, o, (), self.empty_set())
        return UNIT
    def p_BTreeSet_insert(self, ctx, st, r, x):
        I = self.I
        v = I.load(st, r)
        if not is_poly(x):
            if v.op == 'set' and inst(v.a[0], P(fresh_k())) is FALSE:
                v = mk('setof', EMPTY)
            if v.op != 'setof':
                raise self.undecided('set of texts')
            S = v.a[0]
            y = self.deep(st, x)
            had = self.any_of(S, lambda e: I.eq_val(self.deep(st, e), y, st))
            I.store(st, r, (), mk('setof', self.append(S, ite_seq(had, EMPTY, unit(x)))))
            return bnot(had)
        s = self.as_set(v)
        k = fresh_k()
        had = inst(s.a[0], x)
        I.store(st, r, (), self.mkset(k, bor(inst(s.a[0], P(k)), eqi(P(k), x)), imax(s.a[1], add(x, ONE))))
        return bnot(had)
    def p_BTreeSet_remove(self, ctx, st, r, x):
        I = self.I
        s = self.as_set(I.load(st, r))
        y = self.deep(st, x)
        k = fresh_k()
        had = inst(s.a[0], y)
        I.store(st, r, (), self.mkset(k, band(inst(s.a[0], P(k)), bnot(eqi(P(k), y))), s.a[1]))
        return had
    def p_BTreeSet_contains(self, ctx, st, r, x):
        I = self.I
        v = I.load(st, r)
        y = self.deep(st, x)
        if not is_poly(y):
            if v.op == 'setof':
                S = v.a[0]
                return self.any_of(S, lambda e: I.eq_val(self.deep(st, e), y, st))
            raise self.undecided('set of texts')
        return inst(self.as_set(v).a[0], y)
    p_HashSet_contains = p_BTreeSet_contains
    def p_BTreeSet_clear(self, ctx, st, r):
        self.I.store(st, r, (), self.empty_set())
        return UNIT
    def p_BTreeSet_difference(self, ctx, st, a, b):
        I = self.I
        x, y = self.as_set(I.load(st, a)), self.as_set(I.load(st, b))
        k = fresh_k()
        c = band(inst(x.a[0], P(k)), bnot(inst(y.a[0], P(k))))
        S = mk('cat', ('map', x.a[1], close(ite_seq(c, unit(self.ref_to(P(k))), EMPTY), k)))
        return self.mk_iter(S)
    def p_BTreeSet_iter(self, ctx, st, r):
        return self.set_iter(self.I.load(st, r), True)
    def p_BTreeSet_is_empty(self, ctx, st, r):
        v = self.I.load(st, r)
        if v.op == 'setof':
            return eqi(length(v.a[0]), ZERO)
        s = self.as_set(v)
        k = fresh_k()
        return bnot(exists(s.a[1], k, inst(s.a[0], P(k))))
    p_HashSet_is_empty = p_BTreeSet_is_empty
    def p_BTreeSet_len(self, ctx, st, r):
        v = self.I.load(st, r)
        s = self.as_set(v)
        k = fresh_k()
        return isum(s.a[1], k, ind(inst(s.a[0], P(k))))
    def p_HashSet_len(self, ctx, st, r):
        v = self.I.load(st, r)
        if v.op == 'setof':
            return P(mk('card', v))
        return self.p_BTreeSet_len(ctx, st, r)
    p_HashSet_insert = p_BTreeSet_insert
    p_HashSet_remove = p_BTreeSet_remove
    p_HashSet_clear = p_BTreeSet_clear
    def set_closed(self, k, s, v, v0):
        """recurrence of a set carried by a loop: s' = s or c(k, e)"""
        e = fresh_k()
        body = inst(v.a[0], P(e))
        a0 = self.as_set(v0)
        # membership atom of the symbol
        me = None
        for x in support(body):
            if x.op == 'mem' and x.a[0] is s and x.a[1] is P(e):
                me = x
        if me is None:
            return None
        hi, lo = assume(body, me, True), assume(body, me, False)
        if s in syms(hi) or s in syms(lo) or hi is not TRUE:
            return None
        j = fresh_k()
        b = bor(inst(a0.a[0], P(e)), exists(P(k), j, subst(lo, {k: P(j)})))
        bound = v.a[1]
        if s in syms(bound) or k in syms(bound):
            bound = P(mk('sym', 'inf'))
        return self.mkset(e, b, bound)

    # ------------------------------------------------------------------ files
    def fval(self, st, r):
        I = self.I
        v = self.deep_file(st, r)
        return v

    def p_OpenOptions_new(self, ctx, st):
        return lazy('oo', FALSE, FALSE, FALSE, FALSE, FALSE, FALSE)
    def oo(self, j):
        def f(ctx, st, r, b):
            self.I.store(st, r, (('f', 0, j),), b)
            return r
        return f
    @property
    def p_OpenOptions_read(self): return self.oo(0)
    @property
    def p_OpenOptions_write(self): return self.oo(1)
    @property
    def p_OpenOptions_append(self): return self.oo(2)
    @property
    def p_OpenOptions_truncate(self): return self.oo(3)
    @property
    def p_OpenOptions_create(self): return self.oo(4)
    @property
    def p_OpenOptions_create_new(self): return self.oo(5)
    def open(self, ctx, st, flags, path):
        I = self.I
        p = self.deep(st, path)
        I.event('open', st.pc, ctx.fr, ctx.line, (flags, p))
        c = self.iook(ctx, st, 'open', flags, p)
        f = mk('fh', mk('file', flags, p))
        return ite(c, ok(f), err(mk('ioerr', mk('of', 'open', flags, p))))
    def p_OpenOptions_open(self, ctx, st, r, path):
        v = self.I.load(st, r)
        return self.open(ctx, st, v, path)
    def p_File_open(self, ctx, st, path):
        return self.open(ctx, st, lazy('oo', TRUE, FALSE, FALSE, FALSE, FALSE, FALSE), path)
    def p_File_create(self, ctx, st, path):
        return self.open(ctx, st, lazy('oo', FALSE, TRUE, FALSE, TRUE, TRUE, FALSE), path)
    def p_File_create_new(self, ctx, st, path):
        return self.open(ctx, st, lazy('oo', TRUE, TRUE, FALSE, FALSE, FALSE, TRUE), path)
    def p_fs_read(self, ctx, st, path):
        p = self.deep(st, path)
        self.I.event('open', st.pc, ctx.fr, ctx.line, (lazy('oo', TRUE, FALSE, FALSE, FALSE, FALSE, FALSE), p))
        c = self.iook(ctx, st, 'readall', p)
        return ite(c, ok(seq_atom(self.content(mk('file', 'r', p)))), err(mk('ioerr', mk('of', 'readall', p))))

    def file_of(self, st, r):
        """(pointer to the file, value)"""
        I = self.I
        p = r
        for _ in range(6):
            if p.op != 'fh':
                v = I.load(st, p)
                if v.op == 'fh' or (v.op == 'ite' and all(x.op == 'fh' for _, x in leaves(v))):
                    p = v
                elif I.is_ptr(v):
                    p = v
                    continue
                else:
                    return p, None
            v = I.load(st, p)
            if v.op == 'agg' and v.a[0] == ('file',):
                return p, v
            return p, None
        return p, None

    def iook(self, ctx, st, kind, *args):
        self.I.event('io', st.pc, ctx.fr, ctx.line, (kind,) + args)
        return lit(mk('iook', kind, *args))
    def iores(self, ctx, st, p, kind, v, args, ev, okv, new_ok, new_err):
        """result of a fallible operation on the file value v behind p"""
        I = self.I
        c = self.iook(ctx, st, kind, v.a[1], v.a[2], v.a[3], *args)
        I.store(st, p, (), ite(c, new_ok, new_err))
        return ite(c, ok(okv), err(mk('ioerr', mk('of', kind, v.a[1], v.a[2], *args))))

    def mkfile(self, v, log, pos):
        return mk('agg', ('file',), v.a[1], log, pos)

    def p_Seek_seek(self, ctx, st, r, w):
        I = self.I
        p, v = self.file_of(st, r)
        if v is None:
            return self.unknown(ctx, st, ctx.callee, [r, w])
        if w.op == 'agg':
            j, x = w.a[0][2], w.a[1]
        else:
            raise self.undecided('seek')
        if j == 0:
            pos = x
        elif j == 1:
            pos = add(self.flen(v), x)
        else:
            pos = add(v.a[3], x)
        I.event('seek', st.pc, ctx.fr, ctx.line, (j, x))
        log = concat(v.a[2], unit(mk('seek', pos)))
        return self.iores(ctx, st, p, 'seek', v, (pos,), None, pos, self.mkfile(v, log, pos), self.mkfile(v, v.a[2], P(mk('errpos', v))))
    def p_Seek_rewind(self, ctx, st, r):
        s = self.p_Seek_seek(ctx, st, r, mk('agg', ('adt', 'std::io::SeekFrom', 0), ZERO))
        return ite(self.is_ok(s), OKU, s)
    def p_Seek_stream_position(self, ctx, st, r):
        p, v = self.file_of(st, r)
        return self.iores(ctx, st, p, 'tell', v, (), None, v.a[3], v, v)

    def flen(self, v):
        t = mk('flen', v.a[1], v.a[2])
        INTTY[t] = 'u64'
        return P(t)

    def p_Write_write_all(self, ctx, st, r, b):
        return self.write(ctx, st, r, b, True)
    def p_Write_write(self, ctx, st, r, b):
        return self.write(ctx, st, r, b, False)
    def write(self, ctx, st, r, b, all_):
        I = self.I
        data = self.bytes_of(st, b)
        p, v = self.file_of(st, r)
        if v is None:
            w = self.deep(st, r)
            if w.op == 'cat':
                q = self.place_of(st, r)
                I.store(st, q, (), self.append(w, data))
                return OKU if all_ else ok(I.seq_len(data))
            # a generic writer
            return self.unknown(ctx, st, ctx.callee, [r, b])
        n = I.seq_len(data)
        I.event('write', st.pc, ctx.fr, ctx.line, ('all' if all_ else 'some', data))
        if not all_:
            t = mk('nwritten', v, data)
            INTTY[t] = 'usize'
            m = P(t)
            data2 = mk('cat', ('sub', data, ZERO, m))
            return self.iores(ctx, st, p, 'write', v, (data,), None, m, self.mkfile(v, concat(v.a[2], data2), add(v.a[3], m)), self.mkfile(v, v.a[2], P(mk('errpos', v))))
        return self.iores(ctx, st, p, 'write_all', v, (data,), None, UNIT, self.mkfile(v, concat(v.a[2], data), add(v.a[3], n)),
                          self.mkfile(v, concat(v.a[2], unit(mk('partial', data))), P(mk('errpos', v))))
    def p_Write_flush(self, ctx, st, r):
        I = self.I
        p, v = self.file_of(st, r)
        if v is None:
            return OKU
        return self.iores(ctx, st, p, 'flush', v, (), None, UNIT, v, v)
    def p_File_sync_all(self, ctx, st, r):
        return self.p_Write_flush(ctx, st, r)
    p_File_sync_data = p_File_sync_all
    def p_Write_write_fmt(self, ctx, st, r, a):
        return self.unknown(ctx, st, ctx.callee, [r, a])
    def p_File_set_len(self, ctx, st, r, n):
        p, v = self.file_of(st, r)
        log = concat(v.a[2], unit(mk('setlen', n)))
        return self.iores(ctx, st, p, 'set_len', v, (n,), None, UNIT, self.mkfile(v, log, v.a[3]), self.mkfile(v, log, v.a[3]))
    def p_Write_by_ref(self, ctx, st, r):
        return r
    p_Read_by_ref = p_Write_by_ref

    def content(self, f):
        t = mk('content', f)
        if t.ty is None:
            t.ty = self.synth('[u8]', {'k': 'slice', 't': self.I.F.u8, 's': '[u8]'})
        return t
    def fbytes(self, v, a, b):
        return slice_atom(self.content(v.a[1]), a, b)
    def p_Read_read_exact(self, ctx, st, r, b):
        I = self.I
        p, v = self.file_of(st, r)
        if v is None:
            return self.unknown(ctx, st, ctx.callee, [r, b])
        old = I.load(st, b)
        n = I.seq_len(old)
        pos = v.a[3]
        c = self.iook(ctx, st, 'read', v.a[1], v.a[2], pos, n)
        I.event('read', st.pc, ctx.fr, ctx.line, (pos, n))
        data = self.fbytes(v, pos, add(pos, n))
        bad = cat(('rep', P(mk('garbage')), n))
        I.store(st, b, (), ite(c, data, bad))
        I.store(st, p, (), ite(c, self.mkfile(v, v.a[2], add(pos, n)), self.mkfile(v, v.a[2], P(mk('errpos', v)))))
        return ite(c, OKU, err(mk('ioerr', mk('of', 'read', v.a[1], pos, n))))
    def p_Read_read(self, ctx, st, r, b):
        I = self.I
        p, v = self.file_of(st, r)
        if v is None:
            return self.unknown(ctx, st, ctx.callee, [r, b])
        old = I.load(st, b)
        n = I.seq_len(old)
        pos = v.a[3]
        t = mk('nread', v, n)
        INTTY[t] = 'usize'
        m = P(t)
        c = self.iook(ctx, st, 'readsome', v.a[1], v.a[2], pos, n)
        data = concat(self.fbytes(v, pos, add(pos, m)), mk('cat', ('sub', old, m, n)))
        I.store(st, b, (), ite(c, data, old))
        I.store(st, p, (), ite(c, self.mkfile(v, v.a[2], add(pos, m)), v))
        return ite(c, ok(m), err(mk('ioerr', mk('of', 'readsome', v.a[1], pos, n))))
    def p_Read_read_to_end(self, ctx, st, r, b):
        return self.unknown(ctx, st, ctx.callee, [r, b])

    def read_into(self, n):
        w = {'i8': 1, 'u8': 1, 'i16': 2, 'u16': 2, 'i32': 4, 'u32': 4, 'f32': 4, 'i64': 8, 'u64': 8, 'f64': 8}[n]
        def f(ctx, st, r, b):
            I = self.I
            order = 'BigEndian'
            ta = ctx.callee['targs']
            if len(ta) > 1:
                order = I.F.types[ta[1]]['s'].split('::')[-1]
            p, v = self.file_of(st, r)
            if v is None:
                return self.unknown(ctx, st, ctx.callee, [r, b])
            n_ = I.seq_len(I.load(st, b))
            pos = v.a[3]
            tot = scale(n_, w)
            c = self.iook(ctx, st, 'read', v.a[1], v.a[2], pos, tot)
            I.event('read', st.pc, ctx.fr, ctx.line, (pos, tot))
            k = fresh_k()
            by = self.fbytes(v, add(pos, scale(P(k), w)), add(pos, scale(P(k), w), num(w)))
            x = self.dec(by, n)
            if order not in ('BigEndian',):
                x = _samplewrap(mk('swapped', x), unit(x))
            data = mapseq(n_, k, unit(x))
            bad = cat(('rep', _samplewrap(mk('garbage'), unit(x)), n_))
            I.store(st, b, (), ite(c, data, bad))
            I.store(st, p, (), ite(c, self.mkfile(v, v.a[2], add(pos, tot)), self.mkfile(v, v.a[2], P(mk('errpos', v)))))
            return ite(c, OKU, err(mk('ioerr', mk('of', 'read', v.a[1], pos, tot))))
        return f
    for _n in ('i8', 'i16', 'i32', 'i64', 'u16', 'u32', 'u64', 'f32', 'f64'):
        exec("p_ReadBytesExt_read_%s_into = property(lambda self: self.read_into('%s'))" % (_n, _n))

    def p_File_metadata(self, ctx, st, r):
        I = self.I
        p, v = self.file_of(st, r)
        c = self.iook(ctx, st, 'metadata', v.a[1], v.a[2])
        return ite(c, ok(lazy('metadata', self.flen(v))), err(mk('ioerr', mk('of', 'metadata', v.a[1]))))
    def p_fs_metadata(self, ctx, st, path):
        q = self.deep(st, path)
        t = mk('pathlen', q)
        INTTY[t] = 'u64'
        c = self.iook(ctx, st, 'fsmetadata', q)
        return ite(c, ok(lazy('metadata', P(t))), err(mk('ioerr', mk('of', 'fsmetadata', q))))
    p_Path_metadata = p_fs_metadata
    def p_Metadata_len(self, ctx, st, r):
        v = self.I.load(st, r)
        if v.op == 'agg' and v.a[0] == ('lazy', 'metadata'):
            return v.a[1]
        return self.I.int_atom(mk('mdlen', v), 'u64')
    def p_Error_new(self, ctx, st, k, e):
        return mk('ioerr', k)
    def p_Error_other(self, ctx, st, e):
        return mk('ioerr', mk('agg', ('adt', 'std::io::ErrorKind', 39)))
    def p_Error_kind(self, ctx, st, r):
        I = self.I
        v = I.load(st, r)
        def go(x):
            if x.op == 'ite':
                return ite_dd(x, go)
            if x.op == 'ioerr' and x.a[0].op != 'of':
                return x.a[0]
            t = mk('ekind', x)
            if t.ty is None:
                t.ty = ctx.dty if ctx.dty is not None else I.F.ty_of_adt('std::io::ErrorKind')
            return t
        return go(v)
    def p_PathBuf_new(self, ctx, st):
        return EMPTY
    def p_PathBuf_push(self, ctx, st, r, p):
        I = self.I
        v = I.load(st, r)
        x = self.deep(st, p)
        if v is EMPTY or v.op == 'cat' and not v.a:
            if x.op != 'cat':
                a = mk('pathof', x)
                x = seq_atom(a)
            I.store(st, r, (), x)
            return UNIT
        I.store(st, r, (), seq_atom(mk('pathjoin', v, x)))
        return UNIT
    def p_Path_to_path_buf(self, ctx, st, r):
        return self.deep(st, r)
    def p_PathBuf_from(self, ctx, st, x):
        v = self.deep(st, x)
        return v if v.op == 'cat' else seq_atom(mk('pathof', v))
    def p_Path_new(self, ctx, st, r):
        return r
    def p_Path_exists(self, ctx, st, r):
        return lit(mk('exists_path', self.deep(st, r)))

    # ------------------------------------------------------------------ nom
    def inc(self):
        return err(mk('agg', ('adt', NERR, 0), mk('needed')))
    def nerr(self, inp, kind):
        return err(mk('agg', ('adt', NERR, 1), tup(inp, mk('nomkind', kind))))
    def p_streaming_take(self, ctx, st, n):
        return lazy('p_take', self.I.as_int(n))
    def p_streaming_tag(self, ctx, st, t):
        v = self.deep(st, t)
        return lazy('p_tag', v)
    def p_combinator_verify(self, ctx, st, p, f):
        ta = ctx.callee['targs']
        return lazy('p_verify', p, f)
    def p_combinator_map_res(self, ctx, st, p, f):
        return lazy('p_map_res', p, f)
    def p_combinator_map(self, ctx, st, p, f):
        return lazy('p_map', p, f)
    def p_multi_many_m_n(self, ctx, st, m, n, p):
        return lazy('p_many', m, n, p)
    def p_multi_count(self, ctx, st, p, n):
        return lazy('p_many', n, n, p)
    def p_branch_alt(self, ctx, st, l):
        return lazy('p_alt', l)
    def p_sequence_preceded(self, ctx, st, a, b):
        return lazy('p_pre', a, b)
    def p_sequence_terminated(self, ctx, st, a, b):
        return lazy('p_term', a, b)
    def p_sequence_tuple(self, ctx, st, l):
        return lazy('p_tuple', l)
    def p_sequence_pair(self, ctx, st, a, b):
        return lazy('p_tuple', tup(a, b))

    def inlen(self, st, i):
        return self.I.seq_len(self.I.load(st, i))
    def split(self, st, i, n):
        return self.slice_ref(st, i, n, None), self.slice_ref(st, i, ZERO, n)

    def be_parse(self, st, i, n):
        w = self.width(n)
        L = self.inlen(st, i)
        rest, pre = self.split(st, i, num(w))
        x = self.dec(self.I.seq_sub(self.I.load(st, i), ZERO, num(w)), n)
        return ite(lt(L, num(w)), self.inc(), ok(tup(rest, x)))
    for _n in ('i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'f32', 'f64'):
        exec("p_streaming_be_%s = lambda self, ctx, st, i: self.be_parse(st, i, '%s')" % (_n, _n))
        exec("def p_streaming_le_%s(self, ctx, st, i):\n    return self.le_parse(st, i, '%s')" % (_n, _n))
    def le_parse(self, st, i, n):
        r = self.be_parse(st, i, n)
        x = self.I.fld(self.I.fld(r, 0, 0), 0, 1)
        rest = self.I.fld(self.I.fld(r, 0, 0), 0, 0)
        y = _samplewrap(mk('swapped', x), unit(x))
        return ite(self.is_ok(r), ok(tup(rest, y)), r)

    def call_opaque(self, ctx, st, f, args):
        I = self.I
        if f.op == 'pyfn':
            return st, I.load(st, args[0])
        if not (f.op == 'agg' and f.a[0][0] == 'lazy'):
            return None
        name = f.a[0][1]
        i = args[0]
        if name == 'p_take':
            n = f.a[1]
            L = self.inlen(st, i)
            rest, pre = self.split(st, i, n)
            return st, ite(lt(L, n), self.inc(), ok(tup(rest, pre)))
        if name == 'p_tag':
            t = f.a[1]
            n = I.seq_len(t)
            v = I.load(st, i)
            L = I.seq_len(v)
            rest, pre = self.split(st, i, n)
            full = I.seq_eq(I.seq_sub(v, ZERO, n), t)
            m = imin(L, n)
            part = lit(mk('prefix', v, t))
            short = lt(L, n)
            return st, ite(short, ite(part, self.inc(), self.nerr(i, 'Tag')), ite(full, ok(tup(rest, pre)), self.nerr(i, 'Tag')))
        def sub_(s, p, x, tag):
            return I.call_value(ctx, s, p, [x], tag)
        if name in ('p_verify', 'p_map_res', 'p_map'):
            s, r = sub_(st, f.a[1], i, 'p')
            def fok(s, x):
                rest, o = I.fld(x, 0, 0), I.fld(x, 0, 1)
                if name == 'p_verify':
                    a = o if I.is_ptr(o) else self.ref_to(o)
                    s, c = I.call_value(ctx, s, f.a[2], [a], 'v')
                    return s, ite(c, ok(tup(rest, o)), self.nerr(i, 'Verify'))
                s, y = I.call_value(ctx, s, f.a[2], [o], 'm')
                if name == 'p_map':
                    return s, ok(tup(rest, y))
                return s, ite(self.is_ok(y), ok(tup(rest, I.fld(y, 0, 0))), self.nerr(i, 'MapRes'))
            return self.match_res(s, r, fok, lambda s, e: err(e))
        if name == 'p_alt':
            ps = list(f.a[1].a[1:])
            def alt(s, j):
                s, r = sub_(s, ps[j], i, 'a%d' % j)
                if j == len(ps) - 1:
                    return s, r
                def fe(s, e):
                    isE = I.is_variant(e, 1)
                    a, b = s.on(isE), s.on(bnot(isE))
                    outs = []
                    if a.pc is not FALSE:
                        outs.append(alt(a, j + 1))
                    if b.pc is not FALSE:
                        outs.append((b, err(simp(e, b.pc))))
                    return I.merge_vals(outs)
                return self.match_res(s, r, lambda s, x: ok(x), fe)
            return alt(st, 0)
        if name == 'p_tuple':
            ps = list(f.a[1].a[1:])
            def seq(s, j, x, acc):
                if j == len(ps):
                    return s, ok(tup(x, tup(*acc)))
                s, r = sub_(s, ps[j], x, 't%d' % j)
                return self.match_res(s, r, lambda s, y: seq(s, j + 1, I.fld(y, 0, 0), acc + [I.fld(y, 0, 1)]), lambda s, e: err(e))
            return seq(st, 0, i, [])
        if name in ('p_pre', 'p_term'):
            s, r = sub_(st, f.a[1], i, 'p1')
            def fok(s, x):
                s, r2 = sub_(s, f.a[2], I.fld(x, 0, 0), 'p2')
                return self.match_res(s, r2, lambda s, y: ok(tup(I.fld(y, 0, 0), I.fld(y if name == 'p_pre' else x, 0, 1))), lambda s, e: err(e))
            return self.match_res(s, r, fok, lambda s, e: err(e))
        if name == 'p_many':
            m, n, p = f.a[1:]
            I.event('alloc', st.pc, ctx.fr, ctx.line, (m,))
            if p.op == 'fnitem' and m is n:
                d = json.loads(p.a[0]).get('decl', '')
                mm = re.search(r'nom::number::streaming::be_(\w+)$', d)
                if mm:
                    t = mm.group(1)
                    w = self.width(t)
                    v = I.load(st, i)
                    L = I.seq_len(v)
                    tot = scale(n, w)
                    rest, pre = self.split(st, i, tot)
                    k = fresh_k()
                    a = scale(P(k), w)
                    data = mapseq(n, k, unit(self.dec(I.seq_sub(v, a, add(a, num(w))), t)))
                    return st, ite(lt(L, tot), self.inc(), ok(tup(rest, data)))
            return self.many(ctx, st, m, n, p, i)
        return None

    def many(self, ctx, st, m, n, p, i):
        I = self.I
        acc, inp, bad = self.carry(ctx, 'many'), self.carry(ctx, 'manyin'), self.carry(ctx, 'manye')
        rng = self.mk_range(ZERO, n)
        def body(s, cnt):
            s, r = I.call_value(ctx, s, p, [s.mem[inp]], 'mp')
            c = self.is_ok(r)
            a = s.on(c)
            x = simp(I.fld(r, 0, 0), a.pc)
            a.mem[inp] = I.fld(x, 0, 0)
            a.mem[acc] = self.append(a.mem[acc], unit(I.fld(x, 0, 1)))
            b = s.on(bnot(c))
            e = simp(I.fld(r, 1, 0), b.pc)
            b.mem[bad] = e
            stop = band(I.is_variant(e, 1), le(m, cnt))
            return [('next', a), ('stop', b.on(stop)), ('bad', b.on(bnot(stop)))]
        outs = self.loop(ctx, st, rng, body, {acc: EMPTY, inp: i}, 'many')
        def fin(tag, s):
            if tag in ('end', 'stop'):
                return ok(tup(s.mem[inp], s.mem[acc]))
            return err(s.mem[bad])
        return self.gather(outs, [acc, inp, bad], fin)

def _samplewrap(t, S):
    x = terms._sample(S)
    return wrap_like(t, x)
