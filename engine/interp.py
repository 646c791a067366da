"""Dataflow over the MIR of the crate: every function is abstracted into the gated values of its
results, of the memory it reaches, and of the events (panic sites, file operations, ...) on the way.

The states of the incoming edges of a block are merged by gated joins (no path is enumerated) and
loops are summarised by recurrence analysis of the values carried around the back edge."""
import json
from terms import *
import terms

PTR_ADTS = {'std::rc::Rc', 'std::sync::Arc', 'std::cell::Ref', 'std::cell::RefMut', 'std::boxed::Box'}
TRANSPARENT = {'std::cell::RefCell', 'std::cell::Cell', 'std::mem::ManuallyDrop'}
SEQ_ADTS = {'std::vec::Vec', 'std::string::String', 'std::path::PathBuf', 'std::path::Path', 'std::collections::VecDeque',
            'std::ffi::OsString', 'std::ffi::OsStr'}
SET_ADTS = {'std::collections::BTreeSet', 'std::collections::HashSet'}

class State:
    __slots__ = ('mem', 'pc')
    def __init__(self, mem, pc):
        self.mem = mem
        self.pc = pc
    def copy(self):
        return State(dict(self.mem), self.pc)
    def on(self, c):
        p = band(self.pc, c)
        return State(dict(self.mem), p)

def _ops_of(rv):
    """operands of a right-hand side"""
    return [x for x in rv[1:] if isinstance(x, list) and x and x[0] in ('copy', 'move', 'const')]

def unbox(fn):
    """`vec![a, b]` writes an array through a raw pointer into a fresh box: here the array is the content of the box"""
    boxes = set()
    for b in fn['blocks']:
        t = b['t']
        if t[0] == 'call' and t[1][0] == 'const' and t[1][1].get('callee', {}).get('decl', '').endswith('Box::<T>::new_uninit') and not t[3][1]:
            boxes.add(t[3][0])
    if not boxes:
        return
    raw = {}
    taint = set()
    for _ in range(len(fn['blocks'])):
        n = len(taint)
        for b in fn['blocks']:
            for q in b['s']:
                if q[0] != '=' or q[1][1]:
                    continue
                rv = q[2]
                if rv[0] == 'cast' and rv[1] == 'BoxDerefTransmute' and rv[2][0] in ('copy', 'move') and rv[2][1][0] in boxes:
                    raw[q[1][0]] = rv[2][1][0]
                    taint.add(q[1][0])
                    continue
                ops = _ops_of(rv)
                pl = [o[1][0] for o in ops if o[0] in ('copy', 'move')]
                if pl and all(x in taint for x in pl) or (not pl and ops and any(str(o[1].get('name', '')).startswith('std::mem::SizedTypeProperties') for o in ops)):
                    taint.add(q[1][0])
        if len(taint) == n:
            break
    for b in fn['blocks']:
        out = []
        for q in b['s']:
            if q[0] == '=':
                l, pr = q[1][0], q[1][1]
                if l in raw and pr and pr[0] == ['deref']:
                    q = [q[0], [raw[l], [], q[1][2]]] + q[2:]
                elif l in taint and not pr:
                    continue
            out.append(q)
        b['s'] = out
        t = b['t']
        if t[0] == 'assert' and t[1][0] in ('copy', 'move') and t[1][1][0] in taint:
            b['t'] = ['goto', t[5]]

class Facts:
    def __init__(self, path):
        F = json.load(open(path))
        for f in F['fns']:
            unbox(f)
        self.raw = F
        self.types = F['types']
        self.fns = {f['id']: f for f in F['fns']}
        self.roots = F['roots']
        self.adts = F['adts']
        self.impls = F['impls']
        self.consts = F['consts']
        self.by_name = {}
        for f in F['fns']:
            self.by_name.setdefault(f['name'], f)
        self.by_str = {}
        for i, t in enumerate(self.types):
            self.by_str.setdefault(t['s'], i)
        self._k = {}
        self._adt = {}
        for i, t in enumerate(self.types):
            if t['k'] == 'adt':
                self._adt.setdefault(t['path'], i)

    def ty_of_adt(self, path):
        return self._adt.get(path)

    def strip(self, ty):
        t = self.types[ty]
        while t['k'] == 'adt' and t['path'] in TRANSPARENT:
            ty = t['args'][0]
            t = self.types[ty]
        return ty

    def kind(self, ty):
        r = self._k.get(ty)
        if r is None:
            r = self._kind(ty)
            self._k[ty] = r
        return r

    def _kind(self, ty):
        ty = self.strip(ty)
        t = self.types[ty]
        k = t['k']
        if k in ('ref', 'ptr'):
            return 'ptr'
        if k in ('slice', 'array', 'str'):
            return 'seq'
        if k == 'adt':
            p = t['path']
            if p in PTR_ADTS:
                return 'ptr'
            if p in SEQ_ADTS:
                return 'seq'
            if p in SET_ADTS:
                return 'set'
            if p == 'std::fs::File':
                return 'file'
            if t['enum']:
                return 'enum' if t['vs'] else 'opaque'
            if t['vs'] and (t.get('local') or p in ('std::ops::Range', 'std::ops::RangeInclusive', 'std::ops::RangeFrom', 'std::ops::RangeTo')):
                return 'struct'
            return 'opaque'
        if k in ('bool', 'char', 'int', 'float', 'tuple', 'closure', 'fndef', 'param', 'never'):
            return k
        return 'opaque'

    def data_ty(self, ty):
        """may a value of this type be part of a data set?"""
        t = self.types[self.strip(ty)]
        return t['k'] not in ('adt',) or not t.get('path', '').startswith('io::')

    def pointee(self, ty):
        t = self.types[self.strip(ty)]
        if t['k'] in ('ref', 'ptr'):
            return t['t']
        if t['k'] == 'adt' and t['path'] in PTR_ADTS:
            return t['args'][0]
        return None

    def elem_ty(self, ty):
        ty = self.strip(ty)
        t = self.types[ty]
        if t['k'] in ('slice', 'array'):
            return t['t']
        if t['k'] == 'adt' and t['path'] in ('std::vec::Vec', 'std::collections::VecDeque'):
            return t['args'][0]
        if t['k'] == 'str' or t['k'] == 'adt':
            return self.u8
        return None

    @property
    def u8(self):
        return self.by_str['u8']

    def variants(self, ty):
        return self.types[self.strip(ty)]['vs']

    def field_ty(self, ty, v, i):
        t = self.types[self.strip(ty)]
        if t['k'] == 'tuple':
            return t['ts'][i]
        if t['k'] == 'adt' and t['vs']:
            return t['vs'][v]['f'][i][1]
        return None

    def size_of(self, ty):
        t = self.types[self.strip(ty)]
        s = t['s']
        n = {'u8': 1, 'i8': 1, 'bool': 1, 'u16': 2, 'i16': 2, 'u32': 4, 'i32': 4, 'f32': 4, 'char': 4,
             'u64': 8, 'i64': 8, 'f64': 8, 'usize': 8, 'isize': 8, 'u128': 16, 'i128': 16}.get(s)
        if n:
            return n
        if t['k'] == 'array':
            e = self.size_of(t['t'])
            return None if e is None or not isinstance(t['n'], int) else e * t['n']
        if t['k'] == 'tuple' and not t['ts']:
            return 0
        return None

def adt_kind(F, path, variant, ty):
    t = F.types[F.strip(ty)] if ty is not None else None
    if t is not None and t['k'] == 'adt' and t['enum']:
        return ('adt', path, variant)
    return ('adt', path, 0, 's')

TUPLE = ('tuple',)

class Interp:
    def __init__(self, facts, exact=True):
        self.F = facts
        self.exact = exact
        self.events = []
        self.loops = []
        self.uniq = 0
        self.stack = []
        self.cfgs = {}
        self.unknown = {}
        self.hooks = {}
        self.opaque = {}
        self.root_fid = None
        terms.ARRAY_LEN[0] = self.array_len
        terms.ELEM_WRAP[0] = self.elem_wrap
        terms.EXPAND[0] = self.expand
        terms.NFIELDS[0] = self.nfields
        terms.DISCR[0] = self.discr_is
        R = terms.REBUILD
        R['fld'] = lambda t, s, v, i: self.fld(s, v, i, t.ty)
        R['deref'] = lambda t, p: self.deref_val(p, t.ty)
        R['lv'] = lambda t, s, j: self.ladder(s, j)
        R['ref'] = lambda t, root, projs: self.mkref_root(root, projs, t.ty)
        R['heap'] = lambda t, p: mk('heap', p)
        R['dv'] = lambda t, s: mk('dv', s)
        R['eq'] = lambda t, a, b: self.eq_atoms(a, b)
        R['seqeq'] = lambda t, a, b: self.seq_eq(a, b)
        R['peq'] = lambda t, a, b: self.ptr_eq(a, b)
        R['cast'] = lambda t, ty, p: self.cast_int(p, ty)
        R['set'] = self.reb_set
        R['app'] = lambda t, n, *vs: self.app(n, list(vs), t.ty)
        import prims
        self.P = prims.Prims(self)

    # ------------------------------------------------------------------ types and wraps
    def array_len(self, ty):
        t = self.F.types[self.F.strip(ty)]
        if t['k'] == 'array' and isinstance(t['n'], int):
            return t['n']
        return None

    def nfields(self, ty, v):
        k = self.F.kind(ty)
        if k == 'struct' or k == 'enum':
            return len(self.F.variants(ty)[v]['f'])
        if k == 'tuple':
            return len(self.F.types[self.F.strip(ty)]['ts'])
        return -1

    def int_name(self, ty):
        t = self.F.types[self.F.strip(ty)]
        if t['k'] == 'char':
            return 'char'
        return t['s'] if t['k'] == 'int' else None

    def wrap(self, atom, ty):
        """the atom as a value of type ty"""
        F = self.F
        if ty is None:
            return atom
        if atom.ty is None:
            atom.ty = ty
        k = F.kind(ty)
        if k == 'int' or k == 'char':
            n = self.int_name(ty)
            if atom not in INTTY:
                INTTY[atom] = n
            return P(atom)
        if k == 'bool':
            return lit(atom)
        if k == 'seq':
            return seq_atom(atom)
        if k == 'tuple' and not F.types[F.strip(ty)]['ts']:
            return UNIT
        if k == 'file':
            return mk('fh', atom)
        if k == 'closure' or k == 'fndef':
            return self.zst(ty)
        return atom

    def zst(self, ty):
        t = self.F.types[self.F.strip(ty)]
        if t['k'] == 'closure':
            return mk('agg', ('closure', t['fn']))
        if t['k'] == 'fndef':
            return mk('fnitem', json.dumps(t['callee'], sort_keys=True))
        if t['k'] == 'tuple':
            return UNIT
        if t['k'] == 'adt' and t['vs'] and not t['enum'] and not t['vs'][0]['f']:
            return mk('agg', ('adt', t['path'], 0, 's'))
        return mk('zst', t['s'])

    def elem_wrap(self, s, i):
        ety = self.F.elem_ty(s.ty) if s.ty is not None else None
        t = mk('elem', s, i)
        if ety is None:
            return t
        return self.wrap(t, ety)

    def expand(self, v, a):
        """opaque v as an aggregate of the shape of a"""
        kind = a.a[0]
        if v.ty is None:
            return None
        k = self.F.kind(v.ty)
        if kind == TUPLE and k == 'tuple':
            n = len(self.F.types[self.F.strip(v.ty)]['ts'])
            return mk('agg', TUPLE, *[self.fld(v, 0, i) for i in range(n)])
        if kind[0] == 'adt' and k == 'struct' and kind[3:] == ('s',):
            n = self.nfields(v.ty, 0)
            return mk('agg', kind, *[self.fld(v, 0, i) for i in range(n)])
        return None

    def expand_struct(self, v):
        if v.op == 'agg':
            return v
        if v.ty is None:
            return None
        k = self.F.kind(v.ty)
        t = self.F.types[self.F.strip(v.ty)]
        if k == 'tuple':
            return mk('agg', TUPLE, *[self.fld(v, 0, i) for i in range(len(t['ts']))])
        if k == 'struct':
            return mk('agg', ('adt', t['path'], 0, 's'), *[self.fld(v, 0, i) for i in range(self.nfields(v.ty, 0))])
        return None

    def fld(self, s, v, i, fty=None):
        if s.op == 'agg':
            k = s.a[0]
            if k[0] == 'adt' and k[3:] != ('s',) and k[2] != v:
                return UNDEF
            if 1 + i < len(s.a):
                return s.a[1 + i]
            return UNDEF
        if s.op == 'ite':
            return ite(lit(s.a[0]), self.fld(s.a[1], v, i, fty), self.fld(s.a[2], v, i, fty))
        if s is UNDEF:
            return UNDEF
        if s.ty is not None and fty is None:
            fty = self.F.field_ty(s.ty, v, i)
        if s.op == 'fold' and s.ty is None:
            pass
        return self.wrap(mk('fld', s, v, i), fty)

    # ------------------------------------------------------------------ enums
    def enum_n(self, ty):
        return len(self.F.variants(ty))

    def ladder(self, s, j):
        """BDD: s is the variant j, knowing that it is not a lower one"""
        if s.op == 'agg':
            k = s.a[0]
            return TRUE if (k[0] == 'adt' and k[2] == j) else FALSE
        if s.op == 'ite':
            return bite(lit(s.a[0]), self.ladder(s.a[1], j), self.ladder(s.a[2], j))
        if s is UNDEF:
            return FALSE
        return lit(mk('lv', s, j))

    def is_variant(self, v, j):
        if v.op == 'agg':
            k = v.a[0]
            return TRUE if k[0] == 'adt' and k[2] == j else FALSE
        if v.op == 'ite':
            return bite(lit(v.a[0]), self.is_variant(v.a[1], j), self.is_variant(v.a[2], j))
        if v is UNDEF:
            return FALSE
        if v.ty is None or self.F.kind(v.ty) != 'enum':
            return lit(mk('isv', v, j))
        n = self.enum_n(v.ty)
        r = TRUE
        for i in range(j):
            r = band(r, bnot(lit(mk('lv', v, i))))
        if j < n - 1:
            r = band(r, lit(mk('lv', v, j)))
        return r

    def discr_is(self, s, val):
        for j, x in enumerate(self.F.variants(s.ty)):
            if x['d'] == val:
                return self.is_variant(s, j)
        return FALSE

    def dv_is(self, dv, val):
        return self._dvi(dv.a[0], val)

    def _dvi(self, v, val):
        if v.op == 'ite':
            return bite(lit(v.a[0]), self._dvi(v.a[1], val), self._dvi(v.a[2], val))
        if v is UNDEF:
            return FALSE
        if v.op == 'agg':
            return TRUE if self.discr_of_agg(v) == val else FALSE
        if v.ty is None:
            return lit(mk('isd', v, val))
        return self.discr_is(v, val)

    def discr_of_agg(self, v):
        k = v.a[0]
        ty = self.F.ty_of_adt(k[1])
        return self.F.variants(ty)[k[2]]['d']

    def dv_int(self, dv):
        def go(v):
            if v.op == 'ite':
                return ite_int(lit(v.a[0]), go(v.a[1]), go(v.a[2]))
            if v is UNDEF:
                return ZERO
            if v.op == 'agg':
                return num(self.discr_of_agg(v))
            if v.ty is None or self.F.kind(v.ty) != 'enum':
                return P(mk('discr', v))
            vs = self.F.variants(v.ty)
            r = num(vs[-1]['d'])
            for j in range(len(vs) - 2, -1, -1):
                r = ite_int(lit(mk('lv', v, j)), num(vs[j]['d']), r)
            return r
        return go(dv.a[0])

    # ------------------------------------------------------------------ pointers and memory
    def mkref(self, root, projs, ty=None):
        out = []
        for p in projs:
            if p[0] == 'sl' and out and out[-1][0] == 'sl':
                q = out.pop()
                a = add(q[1], p[1])
                b = add(q[1], p[2]) if p[2] is not None else q[2]
                out.append(('sl', a, b))
            elif p[0] == 'idx' and out and out[-1][0] == 'sl':
                q = out.pop()
                out.append(('idx', add(q[1], p[1])))
            else:
                out.append(p)
        if out and out[-1][0] == 'sl' and out[-1][1] is ZERO and out[-1][2] is None:
            out.pop()
        if root.op == 'heap' and not out:
            return root.a[0]
        r = mk('ref', root, tuple(out))
        if r.ty is None and ty is not None:
            r.ty = ty
        return r

    def mkref_root(self, root, projs, ty):
        if root.op == 'heap':
            p = root.a[0]
            if p.op == 'ite':
                return ite(lit(p.a[0]), self.mkref_root(mk('heap', p.a[1]), projs, ty), self.mkref_root(mk('heap', p.a[2]), projs, ty))
            if p.op == 'ref':
                return self.mkref(p.a[0], tuple(p.a[1]) + tuple(projs), ty)
        return self.mkref(root, projs, ty)

    def deref_val(self, p, ty):
        """initial content of what the pointer p points to"""
        if p.op == 'ite':
            return ite(lit(p.a[0]), self.deref_val(p.a[1], ty), self.deref_val(p.a[2], ty))
        if p is UNDEF:
            return UNDEF
        if p.op == 'fh':
            # state of the file behind a handle
            return mk('agg', ('file',), p.a[0], EMPTY, ZERO if p.a[0].op == 'file' else P(mk('fpos', p.a[0])))
        if p.op == 'rcnew':
            return p.a[1]
        if p.op == 'ref' and p.a[0].op == 'cst':
            return self.project(p.a[0].a[0], p.a[1])
        if p.op == 'ref' and p.a[0].op == 'heap':
            q = p.a[0].a[0]
            v = self.deref_val(q, self.F.pointee(q.ty) if q.ty is not None else None)
            return self.project(v, p.a[1])
        return self.wrap(mk('deref', p), ty)

    def root_ty(self, root):
        if root.op == 'heap':
            p = root.a[0]
            return self.F.pointee(p.ty) if p.ty is not None else None
        if root.op == 'loc':
            return root.ty
        return None

    def init(self, root):
        if root.op == 'heap':
            p = root.a[0]
            return self.deref_val(p, self.root_ty(root))
        if root.op == 'cst':
            return root.a[0]
        return UNDEF

    def sure_distinct(self, p, q):
        """pointers that cannot be the same"""
        if p is q:
            return False
        if p.op == 'rcnew' or q.op == 'rcnew':
            return True
        tp, tq = p.ty, q.ty
        if tp is None or tq is None:
            return True
        a, b = self.F.types[self.F.strip(tp)], self.F.types[self.F.strip(tq)]
        pa, pb = self.F.pointee(tp), self.F.pointee(tq)
        if pa != pb:
            return True
        # a mutable reference is not aliased
        for t in (a, b):
            if t['k'] == 'ref' and t['m']:
                return True
        return False

    def root_val(self, st, root):
        v = st.mem.get(root)
        if v is not None:
            return v
        if root.op != 'heap':
            return self.init(root)
        v = self.init(root)
        p = root.a[0]
        for r2, v2 in st.mem.items():
            if r2.op == 'heap' and not self.sure_distinct(p, r2.a[0]):
                v = ite(self.ptr_eq(p, r2.a[0]), v2, v)
        return v

    def ptr_eq(self, a, b):
        """same address"""
        if a is b:
            return TRUE
        if a.op == 'ite':
            return bite(lit(a.a[0]), self.ptr_eq(a.a[1], b), self.ptr_eq(a.a[2], b))
        if b.op == 'ite':
            return bite(lit(b.a[0]), self.ptr_eq(a, b.a[1]), self.ptr_eq(a, b.a[2]))
        if a.op == 'rcnew' or b.op == 'rcnew':
            return FALSE
        if a.op == 'ref' and b.op == 'ref' and a.a[0] is b.a[0] and len(a.a[1]) == len(b.a[1]):
            c = TRUE
            for p, q in zip(a.a[1], b.a[1]):
                if p[0] != q[0]:
                    return FALSE
                if p[0] == 'f':
                    if p != q:
                        return FALSE
                elif p[0] == 'idx':
                    c = band(c, eqi(p[1], q[1]))
            return c
        if a.id > b.id:
            a, b = b, a
        return lit(mk('peq', a, b))

    def project(self, v, projs):
        for p in projs:
            if v is UNDEF:
                return UNDEF
            if p[0] == 'f':
                v = self.fld(v, p[1], p[2], p[3] if len(p) > 3 else None)
            elif p[0] == 'idx':
                v = self.seq_elem(v, p[1])
            elif p[0] == 'sl':
                v = self.seq_sub(v, p[1], p[2])
        return v

    def seq_elem(self, v, i):
        if v.op == 'cat':
            return elem(v, i)
        if v.op == 'ite':
            return ite(lit(v.a[0]), self.seq_elem(v.a[1], i), self.seq_elem(v.a[2], i))
        if v is UNDEF:
            return UNDEF
        return mk('elem', v, i)

    def seq_sub(self, v, a, b):
        if v.op == 'cat':
            return subseq(v, a, length(v) if b is None else b)
        if v.op == 'ite':
            return ite(lit(v.a[0]), self.seq_sub(v.a[1], a, b), self.seq_sub(v.a[2], a, b))
        return mk('cat', ('sub', v, a, b if b is not None else ZERO))

    def update(self, v, projs, val):
        if not projs:
            return val
        p, rest = projs[0], projs[1:]
        if p[0] == 'f':
            if v.op == 'ite':
                return ite(lit(v.a[0]), self.update(v.a[1], projs, val), self.update(v.a[2], projs, val))
            if v is UNDEF:
                return UNDEF
            if v.op == 'agg':
                k = v.a[0]
                if k[0] == 'adt' and k[3:] != ('s',) and k[2] != p[1]:
                    return v
                fs = list(v.a[1:])
                fs[p[2]] = self.update(fs[p[2]], rest, val)
                return mk_agg(k, *fs)
            e = self.expand_struct(v)
            if e is not None:
                return self.update(e, projs, val)
            if v.ty is not None and self.F.kind(v.ty) == 'enum':
                # the variant is made explicit
                t = self.F.types[self.F.strip(v.ty)]
                j = p[1]
                a = mk('agg', ('adt', t['path'], j), *[self.fld(v, j, i) for i in range(len(t['vs'][j]['f']))])
                return ite(self.is_variant(v, j), self.update(a, projs, val), v)
            raise Undecided('update of %s' % show(v)[:80])
        if v.op == 'ite':
            return ite(lit(v.a[0]), self.update(v.a[1], projs, val), self.update(v.a[2], projs, val))
        if v.op != 'cat':
            raise Undecided('update of an element of %s' % show(v)[:80])
        if p[0] == 'idx':
            i = p[1]
            x = self.update(elem(v, i), rest, val)
            return concat(subseq(v, ZERO, i), unit(x), subseq(v, add(i, ONE), length(v)))
        if p[0] == 'sl':
            a, b = p[1], length(v) if p[2] is None else p[2]
            x = self.update(subseq(v, a, b), rest, val)
            if x.op != 'cat':
                raise Undecided('slice of %s' % show(x)[:80])
            return concat(subseq(v, ZERO, a), x, subseq(v, b, length(v)))
        raise Undecided('projection')

    def load_loc(self, st, root, projs):
        v = self.project(self.root_val(st, root), projs)
        if v.op in ('ite', 'mix'):
            v = simp(v, st.pc)
        return v

    def targets(self, p):
        """[(condition, root, projections)] of a pointer value"""
        out = []
        for c, x in leaves(p):
            if x is UNDEF:
                continue
            if x.op == 'ref':
                out.append((c, x.a[0], tuple(x.a[1])))
            else:
                out.append((c, mk('heap', x), ()))
        return out

    def load(self, st, p, projs=()):
        ts = self.targets(p)
        if not ts:
            return UNDEF
        v = None
        for c, root, pr in ts:
            x = self.load_loc(st, root, pr + tuple(projs))
            v = x if v is None else ite(c, x, v)
        return v

    def store(self, st, p, projs, val):
        ts = self.targets(p)
        if len(ts) == 1 and False:
            pass
        for c, root, pr in ts:
            self.store_loc(st, root, pr + tuple(projs), val, c if len(ts) > 1 else TRUE)

    def store_loc(self, st, root, projs, val, c=TRUE):
        if root.op == 'cst':
            raise Undecided('a value written through a copy')
        old = self.root_val(st, root)
        if not projs:
            new = val
        else:
            if root.op == 'loc' and old is UNDEF:
                raise Undecided('partial initialisation')
            new = self.update(old, tuple(projs), val)
        if c is not TRUE:
            new = ite(c, new, old)
        if root.op == 'heap':
            p = root.a[0]
            for r2 in list(st.mem):
                if r2 is not root and r2.op == 'heap' and not self.sure_distinct(p, r2.a[0]):
                    e = self.ptr_eq(p, r2.a[0])
                    if e is not FALSE:
                        st.mem[r2] = ite(e, new, st.mem[r2])
        st.mem[root] = new

    # ------------------------------------------------------------------ places
    def local(self, fr, n):
        r = mk('loc', fr.key, n)
        if r.ty is None:
            r.ty = fr.fn['locals'][n]
        return r

    def place(self, st, fr, pl):
        """[(condition, root, projections)]"""
        locs = [(TRUE, self.local(fr, pl[0]), ())]
        var = 0
        for p in pl[1]:
            k = p[0]
            if k == 'deref':
                out = []
                for c, root, pr in locs:
                    v = self.load_loc(st, root, pr)
                    for c2, r2, p2 in self.targets(v):
                        c3 = band(c, c2)
                        if c3 is not FALSE and (band(c3, st.pc) is not FALSE):
                            out.append((c3, r2, p2))
                locs = out
            elif k == 'down':
                var = p[1]
                continue
            elif k == 'f':
                q = ('f', var, p[1])
                locs = [(c, r, self.pushproj(pr, q)) for c, r, pr in locs]
            elif k == 'idx':
                i = self.load_loc(st, self.local(fr, p[1]), ())
                locs = [(c, r, self.pushproj(pr, ('idx', i))) for c, r, pr in locs]
            elif k == 'cidx':
                off, mn, fe = p[1], p[2], p[3]
                out = []
                for c, r, pr in locs:
                    i = num(off)
                    if fe:
                        n = self.seq_len(self.load_loc(st, r, pr))
                        i = sub(n, num(off))
                    out.append((c, r, self.pushproj(pr, ('idx', i))))
                locs = out
            elif k == 'sub':
                out = []
                for c, r, pr in locs:
                    b = num(p[2])
                    if p[3]:
                        b = sub(self.seq_len(self.load_loc(st, r, pr)), b)
                    out.append((c, r, self.pushproj(pr, ('sl', num(p[1]), b))))
                locs = out
            elif k == 'cast':
                pass
            else:
                raise Undecided('projection ' + k)
            var = 0
        return locs

    def pushproj(self, pr, q):
        if pr and pr[-1][0] == 'sl':
            s = pr[-1]
            if q[0] == 'idx':
                return pr[:-1] + (('idx', add(s[1], q[1])),)
            if q[0] == 'sl':
                return pr[:-1] + (('sl', add(s[1], q[1]), add(s[1], q[2]) if q[2] is not None else s[2]),)
        return pr + (q,)

    def seq_len(self, v):
        if v.op == 'cat':
            return length(v)
        if v.op == 'ite':
            return ite_int(lit(v.a[0]), self.seq_len(v.a[1]), self.seq_len(v.a[2]))
        if v is UNDEF:
            return ZERO
        return P(mk('len', v))

    def read_place(self, st, fr, pl):
        v = None
        for c, root, pr in self.place(st, fr, pl):
            x = self.load_loc(st, root, pr)
            v = x if v is None else ite(c, x, v)
        return UNDEF if v is None else v

    def write_place(self, st, fr, pl, val):
        ls = self.place(st, fr, pl)
        for c, root, pr in ls:
            self.store_loc(st, root, pr, val, c if len(ls) > 1 else TRUE)

    def addr_of(self, st, fr, pl):
        v = None
        ty = None
        for c, root, pr in self.place(st, fr, pl):
            x = self.mkref(root, pr)
            v = x if v is None else ite(c, x, v)
        return UNDEF if v is None else v

    # ------------------------------------------------------------------ constants and operands
    def const_val(self, c, ty=None):
        k = c['c']
        if k == 'int' or k == 'char':
            v = c['v']
            return num(ord(v) if isinstance(v, str) else int(v))
        if k == 'bool':
            return TRUE if c['v'] else FALSE
        if k == 'float':
            return mk('fconst', c['w'], int(c['bits']))
        if k == 'str':
            b = c['v'].encode() if isinstance(c['v'], str) else bytes(c['v'])
            return self.mkref(mk('cst', mk('cat', *[('u', num(x)) for x in b])), ())
        if k == 'array':
            return concat(*[unit(self.const_val(x)) for x in c['v']])
        if k == 'refto':
            return self.mkref(mk('cst', self.const_val(c['v'])), ())
        if k == 'unit':
            return UNIT
        t = c.get('t', ty)
        if k == 'zst':
            return self.zst(t)
        if k == 'fn':
            return mk('fnitem', json.dumps(c['callee'], sort_keys=True))
        if k == 'promoted':
            v = self.eval_const_fn(c['fn'])
            if self.F.fns[c['fn']]['locals'][0] == c.get('t', ty):
                return v
            return self.mkref(mk('cst', v), ())
        a = mk('constant', str(c.get('v', c.get('s', c.get('name')))))
        return self.wrap(a, t) if t is not None else a

    def eval_const_fn(self, fid):
        st = State({}, TRUE)
        st2, v = self.call_fn(st, fid, [], ('promoted', fid))
        # references to locals of the promoted become constants
        def fix(x):
            if x.op == 'ref' and x.a[0].op == 'loc':
                return self.mkref(mk('cst', fix(self.root_val(st2, x.a[0]))), tuple(x.a[1]))
            if x.op == 'agg':
                return mk_agg(x.a[0], *[fix(y) for y in x.a[1:]])
            return x
        # a promoted returns the value whose address is taken
        if self.F.kind(self.F.fns[fid]['locals'][0]) == 'ptr' and v.op == 'ref' and v.a[0].op == 'loc':
            return fix(v)
        return fix(v)

    def operand(self, st, fr, o):
        if o[0] in ('copy', 'move'):
            return self.read_place(st, fr, o[1])
        return self.const_val(o[1])

    def op_ty(self, fr, o):
        if o[0] in ('copy', 'move'):
            return o[1][2]
        return o[1].get('t')

    # ------------------------------------------------------------------ rvalues
    def cast_int(self, p, name):
        if p.op != 'poly':
            p = atom_val(None, p) if p.op != 'dv' else self.dv_int(p)
        lo, hi = INT_RANGE[name]
        a, b = prange(p)
        if a >= lo and b <= hi:
            return p
        c = const_of(p)
        if c is not None:
            n = hi - lo + 1
            c = (int(c) - lo) % n + lo
            return num(c)
        ii = poly_inds(p)
        if ii and len(ii) <= 3:
            i = ii[0]
            return ite_int(ind_cond(i), self.cast_int(poly_cof(p, i, True), name), self.cast_int(poly_cof(p, i, False), name))
        # cast of a cast
        if len(p.a[0]) == 1 and p.a[0][0][1] == 1 and len(p.a[0][0][0]) == 1 and p.a[0][0][0][0].op == 'cast':
            x = p.a[0][0][0][0]
            if INT_RANGE[x.a[0]][1] - INT_RANGE[x.a[0]][0] >= hi - lo:
                return self.cast_int(x.a[1], name)
        return P(mk('cast', name, p))

    def as_int(self, v):
        if v.op == 'poly':
            return v
        if v.op == 'dv':
            return self.dv_int(v)
        if v.op in ('B', 'true', 'false'):
            return ind(v)
        if v is UNDEF:
            return ZERO
        if v.op == 'mix':
            return P(v)
        if v.op == 'ite':
            return ite_int(lit(v.a[0]), self.as_int(v.a[1]), self.as_int(v.a[2]))
        return P(v)

    def rvalue(self, st, fr, rv, dty, line):
        k = rv[0]
        if k == 'use':
            return self.operand(st, fr, rv[1])
        if k == 'ref':
            return self.addr_of(st, fr, rv[1])
        if k == 'cast':
            v = self.operand(st, fr, rv[2])
            ck = rv[1]
            if ck.startswith('IntToInt'):
                sty = self.op_ty(fr, rv[2])
                src = self.int_name(sty) if sty is not None else None
                dst = self.int_name(rv[3])
                if is_bool(v):
                    v = ind(v)
                p = self.as_int(v)
                r = self.cast_int(p, dst)
                if r is not p:
                    self.event('cast', st.pc, fr, line, (dst, p))
                return r
            if ck.startswith('IntToFloat') or ck.startswith('FloatTo'):
                return self.wrap(mk('fcast', ck, self.F.types[rv[3]]['s'], v), rv[3])
            return v
        if k == 'bin':
            return self.binop(st, fr, rv[1], rv[2], rv[3], dty, line)
        if k == 'un':
            v = self.operand(st, fr, rv[2])
            if rv[1] == 'Not':
                if is_bool(v):
                    return bnot(v)
                return self.wrap(mk('bitnot', v), dty)
            if rv[1] == 'Neg':
                if v.op == 'poly':
                    return neg(v)
                return self.wrap(mk('fneg', v), dty)
            if rv[1] == 'PtrMetadata':
                return self.seq_len(self.load(st, v))
            raise Undecided('unary ' + rv[1])
        if k == 'discr':
            return mk('dv', self.read_place(st, fr, rv[1]))
        if k == 'len':
            return self.seq_len(self.read_place(st, fr, rv[1]))
        if k == 'agg':
            vs = [self.operand(st, fr, o) for o in rv[2]]
            d = rv[1]
            if d[0] == 'array':
                return concat(*[unit(x) for x in vs])
            if d[0] == 'tuple':
                return mk('agg', TUPLE, *vs)
            if d[0] == 'adt':
                return self.mk_adt(d[1], d[2], d[3], vs)
            if d[0] == 'closure':
                return mk('agg', ('closure', d[1]), *vs)
            raise Undecided('aggregate ' + str(d[0]))
        if k == 'repeat':
            v = self.operand(st, fr, rv[1])
            n = rv[2]
            if isinstance(n, int):
                return cat(('rep', v, num(n)))
            raise Undecided('repeat')
        raise Undecided('rvalue ' + k)

    def mk_adt(self, path, variant, ty, vs):
        F = self.F
        if path in TRANSPARENT and vs:
            return vs[0]
        kind = adt_kind(F, path, variant, ty)
        if path in ('std::ops::Range',):
            return self.P.mk_range(vs[0], vs[1])
        r = mk_agg(kind, *vs)
        return r

    def binop(self, st, fr, op, oa, ob, dty, line):
        a, b = self.operand(st, fr, oa), self.operand(st, fr, ob)
        return self.binop_of(st, op, a, b, self.op_ty(fr, oa), dty)

    def binop_val(self, st, ctx, op, a, b):
        """operator on values (an overflow panics)"""
        dty = ctx.dty
        k = self.F.kind(dty) if dty is not None else 'int'
        if k == 'int' and op in ('Add', 'Sub', 'Mul') and not (is_bool(a) or is_bool(b)):
            r = self.binop_of(st, op + 'WithOverflow', a, b, dty, None)
            v, o = r.a[1], r.a[2]
            c = band(st.pc, o)
            if c is not FALSE:
                self.event('panic', c, ctx.fr, ctx.line, ('overflow', op))
            return v
        return self.binop_of(st, op, a, b, dty, dty)

    def binop_of(self, st, op, a, b, ty, dty):
        if op in ('Eq', 'Ne'):
            r = self.eq_prim(a, b)
            return r if op == 'Eq' else bnot(r)
        k = self.F.kind(ty) if ty is not None else 'int'
        if is_bool(a) and is_bool(b):
            if op == 'BitAnd':
                return band(a, b)
            if op == 'BitOr':
                return bor(a, b)
            if op == 'BitXor':
                return bnot(biff(a, b))
            if op in ('Lt', 'Le', 'Gt', 'Ge'):
                return {'Lt': band(bnot(a), b), 'Le': bor(bnot(a), b), 'Gt': band(a, bnot(b)), 'Ge': bor(a, bnot(b))}[op]
        if k == 'float':
            if op in ('Lt', 'Le', 'Gt', 'Ge'):
                return lit(mk('fcmp', op, a, b))
            return self.wrap(mk('fop', op, a, b), dty)
        a, b = self.as_int(a), self.as_int(b)
        if op == 'Lt':
            return lt(a, b)
        if op == 'Le':
            return le(a, b)
        if op == 'Gt':
            return lt(b, a)
        if op == 'Ge':
            return le(b, a)
        name = self.int_name(ty)
        wo = op.endswith('WithOverflow')
        base = op[:-12] if wo else op.replace('Unchecked', '')
        if base == 'Add':
            r = add(a, b)
        elif base == 'Sub':
            r = sub(a, b)
        elif base == 'Mul':
            r = mul(a, b)
        elif base == 'Rem':
            r = self.rem(a, b, name)
        elif base == 'Div':
            r = self.div(a, b, name)
        elif base == 'Cmp':
            return self.P.ordering(a, b)
        else:
            r = self.bitop(base, a, b, name)
        if wo:
            return mk('agg', TUPLE, r, self.ovf(r, name))
        return r

    def rem(self, a, b, name):
        c = const_of(b)
        if c is not None and c > 0 and (nonneg(a) or INT_RANGE.get(name, (0, 0))[0] >= 0):
            return imod(a, int(c))
        return self.int_atom(mk('rem', a, b), name)

    def div(self, a, b, name):
        c = const_of(b)
        if c is not None and c > 0 and (nonneg(a) or INT_RANGE.get(name, (0, 0))[0] >= 0):
            return as_int_poly(idiv(a, int(c)))
        return self.int_atom(mk('quot', a, b), name)

    def int_atom(self, t, name):
        if name and t not in INTTY:
            INTTY[t] = name
        return P(t)

    def bitop(self, base, a, b, name):
        c = const_of(b)
        if base == 'BitAnd' and const_of(a) is not None and c is None:
            a, b, c = b, a, const_of(a)
        if base == 'BitAnd' and c is not None and c >= 0 and (int(c) & (int(c) + 1)) == 0:
            return imod(a, int(c) + 1)
        if base == 'BitAnd' and c is not None and name and INT_RANGE[name][0] == 0:
            low = INT_RANGE[name][1] - int(c)
            if (low & (low + 1)) == 0:
                return sub(a, imod(a, low + 1))
        if base == 'BitAnd' and name and INT_RANGE[name][0] == 0:
            # a & !(2^k - 1) built with bitnot
            for x, y in ((a, b), (b, a)):
                if len(y.a[0]) == 1 and y.a[0][0][0] and y.a[0][0][0][0].op == 'bitnot':
                    m = const_of(y.a[0][0][0][0].a[0]) if is_poly(y.a[0][0][0][0].a[0]) else None
                    if m is not None and (int(m) & (int(m) + 1)) == 0:
                        return sub(x, imod(x, int(m) + 1))
        if base == 'Shl' and c is not None:
            return scale(a, 2 ** int(c))
        if base == 'Shr' and c is not None and nonneg(a):
            return as_int_poly(idiv(a, 2 ** int(c)))
        return self.int_atom(mk('bit', base, a, b), name)

    def ovf(self, r, name):
        lo, hi = INT_RANGE[name]
        a, b = prange(r)
        if a >= lo and b <= hi:
            return FALSE
        return lit(mk('ovf', name, r))

    def eq_prim(self, a, b):
        if a.op == 'dv' or b.op == 'dv':
            if a.op == 'dv' and b.op == 'dv':
                return self.enum_same_variant(a.a[0], b.a[0])
            if a.op == 'dv':
                a, b = b, a
            c = const_of(a) if is_poly(a) else None
            if c is not None:
                return self.dv_is(b, c)
            return eqi(self.as_int(a), self.as_int(b))
        if is_poly(a) and is_poly(b):
            return eqi(a, b)
        if is_bool(a) and is_bool(b):
            return biff(a, b)
        return self.eq_atoms(a, b)

    def enum_same_variant(self, a, b):
        ty = None
        for x in (a, b):
            for c, l in leaves(x):
                if l.op == 'agg':
                    ty = self.F.ty_of_adt(l.a[0][1])
                elif l.ty is not None:
                    ty = l.ty
        if ty is None:
            return self.eq_atoms(mk('dv', a), mk('dv', b))
        r = FALSE
        for j in range(self.enum_n(ty)):
            r = bor(r, band(self.is_variant(a, j), self.is_variant(b, j)))
        return r

    def eq_atoms(self, a, b):
        if is_poly(a) and is_poly(b):
            return eqi(a, b)
        if a.op == 'cat' and b.op == 'cat':
            return self.seq_eq(a, b)
        if a is b and a.op not in ('fconst',) and not self.has_float(a):
            return TRUE
        if a.op == 'ite':
            return bite(lit(a.a[0]), self.eq_atoms(a.a[1], b), self.eq_atoms(a.a[2], b))
        if b.op == 'ite':
            return bite(lit(b.a[0]), self.eq_atoms(a, b.a[1]), self.eq_atoms(a, b.a[2]))
        if a is UNDEF or b is UNDEF:
            return FALSE
        if a.id > b.id:
            a, b = b, a
        return lit(mk('eq', a, b))

    def has_float(self, a):
        if a.ty is None:
            return a.op in ('fconst', 'fop', 'fcast', 'fneg')
        return self.ty_has_float(a.ty)

    def ty_has_float(self, ty, seen=None):
        seen = seen or set()
        if ty in seen:
            return False
        seen.add(ty)
        t = self.F.types[self.F.strip(ty)]
        if t['k'] == 'float':
            return True
        if t['k'] in ('ref', 'ptr', 'slice', 'array'):
            return self.ty_has_float(t['t'], seen)
        if t['k'] == 'tuple':
            return any(self.ty_has_float(x, seen) for x in t['ts'])
        if t['k'] == 'adt':
            return any(self.ty_has_float(x, seen) for x in t['args'] if isinstance(x, int)) or any(self.ty_has_float(f[1], seen) for v in t['vs'] for f in v['f'])
        return False

    def seq_eq(self, a, b):
        if a.op != 'cat' or b.op != 'cat':
            return self.eq_atoms(as_seq(a), as_seq(b)) if a.op in ('cat', 'ite') or b.op in ('cat', 'ite') else self.seq_eq(as_seq(a), as_seq(b))
        fl = any(p[0] in ('seq', 'sub') and p[1].ty is not None and self.ty_has_float(p[1].ty) for p in a.a + b.a)
        if a is b and not fl:
            return TRUE
        if all(p[0] == 'u' for p in a.a) and all(p[0] == 'u' for p in b.a):
            if len(a.a) != len(b.a):
                return FALSE
            r = TRUE
            for p, q in zip(a.a, b.a):
                r = band(r, self.eq_val(p[1], q[1]))
            return r
        for x, y in ((a, b), (b, a)):
            if len(x.a) == 1 and x.a[0][0] == 'iteq':
                p = x.a[0]
                return bite(lit(p[1]), self.seq_eq(p[2], y), self.seq_eq(p[3], y))
        if a.id > b.id:
            a, b = b, a
        return lit(mk('seqeq', a, b))

    def eq_val(self, a, b, st=None):
        """structural equality (derived PartialEq) of values"""
        if is_poly(a) and is_poly(b):
            return eqi(a, b)
        if is_bool(a) and is_bool(b):
            return biff(a, b)
        if a.op == 'cat' and b.op == 'cat':
            return self.seq_eq(a, b)
        if a is UNDEF or b is UNDEF:
            return FALSE
        if a.op == 'ite':
            return bite(lit(a.a[0]), self.eq_val(a.a[1], b, st), self.eq_val(a.a[2], b, st))
        if b.op == 'ite':
            return bite(lit(b.a[0]), self.eq_val(a, b.a[1], st), self.eq_val(a, b.a[2], st))
        pa = self.is_ptr(a)
        pb = self.is_ptr(b)
        if pa and pb and st is not None:
            return self.eq_val(self.load(st, a), self.load(st, b), st)
        if a.op == 'agg' or b.op == 'agg':
            k = a.a[0] if a.op == 'agg' else b.a[0]
            if k[0] == 'adt' and k[3:] != ('s',):
                j = k[2]
                n = len(a.a) - 1 if a.op == 'agg' else len(b.a) - 1
                r = band(self.is_variant(a, j), self.is_variant(b, j))
                for i in range(n):
                    if r is FALSE:
                        return r
                    r = band(r, self.eq_val(self.fld(a, j, i), self.fld(b, j, i), st))
                return r
            if k == TUPLE or k[0] == 'adt':
                n = len(a.a) - 1 if a.op == 'agg' else len(b.a) - 1
                r = TRUE
                for i in range(n):
                    r = band(r, self.eq_val(self.fld(a, 0, i), self.fld(b, 0, i), st))
                return r
        if a.ty is not None and self.F.kind(a.ty) == 'enum' and b.ty is not None:
            if a is b and not self.has_float(a):
                return TRUE
            vs = self.F.variants(a.ty)
            r = FALSE
            for j, v in enumerate(vs):
                c = band(self.is_variant(a, j), self.is_variant(b, j))
                for i in range(len(v['f'])):
                    c = band(c, self.eq_val(self.fld(a, j, i), self.fld(b, j, i), st))
                r = bor(r, c)
            return r
        return self.eq_atoms(a, b)

    def is_ptr(self, v):
        if v.op in ('ref', 'rcnew'):
            return True
        return v.ty is not None and self.F.kind(v.ty) == 'ptr' and v.op not in ('agg', 'poly', 'cat')

    # ------------------------------------------------------------------ sets
    def reb_set(self, t, lam, bound):
        r = mk('set', lam, bound)
        if r.ty is None:
            r.ty = t.ty
        return r

    # ------------------------------------------------------------------ events
    def event(self, kind, pc, fr, line, data):
        if pc is FALSE:
            return
        self.events.append({'kind': kind, 'pc': pc, 'fn': fr.fn['name'] if fr is not None else '', 'file': fr.fn['file'] if fr is not None else '',
                            'line': line, 'loops': tuple(self.loops), 'data': data, 'stack': tuple(f.fn['name'] for f in self.stack)})

    def unk(self, what):
        self.unknown[what] = self.unknown.get(what, 0) + 1

    # ------------------------------------------------------------------ control flow graphs
    def cfg(self, fid):
        c = self.cfgs.get(fid)
        if c is None:
            c = CFG(self.F.fns[fid])
            self.cfgs[fid] = c
        return c

    # ------------------------------------------------------------------ calls
    def call_fn(self, st, fid, args, site):
        fn = self.F.fns[fid]
        if len(self.stack) > 60:
            raise Undecided('call depth')
        parent = self.stack[-1].key if self.stack else mk('frame0')
        fr = Frame(fn, mk('frame', parent, str(site), fid))
        st = st.copy()
        for r in [r for r in st.mem if r.op == 'loc' and r.a[0] is fr.key]:
            del st.mem[r]
        args = list(args)
        if len(args) != fn['argc']:
            raise Undecided('arguments of ' + fn['name'])
        for i, v in enumerate(args):
            st.mem[self.local(fr, i + 1)] = v
        self.stack.append(fr)
        try:
            cfg = self.cfg(fid)
            backs, exits = self.region(fr, cfg, None, cfg.order, 0, st)
        except Undecided as e:
            if e.where is None:
                e.where = ' < '.join('%s:%s' % (f.fn['name'].split('::')[-1], f.line) for f in reversed(self.stack))
            raise
        finally:
            self.stack.pop()
        rets = [s for tag, s in exits if tag == 'ret']
        if not rets:
            return State({}, FALSE), UNDEF
        s = self.merge(rets)
        v = s.mem.get(self.local(fr, 0), UNIT if self.F.types[fn['locals'][0]]['k'] == 'tuple' else UNDEF)
        for r in [r for r in s.mem if r.op == 'loc' and r.a[0] is fr.key]:
            # promoted constants keep their locals through the returned value
            if site and site[0] == 'promoted':
                continue
            del s.mem[r]
        return s, v

    def merge(self, states):
        states = [s for s in states if s.pc is not FALSE]
        if not states:
            return State({}, FALSE)
        r = states[0]
        for s in states[1:]:
            r = self.merge2(r, s)
        return r

    def merge2(self, a, b):
        pcj = bor(a.pc, b.pc)
        c = restrict(a.pc, pcj)
        mem = {}
        for r, v in a.mem.items():
            w = b.mem.get(r)
            if w is None:
                if r.op == 'heap':
                    w = self.root_val(b, r)
                else:
                    w = UNDEF
            if v is w:
                mem[r] = v
            else:
                mem[r] = ite(c, v, w)
        for r, w in b.mem.items():
            if r not in a.mem:
                if r.op == 'heap':
                    v = self.root_val(a, r)
                    mem[r] = w if v is w else ite(c, v, w)
                else:
                    mem[r] = w
        return State(mem, pcj)

    def region(self, fr, cfg, loop, blocks, entry, st):
        """dataflow over the blocks of a region (the function or a loop body)
        -> (states of the back edges, [(exit tag, state)])"""
        pending = {entry: [st]}
        backs, exits = [], []
        bset = loop.blocks if loop is not None else None
        for b in blocks:
            if b not in pending:
                continue
            sts = pending.pop(b)
            inner = cfg.loops.get(b)
            if inner is not None and inner is not loop:
                if inner.parent is not loop:
                    raise Undecided('loop structure')
                s = self.merge(sts)
                if s.pc is FALSE:
                    continue
                outs = self.solve(s, lambda x, inner=inner: self.region(fr, cfg, inner, inner.order, inner.header, x))
            else:
                s = self.merge(sts)
                if s.pc is FALSE:
                    continue
                outs = self.block(fr, b, s)
            for tag, s2 in outs:
                if s2.pc is FALSE:
                    continue
                if isinstance(tag, tuple):     # exit of an inner loop: (source, target)
                    tgt = tag[1]
                else:
                    tgt = tag
                if tgt == 'ret':
                    exits.append(('ret', s2))
                elif tgt == 'skip':
                    if loop is None:
                        raise Undecided('skip outside of a loop')
                    backs.append(s2)
                elif loop is not None and tgt == loop.header:
                    backs.append(s2)
                elif bset is not None and tgt not in bset:
                    exits.append(((b, tgt), s2))
                else:
                    pending.setdefault(tgt, []).append(s2)
        if pending:
            raise Undecided('irreducible flow')
        return backs, exits

    def block(self, fr, b, st):
        blk = fr.fn['blocks'][b]
        st = st.copy()
        line = fr.line = blk['l']
        for s in blk['s']:
            k = s[0]
            if k == '=':
                line = s[3]
                v = self.rvalue(st, fr, s[2], s[1][2], line)
                self.write_place(st, fr, s[1], v)
            elif k == 'dead' or k == 'live':
                st.mem.pop(self.local(fr, s[1]), None)
            elif k == 'setd':
                raise Undecided('set discriminant')
        t = blk['t']
        k = t[0]
        line = blk['l']
        if k == 'goto':
            return [(t[1], st)]
        if k == 'drop':
            return [(t[2], st)]
        if k == 'ret':
            return [('ret', st)]
        if k in ('unreachable', 'dead'):
            return []
        if k == 'switch':
            v = self.operand(st, fr, t[1])
            outs = []
            rest = TRUE
            for val, tgt in t[2]:
                c = self.switch_cond(v, val)
                outs.append((tgt, st.on(band(rest, c))))
                rest = band(rest, bnot(c))
            if t[3] is not None and t[3] >= 0:
                outs.append((t[3], st.on(rest)))
            return outs
        if k == 'assert':
            v = self.operand(st, fr, t[1])
            bad = bnot(v) if t[2] else v
            c = band(st.pc, bad)
            if c is not FALSE:
                self.event('panic', c, fr, line, (t[3], tuple(self.operand(st, fr, o) for o in t[4])))
            return [(t[5], st)]
        if k == 'call':
            return self.call(fr, b, st, t, line)
        raise Undecided('terminator ' + k)

    def switch_cond(self, v, val):
        if v.op == 'dv':
            return self.dv_is(v, int(val))
        if is_bool(v):
            return v if int(val) else bnot(v)
        return eqi(self.as_int(v), num(int(val)))

    def call(self, fr, b, st, t, line):
        args = [self.operand(st, fr, o) for o in t[2]]
        aty = [self.op_ty(fr, o) for o in t[2]]
        o = t[1]
        if o[0] == 'const' and 'callee' in o[1]:
            callee = o[1]['callee']
        else:
            f = self.operand(st, fr, o)
            if f.op == 'fnitem':
                callee = json.loads(f.a[0])
            else:
                raise Undecided('indirect call')
        dty = t[3][2]
        ctx = Ctx(self, fr, (b,), line, dty, aty, callee)
        if t[4] is None or t[4] < 0:
            self.event('panic', st.pc, fr, line, ('call', callee.get('decl')))
            return []
        outs = self.invoke(ctx, st, callee, args)
        res = []
        for kind, s, v in outs:
            if s.pc is FALSE:
                continue
            if kind == 'skip':
                res.append(('skip', s))
                continue
            if v is not UNDEF or True:
                self.write_place(s, fr, t[3], v)
            res.append((t[4], s))
        return res

    def invoke(self, ctx, st, callee, args):
        """-> [('ok'|'skip', state, value)]"""
        if 'ctor' in callee:
            path, variant, ty = callee['ctor']
            return [('ok', st, self.mk_adt(path, variant, ty, args))]
        decl = callee.get('decl')
        h = self.hooks.get(decl)
        if h is not None:
            r = h(ctx, st, args)
            if r is not None:
                return r
        if callee.get('fn') is not None:
            fid = callee['fn']
            pr = self.P.local_override(self.F.fns[fid], callee)
            if pr is None:
                r = self.opaque_call(st, fid, args)
                if r is not None:
                    return [('ok', r[0], r[1])]
                self.hooks_enter(ctx, st, fid, args)
                s, v = self.call_fn(st, fid, args, ctx.site)
                return [('ok', s, v)]
            return pr(ctx, st, args)
        return self.P.call(ctx, st, callee, args)

    def opaque_call(self, st, fid, args):
        """a local function kept as a function symbol of the value numbering; its own definition
        is analysed as a root.  Only when all it reads is unchanged since the entry.
        -> (state, value)"""
        name = self.opaque.get(fid)
        if name is None or fid == self.root_fid or any(f.fn['id'] == fid for f in self.stack):
            return None
        vals = []
        muts = []
        fn = self.F.fns[fid]
        for i, a in enumerate(args):
            v = self.P.deep(st, a)
            vals.append(v)
            t = self.F.types[fn['locals'][i + 1]]
            if t['k'] == 'ref' and t['m']:
                muts.append((i, a, t['t']))
        for r, x in st.mem.items():
            if r.op == 'heap' and r.a[0].op != 'fh' and x is not self.init(r):
                ty = self.root_ty(r)
                if ty is None or self.F.data_ty(ty):
                    return None
        for v in vals:
            for t in subterms(v):
                if t.op == 'ref' and t.a[0].op not in ('heap', 'cst'):
                    return None
        st = st.copy()
        self.events.append({'kind': 'call', 'pc': st.pc, 'fn': self.stack[-1].fn['name'] if self.stack else '', 'file': '', 'line': 0, 'loops': tuple(self.loops), 'data': (name, tuple(vals)), 'stack': ()})
        for i, a, ty in muts:
            self.store(st, a, (), self.app(name + '!%d' % i, vals, ty))
        return st, self.app(name, vals, fn['locals'][0])

    def app(self, name, vals, ty):
        for i, v in enumerate(vals):
            if v.op == 'ite':
                h, l = list(vals), list(vals)
                h[i], l[i] = v.a[1], v.a[2]
                return ite(lit(v.a[0]), self.app(name, h, ty), self.app(name, l, ty))
        return self.wrap(mk('app', name, *vals), ty)

    def hooks_enter(self, ctx, st, fid, args):
        pass

    def call_value(self, ctx, st, f, args, sub=''):
        """call of a function value (closure, function item, parser) -> (state, value)"""
        if f.op == 'agg' and f.a[0][0] == 'closure':
            fid = f.a[0][1]
            fn = self.F.fns[fid]
            ck = fn.get('ck')
            env = f
            cell = None
            st = st.copy()
            t0 = self.F.types[fn['locals'][1]]
            if t0['k'] == 'ref':
                cell = mk('clo', ctx.frame_key(), sub, fid)
                st.mem[cell] = f
                env = self.mkref(cell, ())
            s, v = self.call_fn(st, fid, [env] + list(args), ctx.site + (sub,))
            if cell is not None:
                s.mem.pop(cell, None)
            return s, v
        if f.op == 'fnitem':
            callee = json.loads(f.a[0])
            outs = self.invoke(ctx.with_callee(callee), st, callee, list(args))
            outs = [(s, v) for k, s, v in outs if s.pc is not FALSE]
            return self.merge_vals(outs)
        if self.is_ptr(f):
            return self.call_value(ctx, st, self.load(st, f), args, sub)
        if f.op == 'ite':
            outs = []
            for c, x in leaves(f):
                outs.append(self.call_value(ctx, st.on(c), x, args, sub))
            return self.merge_vals(outs)
        r = self.P.call_opaque(ctx, st, f, args)
        if r is not None:
            return r
        raise Undecided('call of %s' % show(f)[:60])

    def merge_vals(self, outs):
        """[(state, value)] -> (state, value)"""
        outs = [(s, v) for s, v in outs if s.pc is not FALSE]
        if not outs:
            return State({}, FALSE), UNDEF
        if len(outs) == 1:
            return outs[0]
        tmp = mk('tmpval')
        for s, v in outs:
            s.mem[tmp] = v
        s = self.merge([s for s, v in outs])
        v = s.mem.pop(tmp)
        return s, v

    # ------------------------------------------------------------------ loops
    def solve(self, st0, run, depth=0):
        """summary of a loop: run(state at the header) -> (back states, [(tag, exit state)])
        -> [(tag, state)]"""
        try:
            outs, _ = self.solve1(st0, run)
            return outs
        except NeedSplit as e:
            root, projs = e.loc
            if root not in st0.mem and root.op != 'heap':
                raise
            it = self.project(self.root_val(st0, root), projs)
            pieces = self.P.split_iter(it)
            if pieces is None:
                raise
            res = []
            st = st0
            for i, (pc_it, unrolled) in enumerate(pieces):
                st = st.copy()
                self.store_loc(st, root, projs, pc_it)
                last = i == len(pieces) - 1
                if unrolled:
                    backs, exits = run(st)
                    res.extend(exits)
                    st = self.merge(backs)
                    if st.pc is FALSE:
                        return res
                    if last:
                        self.store_loc(st, root, projs, self.P.empty_iter())
                        backs, exits = run(st)
                        res.extend(exits)
                        if any(s.pc is not FALSE for s in backs):
                            raise Undecided('exhausted iterator')
                else:
                    outs, hend = self.solve1(st, run)
                    if last:
                        res.extend(outs)
                    else:
                        if hend is None:
                            raise Undecided('no exhaustion')
                        extag, hst = hend
                        res.extend([(t, s) for t, s in outs if t != extag])
                        st = hst
                        if st.pc is FALSE:
                            return res
            if not pieces:
                st = st.copy()
                self.store_loc(st, root, projs, self.P.empty_iter())
                backs, exits = run(st)
                res.extend(exits)
            return res

    def solve1(self, st0, run):
        if st0.pc is FALSE:
            return [], None
        ev0 = len(self.events)
        k = fresh_k()
        rec = Loop(k)
        rec.pc = st0.pc
        self.loops.append(rec)
        try:
            return self._solve1(st0, run, ev0, k, rec)
        finally:
            self.loops.pop()

    def _solve1(self, st0, run, ev0, k, rec):
        M = {}       # (root, path) -> symbol
        order = []
        for it in range(12):
            hdr = self.header_state(st0, M)
            del self.events[ev0:]
            backs, exits = run(hdr)
            B = self.merge(backs)
            if B.pc is FALSE:
                # the body never comes back
                return exits, None
            changed = []
            roots = set(hdr.mem) | set(r for r in B.mem if r.op == 'heap')
            for r in sorted(roots, key=lambda x: x.id):
                hv = hdr.mem.get(r)
                if hv is None:
                    hv = self.init(r)
                bv = B.mem.get(r)
                if bv is None:
                    if r.op == 'heap':
                        bv = self.init(r)
                    else:
                        continue
                if hv is bv:
                    continue
                self.diff(hv, bv, r, (), M, changed)
            if not changed:
                break
            new = False
            for key in changed:
                if self.add_mu(M, order, key, st0, k, rec):
                    new = True
            if not new:
                break
        else:
            raise Undecided('loop: no stable shape')
        # recurrences
        closed = {}
        nexts = {}
        inits = {}
        for key in order:
            if key not in M:
                continue
            root, path = key
            v = self.path_get(B.mem.get(root) if root in B.mem else self.init(root), path)
            nexts[M[key]] = simp(v, B.pc) if v is not None else None
            inits[M[key]] = self.path_get(self.root_val(st0, root), path)
        pc_rel = restrict(B.pc, st0.pc)
        cl = self.recurrences(k, nexts, inits)
        # final pass
        hdr = self.header_state(st0, M, cl)
        del self.events[ev0:]
        backs, exits = run(hdr)
        # trip count
        pcs = [(tag, s, restrict(s.pc, st0.pc)) for tag, s in exits if s.pc is not FALSE]
        n, ex = self.trip_count(k, pcs)
        rec.n = n
        outs = []
        hend = None
        if ex is None:
            # no counter: iterations until the first exit
            E = FALSE
            for tag, s, c in pcs:
                E = bor(E, c)
            if E is FALSE:
                return [], None
            inf = P(mk('sym', 'inf'))
            kx = first(inf, k, E)
            rec.n = add(kx, ONE)
            for tag, s, c in pcs:
                gate = subst(c, {k: kx}) if len(pcs) > 1 else TRUE
                outs.append((tag, self.subst_state(s, k, kx, band(st0.pc, gate), st0)))
            return outs, None
        early = FALSE
        for i, (tag, s, c) in enumerate(pcs):
            if i == ex:
                continue
            # the condition of an early exit, within the iterations
            early = bor(early, self.within(c, k, n))
        rec.early = early
        some = exists(n, k, early)
        n0 = imax(n, ZERO)
        for i, (tag, s, c) in enumerate(pcs):
            if i == ex:
                pcx = band(st0.pc, bnot(some))
                outs.append((tag, self.subst_state(s, k, n0, pcx, st0)))
                h2 = self.subst_state(hdr, k, n0, pcx, st0)
                hend = (tag, h2)
            else:
                c2 = self.within(c, k, n)
                if c2 is FALSE:
                    continue
                kx = first(n, k, early)
                gate = some
                if implies(early, c2) is False:
                    gate = band(some, subst(c2, {k: kx}))
                outs.append((tag, self.subst_state(s, k, kx, band(st0.pc, gate), st0, early)))
        return outs, hend

    def within(self, c, k, n):
        """c knowing k < n"""
        lim = lt(P(k), n)
        r = restrict(c, lim)
        return r

    def subst_state(self, s, k, v, pc, st0, cond=None):
        mem = {}
        m = {k: v}
        for r, x in s.mem.items():
            r2 = subst(r, m) if r.op == 'heap' else r
            y = subst(x, m)
            mem[r2] = y
        return State(mem, pc)

    def header_state(self, st0, M, vals=None):
        st = st0.copy()
        byroot = {}
        for (root, path), sy in M.items():
            byroot.setdefault(root, []).append((path, sy))
        for root, l in byroot.items():
            v = self.root_val(st0, root)
            for path, sy in l:
                old = self.path_get(v, path)
                new = vals[sy] if vals is not None else self.wrap_sym(sy, old)
                v = self.path_set(v, path, new)
            st.mem[root] = v
        return st

    def wrap_sym(self, sy, old):
        if sy.ty is not None:
            k = self.F.kind(sy.ty)
            if k != 'file':
                return self.wrap(sy, sy.ty)
        return wrap_like(sy, old)

    def diff(self, hv, bv, root, path, M, out):
        if hv is bv:
            return
        if (root, path) in M:
            return
        if hv.op == 'agg' or bv.op == 'agg':
            x, y = hv, bv
            if x.op == 'agg' and struct_kind(x.a[0]) and y.op != 'agg':
                y = expand_like(y, x)
            elif y.op == 'agg' and struct_kind(y.a[0]) and x.op != 'agg':
                x = expand_like(x, y)
            if x.op == 'agg' and y.op == 'agg' and x.a[0] == y.a[0] and struct_kind(x.a[0]) and len(x.a) == len(y.a):
                for i in range(1, len(x.a)):
                    self.diff(x.a[i], y.a[i], root, path + (('a', i),), M, out)
                return
        if hv.op == 'ref' and bv.op == 'ref' and hv.a[0] is bv.a[0] and len(hv.a[1]) == len(bv.a[1]):
            ok = all(p[0] == q[0] and (p[0] != 'f' or p == q) and (p[0] != 'sl' or (p[2] is None) == (q[2] is None)) for p, q in zip(hv.a[1], bv.a[1]))
            if ok:
                for j, (p, q) in enumerate(zip(hv.a[1], bv.a[1])):
                    for i in range(1, len(p)):
                        if isinstance(p[i], T) and p[i] is not q[i]:
                            key = path + (('r', j, i),)
                            if (root, key) not in M:
                                out.append((root, key))
                return
        # slices of the same object: the prefix may be the whole object
        if self.is_ptr(hv) and self.is_ptr(bv):
            hr, br = self.as_slice(hv), self.as_slice(bv)
            if hr is not None and br is not None and hr[0] is br[0] and hr[1] == br[1]:
                key = path + (('s', 1),)
                if hr[2] is not br[2] and (root, key) not in M:
                    out.append((root, key))
                key = path + (('s', 2),)
                if hr[3] is not br[3]:
                    if hr[3] is None or br[3] is None:
                        out.append((root, path))
                        return
                    if (root, key) not in M:
                        out.append((root, key))
                return
        out.append((root, path))

    def as_slice(self, p):
        """(root, projections, start, end) of a slice reference"""
        if p.op == 'ref':
            pr = tuple(p.a[1])
            if pr and pr[-1][0] == 'sl':
                return (p.a[0], pr[:-1], pr[-1][1], pr[-1][2])
            return (p.a[0], pr, ZERO, None)
        if p.op in ('ite',):
            return None
        return (mk('heap', p), (), ZERO, None)

    def path_get(self, v, path):
        for p in path:
            if p[0] == 'a':
                if v.op == 'ite':
                    v = map_leaves(v, lambda x: self.expand_struct(x) or x)
                if v.op != 'agg':
                    e = self.expand_struct(v)
                    if e is None:
                        return None
                    v = e
                v = v.a[p[1]]
            elif p[0] == 'r':
                v = v.a[1][p[1]][p[2]]
            elif p[0] == 's':
                s = self.as_slice(v)
                if s is None:
                    return None
                v = s[1 + p[1]]
        return v

    def path_set(self, v, path, new):
        if not path:
            return new
        p = path[0]
        if p[0] == 'a':
            if v.op != 'agg':
                v = self.expand_struct(v)
            fs = list(v.a[1:])
            fs[p[1] - 1] = self.path_set(fs[p[1] - 1], path[1:], new)
            return mk_agg(v.a[0], *fs)
        if p[0] == 'r':
            pr = [list(x) for x in v.a[1]]
            pr[p[1]][p[2]] = new
            return self.mkref(v.a[0], tuple(tuple(x) for x in pr))
        s = list(self.as_slice(v))
        s[1 + p[1]] = new
        r = mk('ref', s[0], s[1] + (('sl', s[2], s[3]),))
        return r

    def add_mu(self, M, order, key, st0, k, rec):
        root, path = key
        if key in M:
            return False
        # coarser keys replace finer ones
        for (r2, p2) in list(M):
            if r2 is root and p2[:len(path)] == path:
                del M[(r2, p2)]
            elif r2 is root and path[:len(p2)] == p2:
                return False
        v0 = self.path_get(self.root_val(st0, root), path)
        sy = mk('sym', 'mu', k, root, str(path))
        ty = self.path_ty(root, path)
        if ty is None and v0 is not None and v0.ty is not None:
            ty = v0.ty
        if sy.ty is None and ty is not None:
            sy.ty = ty
            n = self.int_name(ty)
            if n and sy not in INTTY:
                INTTY[sy] = n
        if v0 is not None and v0.op == 'poly' and sy not in INTTY:
            INTTY[sy] = 'usize'
        M[key] = sy
        order.append(key)
        return True

    def path_ty(self, root, path):
        ty = self.root_ty(root)
        for p in path:
            if ty is None:
                return None
            if p[0] == 'a':
                k = self.F.kind(ty)
                if k in ('tuple', 'struct'):
                    ty = self.F.field_ty(ty, 0, p[1] - 1)
                else:
                    return None
            else:
                return None
        return ty

    def trip_count(self, k, pcs):
        """(number of iterations, index of the exit by exhaustion)"""
        for i, (tag, s, c) in enumerate(pcs):
            for x in support(c):
                if k not in syms(x) or x.op not in ('le0', 'eq0'):
                    continue
                p = x.a[0]
                co = None
                rest = {}
                ok = True
                for m, v in p.a[0]:
                    if m == (k,):
                        co = v
                    elif any(k in syms(y) for y in m):
                        ok = False
                        break
                    else:
                        rest[m] = v
                if not ok or co not in (1, -1):
                    continue
                r = terms._norm_poly(rest)
                l = lit(x)
                if x.op == 'le0' and co == 1:
                    # k <= -r : continue
                    n, stop = sub(ONE, r), bnot(l)
                elif x.op == 'le0':
                    n, stop = r, l
                else:
                    n, stop = (neg(r) if co == 1 else r), l
                if implies(stop, c) and implies(c, stop):
                    return n, i
        return None, None

    # ------------------------------------------------------------------ recurrences
    def recurrences(self, k, nexts, inits):
        """closed forms (at iteration k) of the symbols"""
        todo = [s for s in nexts]
        res = {}
        nx = dict(nexts)
        kp = P(k)
        # lengths that do not change
        lens = {}
        for s in todo:
            v = nx[s]
            if v is not None and v.op == 'cat' and inits[s] is not None and inits[s].op == 'cat':
                ls = mk('len', s)
                l0 = length(inits[s])
                if subst(length(v), {ls: l0}) is l0 or length(v) is P(ls):
                    lens[ls] = l0
        if lens:
            for s in todo:
                if nx[s] is not None:
                    nx[s] = subst(nx[s], lens)
        progress = True
        while todo and progress:
            progress = False
            for s in list(todo):
                v = nx[s]
                if v is None:
                    continue
                r = self.closed_form(k, s, v, inits[s], todo)
                if r is not None:
                    res[s] = r
                    todo.remove(s)
                    m = {s: r}
                    for s2 in todo:
                        if nx[s2] is not None:
                            nx[s2] = self.subst_sym(nx[s2], s, r)
                    progress = True
        if todo:
            self.fold_group(k, todo, nx, inits, res)
        return res

    def subst_sym(self, v, s, r):
        return subst(v, {s: self.raw_for(s, r)})

    def raw_for(self, s, r):
        return r

    def closed_form(self, k, s, v, v0, todo):
        fs = syms(v)
        others = [x for x in todo if x is not s]
        if any(x in fs for x in others):
            return None
        kp = P(k)
        j = fresh_k()
        if s not in fs:
            # last value
            if k not in fs:
                w = v
                return ite(le0(kp), v0, w)
            return ite(le0(kp), v0, subst(v, {k: sub(kp, ONE)}))
        if v.op == 'poly':
            d = sub(v, P(s))
            if s not in syms(d):
                return add(v0, isum(kp, j, subst(d, {k: P(j)})))
            r = self.saturated(k, s, v, v0)
            if r is not None:
                return r
            # multiplication
            q = {}
            for m, c in v.a[0]:
                if m.count(s) != 1:
                    return None
                mm = tuple(x for x in m if x is not s)
                if any(s in syms(x) for x in mm):
                    return None
                q[mm] = q.get(mm, 0) + c
            f = terms._norm_poly(q)
            return mul(v0, iprod(kp, j, subst(f, {k: P(j)})))
        if v.op == 'cat':
            ps = v.a
            me = ('seq', s)
            if ps and ps[0] == me:
                rest = mk('cat', *ps[1:])
                if s not in syms(rest):
                    return concat(v0, mapseq(kp, j, subst(rest, {k: P(j)})))
            if ps and ps[-1] == me:
                rest = mk('cat', *ps[:-1])
                if s not in syms(rest):
                    return concat(mapseq(kp, j, subst(rest, {k: sub(sub(kp, ONE), P(j))})), v0)
            # writes at increasing positions
            L = length(v0)
            r = self.pointwise(k, s, v, v0, L)
            if r is not None:
                return r
            return None
        if is_bool(v):
            hi, lo = assume(v, s, True), assume(v, s, False)
            if s in syms(hi) or s in syms(lo):
                return None
            if hi is TRUE:
                return bor(v0, exists(kp, j, subst(lo, {k: P(j)})))
            if lo is FALSE:
                return band(v0, bnot(exists(kp, j, subst(bnot(hi), {k: P(j)}))))
            return None
        if v.op == 'set':
            return self.P.set_closed(k, s, v, v0)
        return None

    def saturated(self, k, s, v, v0):
        """s' = min(s + a, M) or s' = min(s * f, M), a and f non negative"""
        kp = P(k)
        for m, c in v.a[0]:
            if len(m) != 1 or m[0].op != 'min0' or abs(c) != 1 or s not in syms(m[0]):
                continue
            p = m[0].a[0]
            w = sub(v, scale(P(m[0]), c))
            if c == 1 and const_of(w) is not None:
                M = w
                t = add(p, M)
            elif c == 1:
                t = w
                M = add(p, t)
            else:
                continue
            if const_of(M) is None or imin(t, M) is not v or prange(v0)[1] > const_of(M):
                continue
            d = sub(t, P(s))
            j = fresh_k()
            if s not in syms(d):
                if prange(d)[0] >= 0:
                    return imin(add(v0, isum(kp, j, subst(d, {k: P(j)}))), M)
                continue
            q = {}
            for m2, c2 in t.a[0]:
                if m2.count(s) != 1 or any(s in syms(x) for x in m2 if x is not s):
                    q = None
                    break
                mm = tuple(x for x in m2 if x is not s)
                q[mm] = q.get(mm, 0) + c2
            if q is None:
                continue
            f = terms._norm_poly(q)
            if prange(f)[0] >= 0:
                return imin(mul(v0, iprod(kp, j, subst(f, {k: P(j)}))), M)
        return None

    def pointwise(self, k, s, v, v0, L):
        """ν = s[0..a(k)] ++ X(k) ++ s[b(k)..L] with a(k+1) = b(k)"""
        ps = list(v.a)
        kp = P(k)
        if ps and ps[0][0] == 'sub' and ps[0][1] is s and ps[0][2] is ZERO:
            a = ps[0][3]
            ps = ps[1:]
        else:
            a = ZERO
        if ps and ps[-1][0] == 'sub' and ps[-1][1] is s and ps[-1][3] is L:
            b = ps[-1][2]
            ps = ps[:-1]
        else:
            b = L
        X = mk('cat', *ps)
        if s in syms(X):
            return None
        a0 = subst(a, {k: ZERO})
        if subst(a, {k: add(kp, ONE)}) is not b:
            return None
        j = fresh_k()
        return concat(subseq(v0, ZERO, a0), mapseq(kp, j, subst(X, {k: P(j)})), subseq(v0, a, L))

    def fold_group(self, k, todo, nx, inits, res):
        """the remaining symbols are the state of a fold"""
        if any(nx[s] is None or inits[s] is None for s in todo):
            raise Undecided('loop: value without shape')
        group = sorted(todo, key=lambda s: s.id)
        # canonical order: by initial value then next value
        body = mk('agg', TUPLE, *[nx[s] for s in group])
        v0 = mk('agg', TUPLE, *[inits[s] for s in group])
        lam = close2(body, k, group)
        F = fold(P(k), lam, v0)
        for i, s in enumerate(group):
            t = mk('fldx', F, i)
            if s.ty is not None and self.F.kind(s.ty) != 'file':
                res[s] = self.wrap(t, s.ty)
            else:
                if t.ty is None:
                    t.ty = s.ty
                if s in INTTY and t not in INTTY:
                    INTTY[t] = INTTY[s]
                res[s] = wrap_like(t, inits[s])
            # at the first iteration the initial value
        return res

class Loop:
    __slots__ = ('k', 'n', 'early', 'pc')
    def __init__(self, k):
        self.k = k
        self.n = None
        self.early = FALSE
        self.pc = TRUE

class Frame:
    __slots__ = ('fn', 'key', 'line')
    def __init__(self, fn, key):
        self.fn = fn
        self.line = 0
        self.key = key

class Ctx:
    """call site"""
    __slots__ = ('I', 'fr', 'site', 'line', 'dty', 'aty', 'callee')
    def __init__(self, I, fr, site, line, dty, aty, callee):
        self.I, self.fr, self.site, self.line, self.dty, self.aty, self.callee = I, fr, site, line, dty, aty, callee
    def with_callee(self, c):
        return Ctx(self.I, self.fr, self.site, self.line, None, [], c)
    def frame_key(self):
        return mk('site', self.fr.key, str(self.site))

class CFGLoop:
    def __init__(self, header, blocks):
        self.header = header
        self.blocks = blocks
        self.parent = None
        self.order = None

class CFG:
    def __init__(self, fn):
        bl = fn['blocks']
        n = len(bl)
        succ = []
        for b in bl:
            t = b['t']
            k = t[0]
            if b['u']:
                succ.append([])
            elif k == 'goto':
                succ.append([t[1]])
            elif k == 'drop':
                succ.append([t[2]])
            elif k == 'switch':
                s = [x[1] for x in t[2]]
                if t[3] is not None and t[3] >= 0:
                    s.append(t[3])
                succ.append(s)
            elif k == 'assert':
                succ.append([t[5]])
            elif k == 'call':
                succ.append([t[4]] if t[4] is not None and t[4] >= 0 else [])
            else:
                succ.append([])
        # depth first order
        seen = [False] * n
        post = []
        st = [(0, iter(succ[0]))]
        seen[0] = True
        while st:
            b, it = st[-1]
            for s in it:
                if not seen[s]:
                    seen[s] = True
                    st.append((s, iter(succ[s])))
                    break
            else:
                post.append(b)
                st.pop()
        rpo = post[::-1]
        num_ = {b: i for i, b in enumerate(rpo)}
        pred = {b: [] for b in rpo}
        for b in rpo:
            for s in succ[b]:
                if s in pred:
                    pred[s].append(b)
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                d = None
                for p in pred[b]:
                    if p in idom:
                        if d is None:
                            d = p
                        else:
                            x, y = p, d
                            while x != y:
                                while num_[x] > num_[y]:
                                    x = idom[x]
                                while num_[y] > num_[x]:
                                    y = idom[y]
                            d = x
                if d is not None and idom.get(b) != d:
                    idom[b] = d
                    ch = True
        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for s in succ[b]:
                if s in num_ and dom(s, b):
                    l = loops.setdefault(s, CFGLoop(s, {s}))
                    work = [b]
                    while work:
                        x = work.pop()
                        if x not in l.blocks:
                            l.blocks.add(x)
                            work.extend(pred[x])
        # blocks that only lead back or out by unreachable stay where the natural loop puts them
        for h, l in loops.items():
            best = None
            for h2, l2 in loops.items():
                if h2 != h and h in l2.blocks and l.blocks <= l2.blocks:
                    if best is None or len(l2.blocks) < len(best.blocks):
                        best = l2
            l.parent = best
        self.loops = loops
        for h, l in loops.items():
            inner = set()
            for h2, l2 in loops.items():
                if l2.parent is l:
                    inner |= l2.blocks - {h2}
            l.order = [b for b in rpo if b in l.blocks and b not in inner]
        inner = set()
        for h2, l2 in loops.items():
            if l2.parent is None:
                inner |= l2.blocks - {h2}
        self.order = [b for b in rpo if b not in inner]
        self.succ = succ
        self.rpo = rpo
