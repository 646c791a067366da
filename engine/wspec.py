"""Specification of the writer: header grammar, layout, writes, filling, opening modes; sessions of calls on valuations."""
import random
from lib import *
import gen, par
from dsspec import where, show, arg, var
from qspec import clen, csize, nchunks, vlen, VER

FW = "io::file_writer::FileWriter::<'a>::"
WE = 'error::WriteError'
PATH = txt('/d/f.nc')
I32MAX = (1 << 31) - 1
I64MAX = (1 << 63) - 1
FILL = {'I8': -127, 'U8': 0, 'I16': -32767, 'I32': -2147483647, 'F32': Fl(4, 0x7cf00000), 'F64': Fl(8, 0x479e000000000000)}
TAGS = {'dim': 10, 'var': 11, 'att': 12}

# ---------------------------------------------------------------- grammar of the header
def u4(x):
    return (x & 0xffffffff).to_bytes(4, 'big')
def pad4(b):
    return b + b'\0' * (-len(b) % 4)

def g_name(n, what):
    return [('length of the name of ' + what, u4(len(n))), ('name of ' + what, bytes(n)), ('padding of the name of ' + what, b'\0' * (-len(n) % 4))]

def g_atts(l, of):
    if not l:
        return [('absent list of attributes of ' + of, bytes(8))]
    r = [('tag of the list of attributes of ' + of, u4(12)), ('number of attributes of ' + of, u4(len(l)))]
    for n, t, vs in l:
        w = 'attribute %s of %s' % (show(n), of)
        b = b''.join(gen.enc(v, t) for v in vs)
        r += g_name(n, w) + [('type of ' + w, u4(CODE[t])), ('number of values of ' + w, u4(len(vs))), ('values of ' + w, b), ('padding of the values of ' + w, b'\0' * (-len(b) % 4))]
    return r

def header(m, version, begins):
    """[(field, bytes)]"""
    r = [('magic word', b'CDF'), ('version number', bytes([1 if version == 'Classic' else 2])),
         ('number of records', u4(0xffffffff if m.nrec > I32MAX else m.nrec) if m.unl is not None else u4(0))]
    if not m.dims:
        r.append(('absent list of dimensions', bytes(8)))
    else:
        r += [('tag of the list of dimensions', u4(10)), ('number of dimensions', u4(len(m.dims)))]
        for n, s in m.dims:
            r += g_name(n, 'dimension ' + show(n)) + [('size of dimension ' + show(n), u4(0 if s is None else s))]
    r += g_atts(m.attrs, 'the data set')
    if not m.vars:
        r.append(('absent list of variables', bytes(8)))
    else:
        r += [('tag of the list of variables', u4(11)), ('number of variables', u4(len(m.vars)))]
        for v, b in zip(m.vars, begins):
            w = 'variable ' + show(v[0])
            r += g_name(v[0], w) + [('number of dimensions of ' + w, u4(len(v[2]))), ('dimensions of ' + w, b''.join(u4(i) for i in v[2]))] + g_atts(v[4], w)
            cs = csize(m, v)
            r += [('type of ' + w, u4(CODE[v[1]])), ('size of ' + w, u4(cs if cs <= I32MAX else 0xffffffff)), ('begin offset of ' + w, b.to_bytes(4 if version == 'Classic' else 8, 'big', signed=True))]
    return r

class Layout:
    def __init__(s, m, version, least):
        fields = header(m, version, [0] * len(m.vars))
        s.required = sum(len(b) for _, b in fields)
        s.size = max(s.required, least)
        s.size += -s.size % 4
        pos = s.size
        s.begins = [None] * len(m.vars)
        order = [i for i, v in enumerate(m.vars) if v[3] is None] + [i for i, v in enumerate(m.vars) if v[3] is not None]
        for i in order:
            s.begins[i] = pos
            pos += csize(m, m.vars[i])
        s.end = pos
        s.rsize = sum(csize(m, v) for v in m.vars if v[3] is not None)
        top = I32MAX if version == 'Classic' else I64MAX
        s.over = [i for i in range(len(m.vars)) if s.begins[i] > top]
        s.m = m
        s.version = version
    def fields(s):
        return header(s.m, s.version, s.begins)
    def place(s, i, r):
        return s.begins[i] + r * s.rsize

def fillbytes(m, v):
    """bytes of a filled record"""
    b = gen.enc(FILL[v[1]], v[1])
    return (b * (csize(m, v) // len(b) + 1))[:csize(m, v)]

# ---------------------------------------------------------------- sessions
def walk(v, f):
    y = f(v)
    if y is not None:
        return y
    if isinstance(v, A) and not isinstance(v, Junk):
        return A(v.path, v.v, [walk(x, f) for x in v.fs])
    if isinstance(v, tuple) and not (v and isinstance(v[0], int)):
        return tuple(walk(x, f) for x in v)
    return v

def file_of(v):
    found = []
    def f(x):
        if isinstance(x, FileObj):
            found.append(x)
        return None
    walk(v, f)
    if len(found) != 1:
        raise Missing('single file in the writer')
    return found[0]

class Step:
    pass

def executed(st):
    """keys of the operations whose effect is in the log of the call"""
    r = []
    for k, v in st.ops.items():
        if v or k[0] not in ('seek', 'write_all', 'write'):
            continue
        l, a = k[2], k[4]
        if k[0] == 'seek':
            if l < len(st.log) and st.log[l] == ('seek', a):
                r.append(k)
        elif isinstance(a, tuple) and a and l < len(st.log) and st.log[l] == a[0]:
            r.append(k)
    return r

def inject(s, name, args, rng, keep=True):
    """the call with the failure of one of the operations it executes: (operation, step) or None"""
    pr = s.call(name, args, keep=False)
    ks = executed(pr)
    if not ks:
        return None
    k = rng.choice(ks)
    st = s.call(name, args, fault=lambda kd, key, vs: key == k, keep=keep)
    if not st.failed:
        raise Abstain('fault not reached')
    if st.log[:len(pr.log)] == pr.log:
        raise Abstain('the operation is not executed')
    return k, st

class Session:
    """a writer and the calls made on it"""
    def __init__(self, L, junk=0, mode='open', files=None):
        self.L, self.junk = L, junk
        self.world = World(dict(files or {}))
        c = L.call(FW + mode, [PATH], self.world, junk)
        self.opened = c
        self.ops = c.world.ops
        self.w = None
        if isinstance(c.raw, A) and not isinstance(c.raw, Junk) and c.raw.v == 0:
            self.w = c.deep(c.raw.fs[0])
            self.f = file_of(self.w)
        self.dead = False

    def call(self, name, args, fault=None, short=None, keep=True, budget=6000000):
        """calls the method; the state advances when keep is set"""
        L = self.L
        S = L.summary(FW + name)
        if S is None:
            raise Abstain(L.fail[FW + name])
        w = World(self.world.files, fault)
        w.short = short
        byval = S.I.F.types[S.fn['locals'][1]]['k'] != 'ref'
        o = Obj(self.w, 'writer')
        first = self.w if byval else Ptr(o)
        vals = [first] + [x if isinstance(x, (Ptr, A)) else arg(L, S, j + 1, x) for j, x in enumerate(args)]
        c = Call(L, S, vals, w, self.junk, budget)
        r = Step()
        r.S, r.c, r.name = S, c, name
        raw = c.raw
        r.raw = raw
        r.ok = r.err = None
        if isinstance(raw, A) and not isinstance(raw, Junk) and raw.path == 'std::result::Result':
            r.ok = raw.v == 0
            if not r.ok:
                r.err = L.vname(WE, raw.fs[0])
        fv = c.now(self.f)
        if not isinstance(fv, FV):
            raise Abstain('state of the file')
        r.log = fv.log
        r.pos = fv.pos
        r.data, r.writes = apply_log(self.f, tuple(x for x in fv.log if not (isinstance(x, tuple) and x[0] == 'partial')), self.f.pos)
        r.partial = any(isinstance(x, tuple) and x[0] == 'partial' for x in fv.log)
        r.ops = w.ops
        r.before = self.w
        r.after = self.w if byval else c.now(o)
        r.failed = [k for k, v in w.ops.items() if v]
        if keep:
            nf = FileObj(r.data, fv.pos if isinstance(fv.pos, int) else 0, self.f.name)
            old = self.f
            self.w = walk(r.after, lambda x: nf if x is old else None)
            self.f = nf
        return r

def vals_of(s, kind):
    pass

def version(L, v):
    return L.variant(VER, v)

def diff_fields(fields, got):
    """[(field, expected, got)] of the fields which differ, by position"""
    pos = 0
    r = []
    for n, b in fields:
        g = bytes(got[pos:pos + len(b)])
        if g != b:
            r.append((n, b, g))
        pos += len(b)
    return r

def hexs(b):
    return bytes(b[:16]).hex(' ') + ('..' if len(b) > 16 else '')

def field_prop(name):
    if name.startswith('values of attribute'):
        return ['P08', 'P14']
    if name == 'number of records' or name.startswith('size of variable'):
        return ['P08', 'P16']
    return ['P08']

def header_check(m, lay, data):
    """[(property, text)]: what was written against the grammar and the layout"""
    r = []
    fields = lay.fields()
    req = lay.required
    data = bytes(data)
    d = diff_fields(fields, data)
    other = [x for x in d if not x[0].startswith('begin offset')]
    if other:
        n, e, g = other[0]
        for p in field_prop(n):
            r.append((p, 'the field "%s" of the header is written as [%s] instead of [%s]' % (n, hexs(g), hexs(e))))
    elif m.vars:
        pos = 0
        got = []
        for n, b in fields:
            if n.startswith('begin offset'):
                got.append(int.from_bytes(data[pos:pos + len(b)], 'big', signed=True))
            pos += len(b)
        order = sorted(range(len(m.vars)), key=lambda i: (m.vars[i][3] is not None, i))
        if got[order[0]] != len(data):
            r.append(('P09', 'the first variable begins at %d, the header has %d bytes' % (got[order[0]], len(data))))
        for i in order:
            if got[i] - got[order[0]] != lay.begins[i] - lay.size:
                r.append(('P11', 'the variable %s begins %d bytes after the first one instead of %d' % (show(m.vars[i][0]), got[i] - got[order[0]], lay.begins[i] - lay.size)))
                break
    if len(data) != lay.size:
        r.append(('P09', '%d bytes are written for a header of %d bytes to be extended to %d' % (len(data), req, lay.size)))
        if len(data) > lay.size and data[req:].strip(b'\0'):
            r.append(('P08', 'something else is written after the header: [%s]' % hexs(data[req:])))
    elif data[req:].strip(b'\0'):
        r.append(('P09', 'the bytes after the header are not zero: [%s]' % hexs(data[req:])))
    return r

# ---------------------------------------------------------------- definitions
def big_set(rng):
    """data set with large variables, without saturation"""
    while True:
        m = gen.data_set(rng, sizes=lambda r: r.choice([1, 3, 1000, 46341, 65536, 1 << 20, (1 << 28) - 1, 1 << 28, (1 << 29) - 1, (1 << 29), (1 << 30) - 1, gen.MAXDIM]), atts=1,
                         nrec=rng.choice([None, 0, 7, 1 << 31, I32MAX, I32MAX + 1, I32MAX - 1, 1 << 40]), p_unl=0.7)
        if all(csize(m, v) < 1 << 56 for v in m.vars):
            return m

def near_classic(rng):
    """data set whose offsets are near the limit of the classic version"""
    m = M([(txt('x'), rng.choice([1, 2, 5]))])
    t = rng.choice(DT)
    v0 = (txt('a'), t, [1], None, [])
    v1 = (txt('b'), rng.choice(DT), [0], None, [])
    v2 = (txt('c'), rng.choice(DT), [], None, [])
    m.vars = [v0, v1] + ([v2] if rng.random() < 0.5 else [])
    m.dims.append((txt('n'), 1))
    h = Layout(m, 'Classic', 0).size
    # the second variable begins at I32MAX + delta
    want = I32MAX + 1 + rng.choice([-8, -4, -4, 0, 0, 4, 8]) - h
    m.dims[1] = (txt('n'), max(1, want // SIZE[t] + rng.choice([0, 0, -1, 1])))
    if m.dims[1][1] > gen.MAXDIM:
        m.dims[1] = (txt('n'), gen.MAXDIM)
    if rng.random() < 0.3:
        m.vars.reverse()
    return m

def least_size(rng, m, ver):
    q = Layout(m, ver, 0).required
    return rng.choice([0, 0, 0, 1, q, q + 1, q + 2, q + 3, q + 4, q - 1, q + rng.randint(0, 64), rng.randint(0, 2 * q)])

def new_session(L, m, junk, mode='open', files=None):
    s = Session(L, junk, mode, files)
    if s.w is None:
        raise Abstain('no writer: %r' % (s.opened.raw,))
    v, objs = build(L, m)
    s.ds = ref(v, 'ds')
    return s

def one_def(L, seed, junk):
    """a definition on a fresh writer: ([(property, text)], description)"""
    rng = random.Random(seed)
    k = rng.random()
    m = near_classic(rng) if k < 0.1 else big_set(rng) if k < 0.25 else gen.data_set(rng)
    ver = rng.choice(['Classic', 'Offset64Bit'])
    least = least_size(rng, m, ver)
    if ver == 'Classic' and m.vars and rng.random() < 0.05:
        least = I32MAX + rng.choice([-2, -1, 0, 1, 2, 4, 1 << 33])     # refused: no zero is written
    lay = Layout(m, ver, least)
    s = new_session(L, m, junk)
    st = s.call('set_def', [s.ds, version(L, ver), least])
    desc = '%s with %s, minimum header size %d\n  data set: %r' % (where(st.S), ver, least, m)
    r = []
    if st.ok is None:
        raise Abstain('returned value')
    if lay.over:
        i = lay.over[0]
        if st.ok:
            r.append(('P16', 'the definition succeeds although the variable %s begins at %d, which does not fit the version' % (show(m.vars[i][0]), lay.begins[i])))
        elif ver == 'Classic' and st.err != 'ClassicVersionNotPossible':
            r.append(('P16', 'the definition fails with the error %s instead of ClassicVersionNotPossible' % st.err))
        return r, desc
    if not st.ok:
        r.append(('P16', 'the definition is refused (error %s) although every offset fits the version' % st.err))
        return r, desc
    if any(p < 0 for p, _ in st.writes if isinstance(p, int)):
        return r, desc
    r += header_check(m, lay, st.data)
    return r, desc

def one_redef(L, seed, junk):
    """single definition, refused and failed definitions"""
    rng = random.Random(seed)
    m = gen.data_set(rng, atts=1)
    ver = rng.choice(['Classic', 'Offset64Bit'])
    least = least_size(rng, m, ver)
    lay = Layout(m, ver, least)
    s = new_session(L, m, junk)
    r = []
    S = L.summary(FW + 'set_def')
    desc = '%s with %s, minimum header size %d\n  data set: %r' % (where(S), ver, least, m)
    def defined():
        return s.call('header_is_defined', [], keep=False).raw
    if defined() not in (False, 0):
        r.append(('P15', 'a writer just opened is already defined'))
    kind = rng.choice(['fault', 'twice', 'big'])
    if kind == 'fault':
        x = inject(s, 'set_def', [s.ds, version(L, ver), least], rng)
        if x is None:
            raise Abstain('no operation')
        k, st = x
        what = 'after the failure of its operation "%s"' % k[0]
        if st.ok:
            r.append(('P10', 'it succeeds although its operation "%s" on the file failed' % k[0]))
            return r, desc
    elif kind == 'big':
        mb = M([(txt('n'), gen.MAXDIM)], vars=[(txt('a'), 'F64', [0], None, []), (txt('b'), 'I8', [0], None, [])])
        vb, ob = build(L, mb)
        st = s.call('set_def', [ref(vb, 'ds2'), version(L, 'Classic'), 0])
        what = 'of a data set impossible in the classic version'
        if st.ok:
            return r, desc
        if st.writes:
            r.append(('P15', 'a refused definition writes in the file'))
    else:
        st = None
    if st is not None:
        if defined() not in (False, 0):
            r.append(('P15', 'the writer is defined after a definition which fails %s' % what))
            return r, desc
        u = s.call('data_set', [], keep=False).raw
        if isinstance(u, A) and u.path == 'std::option::Option' and u.v == 1:
            r.append(('P15', 'the writer has a data set after a definition which fails %s' % what))
    st = s.call('set_def', [s.ds, version(L, ver), least])
    if not st.ok:
        r.append(('P15', 'the definition is refused (%s) %s' % (st.err, 'on an undefined writer' if kind == 'twice' else 'after one which fails ' + what)))
        return r, desc
    if header_check(m, lay, st.data):
        return r, desc
    if defined() not in (True, 1):
        r.append(('P15', 'the writer is not defined after a successful definition'))
    for g, e in (('data_set', SOME(s.ds)), ('version', SOME(version(L, ver))), ('header_min_size', SOME(least))):
        x = s.call(g, [], keep=False)
        if x.raw != e and x.c.ret != e:
            r.append(('P15', 'after the definition, %s() is %r instead of %r' % (g, x.raw, e)))
    m2 = m if rng.random() < 0.5 else gen.data_set(rng, atts=1)
    v2, o2 = build(L, m2)
    again = s.call('set_def', [s.ds if m2 is m else ref(v2, 'ds2'), version(L, rng.choice(['Classic', 'Offset64Bit'])), rng.choice([0, least])])
    if again.ok:
        r.append(('P15', 'a second definition succeeds'))
    else:
        if again.err != 'HeaderAlreadyDefined':
            r.append(('P15', 'a second definition fails with the error %s' % again.err))
        if again.log:
            r.append(('P15', 'a refused second definition acts on the file'))
        if again.after != again.before:
            r.append(('P15', 'a refused second definition changes the writer'))
    return r, desc

def one_open(L, seed, junk):
    """opening modes of the writer"""
    rng = random.Random(seed)
    r = []
    old = tuple(rng.randrange(256) for _ in range(rng.randint(1, 9)))
    exists = rng.random() < 0.5
    mode = rng.choice(['open', 'create_new'])
    files = {bytes(PATH): FileObj(old, 0, 'old')} if exists else {}
    S = L.summary(FW + mode)
    if S is None:
        raise Abstain(L.fail[FW + mode])
    s = Session(L, junk, mode, files)
    desc = '%s on %s' % (where(S), 'an existing file' if exists else 'no file')
    opens = [k for k in s.ops if k[0] == 'open']
    ret = s.opened.raw
    if not isinstance(ret, A) or isinstance(ret, Junk):
        raise Abstain('returned value')
    for k in s.ops:
        if k[0] not in ('open', 'metadata', 'fsmetadata'):
            if mode == 'create_new' and exists:
                r.append(('P15', 'it acts on the existing file: %s' % k[0]))
    flags = [k[2] for k in opens]
    if mode == 'create_new':
        if exists:
            if ret.v == 0:
                r.append(('P15', 'it succeeds on an existing file'))
            for k in opens:
                if s.ops[k] is None:
                    r.append(('P15', 'it opens the existing file (flags read, write, append, truncate, create, create_new = %s)' % (k[2],)))
        elif ret.v != 0:
            r.append(('P15', 'it fails on a path where there is no file'))
        for fl in flags:
            if (fl[1] or fl[2]) and not fl[5]:
                r.append(('P15', 'it opens the file for writing without the exclusive mode: another file created meanwhile would be overwritten'))
    else:
        if ret.v != 0:
            r.append(('P15', 'it fails'))
        else:
            d = s.opened.now(s.f)
            n = len(apply_log(s.f, d.log, s.f.pos)[0])
            if n:
                r.append(('P15', 'the file still has %d bytes after the opening' % n))
            if s.f.name == 'old':
                pass
    if ret.v == 0 and not r:
        ok = [k for k in opens if s.ops[k] is None]
        if ok and not (ok[-1][2][1] or ok[-1][2][2]):
            r.append(('P15', 'the file is not opened for writing'))
        if ok and ok[-1][2][2]:
            r.append(('P15', 'the file is opened in append mode: positions would be ignored'))
    # failure of the opening is reported
    w = World(dict(files), lambda kd, key, vs: True)
    c = L.call(FW + mode, [PATH], w, junk)
    if isinstance(c.raw, A) and not isinstance(c.raw, Junk) and c.raw.v == 0:
        r.append(('P10', 'it succeeds although every operation on the file fails'))
    return r, desc

# ---------------------------------------------------------------- writes
def gen_write(rng, m, undefined=False):
    """(method, arguments, variable index or None, records or None, type, values, reasons of refusal)"""
    t = rng.choice(TY)
    whole = rng.random() < 0.5
    i = rng.randrange(len(m.vars)) if m.vars else None
    why = []
    if i is not None and rng.random() < 0.85:
        v = m.vars[i]
        n = v[0]
        if rng.random() < 0.88:
            t = TY[DT.index(v[1])]
    else:
        n = gen.other_name(rng, [x[0] for x in m.vars])
        i = var(m, n)
        v = m.vars[i] if i is not None else None
    T_ = DT[TY.index(t)]
    if i is None:
        why.append('the variable is not defined')
    elif v[1] != T_:
        why.append('the type of the variable is %s' % v[1])
    want = (vlen(m, v) if whole else clen(m, v)) if v is not None else rng.randint(0, 4)
    cnt = want
    if rng.random() < 0.15:
        cnt = max(0, rng.choice([want - 1, want + 1, 0, 2 * want, want + 4, clen(m, v) if v is not None else 1]))
    if v is not None and cnt != want:
        why.append('%d values are given instead of %d' % (cnt, want))
    vals = gen.values(T_, rng, cnt)
    if whole:
        recs = list(range(nchunks(m, v))) if v is not None else []
        return 'write_var_' + t, [n, list(vals)], i, recs, T_, vals, why
    nr = nchunks(m, v) if v is not None else 1
    k = rng.randrange(nr) if nr and rng.random() < 0.85 else rng.choice([nr, nr + 1, nr + 7, 1 << 32, (1 << 64) - 1])
    if v is not None and k >= nr:
        why.append('the record %d does not exist (%d records)' % (k, nr))
    return 'write_record_' + t, [n, k, list(vals)], i, [k], T_, vals, why

def expected_bytes(m, lay, i, recs, t, vals):
    """{position: byte or None for a padding}"""
    v = m.vars[i]
    n = clen(m, v)
    e = {}
    for j, k in enumerate(recs):
        p = lay.place(i, k)
        b = b''.join(gen.enc(x, t) for x in vals[j * n:(j + 1) * n])
        for q, x in enumerate(b):
            e[p + q] = x
        for q in range(len(b), csize(m, v)):
            e[p + q] = None
    return e

def write_check(e, writes):
    """[(property, text)] of the writes of a successful call"""
    got = {}
    for p, b in writes:
        if not isinstance(p, int):
            return [('P11', 'it does something else than writing: %s' % p)]
        got[p] = b
    r = []
    out = sorted(set(got) - set(e))
    mis = sorted(set(e) - set(got))
    if out or mis:
        r.append(('P11', 'it writes %d bytes from the position %s instead of %d bytes from the position %s%s' % (len(got), min(got) if got else None, len(e), min(e) if e else None,
                  (' (byte %d is outside)' % out[0]) if out else (' (byte %d is not written)' % mis[0]))))
    else:
        bad = sorted(p for p in e if e[p] is not None and e[p] != got[p])
        if bad:
            r.append(('P14', 'the byte %d of what it writes is %02x instead of %02x' % (bad[0] - min(e), got[bad[0]], e[bad[0]])))
    return r

def one_writes(L, seed, junk):
    """a session of writes and its closing"""
    rng = random.Random(seed)
    style = rng.random()
    m = gen.data_set(rng, vars=rng.choice([1, 2, 2, 3]), atts=0, sizes=lambda r: r.choice([1, 1, 2, 3, 4, 5]), p_unl=0.75)
    ver = rng.choice(['Classic', 'Offset64Bit'])
    lay = Layout(m, ver, 0)
    s = new_session(L, m, junk)
    hist = []
    r = []
    defined = False
    if style > 0.06:
        st = s.call('set_def', [s.ds, version(L, ver), 0])
        if not st.ok or header_check(m, lay, st.data):
            return [], ''
        defined = True
    done = [set() for _ in m.vars]
    steps = rng.choice([0, 1, 2, 2, 3, 4])
    def desc(S):
        return '%s, after %s\n  data set: %r' % (where(S), '; '.join(hist) or 'the definition', m)
    for _ in range(steps):
        name, args, i, recs, t, vals, why = gen_write(rng, m)
        if not defined:
            why = ['no definition has been set'] + why
        S = L.summary(FW + name)
        fault = None
        what = '%s(%s)' % (name, ', '.join(show(x) for x in args))
        if rng.random() < 0.2 and defined and not why:
            x = inject(s, name, args, rng)
            if x is not None:
                k, st = x
                hist.append(what + ' with a failure')
                if st.ok:
                    r.append(('P10', 'it succeeds although its operation "%s" on the file failed' % k[0]))
                    return r, desc(S)
                # every byte it may have written belongs to the records of the call
                e = expected_bytes(m, lay, i, recs, t, vals)
                if any(p not in e for p, _ in st.writes):
                    r.append(('P11', 'a failing call writes outside of the records given'))
                    return r, desc(S)
                s.damaged = getattr(s, 'damaged', set()) | {(i, k2) for k2 in recs}
                continue
        st = s.call(name, args)
        if st.ok is None:
            raise Abstain('returned value')
        d = desc(S)
        hist.append(what)
        if why:
            if st.ok:
                r.append(('P12', '%s succeeds although %s' % (what, why[0])))
                return r, d
            if st.log:
                r.append(('P12', '%s is refused (%s) after it acted on the file' % (what, st.err)))
            if st.after != st.before:
                r.append(('P12', '%s is refused (%s) and the state of the writer has changed' % (what, st.err)))
            if r:
                return r, d
            continue
        if not st.ok:
            r.append(('P12', '%s is refused (%s) although it is valid' % (what, st.err)))
            return r, d
        e = expected_bytes(m, lay, i, recs, t, vals)
        w = write_check(e, st.writes)
        if w:
            return [(p, '%s: %s' % (what, x)) for p, x in w], d
        done[i] |= set(recs)
        if hasattr(s, 'damaged'):
            s.damaged -= {(i, k) for k in recs}
    # closing
    S = L.summary(FW + 'close')
    damaged = getattr(s, 'damaged', set())
    if rng.random() < 0.15 and defined:
        x = inject(s, 'close', [], rng, keep=False)
        if x is not None:
            k, st = x
            if st.ok:
                r.append(('P10', 'it succeeds although its operation "%s" on the file failed' % k[0]))
                return r, desc(S)
    st = s.call('close', [], keep=False)
    d = desc(S)
    if st.ok is None:
        raise Abstain('returned value')
    if not defined:
        if st.log:
            r.append(('P13', 'closing without definition acts on the file'))
        if not st.ok:
            r.append(('P13', 'closing without definition fails'))
        return r, d
    if not st.ok:
        r.append(('P13', 'closing fails (%s)' % st.err))
        return r, d
    return close_check(m, lay, done, damaged, st.writes), d

def close_check(m, lay, done, damaged, writes):
    r = []
    e = {}
    own = {}
    for i, v in enumerate(m.vars):
        b = fillbytes(m, v)
        for k in range(nchunks(m, v)):
            p = lay.place(i, k)
            for q in range(csize(m, v)):
                own[p + q] = (i, k, q)
            if k not in done[i]:
                for q in range(csize(m, v)):
                    e[p + q] = b[q]
    got = {}
    for p, b in writes:
        if not isinstance(p, int):
            return [('P13', 'closing does something else than writing: %s' % p)]
        got[p] = b
    for p in sorted(set(got) - set(e)):
        if p in own:
            i, k, q = own[p]
            r.append(('P13', 'it overwrites the record %d of the variable %s, which has been written' % (k, show(m.vars[i][0]))))
        else:
            r.append(('P11', 'it writes at the position %d, outside of every record' % p))
            r.append(('P13', 'it writes at the position %d, outside of every record' % p))
        break
    for p in sorted(set(e) - set(got)):
        i, k, q = own[p]
        r.append(('P13', 'the byte %d of the record %d of the variable %s, never %swritten, is not filled' % (q, k, show(m.vars[i][0]), 'successfully ' if (i, k) in damaged else '')))
        break
    for p in sorted(set(e) & set(got)):
        if e[p] != got[p]:
            i, k, q = own[p]
            r.append(('P13', 'the byte %d of the record %d of the variable %s is filled with %02x instead of %02x' % (q, k, show(m.vars[i][0]), got[p], e[p])))
            if q < clen(m, m.vars[i]) * SIZE[m.vars[i][1]]:
                r.append(('P14', 'the byte %d of the record %d of the variable %s is filled with %02x instead of %02x' % (q, k, show(m.vars[i][0]), got[p], e[p])))
            break
    return r

def one_far(L, seed, junk):
    """records at large positions"""
    rng = random.Random(seed)
    m = gen.data_set(rng, dims=rng.choice([2, 3]), vars=rng.choice([1, 2, 3]), atts=0, p_unl=1.0, nrec=rng.choice([1 << 20, I32MAX, I32MAX + 5, 1 << 40]))
    # a fixed-size variable before the others
    if rng.random() < 0.5:
        m.dims.append((txt('huge'), rng.choice([1 << 20, (1 << 27) - 3, 1 << 28])))
        m.vars.insert(rng.randint(0, len(m.vars)), (txt('zz'), 'F64', [len(m.dims) - 1], None, []))
    lay = Layout(m, 'Offset64Bit', 0)
    s = new_session(L, m, junk)
    st = s.call('set_def', [s.ds, version(L, 'Offset64Bit'), 0])
    if not st.ok:
        return [], ''
    rec = [i for i, v in enumerate(m.vars) if clen(m, v) <= 600]
    if not rec:
        return [], ''
    i = rng.choice(rec)
    v = m.vars[i]
    nr = nchunks(m, v)
    k = rng.choice([nr - 1, nr // 2, rng.randrange(nr), 0])
    t = v[1]
    vals = gen.values(t, rng, clen(m, v))
    name = 'write_record_' + TY[DT.index(t)]
    st = s.call(name, [v[0], k, list(vals)])
    d = '%s of the record %d of %s\n  data set: %r' % (where(st.S), k, show(v[0]), m)
    if st.ok is None:
        raise Abstain('returned value')
    if not st.ok:
        return [('P12', 'the write is refused (%s) although it is valid' % st.err)], d
    return write_check(expected_bytes(m, lay, i, [k], t, vals), st.writes), d

def one_short(L, seed, junk):
    """partial writes are completed or reported"""
    rng = random.Random(seed)
    m = gen.data_set(rng, vars=rng.choice([1, 2]), atts=1)
    ver = rng.choice(['Classic', 'Offset64Bit'])
    lay = Layout(m, ver, 0)
    s = new_session(L, m, junk)
    sh = lambda kind, n: rng.randint(0, n - 1) if rng.random() < 0.7 else n
    st = s.call('set_def', [s.ds, version(L, ver), 0], short=sh)
    d = '%s with partial writes\n  data set: %r' % (where(st.S), m)
    if st.ok and bytes(st.data) != b''.join(b for _, b in lay.fields()) + bytes(lay.size - lay.required):
        s2 = new_session(L, m, junk)
        st2 = s2.call('set_def', [s2.ds, version(L, ver), 0])
        if st2.data != st.data:
            return [('P10', 'a partial write of the header is neither completed nor reported')], d
        return [], d
    st0 = s.call('set_def', [s.ds, version(L, ver), 0]) if not st.ok else st
    if not st0.ok:
        return [], d
    for _ in range(2):
        name, args, i, recs, t, vals, why = gen_write(rng, m)
        if why:
            continue
        st = s.call(name, args, short=sh, keep=False)
        if st.ok:
            st2 = s.call(name, args, keep=False)
            if st2.writes != st.writes:
                return [('P10', 'a partial write is neither completed nor reported')], '%s\n  data set: %r' % (where(st.S), m)
    st = s.call('close', [], short=sh, keep=False)
    if st.ok:
        st2 = s.call('close', [], keep=False)
        if dict(st2.writes) != dict(st.writes):
            return [('P10', 'a partial write is neither completed nor reported')], '%s\n  data set: %r' % (where(st.S), m)
    return [], d

SC = {'def': (one_def, ['set_def', 'open']), 'redef': (one_redef, ['set_def', 'open', 'header_is_defined', 'data_set', 'version', 'header_min_size']), 'open': (one_open, ['open', 'create_new']),
      'writes': (one_writes, ['set_def', 'open', 'close']), 'far': (one_far, ['set_def', 'open']), 'short': (one_short, ['set_def', 'open', 'close'])}
USE = {'P08': {'def': 3}, 'P09': {'def': 3}, 'P10': {'redef': 2, 'writes': 4, 'short': 2, 'open': .2}, 'P11': {'def': 2, 'writes': 3, 'far': 1}, 'P12': {'writes': 4, 'far': .5},
       'P13': {'writes': 5}, 'P14': {'def': 2, 'writes': 3}, 'P15': {'redef': 3, 'open': .5}, 'P16': {'def': 4}}

def task(rng, out, prop, sc, part, n):
    L = par.lib()
    f, need = SC[sc]
    key = 'writer:%s:%d' % (sc, part)
    done = 0
    last = ''
    abst = 0
    bad = {}
    for j in range(n):
        seed = rng.getrandbits(48)
        try:
            r, d = f(L, seed, 0)
        except Abstain as e:
            abst += 1
            last = str(e)
            if abst > 25 and done == 0:
                break
            continue
        if d:
            done += 1
        r = [x for x in r if x[0] == prop]
        if r:
            try:
                r2, d2 = f(L, seed, 1)
            except Abstain:
                continue
            if any(x[0] == prop for x in r2):
                out.append(('writer:' + sc, 'bad', '%s: %s\n  %s' % (d.split(' ')[0], r[0][1], d)))
                return
    out.append((sc + ' sessions', 'count', done))
    if done >= max(3, n // 5):
        out.append((key, 'agreed', '%d sessions' % done))
    else:
        out.append((key, 'residual', 'only %d sessions conclusive: %s' % (done, last)))

def jobs(prop):
    k = 12 if par.thorough() else 1
    js = []
    for sc, w in USE[prop].items():
        n = max(1, round(w * 8))
        for part in range(n):
            js.append((task, 'writer:%s:%d' % (sc, part), (prop, sc, part, 30 * k)))
    return js

def prepare(prop):
    """summaries computed before the worker processes are created"""
    L = par.lib()
    names = []
    for sc in USE[prop]:
        names += SC[sc][1]
        if sc in ('writes', 'far', 'short'):
            names += ['write_var_' + t for t in TY] + ['write_record_' + t for t in TY]
    for n in dict.fromkeys(names):
        try:
            L.summary(FW + n)
        except Missing:
            pass
