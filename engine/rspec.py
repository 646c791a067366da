"""Specification of the reader: grammar of the header, data sets read, places and values of the reads, hostile files;
sessions of calls on valuations."""
import random
from lib import *
import gen, par
from dsspec import where, show, arg, var
from qspec import clen, csize, nchunks, vlen, VER
from wspec import Layout, u4, pad4, Step, walk, file_of, PATH, version, hexs, header, I32MAX, I64MAX

FR = 'io::file_reader::FileReader::'
RE = 'error::ReadError'
FRS = 'io::file_reader::FileReader'
TYPE = {v: k for k, v in CODE.items()}

# ---------------------------------------------------------------- reference parser
class Incomplete(Exception):
    pass
class Refused(Exception):
    def __init__(self, cls, why):
        self.cls, self.why = cls, why
class Unspecified(Exception):
    pass

class Src:
    def __init__(self, data):
        self.d, self.p = data, 0
    def take(self, n):
        if self.p + n > len(self.d):
            raise Incomplete()
        r = bytes(self.d[self.p:self.p + n])
        self.p += n
        return r
    def count(self, what):
        x = int.from_bytes(self.take(4), 'big')
        if x > I32MAX:
            raise Refused('P17', 'the %s is negative' % what)
        return x
    def optional(self, what):
        x = int.from_bytes(self.take(4), 'big')
        if x == 0xffffffff:
            return None
        if x > I32MAX:
            if what == 'number of records':
                raise Refused('P17', 'the %s is negative' % what)
            raise Unspecified(what)
        return x
    def padding(self, n, what):
        if self.take(-n % 4).strip(b'\0'):
            raise Refused('P17', 'the padding of %s is not zero' % what)
    def name(self, what):
        n = self.count('length of the name of ' + what)
        b = self.take(n)
        try:
            b.decode('utf-8')
        except UnicodeDecodeError:
            raise Refused('P02', 'the name of %s is not UTF-8' % what)
        self.padding(n, 'the name of ' + what)
        return tuple(b)
    def type(self, what):
        x = self.count('type of ' + what)
        if x not in TYPE:
            raise Refused('P17', 'the type of %s is %d' % (what, x))
        return TYPE[x]
    def tag(self, t, what):
        """number of items or None"""
        x = self.take(4)
        if x == bytes(4):
            if self.take(4) != bytes(4):
                raise Refused('P17', 'the list of %s has no tag and is not empty' % what)
            return None
        if x != u4(t):
            raise Refused('P17', 'the tag of the list of %s is %s' % (what, hexs(x)))
        return self.count('number of ' + what)
    def atts(self, what):
        r = []
        for _ in range(self.tag(12, 'attributes') or 0):
            n = self.name('an attribute')
            t = self.type('an attribute')
            k = self.count('number of values of an attribute')
            b = self.take(k * SIZE[t])
            self.padding(len(b), 'the values of an attribute')
            r.append((n, t, decode(b, t)))
        return r

def decode(b, t):
    w = SIZE[t]
    r = []
    for i in range(0, len(b), w):
        x = int.from_bytes(b[i:i + w], 'big')
        if t[0] == 'F':
            r.append(Fl(w, x))
        else:
            r.append(x if t == 'U8' or x < 1 << (8 * w - 1) else x - (1 << 8 * w))
    return tuple(r)

def uniq(l, what):
    for i, x in enumerate(l):
        if x in l[:i]:
            raise Refused('P01', 'two %s are named %s' % (what, show(x)))
        if not gen.name_ok(x):
            raise Refused('P02', 'the name %s of one of the %s is not valid' % (show(x), what))

def parse(data, total):
    """(data set, version, begin offsets, numrecs deduced?) of the file of this size; raises Incomplete, Refused, Unspecified"""
    s = Src(data)
    for i in range(3):
        if s.take(1) != b'CDF'[i:i + 1]:
            raise Refused('P17', 'the file does not begin with CDF')
    v = s.take(1)[0]
    if v not in (1, 2):
        raise Refused('P17', 'the version is %d' % v)
    ver = 'Classic' if v == 1 else 'Offset64Bit'
    nrec = s.optional('number of records')
    dims = []
    for _ in range(s.tag(10, 'dimensions') or 0):
        n = s.name('a dimension')
        dims.append((n, s.count('size of a dimension') or None))
    atts = s.atts('the data set')
    vs = []
    begins = []
    for _ in range(s.tag(11, 'variables') or 0):
        n = s.name('a variable')
        ids = [s.count('dimension of a variable') for _ in range(s.count('number of dimensions'))]
        at = s.atts('a variable')
        t = s.type('a variable')
        s.optional('size of a variable')
        begins.append(int.from_bytes(s.take(4 if v == 1 else 8), 'big', signed=True))
        vs.append((n, t, ids, at))
    uniq([d[0] for d in dims], 'dimensions')
    uniq([a[0] for a in atts], 'attributes')
    uniq([x[0] for x in vs], 'variables')
    unl = [i for i, d in enumerate(dims) if d[1] is None]
    if len(unl) > 1:
        raise Refused('P04', 'two dimensions are unlimited')
    if any(d[1] is not None and d[1] > gen.MAXDIM for d in dims):
        raise Unspecified('large dimension')
    m = M(dims, nrec or 0, unl[0] if unl else None, atts)
    for n, t, ids, at in vs:
        uniq([a[0] for a in at], 'attributes of a variable')
        for j, i in enumerate(ids):
            if i >= len(dims):
                raise Refused('P04', 'a variable uses the dimension %d, there are %d' % (i, len(dims)))
            if dims[i][1] is None and j > 0:
                raise Refused('P04', 'the unlimited dimension is not the first one of a variable')
        if len(set(ids)) != len(ids):
            raise Unspecified('repeated dimension')
        m.vars.append((n, t, ids, ids[0] if ids and dims[ids[0]][1] is None else None, at))
    ded = False
    if nrec is None and m.unl is not None:
        ded = True
        b = [begins[i] for i, x in enumerate(m.vars) if x[3] is not None]
        if b:
            rs = sum(csize(m, x) for x in m.vars if x[3] is not None)
            if min(b) < 0:
                raise Unspecified('negative offset')
            if min(b) > total or (total - min(b)) % rs:
                raise Refused('P22', 'the records have %d bytes in all and %d each' % (total - min(b), rs))
            m.nrec = (total - min(b)) // rs
    if m.unl is None:
        m.nrec = 0
    return m, ver, begins, ded

# ---------------------------------------------------------------- sessions
class Big(tuple):
    """large content: the header, then bytes which depend on their position"""
    def __new__(cls, head, n, seed=0, over=None):
        s = tuple.__new__(cls)
        s.head, s.n, s.seed, s.over = tuple(head), n, seed, over or {}
        return s
    def __len__(s):
        return s.n
    def byte(s, i):
        if i in s.over:
            return s.over[i]
        if i < len(s.head):
            return s.head[i]
        return ((i * 2654435761 + s.seed * 97) >> 7) & 255
    def __getitem__(s, i):
        if isinstance(i, slice):
            a, b, c = i.indices(s.n)
            if b - a > 100000:
                raise Abstain('large slice')
            return tuple(s.byte(j) for j in range(a, b, c))
        if i < 0:
            i += s.n
        if not 0 <= i < s.n:
            raise IndexError(i)
        return s.byte(i)
    def __iter__(s):
        raise Abstain('large content')
    def __bool__(s):
        return s.n > 0
    def __eq__(s, o):
        return s is o
    def __ne__(s, o):
        return s is not o
    def __hash__(s):
        return id(s)

class Reader:
    """a reader and the calls made on it"""
    def __init__(self, L, data, junk=0, fault=None, short=None, budget=9000000):
        self.L, self.junk = L, junk
        self.data = data if isinstance(data, Big) else tuple(data)
        self.files = {bytes(PATH): FileObj(self.data, 0, 'input')}
        self.world = World(self.files, fault)
        self.world.short = short
        c = L.call(FR + 'open', [PATH], self.world, junk, budget)
        self.opened = c
        self.S = c.S
        self.ops = c.world.ops
        self.failed = [k for k, v in self.ops.items() if v]
        self.r = None
        self.ok = self.err = None
        raw = c.raw
        if isinstance(raw, A) and not isinstance(raw, Junk) and raw.path == 'std::result::Result':
            self.ok = raw.v == 0
            if self.ok:
                self.r = raw.fs[0]
                self.c = c
                f = file_of(self.r)
                p = c.now(f)
                self.f = FileObj(f.data, p.pos if isinstance(p.pos, int) else 0, f.name)
                if isinstance(p, FV) and any(not isinstance(x, tuple) for x in p.log):
                    raise Abstain('writes')
                self.r = walk(self.r, lambda x: self.f if x is f else None)
            else:
                self.err = L.vname(RE, raw.fs[0])

    def model(self, v=None, c=None):
        """(data set, version)"""
        L = self.L
        v = self.r if v is None else v
        return read(L, c or self.c, L.get(FRS, v, 'data_set')), L.vname(VER, L.get(FRS, v, 'version'))

    def call(self, name, args, fault=None, short=None, keep=True, budget=9000000):
        L = self.L
        S = L.summary(FR + name)
        if S is None:
            raise Abstain(L.fail[FR + name])
        w = World(self.files, fault)
        w.short = short
        o = Obj(self.r, 'reader')
        byval = S.I.F.types[S.fn['locals'][1]]['k'] != 'ref'
        vals = [self.r if byval else Ptr(o)] + [x if isinstance(x, (Ptr, A)) else arg(L, S, j + 1, x) for j, x in enumerate(args)]
        c = Call(L, S, vals, w, self.junk, budget)
        r = Step()
        r.S, r.c, r.name, r.raw, r.ops = S, c, name, c.raw, w.ops
        r.ok = r.err = r.val = None
        if isinstance(c.raw, A) and not isinstance(c.raw, Junk) and c.raw.path == 'std::result::Result':
            r.ok = c.raw.v == 0
            if r.ok:
                r.val = c.deep(c.raw.fs[0])
            else:
                r.err = L.vname(RE, c.raw.fs[0])
        r.failed = [k for k, v in w.ops.items() if v]
        fv = c.now(self.f)
        r.log = fv.log if isinstance(fv, FV) else ()
        r.pos = fv.pos
        r.wrote = [x for x in r.log if not (isinstance(x, tuple) and x[0] == 'seek')]
        r.after = self.r if byval else c.now(o)
        r.before = self.r
        if keep and not byval:
            nf = FileObj(self.f.data, fv.pos if isinstance(fv.pos, int) else 0, self.f.name)
            old = self.f
            self.r = walk(r.after, lambda x: nf if x is old else None)
            self.f = nf
        return r

def executed(st):
    """operations of the call which are executed"""
    ops = dict(st.ops)
    return [k for k in dict.fromkeys(st.c.ev.io_done(st.S)) if ops.get(k, 1) is None]

# ---------------------------------------------------------------- files
def join(fields):
    return b''.join(b for _, b in fields)

def gen_file(rng, m, ver, lay=None, least=0, cut=None):
    """content of a file of this data set: the header, then random values"""
    lay = lay or Layout(m, ver, least)
    h = join(lay.fields())
    h += bytes(lay.size - len(h))
    n = max([lay.size] + [lay.begins[i] + csize(m, v) for i, v in enumerate(m.vars) if v[3] is None] +
            ([lay.begins[i] + (m.nrec - 1) * lay.rsize + csize(m, v) for i, v in enumerate(m.vars) if v[3] is not None] if m.nrec else []))
    return lay, tuple(h) + contents(rng, n - len(h))

# floating-point values which a conversion does not keep: signalling and other NaN, negative zero, infinities, subnormal numbers
ODD = [bytes.fromhex(x) for x in ('7fc00000', 'ffc12345', '7f800001', 'ff800000', '80000000', '00000001', '807fffff', '7ff8000000000001', 'fff0000000000001', '7ff0000000000000', '8000000000000000',
                                  '0000000000000001', '800fffffffffffff', 'ffffffffffffffff')]
ODDS = set(ODD) | {x[i:i + k] for x in ODD for k in (1, 2, 4) for i in range(0, len(x), k)}
def contents(rng, n):
    r = b''
    while len(r) < n:
        r += rng.choice(ODD) if rng.random() < 0.25 else bytes(rng.randrange(256) for _ in range(4))
    return tuple(r[:n])

def expected(m, lay, data, i, recs):
    """values of the records of the variable i"""
    v = m.vars[i]
    n = clen(m, v) * SIZE[v[1]]
    r = []
    for k in recs:
        p = lay.place(i, k)
        if p + n > len(data):
            return None
        r += decode(bytes(data[p:p + n]), v[1])
    return tuple(r)

def pick_file(rng, small=True):
    atts = rng.choice([0, 1, 2])
    return gen.data_set(rng, vars=rng.choice([1, 2, 2, 3]), atts=atts, sizes=lambda r: r.choice([1, 2, 3, 4, 5]), p_unl=0.7)

def long_set(rng):
    """a data set with a long header"""
    m = gen.data_set(rng, atts=3)
    k = rng.random()
    for _ in range(rng.choice([1, 2, 3])):
        t = rng.choice(DT)
        n = rng.choice([200, 500, 900, 1024, 1100, 2048, 3000]) // SIZE[t] + rng.randint(0, 9)
        a = (None, t, tuple(gen.values(t, rng, n)))
        where_ = [m.attrs] + [v[4] for v in m.vars]
        l = rng.choice(where_)
        ns = [x[0] for x in l]
        while True:
            x = gen.good(rng)
            if x not in ns:
                break
        l.insert(rng.randint(0, len(l)), (x, a[1], a[2]))
    return m

def differ(m, e):
    """first difference between two data sets"""
    if m.dims != e.dims:
        return 'dimensions', m.dims, e.dims
    if m.unl != e.unl:
        return 'unlimited dimension', m.unl, e.unl
    if m.nrec != e.nrec and e.unl is not None:
        return 'number of records', m.nrec, e.nrec
    def a(x, y, w):
        if [z[:2] for z in x] != [z[:2] for z in y]:
            return 'attributes of ' + w, x, y
        for p, q in zip(x, y):
            if tuple(p[2]) != tuple(q[2]):
                return 'values of the attribute %s of %s' % (show(q[0]), w), p[2], q[2]
    r = a(m.attrs, e.attrs, 'the data set')
    if r:
        return r
    if [x[:4] for x in m.vars] != [x[:4] for x in e.vars]:
        return 'variables', [x[:4] for x in m.vars], [x[:4] for x in e.vars]
    for x, y in zip(m.vars, e.vars):
        r = a(x[4], y[4], 'the variable ' + show(y[0]))
        if r:
            return r
    return None

def sh(x):
    s = show(x) if not isinstance(x, (int, type(None))) else repr(x)
    return s if len(s) < 200 else s[:200] + '..'

def check_open(r, data, total, src):
    """[(property, text)]: opening of the file against the reference parser"""
    try:
        e, ver, begins, ded = parse(data, total)
        cls = None
    except Incomplete:
        cls, why = 'P19', 'the header is incomplete'
    except Refused as x:
        cls, why = x.cls, x.why
    except Unspecified:
        return []
    if r.ok is None:
        raise Abstain('returned value')
    if cls:
        if r.ok:
            return [(cls, 'the file is accepted although %s' % why)]
        return []
    if not r.ok:
        t = 'the file is refused (%s) although its header is valid' % r.err
        n = src
        if ded:
            return [('P22', t)]
        return [('P19' if n > 1024 else 'P17', t)] + ([('P17', t)] if n > 1024 else [])
    m, v = r.model()
    if v != ver:
        return [('P17', 'the version is %s instead of %s' % (v, ver))]
    d = differ(m, e)
    if d:
        t = 'the %s read are %s instead of %s' % (d[0], sh(d[1]), sh(d[2]))
        if d[0] == 'number of records':
            return [('P22', t)]
        return [(p, t) for p in (['P17', 'P14'] if d[0].startswith('values') else ['P17', 'P22'] if False else ['P17'])]
    return []

# ---------------------------------------------------------------- scenarios
def one_header(L, seed, junk):
    """headers written by the rules are read back"""
    rng = random.Random(seed)
    k = rng.random()
    m = long_set(rng) if k < 0.2 else gen.data_set(rng)
    ver = rng.choice(['Classic', 'Offset64Bit'])
    lay, data = gen_file(rng, m, ver)
    n = sum(len(b) for _, b in lay.fields())
    if rng.random() < 0.3:
        data = data[:rng.choice([n, n + 1, len(data)])]
    r = Reader(L, data, junk)
    return check_open(r, data, len(data), n), '%s of a file of %d bytes with a header of %d bytes, %s\n  data set: %r' % (where(r.S), len(data), n, ver, m)

def mutate(rng, fields, m):
    """(fields, what changed)"""
    fields = list(fields)
    def pick(f):
        l = [i for i, (n, b) in enumerate(fields) if f(n, b)]
        return rng.choice(l) if l else None
    def put(i, b):
        fields[i] = (fields[i][0], b)
        return 'the %s is [%s]' % (fields[i][0], hexs(b))
    k = rng.choice(['magic', 'version', 'tag', 'count', 'type', 'padding', 'padding', 'dim', 'name', 'name', 'dup', 'dup', 'vsize', 'begin', 'numrecs', 'absent', 'zero', 'any', 'any', 'size'])
    if k == 'magic':
        b = bytearray(b'CDF')
        b[rng.randrange(3)] ^= rng.choice([1, 32, 255])
        return fields, put(0, bytes(b))
    if k == 'version':
        return fields, put(1, bytes([rng.choice([0, 3, 4, 5, 255, 0x81, 1, 2])]))
    if k == 'tag':
        i = pick(lambda n, b: n.startswith('tag'))
        if i is not None:
            return fields, put(i, rng.choice([u4(10), u4(11), u4(12), u4(13), u4(9), u4(0), u4(1), b'\1\0\0\x0a', u4(0x0a000000), u4(0x10a), u4(0x10c), u4(0x8000000b)]))
    if k == 'absent':
        i = pick(lambda n, b: n.startswith('absent'))
        if i is not None:
            return fields, put(i, rng.choice([u4(0) + u4(1), u4(10) + u4(0), u4(11) + u4(0), u4(12) + u4(0), u4(0) + u4(1 << 24), u4(0) + b'\0\1\0\0', u4(1) + u4(0), u4(0x80000000) + u4(0)]))
    if k == 'count':
        i = pick(lambda n, b: len(b) == 4 and (n.startswith('number of') or n.startswith('length') or n.startswith('size of dim')))
        if i is not None:
            x = int.from_bytes(fields[i][1], 'big')
            return fields, put(i, rng.choice([u4(x | 1 << 31), u4(0xffffffff), u4(0x80000000), u4(x + 1), u4(max(x - 1, 0))]))
    if k == 'type':
        i = pick(lambda n, b: n.startswith('type'))
        if i is not None:
            return fields, put(i, u4(rng.choice([0, 7, 8, 255, 256, 257, 0x80000001, 0xffffffff, 0x01000000, 1, 2, 3, 4, 5, 6])))
    if k == 'padding':
        i = pick(lambda n, b: n.startswith('padding') and b)
        if i is not None:
            b = bytearray(fields[i][1])
            b[rng.randrange(len(b))] = rng.choice([1, 32, 128, 255])
            return fields, put(i, bytes(b))
    if k == 'dim':
        i = pick(lambda n, b: n.startswith('dimensions of') and b)
        if i is not None:
            b = bytearray(fields[i][1])
            j = rng.randrange(len(b) // 4)
            b[4 * j:4 * j + 4] = u4(rng.choice([len(m.dims), len(m.dims) + 1, rng.randrange(len(m.dims)), m.unl or 0, I32MAX, 0xffffffff, 0x80000000]))
            return fields, put(i, bytes(b))
    if k in ('name', 'dup'):
        i = pick(lambda n, b: n.startswith('name of'))
        if i is not None:
            if k == 'dup':
                kind = fields[i][0].split()[2]
                j = pick(lambda n, b: n.startswith('name of ' + kind))
                b = fields[j][1]
            else:
                b = rng.choice([bytes(gen.bad(rng)), bytes(gen.bad(rng)), b'\xff\xfe', b'a\xc3', b'\xed\xa0\x80', bytes(gen.good(rng))])
            t = put(i, b)
            fields[i - 1] = (fields[i - 1][0], u4(len(b)))
            fields[i + 1] = (fields[i + 1][0], b'\0' * (-len(b) % 4))
            return fields, t
    if k == 'size':
        i = pick(lambda n, b: n.startswith('size of dimension'))
        if i is not None:
            return fields, put(i, u4(rng.choice([0, 0, 1, 2, gen.MAXDIM, 65536])))
    if k == 'vsize':
        i = pick(lambda n, b: n.startswith('size of variable'))
        if i is not None:
            return fields, put(i, rng.choice([u4(0), u4(0xffffffff), u4(I32MAX), u4(4), u4(7)]))
    if k == 'begin':
        i = pick(lambda n, b: n.startswith('begin'))
        if i is not None:
            return fields, put(i, rng.randrange(1 << 31).to_bytes(len(fields[i][1]), 'big'))
    if k == 'numrecs':
        return fields, put(2, u4(rng.choice([0, 1, 2, I32MAX, 0x80000000, 0xfffffffe, 0xffffffff, 0x80000001])))
    if k == 'zero':
        i = pick(lambda n, b: len(b) > 0)
        return fields, put(i, bytes(len(fields[i][1])))
    i = pick(lambda n, b: len(b) > 0 and not n.startswith('values'))
    b = bytearray(fields[i][1])
    b[rng.randrange(len(b))] ^= 1 << rng.randrange(8)
    return fields, put(i, bytes(b))

def one_bad(L, seed, junk):
    """headers with one field changed"""
    rng = random.Random(seed)
    m = gen.data_set(rng, dims=rng.choice([1, 2, 3]), vars=rng.choice([0, 1, 2, 2]), atts=2)
    ver = rng.choice(['Classic', 'Offset64Bit'])
    lay, data = gen_file(rng, m, ver)
    n = sum(len(b) for _, b in lay.fields())
    f, what = mutate(rng, lay.fields(), m)
    data = tuple(join(f)) + tuple(data[n:])
    r = Reader(L, data, junk)
    return check_open(r, data, len(data), 0), '%s of a file where %s\n  data set: %r' % (where(r.S), what, m)

def one_long(L, seed, junk):
    """headers of any length, files cut anywhere"""
    rng = random.Random(seed)
    m = long_set(rng)
    ver = rng.choice(['Classic', 'Offset64Bit'])
    lay, data = gen_file(rng, m, ver)
    n = sum(len(b) for _, b in lay.fields())
    k = rng.random()
    # the end of the loaded bytes is moved by a name
    if k < 0.35:
        data = data[:n]
    elif k < 0.7:
        data = data[:rng.choice([rng.randrange(n), rng.randrange(n), 1024, 1023, 1025, 2048, 0, 1, n - 1, n - 4])]
    r = Reader(L, data, junk)
    return check_open(r, data, len(data), n), '%s of a file of %d bytes with a header of %d bytes, %s\n  data set: %r' % (where(r.S), len(data), n, ver, m)

def one_huge(L, seed, junk):
    """headers of hundreds of blocks: one attribute is very long"""
    rng = random.Random(seed)
    m = gen.data_set(rng, dims=2, vars=1, atts=1)
    t = rng.choice(['U8', 'I8', 'I16', 'F64'])
    n = int(5000 * 2 ** (rng.random() * 5)) // SIZE[t]
    l = rng.choice([m.attrs] + [v[4] for v in m.vars])
    vs = tuple(gen.values(t, rng, 61))
    x = b'zz%d' % len(l)
    l.insert(rng.randint(0, len(l)), (tuple(x), t, (vs * (n // 61 + 1))[:n]))
    ver = rng.choice(['Classic', 'Offset64Bit'])
    lay, data = gen_file(rng, m, ver)
    h = sum(len(b) for _, b in lay.fields())
    k = rng.random()
    if k < 0.2:
        data = data[:h - rng.choice([0, 0, 1, 4, 30])]
    r = Reader(L, data, junk)
    return check_open(r, data, len(data), h), '%s of a file of %d bytes with a header of %d bytes, %s, an attribute of %d values' % (where(r.S), len(data), h, ver, n)

def one_numrecs(L, seed, junk):
    """number of records stated or not"""
    rng = random.Random(seed)
    m = gen.data_set(rng, dims=rng.choice([1, 2, 3]), vars=rng.choice([0, 1, 2, 3, 4]), atts=1, p_unl=0.95)
    ver = rng.choice(['Classic', 'Offset64Bit'])
    m.nrec = rng.choice([0, 1, 2, 3, 7, 1000, 1 << 20, (1 << 31) + 5, 1 << 33])
    lay = Layout(m, ver, rng.choice([0, 0, 0, 4000]))
    # variables in another order in the file
    recs = [i for i, v in enumerate(m.vars) if v[3] is not None]
    if rng.random() < 0.5 and len(recs) > 1:
        pos = min(lay.begins[i] for i in recs)
        rng.shuffle(recs)
        for i in recs:
            lay.begins[i] = pos
            pos += csize(m, m.vars[i])
    if rng.random() < 0.15:
        for i in range(len(lay.begins)):
            lay.begins[i] += 1 << rng.choice([20, 31, 40]) if ver != 'Classic' else 1 << 20
    known = rng.random() < 0.25
    f = [(n, u4(0xffffffff) if n == 'number of records' and not known else b) for n, b in lay.fields()]
    h = join(f)
    first = min([lay.begins[i] for i in recs] or [lay.end])
    total = first + m.nrec * lay.rsize
    k = rng.random()
    if k < 0.25:
        total += rng.choice([1, -1, 4, -4, lay.rsize, -lay.rsize, lay.rsize // 2, first])
    elif k < 0.3:
        total = rng.choice([len(h), first, first - 1, lay.size])
    total = max(total, len(h))
    data = Big(h, total)
    r = Reader(L, data, junk)
    return check_open(r, Big(h, total), total, 0), '%s of a file of %d bytes, %s, begin offsets %s\n  data set: %r' % (where(r.S), total, 'number of records stated' if known else 'number of records not stated', lay.begins, m)

def gen_read(rng, m):
    """(method, arguments, index, records or None, expected error names)"""
    t = rng.choice(TY + ('',) * 4)
    whole = rng.random() < 0.5
    i = rng.randrange(len(m.vars)) if m.vars else None
    err = []
    if i is not None and rng.random() < 0.88:
        v = m.vars[i]
        n = v[0]
        if t and rng.random() < 0.85:
            t = TY[DT.index(v[1])]
    else:
        n = gen.other_name(rng, [x[0] for x in m.vars])
        i = var(m, n)
        v = m.vars[i] if i is not None else None
    if i is None:
        err.append('VariableNotDefined')
    elif t and v[1] != DT[TY.index(t)]:
        err.append('VariableMismatchDataType')
    if whole:
        return 'read_var' + ('_' + t if t else ''), [n], i, list(range(nchunks(m, v))) if v is not None else [], err, t
    nr = nchunks(m, v) if v is not None else 1
    k = rng.randrange(nr) if nr and rng.random() < 0.8 else rng.choice([nr, nr + 1, nr + 7, 1 << 32, (1 << 64) - 1])
    if v is not None and k >= nr:
        err.append('RecordIndexExceeded')
    return 'read_record' + ('_' + t if t else ''), [n, k], i, [k], err, t

def typed_values(L, st, t, v):
    """(type, values) returned"""
    x = st.val
    if t:
        return DT[TY.index(t)], x
    return L.vname('data_vector::DataVector', x), x.fs[0]

def one_reads(L, seed, junk):
    """a session of reads"""
    rng = random.Random(seed)
    m = pick_file(rng)
    ver = rng.choice(['Classic', 'Offset64Bit'])
    lay, data = gen_file(rng, m, ver, least=rng.choice([0, 0, 0, rng.randint(0, 300)]))
    # the fixed-size variables and the records may be placed otherwise
    if rng.random() < 0.2 and m.vars:
        order = list(range(len(m.vars)))
        rng.shuffle(order)
        pos = lay.size + rng.choice([0, 0, 4, 12])
        for fixed in (True, False):
            for i in order:
                if (m.vars[i][3] is None) == fixed:
                    lay.begins[i] = pos
                    pos += csize(m, m.vars[i])
        lay, data = gen_file(rng, m, ver, lay)
    full = len(data)
    k = rng.random()
    if k < 0.25:
        data = data[:lay.size + rng.randint(0, max(0, len(data) - lay.size))]
    elif k < 0.4:
        data = data + (7,) * rng.randint(1, 9)
    r = Reader(L, data, junk)
    if not r.ok or check_open(r, data, len(data), 0):
        return [], ''
    hist = []
    out = []
    before = r.model()[0].key()
    steps = rng.choice([1, 2, 3, 4, 5])
    for _ in range(steps):
        name, args, i, recs, err, t = gen_read(rng, m)
        if not any(e == 'VariableNotDefined' for e in err) and rng.random() < 0.06 and name.startswith('read_var'):
            name, args, err, t = 'read_all_vars', [], [], ''
        S = L.summary(FR + name)
        d = lambda: '%s(%s)%s in a file of %d bytes%s\n  begin offsets: %s, data set: %r' % (where(S), ', '.join(show(x) for x in args), (' after ' + '; '.join(hist)) if hist else '', len(data),
                                                                    ' (truncated)' if len(data) < full else '', lay.begins, m)
        fault = None
        if rng.random() < 0.2:
            pr = r.call(name, args, keep=False)
            ks = [x for x in executed(pr) if x[0] in ('seek', 'read', 'readsome', 'metadata')]
            if ks and pr.ok:
                kk = rng.choice(ks)
                fault = lambda kd, key, vs: key == kk
        st = r.call(name, args, fault=fault)
        hist.append('%s(%s)%s' % (name, ', '.join(show(x) for x in args), ' with a failure' if fault else ''))
        if st.ok is None:
            raise Abstain('returned value')
        first = len(hist) == 1
        if st.wrote:
            out.append(('P20', 'it writes in the file'))
        m2 = r.model(c=st.c)[0]
        if m2.key() != before:
            out.append(('P20', 'it changes the data set of the reader into %r' % m2))
            return out, d()
        if fault:
            if st.ok:
                if st.failed:
                    out.append(('P10', 'it succeeds although its operation "%s" on the file failed' % kk[0]))
                    return out, d()
                raise Abstain('fault not reached')
            continue
        if name == 'read_all_vars':
            es = {v[0]: (v[1], expected(m, lay, data, j, range(nchunks(m, v)))) for j, v in enumerate(m.vars)}
            if any(x[1] is None for x in es.values()):
                if st.ok:
                    out += [('P10', 'it succeeds although the file ends before the values'), ('P21', 'it returns values which are not in the file')]
                    return out, d()
                continue
            if not st.ok:
                out += [(p, 'it fails (%s) although the values are in the file' % st.err) for p in (['P21', 'P11'] if first else ['P20', 'P21'])]
                return out, d()
            try:
                got = {x.fs[0]: (L.vname('data_vector::DataVector', x.fs[1]), tuple(x.fs[1].fs[0])) for x in st.val}
            except (AttributeError, TypeError, IndexError):
                raise Abstain('map')
            if any(isinstance(z, Junk) for y in got.values() for z in y[1]):
                raise Abstain('undefined values')
            for x in es:
                if x not in got:
                    out.append(('P21', 'it returns nothing for the variable %s' % sh(x)))
                elif got[x] != es[x]:
                    tx = 'the values returned for the variable %s are %s instead of %s' % (sh(x), sh(got[x][1]), sh(es[x][1]))
                    out += [(p, tx) for p in (['P21'] if len(got[x][1]) != len(es[x][1]) else ['P14', 'P11'] if first else ['P20', 'P14', 'P11'])]
            if out:
                return out, d()
            continue
        if err:
            if st.ok:
                out.append(('P21', 'it succeeds instead of failing with the error %s' % err[0]))
                return out, d()
            if st.err not in err:
                out.append(('P21', 'it fails with the error %s instead of %s' % (st.err, err[0])))
            continue
        e = expected(m, lay, data, i, recs)
        if e is None:
            if st.ok:
                out.append(('P10', 'it succeeds although the file ends before the values'))
                out.append(('P21', 'it returns values which are not in the file'))
                return out, d()
            continue
        pid = ['P11'] if first else ['P20', 'P11']
        if not st.ok:
            out += [(p, 'it fails (%s) although the values are in the file' % st.err) for p in (['P21', 'P11'] if first else ['P20', 'P21'])]
            return out, d()
        T_, got = typed_values(L, st, t, m.vars[i])
        got = tuple(got) if isinstance(got, tuple) else got
        if any(isinstance(x, Junk) for x in got):
            raise Abstain('undefined values')
        if T_ != m.vars[i][1]:
            out.append(('P14', 'the values returned have the type %s' % T_))
            out.append(('P21', 'the values returned have the type %s' % T_))
        elif len(got) != len(e):
            out.append(('P21', 'it returns %d values instead of %d' % (len(got), len(e))))
        elif got != e:
            j = [x != y for x, y in zip(got, e)].index(True)
            tx = 'the value %d returned is %s instead of %s' % (j, got[j], e[j])
            if not first:
                # the same call on a new reader
                fr = Reader(L, data, junk).call(name, args, keep=False)
                if fr.ok and typed_values(L, fr, t, None)[1] == e:
                    out.append(('P20', tx + ', other than without the earlier calls'))
                    return out, d()
            # is it at another place of the file?
            b = b''.join(gen.enc(x, T_) for x in got[:clen(m, m.vars[i])])
            odd = lambda x: gen.enc(x, T_) in ODDS
            if len(b) >= 2 and bytes(data).find(b) >= 0 and any(x != y and not odd(x) and not odd(y) for x, y in zip(got, e)):
                out.append(('P11', tx + ': they are the values of the position %d instead of %d' % (bytes(data).find(b), lay.place(i, recs[0]))))
            else:
                out += [('P14', tx), ('P11', tx)]
        if out:
            return out, d()
    # the data set and the version, on closing
    S = L.summary(FR + 'close')
    st = r.call('close', [], keep=False)
    x = st.raw
    if isinstance(x, A) and len(x.fs) == 2:
        mm = read(L, st.c, x.fs[0])
        if mm.key() != before or L.vname(VER, x.fs[1]) != ver:
            out.append(('P20', 'close() returns another data set or version'))
            return out, where(S)
    return out, 'session'

def one_far(L, seed, junk):
    """records far from the beginning of the file"""
    rng = random.Random(seed)
    m = gen.data_set(rng, vars=rng.choice([1, 2, 3]), atts=0, sizes=lambda r: r.choice([1, 2, 3, 5, 7, 50]), p_unl=0.9)
    m.nrec = rng.choice([70000, 1 << 26, (1 << 31) - 1]) if m.unl is not None else 0
    if rng.random() < 0.6:
        m.dims.append((txt('huge'), rng.choice([1 << 20, (1 << 27) - 3, 1 << 28, 1 << 30])))
        u = m.unl if rng.random() < 0.5 else None
        m.vars.insert(rng.randint(0, len(m.vars)), (txt('zz'), 'F64', ([u] if u is not None else []) + [len(m.dims) - 1], u, []))
    lay = Layout(m, 'Offset64Bit', rng.choice([0, 0, 1 << 33]))
    if lay.end >= 1 << 61 or lay.rsize * m.nrec >= 1 << 61:
        return [], ''
    h = join(lay.fields())
    total = max([lay.end] + [lay.place(i, max(m.nrec - 1, 0)) + csize(m, v) for i, v in enumerate(m.vars) if v[3] is not None])
    data = Big(h, total, seed)
    r = Reader(L, data, junk)
    if not r.ok:
        return check_open(r, Big(h, total), total, 0), '%s of a large file\n  data set: %r' % (where(r.S), m)
    rec = [i for i, v in enumerate(m.vars) if clen(m, v) <= 600 and nchunks(m, v)]
    if not rec:
        return [], ''
    i = rng.choice(rec)
    v = m.vars[i]
    nr = nchunks(m, v)
    k = rng.choice([nr - 1, nr // 2, rng.randrange(nr), 0])
    whole = v[3] is None and rng.random() < 0.6
    t = TY[DT.index(v[1])] if rng.random() < 0.5 else ''
    name = ('read_var' if whole else 'read_record') + ('_' + t if t else '')
    st = r.call(name, [v[0]] if whole else [v[0], k])
    d = '%s of the record %d of %s\n  begin offsets %s, data set: %r' % (where(st.S), k, show(v[0]), lay.begins, m)
    if st.ok is None:
        raise Abstain('returned value')
    if not st.ok:
        return [('P11', 'it fails (%s) although the values are in the file' % st.err)], d
    e = expected(m, lay, data, i, [0 if whole else k])
    got = typed_values(L, st, t, v)[1]
    if tuple(got) != e:
        return [('P11', 'the values returned are not those of the position %d' % lay.place(i, k))], d
    return [], d

def one_faults(L, seed, junk):
    """failures and partial reads while a file is opened"""
    rng = random.Random(seed)
    m = long_set(rng) if rng.random() < 0.4 else gen.data_set(rng, atts=1)
    ver = rng.choice(['Classic', 'Offset64Bit'])
    lay, data = gen_file(rng, m, ver)
    r0 = Reader(L, data, junk)
    if not r0.ok:
        return [], ''
    d = '%s of a file of %d bytes' % (where(r0.S), len(data))
    out = []
    if rng.random() < 0.6:
        k = rng.choice([x for x in dict.fromkeys(r0.opened.ev.io_done(r0.S)) if r0.ops.get(x, 1) is None])
        r = Reader(L, data, junk, fault=lambda kd, key, vs: key == k)
        if r.ok and r.failed:
            out.append(('P10', 'it succeeds although its operation "%s" on the file failed' % k[0]))
    else:
        r = Reader(L, data, junk, short=lambda kind, n: rng.randint(1, n))
        if r.ok and (r.model()[0].key() != r0.model()[0].key()):
            out.append(('P10', 'a partial read of the header is neither completed nor reported'))
        if r.ok is False and L.vname(RE, r.opened.raw.fs[0]) not in ('IOErrorKind',):
            out.append(('P10', 'a partial read of the header is not completed: %s' % r.err))
    # reading does not open for writing
    for k in r0.ops:
        if k[0] == 'open' and (k[2][1] or k[2][2] or k[2][3] or k[2][4] or k[2][5]):
            out.append(('P15', 'the file is opened for writing (flags read, write, append, truncate, create, create_new = %s)' % (k[2],)))
        if k[0] in ('write', 'write_all', 'set_len'):
            out.append(('P15', 'the file is modified: %s' % k[0]))
    w = World({}, None)
    c = L.call(FR + 'open', [PATH], w, junk)
    for k, v in c.world.ops.items():
        if k[0] == 'open' and (k[2][1] or k[2][4] or k[2][5]) and not out:
            out.append(('P15', 'a missing file is opened for writing or created'))
    if isinstance(c.raw, A) and not isinstance(c.raw, Junk) and c.raw.v == 0:
        out.append(('P10', 'it succeeds on a missing file'))
    return out, d

def hostile(rng, m, ver):
    """content of a hostile file"""
    lay, data = gen_file(rng, m, ver)
    f = list(lay.fields())
    n = sum(len(b) for _, b in f)
    what = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        k = rng.choice(['count', 'count', 'size', 'size', 'begin', 'numrecs', 'mutate', 'ids'])
        sel = {'count': lambda x, b: len(b) == 4 and (x.startswith('number of') or x.startswith('length')),
               'size': lambda x, b: x.startswith('size of dimension'), 'begin': lambda x, b: x.startswith('begin'), 'numrecs': lambda x, b: x == 'number of records',
               'ids': lambda x, b: x.startswith('dimensions of') and b}.get(k)
        if k == 'mutate':
            f, w = mutate(rng, f, m)
            what.append(w)
            continue
        l = [i for i, (x, b) in enumerate(f) if sel(x, b)]
        if not l:
            continue
        for i in (l if k == 'size' and rng.random() < 0.6 else [rng.choice(l)]):
            w = len(f[i][1])
            if k == 'begin':
                b = rng.choice([-1, 0, -(1 << (8 * w - 1)), (1 << (8 * w - 1)) - 1, I32MAX, rng.randrange(1 << 31), len(data), len(data) - 1]).to_bytes(w, 'big', signed=True)
            elif k == 'numrecs':
                b = u4(rng.choice([I32MAX, 0xffffffff, 0xffffffff, I32MAX - 1, 1 << 30, 0]))
            elif k == 'size':
                b = u4(rng.choice([gen.MAXDIM, gen.MAXDIM, 1 << 30, 65536, 0, I32MAX, 3]))
            elif k == 'ids':
                b = b''.join(u4(rng.randrange(len(m.dims) + 1)) for _ in range(w // 4))
            else:
                b = u4(rng.choice([I32MAX, I32MAX - 1, 1 << 30, 0xffffffff, 0x80000000, 1 << 16, 0, 1 << 29]))
            f[i] = (f[i][0], b)
            what.append('the %s is [%s]' % (f[i][0], hexs(b)))
    data = tuple(join(f)) + tuple(data[n:])
    if rng.random() < 0.2:
        data = data[:rng.randrange(len(data) + 1)]
        what.append('it is cut after %d bytes' % len(data))
    return data, '; '.join(what)

def width(F, t):
    return 1

def events(c, size, S):
    """[(property, text)]: panics and large allocations of the call"""
    out = []
    hap, und = c.ev.happening(S, ('panic', 'alloc'))
    for e, env, ev in hap:
        if e['kind'] == 'panic':
            d = e['data']
            out.append(('P18', 'the function %s can panic here: %s (%s:%s)' % (e['fn'], d[0] if isinstance(d[0], str) else d, e['file'], e['line'])))
        else:
            n = ev.ev(e['data'][0], env)
            if isinstance(n, int) and n > 16 * size + 65536:
                out.append(('P18', 'the function %s allocates %d elements for a file of %d bytes (%s:%s)' % (e['fn'], n, size, e['file'], e['line'])))
    return out, und

def one_hostile(L0, seed, junk):
    """no panic and no large allocation, whatever the file"""
    L = par.lib(False)
    rng = random.Random(seed)
    m = gen.data_set(rng, dims=rng.choice([0, 1, 2, 3, 3, 4]), vars=rng.choice([1, 1, 2, 2]), atts=1, p_unl=0.7)
    ver = rng.choice(['Classic', 'Offset64Bit'])
    data, what = hostile(rng, m, ver)
    r = Reader(L, data, junk)
    out, und = events(r.opened, len(data), r.S)
    d = '%s of a file where %s\n  data set: %r' % (where(r.S), what, m)
    if out:
        return out, d
    if r.ok and r.r is not None:
        m2 = r.model()[0]
        for _ in range(3):
            if not m2.vars:
                break
            v = rng.choice(m2.vars)
            t = TY[DT.index(v[1])] if rng.random() < 0.4 else ''
            if rng.random() < 0.5:
                name, args = 'read_var' + ('_' + t if t else ''), [v[0]]
            else:
                nr = m2.nrec if v[3] is not None else 1
                name, args = 'read_record' + ('_' + t if t else ''), [v[0], rng.choice([0, nr - 1 if nr else 0, nr, (1 << 64) - 1])]
            st = r.call(name, args)
            o, u = events(st.c, len(data), st.S)
            und += u
            if o:
                return o, '%s(%s) in a file of %d bytes where %s\n  data set read: %r' % (where(st.S), ', '.join(show(x) for x in args), len(data), what, m2)
    return [], (d if not und else '')

RSC = {'header': (one_header, ['open']), 'bad': (one_bad, ['open']), 'long': (one_long, ['open']), 'huge': (one_huge, ['open']), 'numrecs': (one_numrecs, ['open']), 'reads': (one_reads, ['open', 'close', 'read_all_vars', '*']),
       'far': (one_far, ['open', '*']), 'faults': (one_faults, ['open']), 'hostile': (one_hostile, ['open', '*'])}
RUSE = {'P01': {'bad': 1}, 'P02': {'bad': 1}, 'P04': {'bad': 1}, 'P10': {'reads': 1, 'faults': 1}, 'P11': {'reads': 1, 'far': 1}, 'P14': {'reads': 1, 'header': .5}, 'P15': {'faults': .3},
        'P17': {'header': 3, 'bad': 4}, 'P18': {'hostile': 6}, 'P19': {'long': 5, 'huge': 1}, 'P20': {'reads': 5}, 'P21': {'reads': 5}, 'P22': {'numrecs': 5}}

def task(rng, out, prop, sc, part, n):
    L = par.lib()
    f, need = RSC[sc]
    key = 'reader:%s:%d' % (sc, part)
    done = abst = 0
    last = ''
    for j in range(n):
        seed = rng.getrandbits(48)
        try:
            r, d = f(L, seed, 0)
        except Abstain as e:
            abst += 1
            last = str(e)
            if abst > 25 and done == 0:
                break
            continue
        if d:
            done += 1
        if any(x[0] == prop for x in r):
            try:
                r2, d2 = f(L, seed, 1)
            except Abstain:
                continue
            x = [y for y in r2 if y[0] == prop]
            if x:
                out.append(('reader:' + sc, 'bad', '%s: %s\n  %s' % (d2.split(' ')[0], x[0][1], d2)))
                return
    out.append((sc + ' sessions', 'count', done))
    if done >= max(3, n // 5):
        out.append((key, 'agreed', '%d sessions' % done))
    else:
        out.append((key, 'residual', 'only %d sessions conclusive: %s' % (done, last)))

NUM = {'header': 60, 'bad': 60, 'long': 30, 'huge': 3, 'numrecs': 60, 'reads': 40, 'far': 30, 'faults': 40, 'hostile': 30}
def jobs(prop):
    k = 12 if par.thorough() else 1
    js = []
    for sc, w in RUSE.get(prop, {}).items():
        for part in range(max(1, round(w * 8))):
            js.append((task, 'reader:%s:%d' % (sc, part), (prop, sc, part, NUM[sc] * k)))
    return js

def prepare(prop):
    names = []
    for sc in RUSE.get(prop, {}):
        L = par.lib(sc != 'hostile')
        for x in RSC[sc][1]:
            if x == '*':
                ns = ['read_var', 'read_record'] + ['read_var_' + t for t in TY] + ['read_record_' + t for t in TY]
            else:
                ns = [x]
            for n in ns:
                try:
                    L.summary(FR + n)
                except Missing:
                    pass
        if sc == 'hostile' or sc == 'bad' or sc == 'header':
            try:
                L.summary(FR + 'parse_header')
            except Missing:
                pass
