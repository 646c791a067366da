"""Structured random valuations: names, values, abstract data sets."""
import struct
from lib import *

MAXDIM = (1 << 31) - 1 - 3
SPECIAL = '_.@+- !"#$%&\'()*,:;<=>?[\\]^`{|}~'
GOOD = ['a', 'b', 'ab', 'abc', 'A', 'c', 'time', 'lat', 'x1', '1x', '_x', 'é', 'a b', 'x_', 'x~', 'x ', '日本', 'n' * 256, 'é' * 128, 'a.b', 'ba', 'n' * 255]
BAD = ['', ' a', '.a', '-', '!n', 'a/b', 'a\n', 'n' * 257, 'é' * 129, 'a\x7f', '/', 'a\0', '@x', '~', '\t', 'aé/', '(']

def name_ok(b):
    """validity rule of the names, over their bytes"""
    b = bytes(b)
    try:
        s = b.decode('utf-8')
    except UnicodeDecodeError:
        return False
    if not s or len(b) > 256:
        return False
    for i, c in enumerate(s):
        if ord(c) >= 128 or c.isalnum() or c == '_':
            continue
        if i == 0 or c not in SPECIAL:
            return False
    return True

for _x in GOOD:
    assert name_ok(_x.encode()), _x
for _x in BAD:
    assert not name_ok(_x.encode()), _x

def good(rng):
    r = rng.random()
    if r < 0.75:
        return txt(rng.choice(GOOD))
    return txt(''.join(rng.choice('abAZ09_é') for _ in range(rng.randint(1, 6))) + (rng.choice(SPECIAL) if rng.random() < 0.3 else ''))

def bad(rng):
    return txt(rng.choice(BAD))

def fl(w, rng):
    if w == 4:
        return Fl(4, rng.choice([0x3f800000, 0x40490fdb, 0xc2c80000, 0x00000000, 0x7f800000, 0x80000000, rng.getrandbits(31)]))
    return Fl(8, rng.choice([0x3ff0000000000000, 0x400921fb54442d18, 0xc059000000000000, 0, 0x7ff0000000000000, 1 << 63, rng.getrandbits(62)]))

RANGE = {'I8': (-128, 127), 'U8': (0, 255), 'I16': (-32768, 32767), 'I32': (-(1 << 31), (1 << 31) - 1)}
def value(t, rng):
    if t == 'F32':
        return fl(4, rng)
    if t == 'F64':
        return fl(8, rng)
    lo, hi = RANGE[t]
    return rng.choice([lo, hi, 0, 1, rng.randint(lo, hi), rng.randint(lo, hi)])

def values(t, rng, n=None):
    if n is None:
        n = rng.choice([0, 1, 1, 2, 3, 4, 5, 6, 7, 8, rng.randint(0, 40)])
    return tuple(value(t, rng) for _ in range(n))

def text_values(rng):
    if rng.random() < 0.6:
        s = b''.join(rng.choice([b'a', b'b', b' ', 'é'.encode(), '日'.encode(), '😀'.encode()]) for _ in range(rng.randint(0, 9)))
        r = rng.random()
        if r < 0.2:
            s = s[:-1] if s and s[-1] >= 128 else s + b'\xc3'
        elif r < 0.4:
            k = rng.randint(0, len(s))
            s = s[:k] + rng.choice([b'\xff', b'\x80', b'\xed\xa0\x80', b'\xc0\x80', b'\0', b'\xe9']) + s[k:]
        return tuple(s)
    return rng.choice([txt('hello'), txt('é'), (0xff, 0xfe), (104, 0xc3), (), txt('a\0b'), txt('ok'), (0xe9,)])

def names(rng, n):
    out = []
    while len(out) < n:
        x = good(rng)
        if x not in out:
            out.append(x)
    return out

def attrs(rng, most=3):
    k = rng.randint(0, most)
    r = []
    for x in names(rng, k):
        t = rng.choice(DT)
        v = text_values(rng) if t == 'U8' and rng.random() < 0.6 else values(t, rng)
        r.append((x, t, v))
    return r

def enc(v, t):
    """big-endian encoding of a value"""
    if isinstance(v, Fl):
        return v.bits.to_bytes(v.w, 'big')
    return (v & ((1 << (8 * SIZE[t])) - 1)).to_bytes(SIZE[t], 'big')

def data_set(rng, dims=None, vars=None, sizes=None, atts=3, nrec=None, p_unl=0.6, ranks=(0, 1, 1, 2, 2, 3), vatts=2):
    nd = rng.choice([0, 1, 2, 3, 4, 5]) if dims is None else dims
    nv = rng.choice([0, 1, 2, 3, 4]) if vars is None else vars
    m = M()
    ns = names(rng, nd)
    unl = rng.randrange(nd) if nd and rng.random() < p_unl else None
    for i, n in enumerate(ns):
        if i == unl:
            m.dims.append((n, None))
        else:
            m.dims.append((n, (sizes or (lambda r: r.choice([1, 2, 3, 4, 5, 7, 10])))(rng)))
    m.unl = unl
    m.nrec = (rng.choice([0, 1, 2, 3, 5]) if nrec is None else nrec) if unl is not None else 0
    m.attrs = attrs(rng, atts)
    for n in names(rng, nv):
        ds = [i for i in range(nd) if i != unl]
        rng.shuffle(ds)
        ds = ds[:rng.choice(ranks)]
        u = None
        if unl is not None and rng.random() < 0.5:
            ds.insert(0, unl)
            u = unl
        m.vars.append((n, rng.choice(DT), ds, u, attrs(rng, min(atts, vatts))))
    return m

def other_name(rng, ns):
    """a name, often close to one of the given ones"""
    r = rng.random()
    if ns and r < 0.45:
        return rng.choice(ns)
    if ns and r < 0.6:
        x = bytes(rng.choice(ns)).decode('utf-8')
        return txt(rng.choice([x[:-1], x + 'x', x.swapcase(), x + ' ', x[1:]]))
    if r < 0.8:
        return good(rng)
    return bad(rng)

def wide(rng):
    """a data set with many items of every kind"""
    if rng.random() < 0.5:
        return data_set(rng, dims=rng.choice([4, 5, 7, 10]), vars=rng.choice([1, 3, 6]), atts=1, ranks=(3, 4, 5, 9), vatts=1)
    return data_set(rng, dims=rng.choice([1, 3]), vars=rng.choice([3, 6, 10]), atts=rng.choice([4, 8, 14]), vatts=7)
