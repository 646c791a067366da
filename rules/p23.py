"""P23: constants and code tables."""
import par
from util import *
from lib import *
TECHNIQUE = TECH
CONSTS = {'NC_MAX_NAME_SIZE': 256, 'NC_FILL_I8': -127, 'NC_FILL_U8': 0, 'NC_FILL_I16': -32767, 'NC_FILL_I32': -2147483647, 'NC_FILL_F32': 0x7cf00000,
          'NC_FILL_F64': 0x479e000000000000, 'NC_MAX_DIM_SIZE': (1 << 31) - 4, 'NC_MAX_VAR_DIMS': 1024}
CNAME = {'I8': 'NC_BYTE', 'U8': 'NC_CHAR', 'I16': 'NC_SHORT', 'I32': 'NC_INT', 'F32': 'NC_FLOAT', 'F64': 'NC_DOUBLE'}
DTY = 'data_type::DataType'
VER = 'version::Version'

def same_text(c, v, s):
    return c.deep(v) == txt(s)

def tables(rng, out):
    L = par.lib()
    def each(name, path, cases, f):
        S = L.summary(path)
        if S is None:
            out.append((name, 'residual', L.fail[path]))
            return
        bad = None
        for x in cases:
            r = f(S, x)
            if r:
                bad = '%s:%s %s: %s' % (S.fn.get('file'), S.fn.get('line'), S.name, r)
                break
        out.append((name, 'bad' if bad else 'ok', bad or 'all %d entries' % len(cases)))
    def tf(kind, path, table):
        def f(S, x):
            c = Call(L, S, [x], World())
            r = c.ret
            e = table.get(x)
            if e is None:
                return None if r.v == 1 else 'the code %d is accepted' % x
            if r.v != 0 or L.vname(kind, r.fs[0]) != e:
                return 'the code %d does not give %s' % (x, e)
        return f
    codes = {v: k for k, v in CODE.items()}
    each('DataType from a code', '<data_type::DataType as std::convert::TryFrom<u32>>::try_from', sorted(set(list(range(0, 300)) + [(1 << k) + d for k in range(8, 32) for d in range(-1, 8) if (1 << k) + d < 1 << 32] + [rng.getrandbits(32) for _ in range(200)])), tf(DTY, '', codes))
    each('Version from a code', '<version::Version as std::convert::TryFrom<u8>>::try_from', list(range(256)), tf(VER, '', {1: 'Classic', 2: 'Offset64Bit'}))
    def sz(S, x):
        r = Call(L, S, [ref(L.dtype(x))], World()).ret
        return None if r == SIZE[x] else 'the size of %s is %r' % (x, r)
    each('element sizes', 'data_type::DataType::size_of', list(DT), sz)
    def cn(S, x):
        c = Call(L, S, [ref(L.dtype(x))], World())
        return None if c.ret == txt(CNAME[x]) else 'the name of %s is %r' % (x, c.ret)
    each('type names', 'data_type::DataType::c_api_name', list(DT), cn)

def vtypes(rng, out):
    """the reported type of a vector of each type"""
    L = par.lib()
    S = L.summary('data_vector::DataVector::data_type')
    for t in DT:
        r = Call(L, S, [ref(L.dvec(t, ()))], World()).ret
        k = 'type of a vector of ' + t
        if L.vname(DTY, r) != t:
            out.append((k, 'bad', '%s: the type of a vector of %s is %s' % (S.name, t, L.vname(DTY, r))))
        else:
            out.append((k, 'ok', ''))

def run(rep, ctx):
    expl(rep, 'The values of the public constants and the discriminants of the code enumerations are read from the type-checked program; each conversion is evaluated on every entry of its table.')
    F = ctx.raw
    found = 0
    for c in F['consts']:
        n = c['path'].split('::')[-1]
        if c.get('pub') and n in CONSTS:
            found += 1
            v = c['v'].get('v', c['v'].get('bits'))
            if v != CONSTS[n]:
                rep.bad('const:' + n, '%s is %r instead of %r' % (c['path'], v, CONSTS[n]))
            else:
                rep.ok('const:' + n, str(v))
    rep.floor('public constants', found, len(CONSTS))
    for a in F['adts']:
        vs = F['types'][a['ty']]['vs']
        want = {DTY: CODE, VER: {'Classic': 1, 'Offset64Bit': 2}}.get(a['path'])
        if want:
            for v in vs:
                k = 'code:%s::%s' % (a['path'], v['n'])
                if want.get(v['n']) != v['d']:
                    rep.bad(k, 'the code of %s is %r instead of %r' % (v['n'], v['d'], want.get(v['n'])))
                else:
                    rep.ok(k, str(v['d']))
    rep.floor('codes', sum(1 for k in rep.obl if k.startswith('code:')), 8)
    par.run(rep, [(tables, 'tables', ()), (vtypes, 'vector types', ())])
