import sys, time, traceback
from terms import *
import terms, interp, prims
OPQ = True
V = 'data_set::variable::Variable::'
D = 'data_set::DataSet::'
R = 'io::file_reader::FileReader::'
TY = ('i8', 'u8', 'i16', 'i32', 'f32', 'f64')
OPAQUE_SIZES = {V + x for x in ('chunk_len', 'chunk_size', 'len', 'num_chunks')} | {D + 'record_size'}
OPAQUE_READER = OPAQUE_SIZES | {R + x for x in ('parse_name_string', 'parse_dims_list', 'parse_attrs_list', 'parse_vars_list', 'parse_typed_data_elements', 'parse_header')} \
    | {D + x for x in ('set_unlimited_dim', 'add_fixed_dim', 'add_var_using_dim_refs', 'get_dims_from_dim_ids')} | {V + 'is_record_var'} \
    | {D + 'add_%s_attr_%s' % (a, t) for a in ('global', 'var') for t in TY}
def opaque_of(name):
    if name.startswith('io::file_reader'):
        return OPAQUE_READER
    if name.startswith('io::'):
        return OPAQUE_SIZES
    return set()
def analyse(facts, path, quiet=False):
    I = interp.Interp(facts)
    fid = None
    if isinstance(path, int): fid = path
    else:
        for r in facts.roots:
            if r['path'] == path: fid = r['fn']
        if fid is None:
            for f in facts.raw['fns']:
                if f['name'] == path: fid = f['id']
    fn = facts.fns[fid]
    I.root_fid = fid
    for f in facts.raw['fns']:
        if OPQ and f['name'] in opaque_of(fn['name']): I.opaque[f['id']] = f['name']
    st = interp.State({}, TRUE)
    args = []
    for i in range(fn['argc']):
        ty = fn['locals'][i+1]
        a = mk('arg', i)
        a.ty = None
        a = mk('arg', fid, i)
        args.append(I.wrap(a, ty))
    s, v = I.call_fn(st, fid, args, ('root',))
    return I, fn, args, s, v
if __name__ == '__main__':
    F = interp.Facts('/tmp/facts.json')
    for p in sys.argv[1:]:
        t=time.time()
        try:
            I, fn, args, s, v = analyse(F, p)
            print('==', p, '%.2fs' % (time.time()-t))
            print('ret', show(v)[:3000])
            for r, x in s.mem.items():
                if x is not I.init(r): print('mem', show(r)[:200], ':=', show(x)[:3000])
            for e in I.events: print('ev', e['kind'], e['fn'], e['line'], show(e['pc'])[:200], show(e['data'])[:200] if isinstance(e['data'],tuple) else e['data'])
            print('unk', I.unknown)
        except Exception as e:
            traceback.print_exc(limit=12)
            print('!!', p, repr(e)[:300], '%.2fs' % (time.time()-t))
