"""P24: programs that modify a definition in use, or reach inside it, do not type-check (compile-fail witnesses with compiling twins)."""
import os, re, subprocess, shutil, tempfile, json
from concurrent.futures import ThreadPoolExecutor
import build

PRE = '#![allow(unused, deprecated)]\nuse netcdf3::*;\n'
SETUP = 'let mut ds = DataSet::new();\nlet mut fw = FileWriter::open("x").unwrap();\nfw.set_def(&ds, Version::Classic, 0).unwrap();\n'
END = 'fw.close().unwrap();\n'
# name, error codes of the rejection, text with <<offending>> , text of the twin in its place
W = [
 ('borrow-mut', {'E0502'}, SETUP + '<<let m = &mut ds; m.num_dims();>>' + END, ''),
 ('borrow-mut-after-write', {'E0502'}, SETUP + 'fw.write_var_i8("v", &[1]).unwrap();\n<<ds.add_fixed_dim("d", 1).unwrap();>>fw.write_var_i8("w", &[1]).unwrap();', ''),
 ('borrow-mut-then-drop', {'E0502', 'E0506'}, SETUP + '<<ds.rename_dim("a", "b").unwrap();>>' + 'fw.header_is_defined();', ''),
 ('edit-variable', {'E0502'}, SETUP + '<<ds.get_var_mut("v").unwrap().add_attr_i8("a", vec![1]).unwrap();>>' + END, ''),
 ('assign', {'E0506'}, SETUP + '<<ds = DataSet::new();>>' + END, ''),
 ('move', {'E0505'}, SETUP + '<<drop(ds);>>' + END, ''),
 ('outlive', {'E0597'}, 'let mut fw = FileWriter::open("x").unwrap();\n<<{>> let ds = DataSet::new(); fw.set_def(&ds, Version::Classic, 0).unwrap(); <<}>>' + END, ''),
 ('outlive-create-new', {'E0597'}, 'let mut fw = FileWriter::create_new("x").unwrap();\n<<{>> let ds = DataSet::new(); fw.set_def(&ds, Version::Offset64Bit, 0).unwrap(); <<}>>' + END, ''),
 ('writer-data-set-mut', {'E0308', 'E0596'}, SETUP + '<<let m: &mut DataSet = fw.data_set().unwrap();>>' + END, 'let m: &DataSet = fw.data_set().unwrap();'),
 ('writer-var-mut', {'E0596'}, SETUP + '<<fw.data_set().unwrap().get_var_mut("v");>>' + END, 'fw.data_set().unwrap().get_var("v");'),
 ('reader-data-set-mut', {'E0308', 'E0596'}, 'let mut fr = FileReader::open("x").unwrap();\n<<let m: &mut DataSet = fr.data_set();>>fr.version();', 'let m: &DataSet = fr.data_set();'),
 ('reader-var-mut', {'E0596'}, 'let mut fr = FileReader::open("x").unwrap();\n<<fr.data_set().get_var_mut("v");>>fr.version();', 'fr.data_set().get_var("v");'),
 ('var-shared', {'E0596'}, 'let mut ds = DataSet::new();\n<<ds.get_var("v").unwrap().add_attr_i8("a", vec![]);>>', 'ds.get_var_mut("v").unwrap().add_attr_i8("a", vec![]);'),
 ('vars-shared', {'E0596'}, 'let mut ds = DataSet::new();\n<<ds.get_vars()[0].remove_attr("a");>>', 'ds.get_vars()[0].has_attr("a");'),
 ('attr-slice-i8', {'E0308'}, 'let mut ds = DataSet::new();\nlet s: &<<mut>> [i8] = ds.get_global_attr_i8("a").unwrap();', ''),
 ('attr-slice-f64', {'E0308'}, 'let mut ds = DataSet::new();\nlet s: &<<mut>> [f64] = ds.get_var_attr_f64("v", "a").unwrap();', ''),
 ('attr-slice-var', {'E0308'}, 'let mut ds = DataSet::new();\nlet s: &<<mut>> [i32] = ds.get_var("v").unwrap().get_attr_i32("a").unwrap();', ''),
 ('attr-mut', {'E0308'}, 'let mut ds = DataSet::new();\nlet s: &<<mut>> Attribute = ds.get_global_attr("a").unwrap();', ''),
 ('query-borrow', {'E0502'}, 'let mut ds = DataSet::new();\nlet a = ds.get_global_attr_i8("a").unwrap();\n<<ds.remove_global_attr("a").unwrap();>>a.len();', ''),
 ('writer-closed', {'E0382'}, SETUP + END + '<<fw.header_is_defined();>>', ''),
 ('writer-closed-write', {'E0382'}, SETUP + END + '<<fw.write_var_i8("v", &[1]).unwrap();>>', ''),
 ('reader-closed', {'E0382'}, 'let mut fr = FileReader::open("x").unwrap();\nlet (ds, v) = fr.close();\n<<fr.read_var("v").unwrap();>>', ''),
 ('writer-copy', {'E0277'}, 'fn dup<T<<: Clone>>>(t: T) {}\nlet fw = FileWriter::open("x").unwrap();\ndup(fw);', ''),
]
STRUCTS = ['data_set::DataSet', 'data_set::variable::Variable', 'data_set::attribute::Attribute', 'data_set::dimension::Dimension', 'io::file_writer::FileWriter', 'io::file_reader::FileReader']

REPLACE = {
 'P04': ('replace-var', {'E0594', 'E0277', 'E0308'}, 'let mut ds = DataSet::new();\nlet mut other = DataSet::new();\n<<*ds.get_var_mut("v").unwrap() = other.remove_var("w").unwrap();>>', 'ds.get_var_mut("v"); other.remove_var("w");'),
 'P01': ('duplicate-var', {'E0594', 'E0277', 'E0308'}, 'let mut ds = DataSet::new();\n<<let b = ds.get_var("b").unwrap().clone(); *ds.get_var_mut("a").unwrap() = b;>>', 'ds.get_var("b"); ds.get_var_mut("a");'),
}
def run(rep, ctx):
    rep.cov['explanation'] = ('Each witness is an external program which modifies a definition in use, reaches a private field or uses a closed writer or reader; '
                              'it must be rejected by the type checker with the expected error code on the current tree, and its twin without the offending text must be accepted. '
                              'Fields are enumerated from the type-checked library; summaries show that functions with only shared access change nothing.')
    F = ctx.raw
    ws = [(n, c, b, t) for n, c, b, t in W]
    nf = 0
    tys = F['types']
    for a in F['adts']:
        if a['path'] in STRUCTS:
            t = tys[a['ty']]
            s = a['path'].split('::')[-1]
            for v in t['vs']:
                for name, ty, vis in v['f']:
                    nf += 1
                    ws.append(('field:%s.%s' % (s, name), {'E0616'}, 'fn f(x: &%s) { let y = <<&x.%s>>; }' % (s, name), 'x'))
            fs = ', '.join('%s: unreachable!()' % f[0] for f in t['vs'][0]['f'])
            ws.append(('literal:' + s, {'E0451'}, 'let x: %s = <<%s { %s }>>;' % (s, s, fs), 'unreachable!()'))
    rep.floor('private fields', nf, 20)
    rep.floor('witnesses', len(ws), 45)
    witnesses(rep, ctx, ws)
    rep.floor('witnesses that conclude', sum(1 for k, v in rep.obl.items() if k.startswith('witness:') and v != 'residual'), 45)

def replace(rep, ctx, pid):
    witnesses(rep, ctx, [REPLACE[pid]])

def witnesses(rep, ctx, ws):
    tmp = tempfile.mkdtemp(prefix='p24', dir=ctx.cache())
    try:
        lib, deps, env = build.rmeta(os.path.join(tmp, 'target'))
        def comp(name, body):
            src = os.path.join(tmp, re.sub(r'\W', '_', name) + '.rs')
            with open(src, 'w') as f:
                f.write(PRE + 'pub fn witness() {\n' + body + '\n}\n')
            p = subprocess.run(['rustc', '+nightly', '--edition', '2018', '--crate-type', 'lib', '--emit=metadata', '--error-format=json', '-o', src[:-3] + '.rmeta',
                                '--extern', 'netcdf3=' + lib] + [x for d in deps for x in ('-L', 'dependency=' + d)] + [src], env=env, cwd=tmp, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            codes = []
            msg = []
            for l in p.stderr.decode().splitlines():
                try:
                    m = json.loads(l)
                except ValueError:
                    continue
                if m.get('level') == 'error':
                    if m.get('code'):
                        codes.append(m['code']['code'])
                    msg.append(m['message'])
            return p.returncode, codes, msg
        def one(w):
            n, codes, body, twin = w
            bad = body.replace('<<', '').replace('>>', '')
            good = re.sub(r'<<.*?>>', lambda m: twin, body, flags=re.S)
            return w, comp(n + '_bad', bad), comp(n + '_twin', good)
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, ws))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for (n, codes, body, twin), (rc, cs, msg), (rc2, cs2, msg2) in res:
        prog = body.replace('\n', ' ')
        if rc == 0:
            rep.bad('witness:' + n, 'this program is accepted by the type checker and must not be: %s' % prog)
        elif rc2 != 0:
            rep.residual('witness:' + n, 'the twin is rejected too (%s): the public interface it uses has changed, nothing is concluded' % '; '.join(msg2)[:300])
        elif not set(cs) & codes:
            rep.residual('witness:' + n, 'rejected, but for another reason (%s)' % '; '.join(msg)[:300])
        else:
            rep.ok('witness:' + n, 'rejected with ' + ','.join(sorted(set(cs))))
