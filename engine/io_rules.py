"""Common driver of the rules about files."""
import wspec, rspec, qspec, par
from util import *

W = ["io::file_writer::FileWriter::<'a>::" + x for x in ('open', 'create_new', 'set_def', 'close', 'header_is_defined')] + \
    ["io::file_writer::FileWriter::<'a>::write_%s_%s" % (k, t) for k in ('var', 'record') for t in wspec.TY]
R = [rspec.FR + x for x in ('open', 'close', 'data_set', 'version', 'read_var', 'read_record', 'read_all_vars')] + \
    [rspec.FR + 'read_%s_%s' % (k, t) for k in ('var', 'record') for t in wspec.TY]
def api_of(pid):
    return (W if pid in wspec.USE else []) + (R if pid in rspec.RUSE else [])

def run(rep, ctx, pid, text):
    expl(rep, text)
    rep.assume.append('the file operations of the standard library behave as documented (World model: faults and partial operations are injected into it)')
    fs = api_of(pid)
    api(rep, ctx, fs, len(fs))
    js = []
    if pid in wspec.USE:
        wspec.prepare(pid)
        js += wspec.jobs(pid)
    if pid in rspec.RUSE:
        rspec.prepare(pid)
        js += rspec.jobs(pid)
    if pid == 'P11':
        js += qspec.jobs('P11')
    par.lib()
    par.run(rep, js)
