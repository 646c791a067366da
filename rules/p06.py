"""P06 and P07: typed accessors and queries."""
import dsspec, qspec, par
from util import *
TECHNIQUE = TECH
TEXT = {
 'P06': 'Specification: the addition of an attribute stores its values and type; each typed getter returns the stored values if and only if its type is the stored one; type, length and string form are those of the stored values.',
 'P07': 'Specification: each query answers about the item bearing the name, or that there is none; list queries return every item in order; no location is changed.',
}
def run(rep, ctx, pid='P06'):
    expl(rep, TEXT[pid])
    api(rep, ctx, [qspec.KINDS[k][0] + '::' + x for k, t in qspec.TABLE[pid] for x in t if x != 'get_as_string' or k != 'X'], {'P06': 34, 'P07': 54}[pid])
    par.lib()
    js = qspec.jobs(pid)
    if pid == 'P06':
        js += dsspec.jobs('P06')
    par.run(rep, js)
