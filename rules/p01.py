"""P01 to P05: editing operations of the data set."""
import dsspec, rspec, p24, par
from util import *
TECHNIQUE = TECH
def run(rep, ctx, pid='P01'):
    expl(rep, TEXT[pid])
    api(rep, ctx, ['data_set::DataSet::' + x for x in dsspec.OPS] + ['data_set::variable::Variable::' + x for x in dsspec.VOPS], 39)
    par.lib()
    rspec.prepare(pid)
    par.run(rep, dsspec.jobs(pid) + dsspec.extra(pid) + rspec.jobs(pid))
    if pid in p24.REPLACE:
        p24.replace(rep, ctx, pid)
TEXT = {
 'P01': 'Specification: the names of each list are pairwise distinct after the operation, and an operation giving a name already used in the list returns an error.',
 'P02': 'Specification: every name is valid after the operation, an operation giving an invalid name returns an error, and the validity rule accepts exactly the documented names.',
 'P03': 'Specification: when the operation returns an error, the data set after it is the data set before it.',
 'P04': 'Specification: the invariants of dimensions and variables hold after the operation, and an operation which would break them returns an error.',
 'P05': 'Specification: an operation which breaks no rule succeeds, returns the item removed, and leaves exactly the data set of the specification.',
}
