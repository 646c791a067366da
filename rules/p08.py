"""P08: writer and reader (see engine/wspec.py and engine/rspec.py)."""
import io_rules
TECHNIQUE = io_rules.TECH
def run(rep, ctx):
    io_rules.run(rep, ctx, 'P08', 'Specification: the bytes written by a successful definition are those of the NetCDF-3 classic grammar applied to the data set, field by field.')
