"""P22: reader (see engine/rspec.py)."""
import io_rules
TECHNIQUE = io_rules.TECH
def run(rep, ctx):
    io_rules.run(rep, ctx, 'P22', 'Specification: the number of records of the data set read is the one stated, or the size from the first record variable divided by the record size; the file is refused if this is not whole.')
