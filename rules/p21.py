"""P21: reader (see engine/rspec.py)."""
import io_rules
TECHNIQUE = io_rules.TECH
def run(rep, ctx):
    io_rules.run(rep, ctx, 'P21', 'Specification: a read succeeds exactly when the variable exists, has the type of the method and the record index is lower than the number of records; otherwise the error is the corresponding one; the number of values is the length asked.')
