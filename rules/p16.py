"""P16: writer and reader (see engine/wspec.py and engine/rspec.py)."""
import io_rules
TECHNIQUE = io_rules.TECH
def run(rep, ctx):
    io_rules.run(rep, ctx, 'P16', 'Specification: definitions are refused exactly when an offset does not fit the version, with the documented error; counts and sizes which do not fit are written as the indeterminate value.')
