"""P14: writer and reader (see engine/wspec.py and engine/rspec.py)."""
import io_rules
TECHNIQUE = io_rules.TECH
def run(rep, ctx):
    io_rules.run(rep, ctx, 'P14', 'Specification: values are written, filled and read by the big-endian encoding of their type, in order.')
