"""P09: writer and reader (see engine/wspec.py and engine/rspec.py)."""
import io_rules
TECHNIQUE = io_rules.TECH
def run(rep, ctx):
    io_rules.run(rep, ctx, 'P09', 'Specification: a definition writes max(required size, requested size) bytes rounded up to a multiple of 4, zero after the header, and the begin offset of the first variable is this size.')
