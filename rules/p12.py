"""P12: writer and reader (see engine/wspec.py and engine/rspec.py)."""
import io_rules
TECHNIQUE = io_rules.TECH
def run(rep, ctx):
    io_rules.run(rep, ctx, 'P12', 'Specification: a write is refused if and only if one of the documented reasons applies, and a refused write leaves the file, its position and the writer unchanged.')
