"""P11: writer and reader (see engine/wspec.py and engine/rspec.py)."""
import io_rules
TECHNIQUE = io_rules.TECH
def run(rep, ctx):
    io_rules.run(rep, ctx, 'P11', 'Specification: begin offsets accumulate the padded sizes, fixed-size variables first; each write, fill and read acts on begin + index x record size and covers the padded size.')
