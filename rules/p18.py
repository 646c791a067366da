"""P18: reader (see engine/rspec.py)."""
import io_rules
TECHNIQUE = io_rules.TECH
def run(rep, ctx):
    io_rules.run(rep, ctx, 'P18', 'Specification: under hostile contents, the condition of no panic site of the opening and reading functions holds, and no allocation exceeds the size of the file by more than a constant factor.')
