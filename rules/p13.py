"""P13: writer and reader (see engine/wspec.py and engine/rspec.py)."""
import io_rules
TECHNIQUE = io_rules.TECH
def run(rep, ctx):
    io_rules.run(rep, ctx, 'P13', 'Specification: closing writes exactly the fill bytes of the records which no successful write has provided, after any history of writes, failed writes included.')
