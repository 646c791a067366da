"""P10: writer and reader (see engine/wspec.py and engine/rspec.py)."""
import io_rules
TECHNIQUE = io_rules.TECH
def run(rep, ctx):
    io_rules.run(rep, ctx, 'P10', 'Specification: a call during which an executed file operation fails returns an error; with operations which move fewer bytes than requested the result is the same or an error.')
