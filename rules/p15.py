"""P15: writer and reader (see engine/wspec.py and engine/rspec.py)."""
import io_rules
TECHNIQUE = io_rules.TECH
def run(rep, ctx):
    io_rules.run(rep, ctx, 'P15', 'Specification: the flags with which files are opened, what is opened, and the states of the definition through refused, failed and repeated definitions.')
