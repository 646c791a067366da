"""P17: reader (see engine/rspec.py)."""
import io_rules
TECHNIQUE = io_rules.TECH
def run(rep, ctx):
    io_rules.run(rep, ctx, 'P17', 'Specification: opening a file accepts exactly the headers a reference parser of the classic grammar accepts, and the data set of the reader is the one this parser builds.')
