"""P20: reader (see engine/rspec.py)."""
import io_rules
TECHNIQUE = io_rules.TECH
def run(rep, ctx):
    io_rules.run(rep, ctx, 'P20', 'Specification: in a session of reads, failed ones included, each read returns the values of the file at the place of the format, as on a new reader, and changes neither the data set nor the file.')
