"""P19: reader (see engine/rspec.py)."""
import io_rules
TECHNIQUE = io_rules.TECH
def run(rep, ctx):
    io_rules.run(rep, ctx, 'P19', 'Specification: opening succeeds for headers of any length, whatever the place where the loaded bytes end, and fails for a file cut inside its header; the loading loop ends.')
