import p06
TECHNIQUE = p06.TECHNIQUE
def run(rep, ctx):
    p06.run(rep, ctx, 'P07')
