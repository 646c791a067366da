import p01
TECHNIQUE = p01.TECHNIQUE
def run(rep, ctx):
    p01.run(rep, ctx, 'P05')
