EXPL = ('Every function named below is summarised from the MIR of the current tree as a value graph (global value numbering over memory, loops closed into comprehensions, '
        'no path enumeration, no solver). %s A summary that does not settle an obligation by its normal form is compared with the specification by random interpretation of both '
        '(Gulwani-Necula) over structured valuations seeded by VERIF_SEED; a difference, confirmed with a second interpretation of undefined values, is reported with the function and the valuation. '
        'The library is never run. Obligations whose summary could not be built or evaluated are listed as residual and conclude nothing.')
TECH = 'global value numbering of the MIR compared with an independent specification by normal form and random interpretation'
def expl(rep, what):
    rep.cov['explanation'] = EXPL % what
    rep.assume += ['the models of the standard library (Vec, String, Rc, RefCell, iterators, Option, Result, File) and of nom used by the summariser are right',
                   'memory allocation succeeds; data sets handed to an operation satisfy the invariants P01, P02 and P04']
def api(rep, ctx, paths, least):
    """public functions the rule is about: a missing one fails the check"""
    have = {r['path'] for r in ctx.raw['roots']} | {f['name'] for f in ctx.raw['fns']}
    n = 0
    for p in paths:
        if p in have:
            n += 1
        else:
            rep.bad('anchor:' + p, 'the public function %s is no longer in the library: the obligations about it cannot be stated' % p)
    rep.floor('functions under obligation', n, least)
