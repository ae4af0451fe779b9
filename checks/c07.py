"""C07: the sampling context is only a cache."""
from sampling import *

NOTE = ('SamplingJob::run is interpreted abstractly; the tables of the context are named through its public accessors. Every loop that touches them is classified by what it '
        'writes, its step is summarised per path and compared with the two cursor moves; the start of every channel is decided on all loop-free paths.')


def run(rep):
    rep.rule('owner', 'another animation resets all three cursors; a cursor of 0 leads to a complete setup of cache and flags')
    rep.rule('moves', 'the cursor advances while the preceding key of the next key is not after the ratio, and goes back while it is; each move changes the one track concerned and flags its group')
    rep.rule('refresh', 'flagged groups are decompressed again from the current keys; nothing else writes the tables')
    try:
        M = Sampling(rep)
        check(rep, M)
    except (Bad, Mystery, OverflowError, KeyError) as x:
        rep.fail('SamplingJob::run', 'not understood: %s' % x)


def check(rep, M):
    for c in M.chans:
        M.moves(c)
    start, conds, env = M.it.body.entry, (), {}
    for i, c in enumerate(M.chans):
        M.init(c, start, conds, env)
        start, conds, env = c.saved, (), {}
    M.owner()
    for c in M.chans:
        M.refresh(c, values=False)
    M.frame()
    clearing(rep)


def clearing(rep):
    """clear() leaves nothing behind that a later run would take over"""
    key = 'SamplingContext::clear'
    it = interp(key, rep=rep)
    if not rep.ob(it is not None, key, 'function not found'):
        return
    q = Q(it, norm=norm_job)
    last = {}
    for e in q.events('store'):
        r, p = unproj(rebase(q.canon(e['loc'][0][1]), e['loc'][1])) if e['loc'][0][0] == 'M' else (None, None)
        last[(r, p)] = e
    for name in CHANNELS:
        loc = unproj(q.canon(at('SamplingContext::%s_next' % name, mk('arg', 1))))
        e = last.get(loc)
        ok = e is not None and q.canon(e['value']) is const(0) and all(q.dominates(e['block'], r['block']) for r in returns(q))
        rep.ob(ok, 'clear: %s' % name, 'a cleared context keeps the %s cursor' % name)
