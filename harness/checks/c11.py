'''C11: objectives add like a monoid; back-propagation stores scaled statistics.'''
from training import Replay

BASE = dict(MaxP=3, MaxG=2, MaxOps=12, MaxFrames=2, Sizes=[4, 10], MaxSteps=3, PrintOut=True)


def behaviours(ctx, num, **kw):
    c = dict(BASE, WithSave=True, WithGrad=False)
    c.update(kw)
    return ctx.tlc('Training', c, invariants=['Monoid', 'Positive', 'IdleRound', 'Emit'], simulate=num, depth=c['MaxOps'] + 5, timeout=800)


def replay_all(ctx, beer, prints, with_w, clause):
    seen = set()
    for k, case in enumerate(prints):
        key = str((case['groups'], case['hist']))
        if key in seen:
            continue
        seen.add(key)
        with ctx.guard(clause + '-raises', case):
            Replay(ctx, beer, case, with_w, with_w or k % 3 == 0, clause).run()
        ctx.validated += 1
        if len(case['evals']) > 2:
            ctx.sample([{a: b for a, b in h.items() if a != 'post'} for h in case['hist']])
        if ctx.enough():
            return


def run(ctx):
    import beer
    n = ctx.pick(2500, 20000)
    # the whole graph of a small configuration: every order of operations
    r = ctx.tlc('Training', dict(MaxP=1, MaxG=1, MaxOps=4, MaxFrames=1, Sizes=[4], MaxSteps=2, PrintOut=True,
                                 WithSave=True, WithGrad=False), invariants=['Monoid', 'Positive', 'Emit'],
                properties=['OneGroup'], init='Init', workers=8, timeout=800)
    useful = {'eval', 'backward', 'add'}
    replay_all(ctx, beer, [c for c in r.prints if sum(h['op'] in useful for h in c['hist']) >= ctx.pick(3, 2)], False, 'objective')
    replay_all(ctx, beer, behaviours(ctx, n).prints, False, 'objective')
    replay_all(ctx, beer, behaviours(ctx, n // 2, MaxFrames=3, Sizes=[6], MaxOps=9, MaxP=2).prints, False, 'objective')
    replay_all(ctx, beer, behaviours(ctx, n // 2, WithSave=False, WithGrad=True).prints, True, 'objective-grad')
