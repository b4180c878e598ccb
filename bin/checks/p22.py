from vlib import *


def run(ctx):
    exe = build('grow', ['grow.cxx', 'pmpi.cxx'], macis=['src/macis/transform.cxx'])
    tlc_design(ctx, 'Grow')
    jobs = []
    for np in ([1, 2, 3] if not ctx.thorough else [1, 2, 3, 4, 6]):
        t = ctx.path('np%d.ndjson' % np)
        if ctx.run([exe], t, np=np, timeout=60 if not ctx.thorough else 200):
            jobs.append(dict(spec='GrowTrace', path=t, workers=2))
    ctx.check_traces(jobs, par=4)
