from vlib import *


def run(ctx):
    exe = build('hamdist', ['hamdist.cxx', 'pmpi.cxx'])
    tlc_design(ctx, 'FockDesign')
    tlc_design(ctx, 'DistSpmv')
    tlc_design(ctx, 'DistSpmv', 'DistSpmv32')
    if ctx.thorough:
        tlc_design(ctx, 'DistSpmv', 'DistSpmv3', timeout=6000)
    jobs = []
    for np in ([1, 2, 3, 5] if not ctx.thorough else [1, 2, 3, 4, 5, 6, 7, 8]):
        t = ctx.path('np%d.ndjson' % np)
        if ctx.run([exe], t, np=np, timeout=90):
            jobs.append(dict(spec='DistHamTrace', path=t, workers=2))
    ctx.check_traces(jobs, par=4)
