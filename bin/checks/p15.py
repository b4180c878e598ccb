from vlib import *


def run(ctx):
    exe = build('sparse', ['sparse.cxx'])
    dist = build('sparsedist', ['sparsedist.cxx', 'pmpi.cxx'])
    tlc_design(ctx, 'SparseDesign', 'SparseDesign3')
    tlc_design(ctx, 'DistSpmv')
    jobs = []
    t = ctx.path('prod.ndjson')
    if ctx.run([exe, 'prod'], t, timeout=60):
        jobs.append(dict(spec='SparseTrace', path=t, workers=4))
    for np in ([1, 2, 3, 5] if not ctx.thorough else [1, 2, 3, 4, 5, 6, 8]):
        t = ctx.path('np%d.ndjson' % np)
        if ctx.run([dist], t, np=np, timeout=60 if not ctx.thorough else 200):
            jobs.append(dict(spec='SparseTrace', path=t, workers=2))
    ctx.check_traces(jobs, par=4)
