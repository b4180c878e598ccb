from vlib import *


def run(ctx):
    exe = build('sparse', ['sparse.cxx'])
    dist = build('sparsedist', ['sparsedist.cxx', 'pmpi.cxx'])
    tlc_design(ctx, 'SparseDesign', 'SparseDesign3')
    jobs = []
    t = ctx.path('files.ndjson')
    if ctx.run([exe, 'files'], t, timeout=60):
        jobs.append(dict(spec='SparseTrace', path=t, workers=4))
    for np in ([1, 3] if not ctx.thorough else [1, 2, 4, 7]):
        t = ctx.path('np%d.ndjson' % np)
        if ctx.run([dist], t, np=np, timeout=60 if not ctx.thorough else 200):
            jobs.append(dict(spec='SparseTrace', path=t, workers=2))
    ctx.check_traces(jobs, par=4)
