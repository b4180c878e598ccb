from vlib import *


def run(ctx):
    exe = build('spmd', ['spmd.cxx', 'pmpi.cxx'], macis=['src/macis/transform.cxx'])
    tlc_design(ctx, 'SpmdDesign')
    if ctx.thorough:
        tlc_design(ctx, 'SpmdDesign', 'SpmdDesign3', timeout=800)
    jobs = []
    for np in ([1, 2, 3, 5] if not ctx.thorough else [1, 2, 3, 4, 5, 6, 8]):
        t = ctx.path('np%d.ndjson' % np)
        if ctx.run([exe], t, np=np, timeout=60 if not ctx.thorough else 200,
                   env={'MALLOC_PERTURB_': '0'}):   # large reserved buffers stay untouched
            jobs.append(dict(spec='SpmdTrace', path=t, workers=1))
    ctx.check_traces(jobs, par=4)
