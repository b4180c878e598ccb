from vlib import *


def run(ctx):
    exe = build('asci', ['asci.cxx', 'pmpi.cxx'])
    tlc_design(ctx, 'AsciDesign')
    if ctx.thorough:
        tlc_design(ctx, 'AsciDesign', 'AsciDesign3', timeout=6000)
    jobs = []
    for np in ([2, 3, 5] if not ctx.thorough else range(2, 9)):
        t = ctx.path('np%d.ndjson' % np)
        if ctx.run([exe, 'p10'], t, np=np, timeout=120):
            jobs.append(dict(spec='AsciTrace', path=t, workers=2, timeout=3000))
    ctx.check_traces(jobs, par=4)
