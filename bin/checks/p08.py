from vlib import *


def run(ctx):
    exe = build('asci', ['asci.cxx', 'pmpi.cxx'])
    tlc_design(ctx, 'ConstraintsDesign')
    if ctx.thorough:
        tlc_design(ctx, 'ConstraintsDesign', 'ConstraintsDesign6', timeout=6000)
    jobs = []
    t = ctx.path('con.ndjson')
    if ctx.run([exe, 'p08'], t, np=1):
        jobs.append(dict(spec='ConstraintsTrace', path=t, workers=4, timeout=3000))
    for np in ([1, 2, 3, 5] if not ctx.thorough else range(1, 9)):
        t = ctx.path('deal%d.ndjson' % np)
        if ctx.run([exe, 'p08d'], t, np=np, timeout=90):
            jobs.append(dict(spec='ConstraintsTrace', path=t))
    ctx.check_traces(jobs, par=5)
