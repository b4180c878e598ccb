from vlib import *


def run(ctx):
    exe = build('ci', ['ci.cxx', 'pmpi.cxx'])
    tlc_design(ctx, 'CiGuess')
    jobs = []
    for np in ([1, 2, 3, 5] if not ctx.thorough else range(1, 8)):
        t = ctx.path('np%d.ndjson' % np)
        if ctx.run([exe], t, np=np, timeout=60):
            jobs.append(dict(spec='CiTrace', path=t, workers=2))
    ctx.check_traces(jobs, par=4)
