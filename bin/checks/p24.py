from vlib import *


def run(ctx):
    tlc_design(ctx, 'DavidsonDesign')
    exe = build('davidson', ['davidson.cxx', 'pmpi.cxx'], internals=True)
    jobs = []
    t = ctx.path('serial.ndjson')
    if ctx.run([exe, 'serial'], t):
        jobs.append(dict(spec='DavidsonTrace', path=t, workers=2))
    for np in ([1, 2, 3, 5] if not ctx.thorough else range(1, 9)):
        t = ctx.path('np%d.ndjson' % np)
        if ctx.run([exe, 'par'], t, np=np, timeout=120):
            jobs.append(dict(spec='DavidsonTrace', path=t, workers=2))
    ctx.check_traces(jobs, par=4)
