import glob
from vlib import *


def run(ctx):
    exe = build('quickselect', ['quickselect.cxx', 'pmpi.cxx'], internals=True)
    tlc_design(ctx, 'Quickselect')
    if ctx.thorough:
        tlc_design(ctx, 'Quickselect', 'Quickselect5', timeout=3000)
    jobs = []
    for np in ([1, 2, 3, 5] if not ctx.thorough else range(1, 9)):
        t = ctx.path('np%d.ndjson' % np)
        if ctx.run([exe], t, np=np, timeout=90):
            for f in sorted(glob.glob(t + '*')):
                jobs.append(dict(spec='QuickselectTrace', path=f))
    ctx.check_traces(jobs)
