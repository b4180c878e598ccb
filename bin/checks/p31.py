from vlib import *
from checks.p30 import legacy


def run(ctx):
    tlc_design(ctx, 'LegacyTabDesign')
    exe = legacy('legacytab', ['legacytab.cxx'], ['combins', 'slaterdet', 'hamil', 'rdms', 'utils'])
    jobs = []
    for m in ['file', 'tab']:
        t = ctx.path('p31_%s.ndjson' % m)
        if ctx.run([exe, m], t, np=1):
            jobs.append(dict(spec='LegacyTabTrace', path=t, workers=4))
    ctx.check_traces(jobs, par=2)
