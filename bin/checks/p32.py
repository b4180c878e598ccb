from vlib import *
from checks.p30 import legacy


def run(ctx):
    tlc_design(ctx, 'KrylovDesign')
    if ctx.thorough:
        tlc_design(ctx, 'KrylovDesign', 'KrylovDesign3')
    exe = legacy('legacykrylov', ['legacykrylov.cxx'], ['combins', 'slaterdet', 'hamil', 'rdms', 'utils', 'eigsolver', 'bandlan', 'ed'], mpich=True)
    jobs = []
    for m in ['lan', 'dense', 'band', 'ed']:
        t = ctx.path('p32_%s.ndjson' % m)
        if ctx.run([exe, m], t, env={'OMP_NUM_THREADS': '1'}, timeout=60):
            jobs.append(dict(spec='KrylovTrace', path=t, workers=3))
    ctx.check_traces(jobs, par=3)
