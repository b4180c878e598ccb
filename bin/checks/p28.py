from vlib import *


def run(ctx):
    exe = build('bfgs', ['bfgs.cxx'])
    tlc_design(ctx, 'QuasiDesign')
    tlc_design(ctx, 'WolfeDesign', 'WolfeDesign5' if ctx.thorough else 'WolfeDesign')
    jobs = []
    for mode in ('line', 'hess', 'bfgs'):
        t = ctx.path(mode + '.ndjson')
        if ctx.run([exe, mode], t, timeout=60 if not ctx.thorough else 600):
            jobs.append(dict(spec='QuasiTrace', path=t, workers=3))
    ctx.check_traces(jobs, par=3)
