from vlib import *

SRC = ['orbital_rotation_utilities', 'orbital_gradient', 'orbital_hessian', 'orbital_steps', 'fock_matrices', 'transform', 'casscf']


def run(ctx):
    exe = build('mcscf', ['mcscf.cxx', 'pmpi.cxx'], macis=['src/macis/%s.cxx' % s for s in SRC])
    tlc_design(ctx, 'McscfDesign')
    jobs = []
    lim = 60 if not ctx.thorough else 600
    t = ctx.path('fixed.ndjson')
    if ctx.run([exe, 'fixed'], t, np=1, timeout=lim):
        jobs.append(dict(spec='McscfTrace', path=t, workers=3))
    for np in ([1, 3] if not ctx.thorough else [1, 2, 3, 4]):
        t = ctx.path('cas%d.ndjson' % np)
        if ctx.run([exe, 'cas'], t, np=np, timeout=lim):
            jobs.append(dict(spec='McscfTrace', path=t, workers=2))
    ctx.check_traces(jobs, par=3)
