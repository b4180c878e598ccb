from vlib import *

SRC = ['orbital_rotation_utilities', 'orbital_gradient', 'orbital_hessian', 'orbital_steps', 'fock_matrices', 'transform']


def run(ctx):
    exe = build('orbital', ['orbital.cxx'], macis=['src/macis/%s.cxx' % s for s in SRC])
    tlc_design(ctx, 'OrbitalDesign')
    if ctx.thorough:
        tlc_design(ctx, 'OrbitalDesign', 'OrbitalDesign4', timeout=3000)
    t = ctx.path('calls.ndjson')
    if ctx.run([exe], t, timeout=60 if not ctx.thorough else 400):
        ctx.check_trace('OrbitalTrace', t, workers=7, timeout=2000)
