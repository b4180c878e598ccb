from vlib import *


def run(ctx):
    exe = build('active', ['active.cxx'], macis=['src/macis/fock_matrices.cxx', 'src/macis/orbital_energies.cxx'])
    tlc_design(ctx, 'ActiveDesign')
    if ctx.thorough:
        tlc_design(ctx, 'ActiveDesign', 'ActiveDesign4', timeout=3000)
    t = ctx.path('calls.ndjson')
    if ctx.run([exe], t, timeout=60):
        ctx.check_trace('ActiveTrace', t, workers=6)
