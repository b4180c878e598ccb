from vlib import *


def run(ctx):
    exe = build('pert', ['pert.cxx'], macis=['src/macis/moller_plesset.cxx', 'src/macis/orbital_energies.cxx'])
    tlc_design(ctx, 'PertDesign', 'PertDesignBig' if ctx.thorough else 'PertDesign')
    t = ctx.path('pert.ndjson')
    if ctx.run([exe], t, timeout=60 if not ctx.thorough else 300):
        ctx.check_trace('PertTrace', t, workers=7, timeout=2000)
