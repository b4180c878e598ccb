from vlib import *


def run(ctx):
    exe = build('diis', ['diis.cxx'])
    tlc_design(ctx, 'DiisDesign')
    t = ctx.path('histories.ndjson')
    if ctx.run([exe], t, timeout=60 if not ctx.thorough else 300):
        ctx.check_trace('DiisTrace', t, workers=7, timeout=2000)
