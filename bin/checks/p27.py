from vlib import *


def run(ctx):
    exe = build('lobpcg', ['lobpcg.cxx'])
    tlc_design(ctx, 'LobpcgDesign')
    t = ctx.path('runs.ndjson')
    if ctx.run([exe], t, timeout=60 if not ctx.thorough else 600):
        ctx.check_trace('LobpcgTrace', t, workers=7, timeout=2000)
