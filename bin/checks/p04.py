from vlib import *


def run(ctx):
    exe = build('ham', ['ham.cxx'])
    tlc_design(ctx, 'FockDesign')
    tlc_design(ctx, 'FockDesign', 'FockDesign3')
    if ctx.thorough:
        tlc_design(ctx, 'FockDesign', 'FockDesign4', timeout=3000)
    t = ctx.path('p04.ndjson')
    if ctx.run([exe, 'p04'], t):
        ctx.check_trace('FockTrace', t, workers=8, timeout=3000)
