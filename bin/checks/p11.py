from vlib import *


def run(ctx):
    exe = build('asci', ['asci.cxx', 'pmpi.cxx'])
    tlc_design(ctx, 'AccumulateDesign')
    if ctx.thorough:
        tlc_design(ctx, 'AccumulateDesign', 'AccumulateDesign6', timeout=6000)
    t = ctx.path('acc.ndjson')
    if ctx.run([exe, 'p11'], t, np=1):
        ctx.check_trace('AccumulateTrace', t, workers=8, timeout=3000)
