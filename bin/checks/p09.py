from vlib import *


def run(ctx):
    exe = build('asci', ['asci.cxx', 'pmpi.cxx'])
    tlc_design(ctx, 'AsciDesign')
    t = ctx.path('search.ndjson')
    if ctx.run([exe, 'p09'], t, np=1):
        ctx.check_trace('AsciTrace', t, workers=8, timeout=3000)
