from vlib import *


def run(ctx):
    exe = build('strings', ['strings.cxx'])
    tlc_design(ctx, 'ExcitationsDesign')
    t = ctx.path('p03.ndjson')
    if ctx.run([exe, 'p03'], t):
        ctx.check_trace('ExcitationsTrace', t, workers=8)
