from vlib import *


def run(ctx):
    exe = build('strings', ['strings.cxx'])
    tlc_design(ctx, 'ExcitationsDesign')
    t = ctx.path('p02.ndjson')
    if ctx.run([exe, 'p02'], t):
        ctx.check_trace('ExcitationsTrace', t, workers=8)
