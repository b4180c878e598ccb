from vlib import *


def run(ctx):
    exe = build('strings', ['strings.cxx'])
    tlc_design(ctx, 'BitsDesign')
    t = ctx.path('p01.ndjson')
    if ctx.run([exe, 'p01'], t):
        ctx.check_trace('BitsTrace', t, workers=8)
