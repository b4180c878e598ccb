from vlib import *


def run(ctx):
    exe = build('sparse', ['sparse.cxx'])
    tlc_design(ctx, 'SparseDesign', 'SparseDesign3')
    if ctx.thorough:
        tlc_design(ctx, 'SparseDesign', 'SparseDesign3', timeout=800)
    t = ctx.path('conv.ndjson')
    if ctx.run([exe, 'conv'], t, timeout=60):
        ctx.check_trace('SparseTrace', t, workers=6)
