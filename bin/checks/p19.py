from vlib import *


def run(ctx):
    exe = build('transform', ['transform.cxx'], macis=['src/macis/transform.cxx'])
    tlc_design(ctx, 'TransformDesign')
    if ctx.thorough:
        tlc_design(ctx, 'TransformDesign', 'TransformDesign3')
    t = ctx.path('calls.ndjson')
    if ctx.run([exe], t, timeout=60):
        ctx.check_trace('TransformTrace', t, workers=6)
