from vlib import *


def run(ctx):
    exe = build('files', ['files.cxx'], macis=['src/macis/fcidump.cxx'])
    tlc_design(ctx, 'FilesDesign')
    t = ctx.path('hist.ndjson')
    if ctx.run([exe], t, timeout=60 if not ctx.thorough else 300):
        ctx.check_trace('FilesTrace', t, workers=6)
