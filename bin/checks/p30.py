from vlib import *


def legacy(name, sources, attic, mpich=False):
    """A harness over the legacy library in attic/ (C++20).  Its MPI code needs
    compile-time MPI types, which only MPICH has (as in /opt/vp/build.sh)."""
    lib = '/usr/lib/x86_64-linux-gnu/'
    mpi = lib + ('mpich' if mpich else 'openmpi') + '/include'
    ld = ['-fopenmp', '-lmpich', '-llapackpp', '-lblaspp', '-lblas', '-llapack', '-latomic', '-lpthread', '-lm'] if mpich else None
    return build(name, sources, macis=['attic/src/cmz_ed/%s.c++' % a for a in attic], std='c++20',
                 extra_flags=['-include memory', '-include optional'],
                 incs=['-I%s/harness' % VERIF, '-I%s/attic/inc' % REPO, '-I%s/inc' % BUILD,
                       '-I%s/attic/external/lobpcgxx/include' % REPO, '-I%s/attic/external/sparsexx/include' % REPO,
                       '-isystem', mpi, '-isystem', '/usr/include/eigen3'], ldflags=ld)


def run(ctx):
    tlc_design(ctx, 'LegacyDesign')
    if ctx.thorough:
        tlc_design(ctx, 'LegacyDesign', 'LegacyDesign4', timeout=3000)
    exe = legacy('legacy', ['legacy.cxx'], ['combins', 'slaterdet', 'hamil', 'rdms', 'utils'])
    jobs = []
    for m in ['det', 'ham', 'rdm']:
        t = ctx.path('p30_%s.ndjson' % m)
        if ctx.run([exe, m], t):
            jobs.append(dict(spec='LegacyTrace', path=t, workers=3))
    ctx.check_traces(jobs, par=3)
