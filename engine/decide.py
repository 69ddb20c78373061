from interp import Program
import checks, structural, alllen

TECH = {}


def decide(pid, tier, d, pre):
    prog = Program([d, pre])
    ctx = checks.Ctx(prog, tier, pid)
    for s in checks.ALL:
        if checks.ctor_key(prog, s) is None:
            ctx.finding('anchor/' + s, 'the transform %s or its constructor was not found' % s, '')
    if ctx.findings:
        return ctx
    if pid in checks.TRANSFORM:
        checks.check_transform(ctx, checks.TRANSFORM[pid])
    elif pid == 'C14':
        structural.check_C14(ctx, d)
    else:
        getattr(checks, 'check_' + pid)(ctx)
    return ctx


RULE = {
    'C14': 'no transform type holds interior mutability, raw mutable pointers or lifetimes to globals; no function reachable from the public API touches a static, '
           'an impure or environment-dependent call, an address-to-integer conversion, or casts away the constness of &self',
}
ALLLEN = ' First every (transform, method) pair is analysed with symbolic lengths, inner scratch demands, chunk counts and slice lengths ("proofs": loops ' \
         'summarised by inferred invariants, every obligation on every path discharged or listed under not_proven); constant-length instances then cover what is ' \
         'not parametric (Radix4, RadersAlgorithm) or not proven, and cross-check the rest.'


def rule(pid):
    if pid in RULE:
        return RULE[pid]
    if pid in checks.TRANSFORM:
        return 'abstract interpretation of the MIR at constant lengths with symbolic samples and opaque inner transforms: the affine form of every output cell equals ' \
               'the cas coefficients of its chunk (projection on generic weights, mismatches located and recomputed exactly)'
    r = {'C08': 'every unchecked access, pointer offset and raw slice lies inside its object, for arbitrary arguments',
         'C09': 'every path to a normal return implies valid arguments',
         'C10': 'no panic edge is reachable from valid arguments',
         'C11': 'no old scratch or output cell occurs in the term of any output',
         'C12': 'the affine forms of q chunks are q copies of those of one chunk',
         'C13': 'reported length equals the documented one; constructor returns exactly for the documented parameters',
         'C15': 'every loop has a bounded trip count; zero-length transforms return',
         'C16': 'no sample constant is derived from a single-precision value, deviates from its exact value, or accumulates more than a fixed number of roundings',
         'C17': 'every call of an inner transform has whole chunks, equal lengths and enough scratch',
         'C18': 'no branch, index or non-linear operation depends on a sample; no constant term'}[pid]
    return r + '.' + (ALLLEN if pid in ('C08', 'C09', 'C10', 'C13', 'C15', 'C17', 'C18') else ' Decided at constant lengths for all sample values and any inner transform.')


def evidence(ctx, pid, tier, seed, wall):
    cov = {'explanation': rule(pid), 'functions_analysed': sorted(k for k in ctx.fns if k.startswith('rustdht')), 'undecided': ctx.undecided,
           'samples': ctx.samples, 'literals_steering_the_instances': ctx.mined, 'findings': ctx.findings}
    cov['functions_analysed_count'] = len(cov['functions_analysed'])
    cov.update(ctx.stats)
    if getattr(ctx, 'proof', None):
        cov['proofs'] = ctx.proof
        cov['proven_for_all_lengths'] = sorted(ctx.proven)
        cov['constant_lengths_only'] = dict(alllen.NOT_PARAMETRIC)
    return {'property': pid, 'tier': tier, 'seed': seed, 'level': 'other', 'coverage': cov, 'wall_s': round(wall, 2), 'violations': 0}
