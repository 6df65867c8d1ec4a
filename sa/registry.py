"""Which analyses decide which property."""
import re


class Anchor(Exception):
    """a construct the rules are anchored at is gone"""


TRUST = ["clang-18 C front end and opt (always-inline, sroa, mem2reg, adce only: no arithmetic is rewritten)",
         "cog generators of the tree itself (run to obtain the generated sources)",
         "the abstract interpreter and its transfer functions (sa/absint.py, sa/poly.py, sa/ir.py)",
         "the specifications in sa/spec_*.py"]
ASSUME = ["round-to-nearest, IEEE binary32/64", "operands of one call do not overlap unless documented", "index arithmetic does not overflow",
          "accumulators satisfy the documented entry invariants (bins consecutive, primaries inside their window)"]


def binned(groups=None, types="dzsc"):
    def suite(ctx, pid):
        import spec_binned as S
        prog = ctx.prog("AVX", ("binned",))
        d = S.Depth(ctx.thorough)
        missing = set()
        out = []
        for n, t in S.all_tasks(d, types, groups):
            if prog.lookup(t.fn) is None:
                missing.add(t.fn)
                continue
            t.prog = prog
            out.append(t)
        if missing:
            raise Anchor("specified functions no longer exist: %s" % ", ".join(sorted(missing)))
        return out
    return suite


def kern(slices, ops=None, comps=None, incs=None):
    """slices: (variant, folds, world, quick?) ; ops/comps restrict the kernels; incs: 'all' or 'ends' (all unit / none unit) for dot products"""
    def suite(ctx, pid):
        import itertools
        import kern as K
        out, missing, seen = [], set(), set()
        for variant, folds, world, quick in slices:
            if not quick and not ctx.thorough:
                continue
            prog = ctx.prog(variant, ("binned", "binnedBLAS"))
            for c in K.kernels():
                if ops and c.op not in ops or comps and c.cv not in comps:
                    continue
                if prog.lookup(c.fn) is None:
                    missing.add(c.fn)
                    continue
                for f in ([0] if c.ismax else folds):
                    for inc in itertools.product((1, None), repeat=c.nvec):
                        if incs == "ends" and not ctx.thorough and len(set(inc)) > 1:
                            continue
                        if (variant, c.fn, f, inc, world) in seen:
                            continue
                        seen.add((variant, c.fn, f, inc, world))
                        out.append(K.KernTask(prog, variant, c, f, inc, world))
        if missing:
            raise Anchor("specified kernels no longer exist: %s" % ", ".join(sorted(missing)))
        return out
    return suite


class Retag:
    """the obligations of another property on this function are also what decides `tag`"""
    def __init__(s, t, tag):
        s.t, s.fn, s.part, s.tag, s.cost = t, t.fn, t.part, tag, getattr(t, "cost", 0)
        s.tags = frozenset((tag,))

    def run(s):
        return [r._replace(tags=s.tags) if hasattr(r, "_replace") else type(r)(s.tags, r.fn, r.part, r.what, r.ok, r.detail) for r in s.t.run()]


def needer(prog, missing):
    def need(fn):
        if prog.lookup(fn) is None:
            missing.add(fn)
        return fn
    return need


def gone(missing):
    if missing:
        raise Anchor("specified functions no longer exist: %s" % ", ".join(sorted(missing)))


MT = ("P12", "P13", "P14", "P15")


def bmat(ctx, pid):
    """binned_?b?gemv / gemm: loop-nest summaries against the BLAS pairing"""
    import mat
    p = ctx.matprog()
    out, miss = [], set()
    need = needer(p, miss)
    for T in "dzsc":
        for k, spec, rule in (("gemv", mat.gemv_spec, mat.rule_bgemv), ("gemm", mat.gemm_spec, mat.rule_bgemm)):
            fn = need("binnedBLAS_%sb%s%s" % (T, T, k))
            cost = {"gemm": 10, "gemv": 2}[k] * (2 if T in "zc" else 1)
            out.append(mat.SummTask(p, fn, spec(T), T, rule, MT, "accumulates exactly the products of the BLAS definition", cost=cost))
    gone(miss)
    return out


def rmat(default=False):
    def suite(ctx, pid):
        import mat, wrap
        p = ctx.matprog()
        out, miss = [], set()
        need = needer(p, miss)
        for T in "dzsc":
            for k in "vm":
                cost = {"m": 10, "v": 2}[k] * (2 if T in "zc" else 1)
                if default:
                    sp = [x for x in wrap.rgem_spec(T, k) if x[0] != "fold"]
                    out.append(mat.SummTask(p, need("reproBLAS_%sgem%s" % (T, k)), sp, T, wrap.fixfold(wrap.rgem(k), ctx.folds[T]), ["P16"],
                                            "the folded routine with the configured default fold", cost=cost))
                else:
                    out.append(mat.SummTask(p, need("reproBLAS_r%sgem%s" % (T, k)), wrap.rgem_spec(T, k), T, wrap.rgem(k), MT,
                                            "every element of the result is beta times itself plus alpha times its products, each once", cost=cost))
        gone(miss)
        return out
    return suite


def wrappers(*tags):
    def suite(ctx, pid):
        import wrap
        p = ctx.matprog()
        miss = set()
        need = needer(p, miss)
        out = wrap.scalar_tasks(p, ctx.folds, tags, need) + wrap.packed_tasks(p, tags, need) + wrap.addv_tasks(p, tags, need)
        gone(miss)
        return out
    return suite


def addv(*tags):
    def suite(ctx, pid):
        import wrap
        p = ctx.matprog()
        miss = set()
        out = wrap.addv_tasks(p, tags, needer(p, miss))
        gone(miss)
        return out
    return suite


def mpi(*tags):
    def suite(ctx, pid):
        import wrap, summ
        p = ctx.matprog(True)
        el = {k: repr(summ.Summ(p, wrap.Contracts(), ()).run("sa_probe_" + k, [])) for k in "df"}
        miss = set()
        out = wrap.mpi_tasks(p, ctx.tree.getter, el, tags, needer(p, miss))
        gone(miss)
        return out
    return suite


def consts(ctx, pid):
    import consts as C
    return C.suite(ctx, pid)


def build(ctx, pid):
    import build19
    return build19.suite(ctx, pid)


def effects(ctx, pid):
    import effects as E
    return E.suite(ctx, pid)


BFORM = re.compile(r"binned_[dszc]{1,2}b")


def bforms(ctx, pid):
    """the packed forms of the binned layer, checked against the same specification as the general forms"""
    return [Retag(t, "P16") for t in binned()(ctx, pid) if BFORM.match(t.fn)]


def P(suites, level, explain, note, technique, **kw):
    return dict(suites=suites, level=level, explain=explain, note=note, technique=technique, **kw)


AI = "abstract interpretation of LLVM IR (value forms, intervals, bit domain) with trace partitioning over accumulator states"
SU = "loop-nest summaries of the LLVM IR (symbolic affine index sets over loop variables, path by path) compared with the index sets of the definition"
NOTE = ("Every obligation is decided on the IR of the current tree for all values inside each partition; folds and bins are enumerated as listed in the "
        "evidence. Trusts the clang front end and the abstract domains.")
Q, T = True, False
SUMS = ("sum", "asum", "dot", "ssq")
ALLF = [2, 3, 4, 5]
DEEP = [("AVX", ALLF, "fin", T), ("SSE", ALLF, "fin", T), ("SISD", ALLF + [6], "fin", T)]
X = {
    'kernels': "Every vector kernel (sum, asum, dot, dotu, dotc, ssq; d z s c) is executed abstractly on its LLVM IR, per ISA variant, per fold branch and per stride case (unit / any other), with N symbolic: the loops' index sets are summarised as affine sets and the multiset of (element, term, component) deposited is compared with {0..N-1} exactly once each; loads outside the vectors and partial vector loads are bounded by the path condition.",
    'deposit step': 'Each scalar deposit and each kernel deposit step is executed abstractly; the chain q=S; S+=x|1; q-=S; x+=q is recognised in value-form (not textually): per level the amount absorbed and the rest handed on must be exact, the last bit forced on the value added at every level, and compression/expansion applied iff the head is the largest bin.',
    'bound and renorm': 'Path by path through the block loop of each kernel: the bound passed to update covers (by amax of the same block of the same vectors) every element deposited afterwards, the number of deposits per slot between renormalisations is bounded symbolically by min(block, N) and compared with the endurance, and every path from a deposit to return passes a renorm of that accumulator.',
    'max': 'The index set of each max kernel is shown to be {0..N-1} per component with |.| applied to each operand before the comparison; empty vectors return zero.',
    'update': 'Abstract execution per pair (head bin, bound bin), fold and component with symbolic primaries and carries: the resulting cells must be exactly the kept cells at their new positions, then empty bins.',
    'value preservation': 'Abstract execution with primaries as intervals inside / outside their windows and symbolic carries; the exact (rational) value of every level before and after is compared as a polynomial.',
    'conversion': 'The returned value is a polynomial in the cells; it must be the specified weighted sum with each cell used once; exceptional and zero heads return the head itself.',
    'index': 'The index, bin and scale functions are evaluated abstractly on every binary exponent class of both signs (bit domain) against the definition.',
    'constants': 'Nine relations per precision over the constants of include/binned.h and config.h as clang evaluates them, and the published error bound functions read as real-number expressions for every supported fold.',
    'exceptional values': 'The trace partition includes NaN / +-inf for each operand and component; the result must carry the exception in the head of that component only, and finite partitions must not change.',
    'components': "All complex functions and kernels with the two components in independently chosen states; every cell of one component must be a function of that component's inputs alone, equal to the real specification.",
    'pairing': 'Every gemv/gemm (binned_ and reproBLAS_r forms, 4 types) is summarised path by path (order, transposition, alpha/beta class, degenerate sizes) into affine index sets over its loop variables; products are compared with the BLAS definition for symbolic M, N, K, lda, ldb, ldc, inc, fold; block tilings are collapsed symbolically. Kernels below are replaced by their contracts, which P01 decides.',
    'alpha beta': "Same summaries: the scale factor on each product's A operand, and the treatment of prior contents under beta = 0 / 1 / other.",
    'footprints': 'Every store of every analysed function must hit a cell the specification names as output; inputs are read-only regions in the abstract memory; strided footprints are symbolic.',
    'temporaries': 'malloc/free typestate and initialisation of every cell in the abstract memory, on every path, incl. sizes as polynomials in fold and dimensions.',
    'wrappers': 'Default-fold forms are compared with the general routine with the two default folds given distinct values in the scratch copy (so a mix-up shows); packed forms must perform the general routine on X, 1, X+fold(2*fold), 1; value-returning forms must convert the fresh accumulator they filled.',
    'layout': 'Packed-form functions are run against the layout (primaries first, carries second, components interleaved); *num / *size and the MPI datatypes must report exactly those cells.',
    'state': "Effect rules over all translation units (writable globals, calls, inline assembly), typestate of the floating-point control word over each CFG, and the lazily built tables' contents (also after first use).",
    'build': "make -n gives each library object's command; options that relax arithmetic or contract are rejected; preprocessed sources are searched for pragmas/attributes; gcc's assembly for x86-64-v3 is searched for fused, x87 and approximate instructions.",
    'mpi': 'Each MPI factory function is executed for every fold from 2 to the maximum: operator callback and datatype registered, cache slot and flag per fold distinct, failure paths; each callback is summarised: one addition per element, stride = cells of the datatype, scale handled for the scaled forms.',
    'scaled ssq': 'The exact relation (power-of-two index shift, scaled term (scale*x)^2, larger scale kept) is decided per bin distance and scale class.',
}
PROPS = {
    "P01": P([kern([("AVX", ALLF, "fin", Q), ("SISD", ALLF, "fin", Q), ("SSE", [3], "fin", Q), ("SSE", [2, 4, 5], "fin", T)], SUMS)],
             "proof", X["kernels"], NOTE, AI),
    "P02": P([binned(["deposit", "add"]), kern([("AVX", ALLF, "fin", Q), ("SISD", [2, 5], "fin", Q)] + DEEP[1:], SUMS, incs="ends")],
             "proof", X["deposit step"], NOTE, AI),
    "P03": P([kern([("SISD", ALLF, "fin", Q), ("AVX", [2, 5], "fin", Q)] + DEEP, SUMS, incs="ends")], "proof", X["bound and renorm"], NOTE, AI),
    "P04": P([kern([("AVX", [3], "fin", Q), ("SSE", [3], "fin", Q), ("SISD", [3], "fin", Q)], ("max", "maxm")), kern([("SISD", [3], "fin", Q)], SUMS)],
             "proof", X["max"], NOTE, AI),
    "P05": P([binned(["update"])], "proof", X["update"], NOTE, AI),
    "P06": P([binned(["setzero", "set", "negate", "renorm", "add", "madd"]), addv("P06")], "proof", X["value preservation"], NOTE, AI),
    "P07": P([binned(["conv"])], "proof", X["conversion"], NOTE, AI),
    "P08": P([binned(["index"], "ds")], "proof", X["index"], NOTE, AI),
    "P09": P([consts], "proof", X["constants"], NOTE, "constant relations over the front end's evaluation of the headers; symbolic real-number reading of the bound functions"),
    "P10": P([binned(["set", "negate", "renorm", "update", "deposit", "add", "madd", "conv", "rescale", "maddsq", "index"]),
              kern([("SISD", [2], "exc", Q), ("SISD", [5], "exc", T), ("AVX", [3], "exc", T)], SUMS, incs="ends")], "proof", X["exceptional values"], NOTE, AI),
    "P11": P([binned(["setzero", "set", "negate", "renorm", "update", "deposit", "add", "madd", "conv", "rescale"], "zc"),
              kern([("SISD", [2, 5], "fin", Q), ("AVX", [4], "fin", Q), ("AVX", ALLF, "fin", T)], SUMS, [2], incs="ends"),
              kern([("AVX", [3], "fin", Q), ("SISD", [3], "fin", Q)], ("max", "maxm"), [2])], "proof", X["components"], NOTE, AI),
    "P12": P([bmat, rmat()], "proof", X["pairing"], NOTE, SU),
    "P13": P([bmat, rmat()], "proof", X["alpha beta"], NOTE, SU),
    "P14": P([bmat, rmat(), wrappers("P14"), binned(), kern([("SISD", [5], "fin", Q), ("AVX", [5], "fin", T)], SUMS, incs="ends"), kern([("AVX", [3], "fin", Q)], ("max", "maxm"))], "proof", X["footprints"], NOTE, AI),
    "P15": P([bmat, rmat(), wrappers("P15"), binned(), kern([("SISD", [5], "fin", Q), ("AVX", [5], "fin", Q)], ("asum", "ssq"), [2])], "proof", X["temporaries"], NOTE, AI),
    "P16": P([rmat(True), wrappers("P16"), bforms], "proof", X["wrappers"], NOTE, SU),
    "P17": P([mpi("P17"), binned(), kern([("SISD", [5], "fin", Q), ("AVX", [5], "fin", T)], SUMS, incs="ends")], "proof", X["layout"], NOTE, AI),
    "P18": P([effects, binned(["index"], "ds"), kern([("AVX", [2], "fin", Q), ("SISD", [2], "fin", Q), ("AVX", ALLF, "fin", T), ("SSE", ALLF, "fin", T)], SUMS, incs="ends"),
              kern([("AVX", [3], "fin", Q), ("SSE", [3], "fin", Q)], ("max", "maxm"))], "proof", X["state"], NOTE, AI),
    "P19": P([build], "proof", X["build"], NOTE, "lint of the compile commands make would run, of pragmas and attributes after preprocessing, and of the emitted instructions"),
    "P20": P([mpi("P20"), addv("P20")], "proof", X["mpi"], NOTE, SU),
    "P21": P([binned(["rescale", "maddsq", "index"]), kern([("SISD", ALLF, "fin", Q), ("AVX", [3], "fin", Q)], ("ssq",))], "proof", X["scaled ssq"], NOTE, AI),
}
NA = {
    "P22": "End-to-end bitwise equality of runs is a relation between executions with different data orders; the structural conditions it rests on are P01-P06, P09 and P19, decided separately. The equality itself quantifies over run-time values and histories.",
    "P23": "A bound on the numerical error of a run is a statement about run-time values no sound static argument in reach bounds; the exactness of each step it rests on is P02, P06 and P07.",
    "P24": "Depends on the run-time magnitude of N, strides, leading dimensions and folds; the code performs 32-bit products of caller-supplied values without a bound, so no static argument can decide it.",
}
