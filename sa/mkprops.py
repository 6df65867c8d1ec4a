"""Writes /verif/properties.jsonl (kept as code so the ids, anchors and statements stay in one readable place)."""
import json, os
B, BL, R, M, I, G = "src/binned/", "src/binnedBLAS/", "src/reproBLAS/", "src/binnedMPI/", "include/", "src/gen/"
P = []


def prop(id, title, st, over, q, why, files, mech, observe=()):
    P.append({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": q}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "hook_needed": None}})


prop("P01", "Every vector element is summed exactly once for every length, stride and ISA",
     "For the sum, absolute sum, dot product (plain, unconjugated, conjugated) and sum-of-squares routines, every element of the input "
     "vector(s) - and nothing outside them - contributes its term (x, |x|, x*y, conj(x)*y, (scale*x)^2) exactly once to the result, in "
     "the right component, for every length, every stride, every fold, and in every vector-instruction variant the sources can be compiled to.",
     ["inputs", "configurations"],
     "All N >= 0, all incX/incY (one and any other nonzero value), folds covered by a specialised branch and the generic branch, "
     "AVX / SSE / SISD builds, all four element types.",
     "The tests use fold 3, mostly stride 1, one ISA build and a few lengths; unrolled tails, generic folds and the SSE/SISD bodies are never executed.",
     [BL + "deposit*.py", BL + "*m*sum.ccog", BL + "*m*asum.ccog", BL + "*mdot*.ccog", BL + "*mssq.ccog", G + "vectorizations.py", G + "generate.py"],
     [("vectorised deposit loops: main unroll, halving tails, partial load", BL + "deposit*.py via src/gen/generate.py"),
      ("outer blocking loop advancing X/Y", BL + "dmdsum.ccog (and 15 siblings)")])
prop("P02", "Every deposit extracts with a forced odd low bit and hands on the exact rest",
     "Whenever a finite value is deposited into a binned accumulator, each level but the last receives the value added with its lowest "
     "mantissa bit forced to one and passes on exactly the value minus what that level absorbed, and the last level receives the rest with its lowest bit forced to one; "
     "when the leading level is the largest bin the value is compressed before and expanded after the first level.  This is what makes the result independent of order.",
     ["inputs", "configurations"],
     "All folds, all strides, every bin index of the accumulator incl. 0, scalar deposits and every vector kernel and variant.",
     "Skipping the odd bit or reordering the slice/rest steps changes results only for ties and particular bit patterns which sampled sums rarely contain.",
     [B + "dmddeposit.c", B + "zmzdeposit.c", B + "smsdeposit.c", B + "cmcdeposit.c", BL + "deposit.py", BL + "depositM.py"],
     [("q/s chain in scalar deposit", B + "*mdeposit.c"), ("generated q/s chain with blp mask", "src/binned/deposit.py, src/gen/vectorizations.py")])
prop("P03", "Accumulators are re-binned and renormalised before they can overflow their slots",
     "Before any element is deposited the accumulator has been updated with a bound that is at least the magnitude of every element deposited "
     "since, and no accumulator receives more deposits between two renormalisations than the documented endurance; on return it has been renormalised.",
     ["inputs", "histories", "configurations"],
     "All N, strides, folds, variants, and any previous contents of the accumulator.",
     "Overflow of the carry window needs hundreds to a million adversarial deposits in one call; tests use short vectors.",
     [BL + "*.ccog", "src/params.json", "src/tuned_args.json", "src/common/blockSize.py", I + "binned.h"],
     [("block loop bounded by endurance, amax -> update -> deposit -> renorm", BL + "dmdsum.ccog and siblings")])
prop("P04", "Maximum-magnitude routines look at the absolute value of every element",
     "The maximum routines return, per component, the maximum over all elements of |x| (or |x*y|), never missing an element, reading beyond the vector, "
     "mixing components or dropping an absolute value, and return zero for an empty vector.",
     ["inputs", "configurations"],
     "All N, strides, element types, AVX / SSE / SISD variants.",
     "The maximum only picks the bin; a missed element matters only when it alone is in a larger bin than the rest, in a tail position of a variant the tests do not build.",
     [BL + "amax.py", BL + "amaxm.py", BL + "*amax*.ccog"], [("generated max loops", BL + "amax.py, amaxm.py")])
prop("P05", "Raising an accumulator's bin keeps every retained bin's contents aligned",
     "Updating an accumulator with a larger bound moves each kept level to the position of its own bin with its carry, fills the freed leading positions "
     "with empty bins, drops only levels below the fold, and never changes an accumulator that already covers the bound or is exceptional.",
     ["inputs"], "All pairs of bins (current head, bound), all folds, all strides, all four types, including an empty accumulator.",
     "Tests use one fold and a handful of magnitudes; off-by-one shifts show only for shift amounts next to the fold.",
     [B + "dmdupdate.c", B + "zmdupdate.c", B + "zmzupdate.c", B + "smsupdate.c", B + "cmsupdate.c", B + "cmcupdate.c"],
     [("shift loop over pri/car", B + "*mupdate.c")])
prop("P06", "Adding, negating and renormalising accumulators preserves the represented value",
     "Renormalising leaves each level's value (primary plus carry weight) unchanged and brings every primary back into its window; adding accumulators gives, "
     "per bin kept, exactly the sum of both levels' values, in either operand order; negating negates each level's value; setting copies it.",
     ["inputs", "histories"], "All folds, strides, all bin distances between operands, zero and exceptional operands, all four types, scalar and vector-of-accumulators forms.",
     "The tests never negate, use unit manual strides and fold 3, and compare only converted sums.",
     [B + "*renorm.c", B + "*madd.c", B + "*badd.c", B + "*baddv.c", B + "*negate.c", B + "*set.c", B + "*setzero.c"],
     [("carry extraction from mantissa bits", B + "dmrenorm.c"), ("aligned addition", B + "dmdmadd.c")])
prop("P07", "Conversion back to floating point uses every level once with its right weight",
     "Converting an accumulator to a floating-point number combines, for each level, the primary's offset from its bin centre and the carry times its weight exactly once, "
     "scaling the level of the largest bin back by the expansion factor, and returns exceptional values and zero unchanged, for every fold, stride and bin index.",
     ["inputs"], "All folds, bins, strides, four types, both the binned and manual forms.",
     "Tests convert fold-3 accumulators at a few magnitudes and unit strides; gradual-overflow paths are reached only near the exponent limits.",
     [B + "ddmconv.c", B + "ssmconv.c", B + "zzmconv_sub.c", B + "ccmconv_sub.c", B + "*bconv*.c"], [("weighted summation", B + "ddmconv.c")])
prop("P08", "Bin index, bin table and scale functions agree for every exponent",
     "For every finite value, zero and infinity the index function returns the bin whose slot covers it, the bin table holds the matching bin centre for every index and fold offset, "
     "the index read back from an accumulator is the index it was built with, and the scale function is a power of two consistent with the index.",
     ["inputs"], "All binary exponents of both formats, both signs, zero, subnormals, infinities; all table entries.",
     "Only a few magnitudes are sampled; table saturation, subnormals and bin boundaries are single exponents out of 2046.",
     [B + "dindex.c", B + "sindex.c", B + "dmindex.c", B + "smindex.c", B + "dmindex0.c", B + "smindex0.c", B + "dmbins.c", B + "smbins.c", B + "dscale.c", B + "sscale.c", B + "ufp.c", B + "ufpf.c"],
     [("index from exponent bits", B + "dindex.c"), ("lazily built table", B + "dmbins.c")])
prop("P09", "Published constants satisfy the relations the algorithms rest on",
     "The published bin width, maximum index, maximum fold, endurance, capacity, compression/expansion and error constants satisfy, in both precisions, the mathematical relations "
     "between them and the floating-point format that make slicing exact, keep carries in range and cover the whole exponent range, and the published error "
     "bound functions return, for every fold, the bound those constants imply: the discarded part of N summands plus the conversion error.",
     ["configurations"], "Every header constant, both precisions, as the compiler evaluates them; the bound functions for every fold from 2 to the maximum.",
     "A constant off by one passes every sampled sum; the margin is consumed only by adversarial inputs of capacity length.",
     [I + "binned.h", "config.h", B + "dbbound.c", B + "sbbound.c"], [("#define relations", I + "binned.h")])
prop("P10", "NaN and infinity reach the result and never corrupt finite levels",
     "A NaN or infinite input (element, bound or accumulator) ends up in the leading level of the affected component and nowhere else, an already exceptional accumulator absorbs "
     "further deposits by plain addition, and update, renormalisation, addition and conversion pass exceptional values through.",
     ["inputs"], "All functions taking elements or accumulators, each exceptional class, all folds and strides, kernels in all variants.",
     "Exceptional inputs combined with particular folds, strides and blocks are sampled at few positions only.",
     [B + "*deposit.c", B + "*update.c", B + "*renorm.c", B + "*madd.c", B + "*conv*.c", BL + "*.ccog"], [("ISNANINF guards", "src/common/common.h and callers")])
prop("P11", "Real and imaginary parts are accumulated independently",
     "Every operation on complex accumulators acts on the real and the imaginary part exactly as the real operation would on each alone: no component is skipped, swapped, "
     "or decided by the state of the other.",
     ["inputs"], "All complex functions; all combinations of zero / finite / exceptional state of the two parts; all folds and strides.",
     "Tests use parts of similar magnitude and state, so decisions taken on the wrong part coincide.",
     [B + "z*.c", B + "c*.c"], [("component strides 2*inc and +1", B + "zm*.c, cm*.c")])
prop("P12", "Matrix routines pair every operand element correctly under every option",
     "For every combination of storage order and transposition option, matrix-vector and matrix-matrix products accumulate into each output element exactly the products of the "
     "operand elements the BLAS definition pairs (conjugated where the option says so), address operands with their leading dimensions and strides, and touch no element outside the operands.",
     ["inputs", "configurations"], "All orders, transpose options, dimensions, leading dimensions, strides, folds; four types.",
     "Tests sample square-ish shapes with few leading dimensions and mostly NoTrans; one wrong index term shows only for particular shapes.",
     [BL + "*gemv.ccog", BL + "*gemm.ccog", R + "*gemv.c", R + "*gemm.c"], [("order/trans case analysis with block tiling", BL + "dbdgemv.ccog, dbdgemm.ccog")])
prop("P13", "alpha and beta are applied exactly once per output element",
     "Matrix routines compute alpha*op(A)*op(B)+beta*C with alpha applied once to each product, beta applied once to each prior output element, nothing read from the output when beta is "
     "zero, and no other element modified; the binned forms accumulate into the given accumulators.",
     ["inputs"], "All alpha, beta (0, 1, other), all shapes, orders, options.",
     "Tests use alpha and beta from a tiny set and shapes smaller than the tuning blocks.",
     [BL + "*gemv.ccog", BL + "*gemm.ccog", R + "*gemv.c", R + "*gemm.c"], [("alpha in dot/axpy scaling, beta in setup", R + "rdgemv.c, rdgemm.c")])
prop("P14", "Routines write only their outputs and never modify their inputs",
     "No routine writes to an operand it documents as input (vectors, matrices, scalars, source accumulators) or to memory outside its output operand, whatever the lengths and strides.",
     ["inputs"], "All public functions, all folds and strides.",
     "A stray write lands in test buffers that are never re-checked, or beyond the last element for particular strides only.",
     ["include/binned.h", "include/binnedBLAS.h", "include/reproBLAS.h", B, BL, R, M], [("const operands and index arithmetic", "all function bodies")])
prop("P15", "Temporaries are big enough, initialised before use and freed on every path",
     "Every accumulator or buffer a routine allocates is sized for what is stored in it, is initialised before it is read and is released exactly once on every path out of the routine; "
     "no automatic variable is read before it is assigned.",
     ["inputs", "histories"], "All public functions, all paths, all folds and sizes.",
     "Leaks and reads of uninitialised memory do not change the values tests compare.",
     [B, BL, R, M], [("malloc/free pairs", R + "*.c, " + BL + "*gem*.ccog, " + M + "*")])
prop("P16", "Wrappers forward every argument to its own place and use the default fold",
     "Each wrapper (default-fold form, packed-accumulator form, in-place form, value-returning form) performs exactly the operation of the general routine it stands for, on the same operands, "
     "in the same positions, with the packed layout's strides or the documented default fold, and returns its result.",
     ["inputs"], "All wrappers of the binned, BLAS and MPI layers, all argument values.",
     "Two swapped strides or a wrong fold coincide when the test passes equal values (inc 1, fold 3 = default).",
     [B + "?b*.c", BL + "*b*.c", R + "*.c"], [("forwarding calls", R + "dsum.c -> rdsum.c -> binnedBLAS")])
prop("P17", "All layers agree on one packed accumulator layout",
     "Every routine that takes a packed accumulator reads and writes primaries in its first half and carries in its second half, component-interleaved for complex, with exactly the number of cells that the "
     "size and count functions report.",
     ["inputs", "configurations"], "All packed-accumulator functions, all folds, four types.",
     "With one fold and matching mistakes on both sides the layout is self-consistent in the tests.",
     [B + "?b*.c", B + "*size.c", B + "*num.c", BL, M], [("X, 1, X+fold, 1 convention", B + "dbdbadd.c and siblings")])
prop("P18", "Results depend on the arguments alone: no hidden state survives a call",
     "No routine keeps mutable state between calls other than the immutable lazily built bin tables and MPI handles, none reads the environment, time or randomness, and the floating-point control state is on return what it was on entry "
     "on every path.",
     ["histories", "schedules"], "All public functions, any call history, all exit paths.",
     "State leaks need a particular sequence of calls or an early exit to become visible.",
     [B, BL, R, "src/common/common.h"], [("no writable globals; SIMD control word save/restore", "all function bodies")])
prop("P19", "The build does not let the compiler re-associate, contract or relax arithmetic",
     "The arithmetic that the algorithms rely on is executed as written: the build never enables value-changing floating-point optimisation, and the objects are compiled from the tree's own flags so that no product and sum are fused or "
     "re-associated in accumulation code.",
     ["configurations"], "All translation units, every configured compiler option, every generated kernel.",
     "The tests run one build on one machine; contraction changes last bits in ways a reproducibility test on the same build cannot see.",
     ["Rules.mk", "Rules.top", "config.mk", "mk", "src/*/Rules.mk"], [("compiler flags", "config.mk, mk/")])
prop("P20", "MPI reductions combine accumulators element by element with matching types",
     "The MPI reduction operators add each incoming accumulator into the matching in/out accumulator exactly once for every supported fold, the operator and the datatype handed out for a fold are those of that fold on every call, and the datatypes describe exactly the "
     "accumulator's cells; the scaled variants also combine the scales.",
     ["inputs", "configurations", "schedules"], "All lengths, folds 2 to the maximum, four types plus scaled forms, first and later calls.",
     "No test in the suite runs MPI code at all.",
     [M], [("per-fold operator functions and datatype constructors", M + "DBDBADD.ccog, DOUBLE_BINNED.c")])
prop("P21", "Scaled sums of squares keep accumulator and scale consistent",
     "Norm and sum-of-squares routines return a scale and an accumulator such that scale^2 times the accumulator is the sum of squares; combining or rescaling two of them brings both to the larger scale by an exact power of two, "
     "and the norm is scale times the square root.",
     ["inputs"], "All scales that the scale function can return, all folds, strides, types.",
     "Tests combine vectors of the same magnitude so that both scales are equal.",
     [B + "*rescale.c", B + "*addsq.c", BL + "*ssq.ccog", R + "*nrm2.c"], [("index shift by twice the scale ratio", B + "dmdrescale.c")])
prop("P22", "Repeated runs with permuted or regrouped data give bitwise identical results",
     "Summing the same finite values in any order, any grouping over processes and any blocking yields bitwise the same result.",
     ["inputs", "schedules"], "All multisets of values and all reduction trees.",
     "The number of permutations and groupings is astronomical; tests sample a few.",
     [B, BL, R, M], [("the whole algorithm", "all layers")])
prop("P23", "Summation error stays within the published bound",
     "The computed result differs from the exact result by no more than the documented error bound.",
     ["inputs"], "All finite vectors up to capacity.", "Requires worst-case inputs over reals.",
     [B + "dbbound.c", B + "sbbound.c"], [("error bound formula", B + "dbbound.c")])
prop("P24", "Index arithmetic never overflows its integer type",
     "Products of dimensions, strides, leading dimensions and folds used for addressing never overflow.",
     ["inputs"], "All int arguments describing memory that exists.", "Needs multi-gigabyte operands.",
     [BL, R], [("int index arithmetic", "all kernels")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P))
