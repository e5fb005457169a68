#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand when the table changes)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/scalar/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, technique, note, observe):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe))
ALLF = ["src/lib.rs", "src/macros.rs", "src/array_utils.rs"]
TRUST = ("Search, not proof: generated and enumerated cases on the real library through its public API. Trusts the oracle "
         "(direct summation / rustfft f64), the stated rounding-error bound and the harness. ")

prop("C01", "The base kernels compute the discrete Hartley transform",
 "For every length the direct-summation transform, and for its fixed length every hard-coded small kernel (1, 2, 3, 4, 5, 6, 8, 9, 16), outputs X[k] = sum over i of x[i]*(cos(2*pi*i*k/n) + sin(2*pi*i*k/n)), unnormalised and in natural order, to within working-precision rounding, for any finite real input in single or double precision.",
 ["inputs", "configurations"], "every input vector, every direct-summation length, every small kernel, f32 and f64, any number of chunks",
 "The tests compare one fixed-seed random vector per length below ~20 with a fixed absolute tolerance; the claim is over all lengths and all inputs (impulses, constants, alternating, wide dynamic range).",
 [S+"dht_naive.rs", S+"butterflies.rs", "src/twiddles.rs"],
 [("twiddle table indexed modulo the length", S+"dht_naive.rs"), ("hard-coded kernels", S+"butterflies.rs"), ("angle computation in f64", "src/twiddles.rs")],
 "property-based testing against a direct-summation reference", "direct-summation lengths 1..520 (thorough 2200) enumerated, one of 66003, others sampled; each kernel with every impulse and batches up to 70,000", ["outputs of all three processing entry points"])
prop("C02", "The power-of-two transform is correct for every power of two",
 "The dedicated power-of-two algorithm, built for any power-of-two length including 1, computes exactly the discrete Hartley transform of that length (to within rounding that grows at most logarithmically with the length).",
 ["inputs", "configurations"], "every power of two the machine can hold, every input vector, f32/f64, any number of chunks",
 "The tests stop at length 64; the digit-reversal, base-case selection and per-layer twiddles only differ from the trivial case above that. (The shipped code was wrong for every length >= 128.)",
 [S+"radix4.rs", "src/array_utils.rs", "src/twiddles.rs"],
 [("base-case choice by exponent parity", S+"radix4.rs"), ("digit-reversed reordering of the input", S+"radix4.rs"), ("per-layer radix-4 passes and twiddles", S+"radix4.rs")],
 "property-based testing against an FFT-derived reference", "2^0..2^23 (thorough 2^25) all enumerated", ["outputs of all three processing entry points"])
prop("C03", "The split-radix step is correct over any pair of inner transforms",
 "Given any correct inner transforms of lengths q and 2q (q any positive integer, not only powers of two), the split-radix composite is the discrete Hartley transform of length 4q.",
 ["inputs", "configurations"], "every quarter length q, every choice of inner transforms of lengths q and 2q, every input",
 "The tests use quarters up to 29 over direct summation, one fixed-seed vector each, single precision; data-dependent shortcuts, large table indices and other inner transforms stay unseen.",
 [S+"split_radix.rs", "src/twiddles.rs"],
 [("input distribution to half/quarter transforms", S+"split_radix.rs"), ("twiddled recombination with index reversal", S+"split_radix.rs")],
 "property-based testing against an FFT-derived reference", "every q up to 1600 (thorough 6000) enumerated, single ones up to 1,048,579", ["outputs of all three processing entry points"])
prop("C04", "The fixed-width mixed-radix steps (2,3,4,5,6 x n) are correct for any n",
 "For each fixed width w in {2,3,4,5,6} and any correct inner transform of any length n >= 1, the composite is the discrete Hartley transform of length w*n.",
 ["inputs", "configurations"], "width, inner length (even, odd, 1, prime, large), inner algorithm, input vector, element type",
 "The tests try inner lengths up to 6 over direct summation; the loops treat row 0, the middle row of even n and row pairs separately, and large n exercises twiddle generation.",
 [S+"radix2.rs", S+"radix3.rs", S+"radix4.rs", S+"radix5.rs", S+"radix6.rs", "src/array_utils.rs"],
 [("row-pair loop with symmetric twiddles", S+"radix2.rs..radix6.rs"), ("transposing copies", "src/array_utils.rs")],
 "property-based testing against an FFT-derived reference", "every inner length 1..1000 (thorough 4000) for each width enumerated, single ones up to 1,048,583", ["outputs of all three processing entry points"])
prop("C05", "The general mixed-radix step is correct for any width and height",
 "Given any two correct inner transforms of any lengths w and h (coprime or not, including 1, equal, prime, very unequal), the general mixed-radix composite is the discrete Hartley transform of length w*h.",
 ["inputs", "configurations"], "every (w,h), every choice of inner transforms, every input",
 "The tests cover widths and heights up to 8 over direct summation only, never a shared inner object.",
 [S+"mixed_radix.rs", "src/array_utils.rs", "src/twiddles.rs"],
 [("twiddle pass pairing row i with w-i and column j with h-j", S+"mixed_radix.rs"), ("transpose with half reversed", "src/array_utils.rs")],
 "property-based testing against an FFT-derived reference", "all w,h up to 44 (thorough 110) enumerated, squares to 300, very unequal shapes to 4*10^6 elements", ["outputs of all three processing entry points"])
prop("C06", "The prime-length algorithm is correct for every prime",
 "For every prime p and any correct inner transform of length p-1, the prime-length composite is the discrete Hartley transform of length p; construction finds a generator for every prime it accepts.",
 ["inputs", "configurations"], "every prime p, every inner transform of length p-1, every input",
 "The tests use the primes below 10; primitive-root search, modular powers and index permutations differ for every prime.",
 [S+"raders_algorithm.rs", "src/math_utils.rs", "src/twiddles.rs"],
 [("primitive root by trial over distinct prime factors", "src/math_utils.rs"), ("index permutation by powers of the root and of its inverse", S+"raders_algorithm.rs"), ("pretransformed convolution kernel", S+"raders_algorithm.rs")],
 "property-based testing against an FFT-derived reference", "every prime below 9000 (thorough 40,000), primes with large least roots or awkward p-1, single primes to 4*10^6 (thorough 2*10^7)", ["outputs of all three processing entry points"])
prop("C07", "Any composition of the algorithms is a discrete Hartley transform",
 "However the algorithms are nested to reach a length - any tree of prime-length, split-radix, mixed-radix, power-of-two, small-kernel, direct and user-supplied transforms, to any depth - the resulting transform is the discrete Hartley transform of its total length.",
 ["inputs", "configurations", "programs"], "every composition tree of the public constructors, every input",
 "The tests never nest more than one level and always put direct summation inside; composition errors (scratch partition, in-place vs out-of-place entry of the inner, leftovers in buffers) only show in deeper trees.",
 [S+"mixed_radix.rs", S+"split_radix.rs", S+"raders_algorithm.rs", S+"radix2.rs", S+"radix3.rs", S+"radix4.rs", S+"radix5.rs", S+"radix6.rs"],
 [("composition through the shared trait object", "src/lib.rs"), ("scratch partition between own use and inner transforms", S+"*.rs")],
 "property-based testing over generated composition trees against a reference", "random trees up to depth ~7 and length ~20,000", ["outputs of all three processing entry points"])
prop("C08", "The three ways of running a transform agree",
 "For any transform, input and chunk count, the allocating in-place call, the in-place call with caller scratch and the out-of-place call produce the same results up to rounding.",
 ["inputs", "configurations"], "every transform tree, batch size, input, and scratch/output contents",
 "The tests compare two of the entry points on single chunks of small lengths.",
 ALLF + [S+"*.rs"],
 [("separate in-place and out-of-place code paths generated by a macro", "src/macros.rs"), ("chunk iteration", "src/array_utils.rs")],
 "differential property-based testing between entry points", "random trees, batches of 1..tens of chunks", ["outputs of all three processing entry points"])
prop("C09", "A batch is transformed chunk by chunk, independently and completely",
 "Given a buffer of k*n elements, every one of the k consecutive length-n chunks is replaced by exactly the transform of that chunk alone, whatever the other chunks contain (NaN, infinities, huge or tiny values) and however large k is.",
 ["inputs", "configurations"], "every transform, batch size k, chunk contents and neighbour contents",
 "The tests always pass one chunk (or a few identical ones); leakage between chunks, a skipped or doubly processed last chunk needs many chunks with special neighbours.",
 ["src/array_utils.rs", "src/macros.rs", S+"*.rs"],
 [("chunk loops", "src/array_utils.rs"), ("per-chunk use of shared scratch", S+"*.rs")],
 "metamorphic property-based testing (batch versus single chunk)", "batches up to 70,000 chunks; poisoned neighbours", ["buffer contents after the call"])
prop("C10", "Results do not depend on leftover scratch or output contents",
 "The result of a call depends only on the input elements: whatever the scratch and the output buffer held before (zeros, NaN, infinities, previous results), and however much longer than required the scratch is, the same output comes out.",
 ["inputs", "histories", "configurations"], "every transform, entry point, prior scratch/output content and excess scratch length",
 "The tests pass zeroed scratch of exactly the advertised length.",
 ALLF + [S+"*.rs"],
 [("scratch fully written before it is read", S+"*.rs"), ("scratch truncated to the required length", "src/macros.rs")],
 "metamorphic property-based testing over buffer fills", "bitwise comparison between fills", ["outputs under different prior contents"])
prop("C11", "Calls read and write only the memory they were given",
 "No sequence of safe calls, with valid or invalid buffer sizes, reads or writes outside the buffers passed in or the library's own live allocations; rejected calls leave everything outside the passed buffers untouched too, and no call touches scratch beyond the end of the slice passed or corrupts the heap.",
 ["inputs", "configurations", "histories"], "every transform tree, entry point, valid or invalid combination of buffer lengths",
 "The code uses unchecked indexing and raw-pointer slices; an out-of-bounds access of a few elements usually produces no test-visible symptom.",
 ["src/array_utils.rs", S+"butterflies.rs", S+"mixed_radix.rs", S+"radix4.rs", S+"raders_algorithm.rs"],
 [("length checks before unchecked access", "src/array_utils.rs, src/macros.rs"), ("raw slices over one buffer", "src/array_utils.rs")],
 "fuzzing with canaries, guarded heap and AddressSanitizer", "three builds: debug assertions, release, ASan", ["canary elements around every slice, heap red zones, sanitizer reports, crashes"])
prop("C12", "A call panics exactly when its buffer sizes break the documented rules",
 "Each processing call panics if and only if a buffer is shorter than the transform length or not a multiple of it, input and output lengths differ, or the scratch is shorter than advertised; every conforming call returns normally.",
 ["inputs", "configurations"], "every transform, entry point and combination of buffer lengths around every boundary",
 "The tests make no call with wrong sizes at all.",
 ALLF + [S+"butterflies.rs", S+"*.rs"],
 [("size validation and error reporting", "src/macros.rs, src/lib.rs"), ("chunk iteration reporting leftovers", "src/array_utils.rs")],
 "property-based testing against the documented size predicate", "all length combinations in a window enumerated for small lengths, sampled for larger", ["panic or return"])
prop("C13", "The advertised scratch length is always enough",
 "Scratch of exactly the advertised length is sufficient for the corresponding call on any transform, whatever in-place or out-of-place scratch its inner transforms (the library's or the caller's own) advertise for themselves: the call succeeds, is correct, and hands each inner transform at least what that inner advertised.",
 ["configurations", "inputs"], "every composition including caller-supplied inner transforms with arbitrary scratch requirements",
 "In the tests inner transforms need no scratch, so under-provisioning never shows. (The shipped code under-provisioned in the fixed-width and split-radix composites.)",
 ["src/lib.rs", S+"*.rs"],
 [("computation of the scratch lengths at construction", S+"*.rs"), ("partition of scratch at call time", S+"*.rs")],
 "property-based testing with contract-checking user transforms", "inner requirements from 0 to tens of times the length", ["panics, correctness, lengths handed to the inner transform"])
prop("C14", "Composites rely on inner transforms only through the published contract",
 "A composite calls its inner transforms only with sizes their contract allows, and stays correct even when an inner transform uses every freedom that contract gives: leaving garbage in its scratch and in its out-of-place input, and keeping nothing between calls.",
 ["configurations", "inputs", "histories"], "every composite over every conforming inner transform behaviour",
 "The tests' inner transforms (direct summation) never destroy their input or scratch.",
 [S+"mixed_radix.rs", S+"split_radix.rs", S+"raders_algorithm.rs", S+"radix2.rs", S+"radix3.rs", S+"radix4.rs", S+"radix5.rs", S+"radix6.rs"],
 [("order of inner calls and re-use of buffers", S+"*.rs")],
 "property-based testing with adversarial conforming user transforms", "trashing inners at every position", ["inner call sizes, composite outputs"])
prop("C15", "The algebraic laws of the Hartley transform hold for every transform",
 "For every transform: applying it twice multiplies by n; energy is scaled by n; it is linear and homogeneous; circular shift, index reversal, impulses, constants and circular convolution map as the Hartley theorems state - all to within rounding.",
 ["inputs", "configurations"], "every transform and all inputs, at lengths far beyond what the definition can check quickly",
 "The tests check pointwise agreement on a few vectors, none of the laws, and only tiny lengths.",
 [S+"*.rs", "src/twiddles.rs"],
 [("all kernels and twiddles", S+"*.rs")],
 "metamorphic property-based testing (transform theorems)", "eight laws, random trees, lengths up to tens of thousands", ["outputs of related inputs"])
prop("C16", "A transform object is stateless: results do not depend on history or threads",
 "Repeating a call gives bit-identical results no matter what was computed, rejected with a panic or cut short by a panic in a user-supplied inner transform before, or is being computed concurrently on the same or other objects or in other threads, how often it is repeated, and how inner transforms are shared between composites.",
 ["histories", "schedules", "inputs"], "every sequence of calls (including panicking ones) and every interleaving of concurrent calls on shared instances",
 "The tests make one call per object in one thread.",
 ["src/lib.rs", S+"*.rs"],
 [("immutable instances, scratch per call, Sync+Send trait", "src/lib.rs")],
 "stateful property-based testing, controlled schedules", "random operation sequences, thread races, controlled interleavings at inner calls, more than a million repetitions", ["bitwise outputs"])
prop("C17", "Constructors accept exactly their domain and report the right length",
 "Each constructor accepts every parameter in its documented domain (any power of two, any prime length, inner transforms with matching lengths) and yields a transform whose reported length is the product or sum its definition implies; parameters outside the domain (non-power-of-two, non-prime, mismatched halves) are refused with a panic rather than producing an unusable transform.",
 ["configurations"], "every constructor parameter",
 "The tests construct only a few small valid instances.",
 [S+"radix4.rs", S+"split_radix.rs", S+"raders_algorithm.rs", "src/math_utils.rs"],
 [("constructor assertions", S+"*.rs"), ("primality and primitive-root arithmetic", "src/math_utils.rs")],
 "property-based testing against number-theoretic predicates", "exhaustive over small parameters, sampled large ones", ["panic or reported length"])
prop("C18", "Every transform delivers the working precision of its number type",
 "The relative error of any transform stays within a small multiple of the element type's rounding unit times a slowly growing function of the length: double-precision transforms are accurate to double precision, single to single, for every algorithm and length.",
 ["inputs", "configurations"], "every transform, length and input, f32 and f64",
 "The tests use one absolute tolerance loose enough for single precision, so any loss of double precision passes. (The shipped code lost it in several composites.)",
 ["src/twiddles.rs", S+"*.rs"],
 [("constants and twiddles computed in f64", "src/twiddles.rs"), ("sqrt(1/2) and other constants", S+"*.rs")],
 "property-based testing of error bounds against a compensated reference", "tight calibrated bound per algorithm", ["relative 2-norm and per-bin error"])
prop("C19", "Transforms work for any conforming number type",
 "The transforms are generic: with any number type that satisfies the numeric trait - wrappers, dual numbers carrying an infinitesimal part, types with observable operators - the output is the Hartley transform over that type, element values are only produced by its arithmetic, and nothing is assumed about its size or bit representation.",
 ["inputs", "programs"], "every conforming user-defined number type and every transform",
 "The tests instantiate f32 only.",
 ["src/lib.rs", "src/twiddles.rs", S+"*.rs", "src/array_utils.rs"],
 [("generic arithmetic only", S+"*.rs"), ("raw slices over generic elements", "src/array_utils.rs")],
 "property-based testing with user-defined number types", "dual numbers (16 and 12 bytes), 32- and 64-byte aligned tagged wrappers, 4-byte wrapper, 8-byte fixed-point integers, operator-observing type", ["component-wise outputs, provenance tags"])
prop("C20", "The cost is that of a fast algorithm",
 "The number of arithmetic operations of a composite is the inner transforms' cost plus work linear in the length; power-of-two transforms take O(n log n) operations, and inner transforms are never run on more elements than the decomposition calls for.",
 ["inputs", "configurations"], "every transform and length",
 "The tests measure no cost; a change falling back to slow evaluation or repeating inner work passes them.",
 [S+"*.rs"],
 [("decomposition into inner transforms plus linear passes", S+"*.rs")],
 "property-based testing with an operation-counting number type", "operation counts per generated transform and batch", ["arithmetic operations performed, elements handed to inner transforms"])
prop("C21", "Correct over the whole magnitude range, without spurious overflow or NaN",
 "For any finite input with 32*n*max|x| representable in the element type - from subnormal-sized to near-overflow magnitudes, zeros included - the output is finite and accurate relative to the input's magnitude (down to the subnormal spacing); an all-zero input gives an all-zero output.",
 ["inputs", "configurations"], "every magnitude of the element type, every transform",
 "The tests use values in one unit-sized range.",
 [S+"*.rs", "src/twiddles.rs"],
 [("no normalisation or squared intermediates", S+"*.rs")],
 "property-based testing over magnitude-scaled inputs", "scales from the smallest normal to near overflow", ["finite outputs, scaled error"])
prop("C22", "All ways of building the same length give the same transform",
 "Any two transforms of the same length, however they were built, produce the same output for the same input up to rounding, so one may be substituted for another anywhere, including inside composites.",
 ["inputs", "configurations", "programs"], "every pair of composition trees with equal length",
 "The tests never compare two fast algorithms with each other, and never at lengths beyond a few dozen.",
 [S+"*.rs"],
 [("one definition of the transform: natural order, unnormalised", "src/lib.rs, "+S+"*.rs")],
 "differential property-based testing between decompositions", "random pairs of trees up to length ~100,000", ["outputs of both transforms"])
prop("C23", "Heap use is bounded: nothing leaks and scratch calls do not allocate",
 "Building, using and dropping transforms any number of times - including rejected calls and calls in which a user-supplied inner transform panics - does not accumulate heap memory; a transform holds memory linear in the lengths of its parts; the two calls that are given scratch make no heap allocation of their own, and the convenience call allocates no more than about the scratch it advertises.",
 ["histories", "inputs", "configurations", "fault_sequences"], "every transform and every history of construction, calls (valid, rejected, interrupted by a panic) and drops",
 "The tests never observe the heap; a leak, a cache that only grows, or an allocation in the scratch calls leaves every output right.",
 ["src/lib.rs", "src/macros.rs", "src/array_utils.rs", S+"*.rs"],
 [("convenience call allocates the scratch it advertises", "src/lib.rs"), ("tables owned by the instance, sized at construction", S+"*.rs"), ("shared inner transforms by reference count", S+"*.rs")],
 "stateful property-based testing with an accounting allocator", "cycles of 3..36 per case, random trees up to length 4000 (thorough 40,000)", ["live heap bytes and allocation count of the calling thread"])
prop("C24", "A non-finite sample is never laundered into a finite sum",
 "If any sample of a chunk is NaN or infinite, the call still returns and output 0 of that chunk - the plain sum of its samples - is not finite, for every transform and entry point.",
 ["inputs", "configurations"], "every transform, entry point, chunk and position of a NaN or infinite sample",
 "The tests contain no non-finite sample; a shortcut that skips, clamps or replaces suspicious values passes them.",
 [S+"*.rs"],
 [("every sample enters output 0 additively", S+"*.rs")],
 "property-based testing over inputs with one non-finite sample", "every position for small transforms, random positions otherwise", ["output 0 of the affected chunk"])
prop("C25", "Advertised scratch is a fixed and modest amount",
 "The two advertised scratch lengths of a transform never change - not by calls, rejected calls, the asking thread, or building the same transform again - and stay modest: a transform asks for no more than the largest in-place and the largest out-of-place requirement among its parts plus a small multiple (at most about 2) of its own length, so library-only transforms need scratch linear in their length per nesting level.",
 ["configurations", "histories"], "every composition including caller-supplied inner transforms with arbitrary requirements, every history of calls before the query",
 "The tests never look at the advertised lengths; a requirement that grows quadratically, doubles with every nesting level or changes between query and call leaves every output right until a caller that sized its buffers once is rejected.",
 ["src/lib.rs", "src/macros.rs", S+"*.rs"],
 [("scratch lengths computed once at construction", S+"*.rs"), ("scratch queries of the trait", "src/lib.rs, src/macros.rs")],
 "property-based testing of the scratch queries over generated compositions and histories", "inner lengths to 65,537 enumerated for each composite, random trees to length 3000 (thorough 30,000), one in a hundred to 100,000", ["advertised lengths before and after calls"])

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                         observe_at=p["observe"], hook_needed=None))) + "\n")
        assert len(p["title"]) <= 80, p["id"]
man = dict(version=1, setup_cmd="bash check.sh --setup",
  checks=[dict(property=p["id"], quick_cmd=f"bash check.sh {p['id']} quick", thorough_cmd=f"bash check.sh {p['id']} thorough",
               evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level="exploration",
               level_note=TRUST + "Bounds: " + p["note"] + ".") for p in P],
  not_applicable=[],
  notes="No hooks in /repo: every check uses the public API. Defects found and repaired: KNOWN_FINDINGS.txt.")
json.dump(man, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
