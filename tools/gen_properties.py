import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or ["Dht::process","Dht::process_with_scratch","Dht::process_outofplace_with_scratch"],hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
S='src/scalar/'
DEF="X[k] = sum over n of x[n]*(cos(2*pi*n*k/N)+sin(2*pi*n*k/N))"
p("C01","Fixed-size butterflies compute the DHT of their length",
 "Each fixed-size transform (lengths 1, 2, 3, 4, 5, 6, 8, 9 and 16) replaces every chunk of its length by the discrete Hartley transform of that chunk, "+DEF+", exactly up to floating-point rounding. This holds both in-place and out-of-place, for every sample vector and any number of chunks.",
 ["inputs"],"every sample vector, every chunk count, both processing methods",
 "The tests run one random f32 vector per butterfly, start the out-of-place output from the expected answer, accept a mean error of 0.1 and never touch the length-1 transform.",
 [S+"butterflies.rs","src/array_utils.rs","src/twiddles.rs"],
 [("straight-line butterfly kernels and their precomputed twiddles",S+"butterflies.rs perform_dht_contiguous, new"),("chunk loops",S+"butterflies.rs boilerplate_fft_butterfly!, src/array_utils.rs iter_chunks, iter_chunks_zipped")])
p("C02","The 2xn, 3xn, 4xn, 5xn and 6xn algorithms compute the DHT",
 "A radix-R-by-n transform (R = 2, 3, 4, 5, 6) built on any correct inner transform of any length n computes the discrete Hartley transform of length R*n of every chunk, exactly up to floating-point rounding. This holds in-place and out-of-place, for even and odd n and for n = 1.",
 ["inputs","configurations"],"every inner length n >= 1, every sample vector, both processing methods",
 "The tests reach n = 1..6 with a naive inner transform, one chunk and one random f32 vector; a wrong twiddle index, reversal or column bound that only matters for larger n, another parity or an untouched output stays invisible.",
 [S+"radix2.rs",S+"radix3.rs",S+"radix4.rs",S+"radix5.rs",S+"radix6.rs","src/array_utils.rs","src/twiddles.rs"],
 [("transpose with reversed second half","src/array_utils.rs transpose_half_rev_out"),("twiddle tables and combination step",S+"radix2.rs .. radix6.rs new, apply_twiddles"),("data movement around the inner DHT",S+"radix2.rs .. radix6.rs perform_dht_inplace, perform_dht_out_of_place")])
p("C03","The general mixed-radix algorithm computes the DHT",
 "A mixed-radix transform built from any two correct inner transforms of lengths w and h computes the discrete Hartley transform of length w*h of every chunk, exactly up to floating-point rounding. This holds in-place and out-of-place and for every parity combination of w and h.",
 ["inputs","configurations"],"every pair of inner lengths w, h >= 1, every sample vector, both processing methods",
 "The tests reach w, h in 1..8 with naive inner transforms and one random f32 vector each.",
 [S+"mixed_radix.rs","src/twiddles.rs"],
 [("six-step data movement and row reversals",S+"mixed_radix.rs perform_dht_inplace, perform_dht_out_of_place"),("twiddle table and four-way mirrored twiddle step",S+"mixed_radix.rs new, apply_twiddles")])
p("C04","The split-radix algorithm computes the DHT",
 "A split-radix transform built from any correct inner transforms of lengths n and 2n computes the discrete Hartley transform of length 4n of every chunk, exactly up to floating-point rounding, in-place and out-of-place and for even and odd n.",
 ["inputs","configurations"],"every quarter length n >= 1, every sample vector, both processing methods",
 "The tests reach quarter lengths 1..29 with one random f32 vector each and an out-of-place output preloaded with the answer.",
 [S+"split_radix.rs","src/twiddles.rs"],
 [("pre-twiddle step",S+"split_radix.rs new, apply_twiddles"),("interleaving of the half and quarter results",S+"split_radix.rs perform_dht_inplace, perform_dht_out_of_place")])
p("C05","The direct power-of-two algorithm computes the DHT at every size",
 "The radix-4 transform computes the discrete Hartley transform of every chunk for every power-of-two length, however many radix-4 layers that length needs, exactly up to floating-point rounding, in-place and out-of-place.",
 ["inputs","configurations"],"every power-of-two length, every sample vector, both processing methods",
 "The tests stop at length 64, which needs a single radix-4 layer; every length with two or more layers is unexercised.",
 [S+"radix4.rs",S+"butterflies.rs"],
 [("recursive reordering",S+"radix4.rs prepare_radix4, prepare_radix4_reversed"),("layered twiddle table and cross-layer butterflies",S+"radix4.rs Radix4::new, perform_dht_out_of_place, butterfly_4")])
p("C06","Rader's algorithm computes the DHT at every prime length",
 "A Rader transform built on any correct inner transform of length p-1, p prime (p = 2 included), computes the discrete Hartley transform of length p of every chunk, exactly up to floating-point rounding, in-place and out-of-place.",
 ["inputs","configurations"],"every prime length, every sample vector, both processing methods",
 "The tests reach p = 3, 5, 7 only, with naive inner transforms.",
 [S+"raders_algorithm.rs","src/math_utils.rs","src/twiddles.rs"],
 [("index permutation by powers of a primitive root and of its inverse",S+"raders_algorithm.rs perform_dht_inplace, perform_dht_out_of_place"),("precomputed convolution spectrum",S+"raders_algorithm.rs new"),("primitive root search","src/math_utils.rs primitive_root")])
p("C07","The naive algorithm is the DHT definition at every length",
 "The naive transform computes the discrete Hartley transform of every chunk for every length, exactly up to floating-point rounding, in-place and out-of-place.",
 ["inputs","configurations"],"every length >= 1, every sample vector, both processing methods",
 "The tests compare lengths 1..19 against a second f32 formula with a mean tolerance of 0.1, and every other test uses this implementation as its oracle.",
 [S+"dht_naive.rs","src/twiddles.rs","src/macros.rs"],
 [("wrapped twiddle index",S+"dht_naive.rs perform_dht_out_of_place"),("twiddle table",S+"dht_naive.rs new, src/twiddles.rs compute_dht_twiddle")])
p("C08","Unchecked memory accesses always stay inside the caller's slices",
 "No call through the public API, with any lengths, any inner transforms and any buffers, makes an unchecked read or write outside the slice or table it was made for.",
 ["inputs","configurations"],"every public entry point, every transform and inner-transform length, every buffer and scratch length",
 "An out-of-bounds unchecked access usually goes unnoticed in a test run, and the tests sample a few small lengths only.",
 ["src/array_utils.rs",S+"butterflies.rs",S+"radix4.rs",S+"split_radix.rs"],
 [("length checks before unchecked indexing","src/array_utils.rs transpose_half_rev_out, RawSlice::load, RawSliceMut::store"),("index arithmetic of the unchecked kernels",S+"split_radix.rs, "+S+"radix4.rs prepare_radix4, "+S+"butterflies.rs")])
p("C09","Every documented misuse of a processing method panics",
 "If a processing method of any non-empty transform returns normally, its arguments were valid: the buffer held at least one and only whole chunks of the transform's length, out-of-place input and output had equal lengths, and the scratch was at least as long as the transform reports to need. Otherwise the call panics instead of returning with a partly processed or untouched buffer.",
 ["inputs","configurations"],"every buffer, output and scratch length, every algorithm",
 "No test passes a wrong length to any algorithm.",
 ["src/lib.rs","src/macros.rs","src/array_utils.rs",S+"butterflies.rs"],
 [("pre-checks and remainder reporting","src/macros.rs boilerplate_dht!, boilerplate_dht_oop!; "+S+"butterflies.rs boilerplate_fft_butterfly!, Butterfly1"),("asserting error reporters","src/lib.rs dht_error_inplace, dht_error_outofplace"),("remainder detection","src/array_utils.rs iter_chunks, iter_chunks_zipped")])
p("C10","Valid calls never panic",
 "Constructing any transform from parameters its constructor accepts, and then processing any buffer of whole chunks with scratch of at least the reported length (or with the convenience method that allocates its own scratch), never panics: no failed assertion, no out-of-range index or slice, no unsigned underflow, no unwrap of an absent value.",
 ["inputs","configurations"],"every algorithm, every inner length and inner scratch requirement, every chunk count, every scratch length at or above the reported one",
 "The tests sample small lengths with inner transforms that need little scratch, one chunk at a time, and always pass exactly the reported scratch length.",
 ["src/lib.rs","src/macros.rs",S+"mixed_radix.rs",S+"radix2.rs",S+"radix3.rs",S+"radix4.rs",S+"radix5.rs",S+"radix6.rs",S+"split_radix.rs",S+"raders_algorithm.rs",S+"dht_naive.rs"],
 [("scratch sizing in constructors","*::new"),("slicing of scratch and index arithmetic in the kernels","perform_dht_inplace, perform_dht_out_of_place, apply_twiddles")])
p("C11","Results never depend on old scratch, output or table garbage",
 "The transform result is a function of the input samples alone: the values initially held by the scratch buffer and, out-of-place, by the output buffer never influence it, and every element of the result is written.",
 ["inputs","histories"],"every algorithm, every prior content of scratch and output, every history of earlier calls reusing the same buffers",
 "The dirty-scratch test uses one fill value and small lengths, and the out-of-place tests preload the output with the expected answer, so an unwritten output passes.",
 ["src/macros.rs","src/array_utils.rs",S+"mixed_radix.rs",S+"radix2.rs",S+"radix3.rs",S+"radix4.rs",S+"radix5.rs",S+"radix6.rs",S+"split_radix.rs",S+"raders_algorithm.rs",S+"dht_naive.rs",S+"butterflies.rs"],
 [("every kernel fills a buffer before reading it","perform_dht_inplace, perform_dht_out_of_place")])
p("C12","Multi-chunk buffers are transformed chunk by chunk",
 "Processing a buffer of several chunks gives, for every chunk, exactly what processing that chunk alone gives: every chunk is transformed exactly once, and no chunk's result depends on another chunk.",
 ["inputs","histories"],"every algorithm, every number of chunks, every position of a chunk",
 "Only the naive test and the butterfly tests use more than one chunk; all other algorithm tests use a single chunk.",
 ["src/macros.rs","src/array_utils.rs",S+"butterflies.rs"],
 [("chunk iteration","src/array_utils.rs iter_chunks, iter_chunks_zipped; src/macros.rs")])
p("C13","A transform's length and its constructor's acceptance rule agree",
 "Every constructible transform reports the length its documentation promises (the given length; inner length times radix; product of the inner lengths; four times the quarter length; inner length plus one), and constructors reject by panicking the parameters for which no such transform exists: a non-power-of-two radix-4 length, a half length that is not twice the quarter length, a Rader length that is not prime.",
 ["inputs","configurations","programs"],"every constructor argument, every way a program can obtain an instance",
 "The tests construct valid instances only and never check that an invalid construction is refused.",
 [S+"dht_naive.rs",S+"mixed_radix.rs",S+"radix2.rs",S+"radix3.rs",S+"radix4.rs",S+"radix5.rs",S+"radix6.rs",S+"split_radix.rs",S+"raders_algorithm.rs",S+"butterflies.rs"],
 [("constructor assertions and length computation","*::new"),("Length implementations","src/macros.rs, "+S+"butterflies.rs")],observe=["*::new","Length::len"])
p("C14","Transforms are immutable, thread-safe and deterministic",
 "A transform can be shared between threads and reused forever: processing never changes the transform itself or any global state and reads nothing but the transform and its arguments, so concurrent and repeated calls on separate buffers cannot interfere and equal inputs always give equal outputs.",
 ["schedules","histories"],"every interleaving of concurrent calls, every history of earlier calls",
 "The tests are single-threaded per instance and call each instance a handful of times.",
 ["src/lib.rs","src/scalar/mod.rs",S+"butterflies.rs","src/macros.rs","src/array_utils.rs"],
 [("shared-reference API with Send + Sync supertraits","src/lib.rs trait Dht"),("plain-data transform structs","src/scalar/*.rs")])
p("C15","Zero-length transforms are harmless and every call terminates",
 "Processing with a zero-length transform, and constructing one where the constructor allows it, returns normally without hanging or panicking on empty buffers, and every processing call terminates for every transform length.",
 ["inputs","configurations"],"every algorithm that can have length zero, every buffer",
 "Only the naive transform is tested at length zero; termination for all lengths cannot be sampled.",
 ["src/macros.rs","src/array_utils.rs",S+"dht_naive.rs",S+"mixed_radix.rs",S+"split_radix.rs",S+"radix4.rs","src/math_utils.rs"],
 [("early return on zero length","src/macros.rs"),("chunk loops advance by the chunk size","src/array_utils.rs"),("recursion on size/4",S+"radix4.rs prepare_radix4")])
p("C16","Twiddle factors keep full double precision",
 "Every constant a transform multiplies samples by is computed in double precision and converted to the sample type once, so a double-precision transform is accurate to double precision for every length; no constant passes through a rounded single-precision value.",
 ["inputs","configurations"],"every constant of every algorithm, every sample type",
 "All tests run in f32 with a mean tolerance of 0.1.",
 ["src/twiddles.rs",S+"mixed_radix.rs",S+"radix3.rs",S+"radix5.rs",S+"radix6.rs",S+"raders_algorithm.rs",S+"butterflies.rs"],
 [("twiddle computation","src/twiddles.rs"),("scaling constants","*::new")])
p("C17","Inner transforms always get valid arguments and enough scratch",
 "Whatever scratch lengths an inner transform reports, a composite transform that was itself called validly calls it only with whole chunks, with equally long input and output, and with at least the scratch the inner transform asks for.",
 ["configurations","programs"],"every user-supplied inner transform, every reported in-place and out-of-place scratch length, every inner length",
 "One test tries three scratch lengths on one of the seven composite algorithms.",
 [S+"mixed_radix.rs",S+"radix2.rs",S+"radix3.rs",S+"radix4.rs",S+"radix5.rs",S+"radix6.rs",S+"split_radix.rs",S+"raders_algorithm.rs"],
 [("scratch sizing and splitting","*::new, perform_dht_inplace, perform_dht_out_of_place")])
p("C18","Transforms never inspect sample values",
 "Control flow, memory access pattern and table lookups never depend on the sample values: samples are only added, subtracted, negated, multiplied by constants and copied. Special values such as zero, infinity and NaN therefore take the same path as all others, and the transform is linear.",
 ["inputs"],"every sample vector including special values, every sample type",
 "The tests use one vector of ordinary positive numbers per length.",
 [S+"butterflies.rs",S+"mixed_radix.rs",S+"radix2.rs",S+"radix3.rs",S+"radix4.rs",S+"radix5.rs",S+"radix6.rs",S+"split_radix.rs",S+"raders_algorithm.rs",S+"dht_naive.rs"],
 [("generic sample type used through arithmetic operators only","src/scalar/*.rs")])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P), [len(x['title']) for x in P])
