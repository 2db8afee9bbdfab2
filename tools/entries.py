IN = ['inputs']
def fill(prop, na):
    prop('C01', 'Complex numbers obey the field operations',
         'For every operand, the sum, difference, product, quotient, negation, conjugate and magnitude of complex numbers, with complex or real partners, in plain and '
         'compound-assignment form (which return their left operand), equal the textbook operation on real and imaginary parts up to rounding. This includes operands that are the '
         'same object and complex numbers whose parts are SIMD batches, and reading or writing a part never touches the other one.',
         IN, 'all pairs of finite complex operands, float and double', 'Tests multiply and divide a handful of literals; a swapped sign or part for one operator form, or an aliasing bug, survives.',
         ['complex/scalar_complex.hpp', 'math/abs.hpp', 'math/conj.hpp'], [('scalar_complex operators', 'complex/scalar_complex.hpp')])
    prop('C02', 'Fixed-point arithmetic saturates, orders and converts correctly',
         'For every pair of 8-bit or 16-bit fixed-point values, addition, subtraction and negation return the exact result clamped to the representable range, and multiplication '
         'returns the exact product shifted right arithmetically by the fractional bits and clamped; nothing ever wraps. Comparisons agree with the represented values, and '
         'conversion to floating point is exact. Conversion from any finite floating-point value clamps to the range and rounds toward zero, so to-float-and-back is the identity.',
         IN, 'all pairs of stored values for 8- and 16-bit formats, all finite floats', 'The value space is 2^32 pairs; tests check a few values and never -1 * -1 or the clamp edges of all formats.',
         ['fixed_point/fixed_point.hpp'], [('saturate, saturate_cast', 'fixed_point/fixed_point.hpp'), ('fixed_point operators', 'fixed_point/fixed_point.hpp')])
    prop('C03', 'Fixed-point array and register operations equal the scalar operation',
         'Adding, subtracting or multiplying spans of fixed-point numbers writes to element i of the output exactly what the scalar operator gives for element i of the inputs, for '
         'every length (including lengths that are no multiple of a vector width) and on every instruction set, also when the output is one of the inputs. The fixed-point SIMD '
         'register types give in each lane exactly the scalar result. No element outside the given spans is read or written.',
         ['inputs', 'configurations'], 'all contents, all lengths, in-place or not, SSE2 / SSE4.1 / AVX2 / AVX-512 builds', 'Tests compile one instruction set and compare with tolerances on random data.',
         ['fixed_point/algorithm.hpp', 'fixed_point/simd.hpp', 'simd/sse2.hpp'], [('add/subtract/multiply', 'fixed_point/algorithm.hpp'), ('mul_kernel_*', 'fixed_point/simd.hpp'), ('apply_kernel', 'simd/sse2.hpp')])
    prop('C04', 'Float SIMD batches are lane-wise and accept any address',
         'Loading, storing, broadcasting, adding, subtracting and multiplying floating-point SIMD batches acts lane by lane exactly like the scalar operation of the element type '
         '(half precision rounds to nearest), and moves exactly one batch of elements. Unaligned loads and stores never require more alignment than one element. The native batch '
         'aliases are the widest batch of the target.',
         ['inputs', 'configurations'], 'all lane values, all element-aligned addresses, SSE2/AVX/AVX2/F16C/AVX-512', 'Tests use aligned or luckily aligned buffers, one instruction set and few values; lane mix-ups in untested widths survive.',
         ['simd/sse2.hpp', 'simd/avx.hpp', 'simd/avx512.hpp', 'simd/native.hpp'], [('batch types', 'simd/avx.hpp'), ('native aliases', 'simd/native.hpp')],
         tech='static: IR summaries vs lane-wise specification by normal form; IR scan of the alignment of every access through caller pointers')
    prop('C05', 'Integer helpers return the mathematically defined value',
         'Next power of two (library and fallback version), integer logarithm, transform order and size, integer power with run-time or compile-time base, ceiling division, parity '
         'and full-convolution length return the mathematically defined value for every argument of every 8- to 64-bit signed and unsigned type for which the result and the '
         'intermediate sum are representable.',
         IN, 'all arguments with representable result, 8/16/32/64-bit signed and unsigned', 'Tests check tens of values mostly for one width; the upper half of wide types is never reached.',
         ['bit/bit_ceil.hpp', 'bit/bit_log2.hpp', 'math/ipow.hpp', 'math/idiv.hpp', 'math/is_even.hpp', 'math/is_odd.hpp', 'fft/order.hpp', 'convolution/mode.hpp'],
         [('bit_ceil', 'bit/bit_ceil.hpp'), ('ipow', 'math/ipow.hpp'), ('next_order', 'fft/order.hpp')])
    prop('C06', 'Units, weightings and windows follow their defining formulas',
         'Amplitude in decibel is 20 log10 of the gain and never below the given floor (default -144 dB), which is returned for every gain that is not positive; the estimating '
         'variant stays within 0.002 dB (0.0002 for the base-2 logarithm) on normal floats. A-weighting for positive frequencies, mel conversions and mel tables, rectangular / '
         'Hann / Hamming windows of two or more points (symmetric, sample i of N) and bin frequencies equal their defining formula at every index and size.',
         IN, 'all gains, floors, frequencies, indices and sizes', 'Tests compare a few points with loose margins; other indices, sizes and the clamp are free.',
         ['unit/decibel.hpp', 'unit/mel.hpp', 'math/a_weighting.hpp', 'math/fast_math.hpp', 'math/windowing.hpp', 'fft/rfftfreq.hpp'],
         [('amplitude_to_db', 'unit/decibel.hpp'), ('a_weighting', 'math/a_weighting.hpp'), ('windows', 'math/windowing.hpp')])
    prop('C07', 'Math customization points select the right function',
         'The generic absolute value, conjugate, real part, imaginary part, logarithm, polar construction and exact equality give the mathematical result for built-in arithmetic, '
         'standard and library complex types. For a user type they call its member function if it has one, otherwise the function found by argument-dependent lookup, and reject '
         'types with neither. Exact equality of complex values holds only if both parts are equal.',
         ['inputs', 'programs'], 'all values and all user types with member and/or free functions', 'Tests instantiate only a few types; overload-selection changes for other types are invisible.',
         ['math/abs.hpp', 'math/conj.hpp', 'math/real.hpp', 'math/imag.hpp', 'math/log2.hpp', 'math/polar.hpp', 'math/float_equality.hpp', 'complex/complex.hpp'],
         [('function objects', 'math/abs.hpp'), ('complex concept', 'complex/complex.hpp')])
    prop('C08', 'Element-wise vector and matrix operations cover every element once',
         'Adding, multiplying, scaling, filling and copying vectors and matrices gives every element of the output the defined function of the same-index elements of the inputs, '
         'for real, complex and split-complex data, every extent including zero, and every layout (row-major, column-major, strided, mixed). Nothing outside the viewed elements '
         'is written, and the inputs keep their values unless the output is the same object.',
         ['inputs', 'configurations'], 'all contents, all extents, all strides and layouts', 'Tests use a few square or contiguous objects; index mix-ups for other layouts and sizes are invisible, and most of this code is not compiled by the test build here.',
         ['algorithm/add.hpp', 'algorithm/multiply.hpp', 'algorithm/scale.hpp', 'algorithm/fill.hpp', 'algorithm/copy.hpp', 'algorithm/backend/linalg_binary_op.hpp', 'algorithm/backend/linalg_unary_op.hpp'],
         [('add', 'algorithm/add.hpp'), ('copy', 'algorithm/copy.hpp'), ('multiply', 'algorithm/multiply.hpp')])
    prop('C09', 'multiply_add computes x * y + z at every index',
         'For vectors and matrices of real, complex or split-complex numbers, multiply_add writes out[i] = x[i] * y[i] + z[i] at every index and nowhere else. The vectorised path, its '
         'tail for lengths that are no multiple of the vector width and the generic path for strided or mixed layouts agree, with and without SIMD support. The output may be the same object as any input.',
         ['inputs', 'configurations'], 'all contents, lengths, layouts and instruction sets', 'Tests sample a few lengths on one instruction set.',
         ['algorithm/multiply_add.hpp'], [('multiply_add', 'algorithm/multiply_add.hpp')])
    prop('C10', 'Statistics and error measures equal their definitions',
         'Mean, population variance and its square root the standard deviation, mean squared error and root mean squared error over vectors and '
         'matrices of any layout equal their definition over all elements; complex errors are differences of magnitudes. The mean of an empty object and the variance and standard deviation of fewer than two elements are reported as absent.',
         IN, 'all contents, extents and layouts', 'Tests check short constant-like vectors; a skipped element or wrong divisor for other shapes survives.',
         ['algorithm/mean.hpp', 'algorithm/variance.hpp', 'algorithm/standard_deviation.hpp', 'algorithm/mean_squared_error.hpp', 'algorithm/root_mean_squared_error.hpp'],
         [('mean', 'algorithm/mean.hpp'), ('variance', 'algorithm/variance.hpp'), ('mean_squared_error', 'algorithm/mean_squared_error.hpp')])
    prop('C11', 'Normalisation applies one common factor and leaves silence alone',
         'Energy normalisation multiplies every element by 1/sqrt(sum of squares), peak normalisation by 1/max|x|, and impulse normalisation scales every channel by the smallest '
         'per-channel energy factor, so the balance between channels is kept. Silent input stays silent (factor 1, never NaN or infinity).',
         IN, 'all contents, extents and layouts', 'Tests use one or two fixed signals; the silent and the multi-channel cases and other layouts are free.',
         ['algorithm/normalize_energy.hpp', 'algorithm/normalize_peak.hpp', 'convolution/normalize_impulse.hpp'],
         [('normalize_energy_factor', 'algorithm/normalize_energy.hpp'), ('normalize_peak_factor', 'algorithm/normalize_peak.hpp'), ('normalize_impulse', 'convolution/normalize_impulse.hpp')])
    prop('C12', 'allmatch and allclose decide over all elements',
         'allmatch is true exactly if the predicate holds for the pair of elements at every index, and allclose exactly if the absolute difference is at most the tolerance at every index, '
         'for vectors and matrices of any layout and extent (true for empty ones; a NaN is close to nothing). The default tolerance is 1e-5 for single and 1e-9 for double precision.',
         IN, 'all contents, extents, layouts and tolerances', 'Tests of other code rely on it; a comparison that skips elements makes every such test vacuous.',
         ['algorithm/allmatch.hpp', 'algorithm/allclose.hpp'], [('allmatch', 'algorithm/allmatch.hpp'), ('allclose', 'algorithm/allclose.hpp')])
    prop('C13', 'Sparse rows hold and apply exactly the stored entries',
         'A compressed sparse row matrix returns the stored value at a stored position and zero elsewhere; insertion stores or overwrites exactly one entry and keeps all others and the '
         'row order. Construction from a dense matrix with a filter keeps exactly the elements the filter accepts, and multiply-add with one row changes exactly the stored columns of that row, '
         'each to x[col] * value + accumulator[col].',
         ['inputs', 'histories'], 'all sparsity patterns, matrices, rows and insertion histories', 'Tests build one small pattern; row boundaries, overwrites and empty rows are free.',
         ['container/csr_matrix.hpp'], [('csr_matrix', 'container/csr_matrix.hpp'), ('multiply_add(csr_matrix)', 'container/csr_matrix.hpp')])
    FT = ('static: abstract interpretation of the LLVM IR in a domain of constant integers, (object, offset) pointers and polynomial forms over the input symbols; coefficient-wise comparison with the specification')
    FN = ('For every listed size the comparison covers all input values at once (every output is the exact linear or bilinear form the code computes, compared coefficient by coefficient; float rounding is '
          'abstracted); bounds, initialisation, lifetime and assertion failures on the way are defects. Sizes are enumerated up to the bound in the evidence; above the dense bound, inputs are zero except at a few '
          'positions. Trusted: clang/opt 18 lowering, the mdspan stand-in in /verif/shim, the IR parser and interpreter, the specification.')
    ET = 'static: interprocedural effect analysis over the call graph of the LLVM IR'
    def fprop(*a): prop(*a, tech=FT, note=FN)
    SIN = ['inputs', 'configurations']
    HIN = ['inputs', 'histories']
    fprop('C14', 'One-shot convolution is the full linear convolution',
         'direct_convolve, fft_convolve and fft_convolver produce y[k] = sum_j x[j] h[k-j] for 0 <= k < n+m-1 and report the extent n+m-1, for every signal and patch of at least one sample (two for the FFT variants) of either '
         'order of lengths. fft_convolve of an empty signal or patch is empty; a fft_convolver may be used any number of times, and the operands are not modified.',
         SIN, 'all signals, patches and lengths, contiguous or strided', 'Tests convolve a few signals with a unit impulse or a fixed patch; lengths and order of operands are free.',
         ['convolution/direct_convolve.hpp', 'convolution/fft_convolver.hpp', 'convolution/mode.hpp'], [('direct_convolve', 'convolution/direct_convolve.hpp'), ('fft_convolver', 'convolution/fft_convolver.hpp')])
    fprop('C15', 'Every FFT plan computes the unnormalised DFT in both directions',
         'A complex plan of order k (fft_plan, the radix-2 kernels, the radix-3/4/5 decimation plans, all Stockham plans) applied to x leaves sum_j x[j] exp(-+2 pi i j k / n) in x[k], n = radix^order, minus for forward and plus for '
         'backward, in natural order. This holds for every order including 0, contiguous or strided views, std::complex and neo::scalar_complex of either precision, and however often and in whichever directions the plan was used before.',
         HIN, 'all inputs, orders, directions and uses of a plan', 'Tests check a round trip and a handful of sizes of some plans; a round trip hides swapped directions and permuted bins.',
         ['fft/fft.hpp', 'fft/reference/c2c_dit2_plan.hpp', 'fft/reference/c2c_dit4_plan.hpp', 'fft/reference/c2c_stockham_dif2_plan.hpp'],
         [('fft_plan', 'fft/fft.hpp'), ('plans', 'fft/reference'), ('twiddle tables', 'fft/twiddle.hpp')])
    fprop('C16', 'The DFT of arbitrary size is exact, directly and by plan',
         'dft(in, out, direction) and a dft_plan of any size n >= 1 (power of two or not) compute sum_j x[j] exp(-+2 pi i j k / n) for every bin k, in both directions, contiguous or strided. A plan gives the same transform every time it is used, '
         'the out-of-place forms leave their input unmodified, and forward followed by backward multiplies by n.',
         HIN, 'all sizes, inputs, directions and uses', 'Tests compare a few sizes; the chirp convolution has its own padding and reuse hazards at every size.',
         ['fft/dft.hpp', 'fft/fallback/fallback_dft_plan.hpp'], [('dft', 'fft/dft.hpp'), ('dft_plan (Bluestein)', 'fft/fallback/fallback_dft_plan.hpp')])
    fprop('C17', 'Real transforms give the half spectrum and invert it',
         'rfft writes bins 0..n/2 of the DFT of n = 2^order real samples and irfft the n real samples whose spectrum is the conjugate-symmetric extension of bins 0..n/2, unnormalised, so that irfft(rfft(x)) = n x. '
         'rfft_deinterleave separates the spectra of two real signals transformed as one complex signal. The experimental packed plan (order >= 2) leaves X[0], X[n/2] and then the pairs Re, Im of bins 1..n/2-1, and forward plus backward scales by n/2.',
         SIN, 'all inputs and orders', 'Tests check round trips of fixed sizes, which hide bin order, sign and symmetry errors.',
         ['fft/rfft.hpp', 'fft/fallback/fallback_rfft_plan.hpp', 'fft/experimental/rfft.hpp'], [('rfft_plan', 'fft/rfft.hpp'), ('fallback_rfft_plan', 'fft/fallback/fallback_rfft_plan.hpp')])
    fprop('C18', 'Index reversal and twiddle tables are exact',
         'bitrevorder_plan and digitrevorder_plan move element i to the position whose base-r digits are those of i reversed, for complex, real and split views, touching nothing else. '
         'The radix-2 twiddle table of size n holds exp(-+2 pi i k / n) for k < n/2.',
         SIN, 'all orders, radices and contents', 'Tests sample a few orders.',
         ['fft/reference/bitrevorder.hpp', 'fft/reference/digitrevorder.hpp', 'fft/twiddle.hpp'], [('twiddle tables', 'fft/twiddle.hpp'), ('bitrevorder_plan', 'fft/reference/bitrevorder.hpp'), ('digitrevorder_plan', 'fft/reference/digitrevorder.hpp')])
    fprop('C19', 'Plans report their geometry and reject impossible orders',
         'A plan built from order k reports order() = k and size() = radix^k (dft_plan: the requested size), and max_size() = radix^max_order(). '
         'fft_plan constructed with an order above max_order() throws an exception instead of building tables of a wrapped size, whatever the order.',
         SIN, 'all plans and orders', 'Callers size their buffers by these numbers; tests ask for a few valid ones.',
         ['fft/order.hpp', 'fft/fft.hpp', 'fft/rfft.hpp', 'fft/split_fft.hpp'], [('next_order', 'fft/order.hpp'), ('plan constructors', 'fft/fallback')])
    fprop('C20', 'Delay-line ring and storage pair every block with its partition',
         'fdl_index, for any integer index type that can count its n segments, inserts call i at slot i mod n (starting again at 0 after reset) and then offers every slot exactly once, paired with the filter partition equal to the number of blocks since that slot was written. '
         'dense_fdl and dense_split_fdl return for every row exactly the spectrum inserted there last, and zeros before the first insertion.',
         HIN, 'all numbers of segments and call histories', 'Tests follow a short history of one ring size.',
         ['convolution/fdl_index.hpp', 'convolution/dense_fdl.hpp'], [('fdl_index', 'convolution/fdl_index.hpp'), ('dense_fdl, dense_split_fdl', 'convolution/dense_fdl.hpp')])
    fprop('C21', 'Spectral filters multiply each partition once, dropped bins are zero',
         'A convolver whose filter is given as spectra (rows of block+1 bins) outputs the overlap-add or overlap-save reconstruction of the sum over rows r of (spectrum of the block r calls ago) * row r. '
         'Giving another filter replaces the first one completely. In a sparse filter the coefficients rejected by the sparsity predicate act as zeros and the accepted ones act fully; blocks may be strided, and the filter matrix is not modified.',
         HIN, 'all spectra, sparsity patterns, signals and numbers of partitions', 'Tests use all-ones predicates or unit filters.',
         ['convolution/dense_filter.hpp', 'convolution/sparse_filter.hpp', 'convolution/uniform_partitioned_convolver.hpp'], [('dense_filter', 'convolution/dense_filter.hpp'), ('sparse_filter', 'convolution/sparse_filter.hpp')])
    fprop('C22', 'Streaming convolution equals linear convolution',
         'Feeding a signal block by block (power-of-two block of at least 2 samples) through any partitioned convolver (upols, upola, upola_v2, split, sparse with an accept-all predicate) whose filter is uniform_partition(h, block) yields, sample for sample, '
         'the linear convolution of the whole signal with h, without latency. upola_v2 also takes calls of any length of at least one block. Setting a filter starts a fresh stream of its own block size, and copies of a convolver continue independently.',
         HIN, 'all signals, filters, numbers of partitions, call histories, filter changes and copies', 'Tests push unit impulses through one or two partitions; the interplay of ring, overlap and partition order appears only over many blocks.',
         ['convolution/uniform_partitioned_convolver.hpp', 'convolution/overlap_add_convolver.hpp', 'convolution/dense_convolver.hpp', 'convolution/sparse_convolver.hpp', 'convolution/fdl_index.hpp'],
         [('uniform_partitioned_convolver', 'convolution/uniform_partitioned_convolver.hpp'), ('overlap_add_convolver', 'convolution/overlap_add_convolver.hpp')])
    fprop('C23', 'Overlap stages frame and reassemble the stream exactly',
         'overlap_add hands its callback the real DFT of the zero-padded block and overlap_save that of the last transform_size() samples, with transform_size() the smallest power of two of at least block+filter-1. '
         'A callback that multiplies with the DFT of a filter of the declared size therefore yields the linear convolution of the stream, for any block size of at least 2 and any filter size.',
         HIN, 'all signals, block and filter sizes and numbers of blocks', 'Tests only use the identity callback, under which lost tails and stale windows are invisible.',
         ['convolution/overlap_add.hpp', 'convolution/overlap_save.hpp'], [('overlap_add', 'convolution/overlap_add.hpp'), ('overlap_save', 'convolution/overlap_save.hpp')])
    fprop('C24', 'Short-time transform and filter partitioning frame every sample',
         'stft yields for every channel ceil(length / hop) frames of transform_size/2+1 bins (hop = frame - overlap, transform size rounded up to a power of two); frame f is the real DFT of x[f hop + i] w[i], zero beyond the signal, w being the chosen window '
         'over the transform size. uniform_partition(h, block) yields, per channel, the spectra of the consecutive blocks of h zero-padded to twice the block; the input is not modified.',
         SIN, 'all signals, channel counts, lengths, frames, overlaps and windows', 'Tests check extents and one frame; partial last frames and channel offsets are free.',
         ['fft/stft.hpp', 'convolution/uniform_partition.hpp'], [('stft_plan, stft', 'fft/stft.hpp'), ('uniform_partition', 'convolution/uniform_partition.hpp')])
    prop('C25', 'Per-block processing is real-time safe',
         'After set-up, calling a convolver, overlap stage, delay line, filter, fft_convolver, any FFT/DFT/real/split/cosine plan or an element-wise algorithm performs no allocation or deallocation, throws no exception, takes no lock, '
         'runs no lazy static initialisation and makes no system call, on any path.',
         ['inputs', 'histories', 'schedules'], 'all paths through the per-block operations', 'An allocation on a rare path (first call, odd size, wrap-around) is invisible to value tests but breaks the audio thread.',
         ['convolution/uniform_partitioned_convolver.hpp', 'convolution/overlap_add_convolver.hpp', 'fft/fft.hpp', 'algorithm/multiply_add.hpp'],
         [('convolver operator()', 'convolution'), ('plan operator()', 'fft'), ('algorithms', 'algorithm')], tech=ET,
         note='Complete for the 118 listed operations in the analysed target configurations (element types float and double, contiguous views): every call-graph path is covered. Assertions are compiled out, as in release builds.')
    prop('C26', 'The library has no hidden shared state',
         'No operation reads or writes mutable variables of static or thread storage duration, and none depends on the environment, clock or randomness: results depend only on arguments and on the object operated on. '
         'Distinct objects can therefore be used from different threads without synchronisation, and equal inputs give equal outputs.',
         ['schedules', 'histories'], 'all interleavings of operations on distinct objects', 'Tests are single-threaded and run each operation from a fresh state.',
         ['convolution', 'fft', 'algorithm', 'math', 'fixed_point'], [('all operations', 'algorithm'), ('plans and convolvers', 'fft')],
         tech='static: clang AST queries over all headers and effect analysis of the LLVM IR',
         note='The AST query covers every library header compiled here (vendor back ends and NEON excluded), instantiated or not; the effect analysis covers all driver translation units.')
    prop('C27', 'Fixed-point complex numbers keep their parts apart and saturate',
         'fixed_point_complex stores and replaces real and imaginary part independently; sum and difference are taken part by part, saturated to the storage range. '
         'The product of (a+bi) and (c+di), for 16 bit storage, is a quarter of (ac-bd)+(ad+bc)i with each partial product rounded down.',
         IN, 'all operands', 'Tests use one pair of operands; saturation and the cross terms need particular values.',
         ['fixed_point/complex.hpp'], [('fixed_point_complex', 'fixed_point/complex.hpp')])
    prop('C28', 'Concepts admit exactly the views and types that work',
         'in_/out_/inout_ vector, matrix and object concepts (and their _of forms) accept exactly mdspans of the right rank and element type, output forms only non-const unique ones; complex<T> holds exactly for the complex number types. '
         'add, multiply, copy, multiply_add, fill, scale, normalise and the statistics accept exactly argument lists of matching rank with writable outputs; always_vectorizable holds only for contiguous vectors with plain access.',
         ['inputs'], 'all listed view and element types', 'A loosened constraint compiles everywhere the tests use it; only programs that must be rejected show it.',
         ['container/mdspan.hpp', 'complex/complex.hpp', 'complex/scalar_complex.hpp', 'type_traits/value_type_t.hpp', 'algorithm/add.hpp', 'algorithm/multiply.hpp', 'algorithm/copy.hpp', 'algorithm/fill.hpp', 'algorithm/scale.hpp'],
         [('in_object, out_object, inout_object', 'container/mdspan.hpp'), ('is_complex', 'complex/complex.hpp')], tech='static: compile-time witnesses (static_assert and requires-expressions) type-checked by clang against the current headers',
         note='Decides the rows completely: each is a type-level fact. The rows enumerate 160 view types and 26 other types; other types are not covered.')
    fprop('C29', 'The DCT plan computes the unnormalised DCT-II',
         'The cosine transform plan of order k leaves 2 sum_j x[j] cos(pi k (2 j + 1) / (2 n)) in x[k], n = 2^order, for every order including 0, contiguous or strided, every time it is used.',
         HIN, 'all inputs, orders and uses', 'Tests compare one reference vector.', ['fft/dct.hpp'], [('fallback_dct2_plan', 'fft/dct.hpp')])
    fprop('C30', 'Split, flat and function-style transforms equal the plain DFT',
         'Transforms of separate real and imaginary arrays (split_fft_plan, fft/ifft on split_complex), of flat interleaved arrays (experimental c2c, order >= 1) and the fft()/ifft() functions, in place or out of place, give the unnormalised DFT (forward) or inverse sum (backward). '
         'Out-of-place forms leave input they do not share with the output unmodified, work when input and output share arrays, and a plan may be used repeatedly.',
         HIN, 'all inputs, orders, directions and views', 'Tests check round trips only.', ['fft/split_fft.hpp', 'fft/fallback/fallback_split_fft_plan.hpp', 'fft/fft.hpp', 'fft/experimental/rfft.hpp'],
         [('split_fft_plan', 'fft/split_fft.hpp'), ('fft, ifft', 'fft/fft.hpp')])
    fprop('C31', 'Compressed delay lines saturate and stay within half a step',
         'compressed_fdl returns for every coefficient the value inserted last at that row, rounded to the nearest multiple of 1/max of the integer type and saturated to its range; rows do not disturb each other. '
         'compressed_accessor reads an integer q as q/max at the position the mapping gives, for real and complex elements and sub-views.',
         HIN, 'all coefficients, rows and insertion histories', 'Tests use eight values in [-1, 1]; loud spectra exceed the range.',
         ['convolution/compressed_fdl.hpp', 'container/compressed_accessor.hpp'], [('compressed_fdl', 'convolution/compressed_fdl.hpp'), ('compressed_accessor', 'container/compressed_accessor.hpp')])
    fprop('C32', 'The command line convolver convolves, and refuses bad input',
         'neo_convolver writes, per channel, as many samples as the signal has, of its linear convolution with the filter scaled by the smallest per-channel 1/sqrt(energy) (1 for silent channels), normalised to peak 1. '
         'Loading and writing a wav file keep samples, channels, frame count and rate and close the file; wrong argument counts, unreadable files and mismatched channels or rates give a failure status and no output file.',
         HIN, 'all signals, lengths, channel counts and file states', 'The tool has no tests at all.',
         ['extra/cli/src/convolver.cpp', 'extra/cli/src/wav.hpp'], [('main, convolve', 'extra/cli/src/convolver.cpp'), ('load_wav_file, write_wav_file', 'extra/cli/src/wav.hpp')])
    fprop('C33', 'Python bindings compute what numpy-style callers expect',
         'neo.fft.fft/ifft(x, n, norm) return the transform of x cropped or zero-padded to n (a power of two) scaled per backward/ortho/forward; neo.convolve returns the full linear convolution by either method, whatever the strides and lengths; rfftfreq returns k/(n d). '
         'Other norms, modes, lengths or dimensions raise; enum names map to the library values; no Python object is created while the interpreter lock is released.',
         HIN, 'all arrays, strides, lengths and option combinations', 'The Python test needs a built extension and samples contiguous arrays.',
         ['extra/python/src/main.cpp', 'extra/python/src/neo/__init__.py', 'extra/python/src/neo/fft/__init__.py'], [('fft, ifft, convolve', 'extra/python/src/main.cpp'), ('wrappers', 'extra/python/src/neo/__init__.py')])
    fprop('C34', 'The plugin signal path neither loses nor smears samples',
         'ConstantOverlapAdd with an identity frame callback returns twice the input delayed by frame size - 1, starting from silence after prepare or reset, for every split of the stream into calls up to the prepared size; DenseConvolution, dense_convolve, sparse_convolve (keeping all bins) and Convolution give the linear convolution with the resampled impulse (normalised in all but Convolution). '
         'Convolution passes audio through unless both prepared and loaded and called with the prepared size; loading, resampling, writing and processBlocks keep channels, frames, rate and stream ownership.',
         HIN, 'all signals, call sizes and call histories', 'The plugin has no tests at all.',
         ['extra/plugin/src/dsp/ConstantOverlapAdd.hpp', 'extra/plugin/src/dsp/DenseConvolution.hpp', 'extra/plugin/src/dsp/DenseConvolution.cpp', 'extra/plugin/src/dsp/Convolution.hpp', 'extra/plugin/src/dsp/AudioBuffer.hpp', 'extra/plugin/src/dsp/AudioBuffer.cpp', 'extra/plugin/src/dsp/AudioFile.cpp'],
         [('ConstantOverlapAdd::process', 'extra/plugin/src/dsp/ConstantOverlapAdd.hpp'), ('DenseConvolution', 'extra/plugin/src/dsp/DenseConvolution.cpp'), ('Convolution', 'extra/plugin/src/dsp/Convolution.hpp')])
    fprop('C35', 'Vendor back ends keep the contract of the portable code',
         'With Intel IPP, Intel MKL or Apple vDSP/BLAS selected and behaving as documented, complex, real, split and arbitrary-size plans, scaling, split multiply-add and the convolvers on top of them give the results specified for the portable code, contiguous or strided, in and out of place, for const input. '
         'The IPP cosine plans give the orthonormal DCT-II and DCT-III. Impossible orders are rejected, moved-to plans work, and every vendor handle is released exactly once.',
         ['inputs', 'histories', 'configurations'], 'all inputs, views, orders, moves and back ends', 'The back ends are not part of the test build.',
         ['fft/backend/ipp.hpp', 'fft/backend/mkl.hpp', 'fft/backend/vdsp.hpp', 'algorithm/backend/cblas.hpp', 'algorithm/scale.hpp', 'algorithm/multiply_add.hpp'],
         [('intel_ipp plans', 'fft/backend/ipp.hpp'), ('intel_mkl_fft_plan', 'fft/backend/mkl.hpp'), ('apple_vdsp plans', 'fft/backend/vdsp.hpp')])
    na('N01', 'Results stay within a rounding-error bound of the exact value',
         'For every input, the relative error of transforms and convolutions compared with exact arithmetic stays within a small multiple of log2(n) times the unit roundoff of the element type.',
         IN, 'all finite inputs, sizes and element types', 'Tests compare a few random vectors with loose margins.', ['fft/fft.hpp', 'convolution/fft_convolve.hpp'], [('fft plans', 'fft')],
         'The analyses read float arithmetic as real arithmetic; no sound static error bound in reach over all inputs is tight enough to decide the claim, and measuring errors would be a run-time test.')
    na('N02', 'Processing a block takes less time than the block lasts',
         'For every supported block size and impulse length the plugin processes a block in less time than it takes to play it.',
         ['inputs', 'schedules', 'configurations'], 'all blocks, impulses and machines', 'Benchmarks sample one machine.', ['extra/plugin/src/dsp/DenseConvolution.cpp', 'convolution'], [('convolvers', 'convolution')],
         'Execution time depends on the machine and its load; no static argument in reach bounds it. The static core (no allocation, lock or system call per block) is C25.')
