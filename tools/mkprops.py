#!/usr/bin/env python3
"""Writes properties.jsonl (run by hand when a property changes)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=m.strip(), where=files[min(i, len(files) - 1)]) for i, m in enumerate(mechanism.split(";"))])))

C = "pywt/_extensions/c/"
X = "pywt/_extensions/"
p("C01", "dwt equals filter-and-downsample of the extended signal, for every input",
  "For every discrete wavelet, signal extension mode, data length and axis, dwt returns approximation and detail coefficients equal (up to rounding) to convolving the signal, extended as the mode prescribes, with the wavelet's decomposition low-pass and high-pass filters and keeping every second sample. The number of coefficients is floor((N+F-1)/2), or ceil(N/2) for periodization, and is the same value dwt_coeff_len reports. Each 1-D line along the chosen axis of an N-D array is transformed exactly as that line would be on its own.",
  ["inputs", "configurations"], "all discrete wavelets x 9 modes x data lengths (below, at and above the filter length, odd and even, large) x axis/ndim x float and complex types",
  "Tests compare a handful of wavelets and lengths against stored MATLAB vectors and a few docstring numbers; boundary handling depends jointly on mode, filter length, length parity and N<F wrap-around, which they sample at few points.",
  [C+"convolution.template.c", C+"wt.template.c", C+"common.c", X+"_dwt.pyx", "pywt/_dwt.py"],
  "downsampling_convolution* in the C templates compute the interior by direct convolution and each boundary by a per-mode branch; downcoef_axis walks strided lines")
p("C02", "idwt inverts dwt and equals upsample-and-filter synthesis",
  "For every discrete wavelet, mode, length and axis, idwt(*dwt(x)) returns x (with one extra trailing sample when the length along the axis is odd), to the precision of the wavelet's tabulated filters. For arbitrary coefficients idwt is the linear map obtained by upsampling both coefficient arrays, filtering with the reconstruction filters and keeping the valid part (the circular part for periodization), and passing None for one of them is the same as passing zeros.",
  ["inputs", "configurations"], "all discrete wavelets x 9 modes x lengths x axis x which of cA/cD is None x dtype pairs",
  "Round-trip tests use few wavelets and random vectors of a few lengths, and cannot see an error that cancels between dwt and idwt or shows only for coefficients that are not the output of dwt.",
  [C+"convolution.template.c", C+"wt.template.c", X+"_dwt.pyx", "pywt/_dwt.py"],
  "upsampling_convolution_valid_sf and its periodization twin, idwt_axis, idwt buffer length")
p("C03", "wavedec is the iterated dwt and waverec inverts it at every level",
  "wavedec(x, level=n) returns exactly the coefficients obtained by applying dwt n times to the successive approximations, ordered [cAn, cDn, ..., cD1], with n defaulting to the maximum useful level of the transformed axis. waverec of those coefficients returns x (plus at most one trailing sample when the length is odd) for every wavelet, mode, axis and level, and of arbitrary coefficients it is the iterated single-level synthesis, an approximation that is one sample too long being trimmed.",
  ["inputs", "configurations"], "wavelets x modes x lengths x levels 0..max+1 x axis x None patterns of details",
  "Tests decompose a few fixed signals at one or two levels; odd lengths at several levels and None/axis combinations multiply beyond what is sampled.",
  ["pywt/_multilevel.py", "pywt/_dwt.py"],
  "wavedec loop, _check_level, waverec's trimming of an approximation that is one sample too long")
p("C04", "dwt2 and dwtn are separable products of 1-D transforms and invert exactly",
  "For every shape and every choice of axes (negative or repeated axes and different wavelets and modes per axis included) each coefficient array of dwtn, whose key has one letter a or d per axis in the given order, equals applying the corresponding 1-D low- or high-pass dwt successively along those axes, and axes not listed are untouched. dwt2 returns the same arrays as (aa, (da, ad, dd)); idwtn and idwt2 invert them, with missing or None bands taken as zeros.",
  ["inputs", "configurations"], "shapes up to 4-D x ordered axis tuples x per-axis wavelet and mode tuples x subsets of None bands x dtypes",
  "Tests check a few square 2-D and cubic 3-D shapes with one wavelet, where transposed axes, keys or per-axis parameters are indistinguishable.",
  ["pywt/_multidim.py", X+"_dwt.pyx", C+"wt.template.c", "pywt/_utils.py"],
  "dwtn/idwtn loop over axes and subbands, dwt_axis/idwt_axis strided kernels, per-axis wavelet and mode normalisation")
p("C05", "wavedec2, wavedecn and their inverses iterate the single-level transform",
  "wavedec2 and wavedecn return exactly the approximation and details obtained by iterating dwt2/dwtn on the approximation, ordered from coarsest to finest, the default level being the largest that is useful on every transformed axis. waverec2 and waverecn return the original array (plus at most one trailing sample along odd axes) for every shape, level, axes and per-axis wavelet or mode, and of arbitrary coefficients they are the iterated single-level synthesis, an approximation that is one sample too long being trimmed.",
  ["inputs", "configurations"], "2-D to 4-D shapes x axes x level 0..max+1 x per-axis wavelets/modes x arbitrary coefficients",
  "Tests use power-of-two or near-square shapes with a single wavelet; the trimming rule per axis and level and None handling are sampled only.",
  ["pywt/_multilevel.py", "pywt/_multidim.py"],
  "wavedec2/wavedecn/waverec2/waverecn, _match_coeff_dims, _check_level, _prep_axes_wavedecn")
p("C06", "fswavedecn is the full tensor product of 1-D multilevel transforms",
  "fswavedecn(x) holds, for every combination of per-axis levels, exactly the block obtained by running wavedec independently along each chosen axis with that axis's wavelet, mode and level, laid out as the result's slices describe. Approximation and detail access by level keys returns those blocks, assigning to a block changes that block only and rejects a wrong shape, and fswaverecn reconstructs the original array.",
  ["inputs", "configurations", "histories"], "shapes x axes x per-axis levels/wavelets/modes x every detail key x assignment sequences",
  "Tests cover few shapes with equal levels per axis; slicing per axis and key parsing are only checked on those.",
  ["pywt/_multilevel.py"], "fswavedecn, FswavedecnResult, fswaverecn, coeff_slices arithmetic")
p("C07", "Coefficient packing and unpacking is lossless with exact layout and sizes",
  "array_to_coeffs(coeffs_to_array(c)) and unravel_coeffs(ravel_coeffs(c)) return the coefficients c unchanged for every output of wavedec, wavedec2 and wavedecn in every output format, each packed value occurring exactly once at the position its slice says and all padding holding the padding value. wavedecn_shapes and wavedecn_size equal the shapes and total size of the coefficients wavedecn really returns for the same arguments.",
  ["inputs", "configurations"], "shapes x levels x axes x modes x wavelets x the three formats x padding",
  "Tests try a few shapes; layouts with padding (odd shapes, long filters, partial axes) grow combinatorially.",
  ["pywt/_multilevel.py"], "_determine_coeff_array_shape, coeffs_to_array, array_to_coeffs, ravel_coeffs, unravel_coeffs, wavedecn_shapes, wavedecn_size")
p("C08", "swt, swt2 and swtn equal the a trous definition and are shift-invariant",
  "For every wavelet, length divisible by 2**level, start_level, axis and option, the stationary transform's level-j coefficients equal circular filtering of the previous approximation with the decomposition filters upsampled by 2**(j-1), so circularly shifting the input circularly shifts every output. The N-D variants are the separable product over the chosen axes with the documented band names and ordering; trim_approx only drops approximations, and norm=True scales filters by 1/sqrt(2) so that an orthogonal wavelet preserves energy.",
  ["inputs", "configurations"], "wavelets x lengths x level/start_level x axis or axes x trim_approx x norm x dtype",
  "Tests check haar/db2 on lengths 8-16 and a few shapes; filters longer than the signal (multiple wrap-around), start_level and non-square shapes are hardly reached.",
  [X+"_swt.pyx", "pywt/_swt.py", C+"convolution.template.c", C+"wt.template.c"],
  "swt_ in the C template builds upsampled filters and runs downsampling_convolution_periodization with step 1; swt_axis; Python separable loop in swtn/swt2")
p("C09", "iswt, iswt2 and iswtn invert the stationary transforms",
  "For every perfect-reconstruction wavelet, valid shape, level, set of axes, dtype and both formats (with or without trimmed approximations, with or without norm), the inverse stationary transform of the forward transform returns the original data. On arbitrary coefficients the inverse is the average over all shifts of the decimated inverse transforms, computed level by level.",
  ["inputs", "configurations"], "wavelets x shapes x levels x axes x trim_approx x norm x coefficient sets not produced by swt",
  "Tests round-trip a few signals; per-level index interleaving with several axes is sampled only, and coefficients not coming from swt are never used.",
  ["pywt/_swt.py", "pywt/_multidim.py"], "iswt, iswt2, iswtn even/odd interleaving and averaging")
p("C10", "mra components sum to the data and each one is a band's own projection",
  "For every wavelet, level, axes, transform ('swt' or 'dwt' family) and mode, the components returned by mra, mra2 and mran have the shape of the data and sum to it, and imra, imra2 and imran compute that sum without modifying their input. Each component equals the inverse transform of the coefficients with every other band set to zero.",
  ["inputs", "configurations"], "wavelets x shapes x levels x axes x transform x mode x dtype",
  "Tests only check the round trip for some wavelets; a component assigned to the wrong band cancels in the sum.",
  ["pywt/_mra.py"], "one-hot reconstruction loops; imra/imra2/imran accumulation")
p("C11", "Wavelet packet trees behave like the recursive transform under any history",
  "After any sequence of node accesses, decompositions, data assignments, deletions, walks and reconstructions on WaveletPacket, WaveletPacket2D or WaveletPacketND, every node's path, level and parent are those of its place in the tree, its data equal what recursive application of the single-level transform gives from the data its parent held when it was decomposed (or what was assigned or reconstructed since), leaf and level listings contain exactly the existing nodes in the documented natural or frequency order, and reconstruct returns the inverse transform of the current leaves trimmed to the original shape. Accesses beyond maxlevel, invalid names and rejected assignments raise without changing the data of the tree.",
  ["histories", "inputs"], "operation sequences up to a depth over an alphabet of get/set/delete/decompose/reconstruct/walk/pickle, on 1-D, 2-D and N-D trees of odd and even shapes",
  "Tests perform a few fixed scripts; the tree is mutable shared state whose result depends on the order of lazily created nodes, updates and deletions.",
  ["pywt/_wavelet_packets.py"], "BaseNode lazy subnode creation, Node/Node2D/NodeND._decompose/_reconstruct, get_level, walk, __delitem__, __setitem__")
p("C12", "Every built-in filter bank has the properties it advertises",
  "For every name in wavelist(kind='discrete'), the four filters have equal even length, the reconstruction pair perfectly reconstructs the decomposition pair (double-shift biorthogonality) to the precision of the tabulated values (dmey being a FIR approximation), orthogonal families are orthonormal with reversed/alternating filters, and the filters have the advertised numbers of vanishing moments, support, symmetry and normalisation. Names are unique, case-insensitive, grouped correctly by family and kind, and constructing a wavelet by any accepted spelling gives the same filters.",
  ["inputs", "configurations"], "all wavelet names and aliases, every filter coefficient",
  "Tests check PR for some families at loose tolerance and a few printed values; thousands of table entries and metadata fields are unchecked individually.",
  [C+"wavelets.c", C+"wavelets_coeffs.template.h", X+"_pywt.pyx", X+"wavelets_list.pxi"],
  "discrete_wavelet() tables and sign/reversal loops; __wname_to_code; family_list/wavelist")
p("C13", "Wavelet objects are independent, immutable-in-effect values",
  "A Wavelet or ContinuousWavelet built from a name or a custom filter bank reports exactly the filters and attributes it was given, survives pickling and copying unchanged, and is unaffected by later construction, modification or destruction of other wavelet objects or of the sequences it was built from or returned. qmf, orthogonal_filter_bank, inverse_filter_bank and DiscreteContinuousWavelet follow their definitions and invalid filter banks are rejected.",
  ["histories", "inputs"], "sequences of construct/set attribute/pickle/copy/delete/use operations on several wavelet objects; filter bank lengths and contents",
  "Tests build single objects; sharing of C-level filter memory or cached lists between objects needs histories of two or more objects.",
  [X+"_pywt.pyx", C+"wavelets.c", "pywt/_functions.py"], "Wavelet.__cinit__, blank_discrete_wavelet, copy and free of coefficient arrays, __reduce__, qmf, orthogonal_filter_bank")
p("C14", "downcoef and upcoef equal iterated single-band transforms",
  "downcoef(part, x, w, mode, n) equals the level-n approximation or detail of wavedec, and upcoef(part, c, w, n, take) equals n-fold full upsample-and-filter reconstruction of that single band (detail filter first, then approximation filters) with the central take samples kept. This holds for every wavelet, mode, length, level, take and dtype.",
  ["inputs", "configurations"], "wavelets x modes x lengths x levels x take x dtype",
  "Tests use a few short vectors; take parity and level interplay with length are sampled only.",
  [X+"_dwt.pyx", C+"wt.template.c", C+"convolution.template.c", "pywt/_dwt.py"], "downcoef/upcoef Cython loops, upsampling_convolution_full, keep-take arithmetic")
p("C15", "pad extends data exactly as each mode is defined, consistently with dwt",
  "For every mode, shape and pair of pad widths per axis (zero and longer than the data included), pad returns the data extended by the mode's definition (zero, constant, symmetric, reflect, periodic, smooth, antisymmetric, antireflect, periodization), with the original data in place. For every mode the interior coefficients of the dwt of the padded data agree with the dwt of the data in that mode.",
  ["inputs", "configurations"], "9 modes x shapes x per-side, per-axis pad widths x dtype",
  "Tests compare some pad widths for short vectors.",
  ["pywt/_dwt.py"], "pad() with numpy.pad and the smooth/antisymmetric callbacks")
p("C16", "cwt equals convolution with the scaled wavelet for every method and axis",
  "cwt with method 'conv' and 'fft' return the same coefficients (up to rounding), equal to the documented definition: minus sqrt(scale) times the difference of the convolution of the data with the integrated wavelet resampled at the scale, centred to the data length. This holds for every continuous wavelet, scale set, floating-point precision, axis and real or complex data, each line and each scale being independent of the others, and the frequencies are scale2frequency divided by the sampling period.",
  ["inputs", "configurations"], "continuous wavelets x scale lists x lengths x axis x method x precision x dtype x sampling period",
  "Tests compare a few wavelets at few scales; FFT size changes, odd trimming, wavelet longer than data and scale order interact.",
  ["pywt/_cwt.py", X+"_cwt.pyx", "pywt/_functions.py"], "cwt loop: resampling indices, fft buffer reuse across scales, trimming d/2, axis swap")
p("C17", "Wavelet functions, integrals and frequencies follow their definitions",
  "wavefun of a discrete wavelet returns, for every wavelet and level, the cascade approximation of scaling and wavelet functions on the documented grid; integrate_wavelet returns the cumulative integral of those functions; central_frequency, scale2frequency and frequency2scale are the peak-spectrum frequency and mutual inverses. For every continuous wavelet wavefun returns the closed-form function sampled on its support.",
  ["inputs", "configurations"], "all discrete and continuous wavelets (with parameters) x levels/precisions x support bounds x lengths",
  "Tests check a few wavelets at one level.",
  [X+"_pywt.pyx", X+"_cwt.pyx", C+"cwt.template.c", "pywt/_functions.py"], "Wavelet.wavefun via upcoef and keep, ContinuousWavelet.wavefun C kernels, integrate_wavelet, central_frequency")
p("C18", "Thresholding applies its pointwise rule to every element",
  "threshold in modes soft, hard, garrote, greater and less, and threshold_firm, return for every element exactly the value the documented pointwise formula gives for that element alone, for real and complex data of any shape, any non-negative threshold (zero and equal bounds included) and any substitute value, preserving floating precision and leaving the input unchanged.",
  ["inputs", "configurations"], "element values below/at/above thresholds x positions x shapes x modes x substitute x dtype",
  "Tests use one vector per mode; results that depend on other elements or on boundary equality are not separated.",
  ["pywt/_thresholding.py"], "soft, nn_garrote, hard, greater, less, threshold_firm masks")
p("C19", "Results do not depend on memory layout and inputs are never modified",
  "Every transform gives the same result for equal array values whatever their memory order, strides (negative, zero or non-contiguous), alignment, byte order, offset, read-only flag or container (list, tuple or array), and never modifies its input arrays, lists, dictionaries or wavelets. Arrays returned by a transform that does at least one decomposition or reconstruction step never share memory with its inputs or with each other.",
  ["inputs", "configurations", "histories"], "public functions x layout variants of each input x subsequent mutation of outputs and inputs",
  "Tests use freshly made C-contiguous arrays almost everywhere.",
  [X+"_dwt.pyx", X+"_swt.pyx", C+"wt.template.c", "pywt/_multidim.py", "pywt/_swt.py", "pywt/_multilevel.py", "pywt/_mra.py"], "stride arithmetic in *_axis kernels, asarray/copy decisions in the Python layer, in-place updates in inverse transforms")
p("C20", "Precision is preserved and complex transforms act on real and imaginary parts",
  "float32 and complex64 input give float32 and complex64 output, float64/complex128 and integer or boolean input give double-precision output, half is computed in single and long double in double, in every transform and its inverse. Every transform of complex data equals transforming the real and imaginary parts separately, also where the C compiler has no complex numbers and the Python layer does so itself, and every transform is linear and scale-equivariant over the whole normal floating range (up to rounding).",
  ["inputs", "configurations"], "public transforms x dtypes of each input x options",
  "Tests check dtype for a few functions and modes.",
  [X+"_pywt.pyx", X+"_dwt.pyx", X+"_swt.pyx", "pywt/_dwt.py", "pywt/_cwt.py", "pywt/_swt.py"], "_check_dtype, fused type dispatch in the extensions, result_type promotion in inverse transforms")
p("C21", "No call reads or writes memory out of bounds or leaks it",
  "No call of a public function, with valid or invalid arguments, reads or writes memory outside the arrays and filters it owns, uses uninitialised or freed memory, or executes undefined behaviour in native code. Repeating a call does not grow memory.",
  ["inputs", "configurations"], "native-backed public functions x small shapes x wavelets of each filter length x modes x levels x axes x invalid arguments",
  "Tests run uninstrumented code, where an out-of-bounds access of a few elements is silent.",
  [C+"convolution.template.c", C+"wt.template.c", C+"wavelets.c", C+"cwt.template.c", X+"_dwt.pyx", X+"_swt.pyx", X+"_cwt.pyx", X+"_pywt.pyx"], "raw pointer loops with boundscheck off, malloc/free in swt_, downcoef_axis, idwt_axis and wavelet construction")
p("C22", "Concurrent calls give the results of running them one after another",
  "Any calls running concurrently in several threads, including ones that share Wavelet objects, input arrays or coefficient lists, each return the result they return when run alone. No schedule of the threads, including switches inside native code that runs without the interpreter lock, changes a result, raises or crashes.",
  ["schedules"], "thread interleavings of pairs of public calls, at Python line granularity and at native memory-access granularity",
  "The only concurrency test starts a pool on a few calls and relies on luck for the schedule.",
  [X+"_dwt.pyx", X+"_swt.pyx", X+"_cwt.pyx", C+"wt.template.c", C+"convolution.template.c", "pywt/_multilevel.py", "pywt/_swt.py", "pywt/_cwt.py"], "nogil regions sharing only const inputs; absence of module-level mutable state")
p("C23", "Invalid arguments raise a Python exception; every call terminates",
  "A call with an argument outside the documented domain (empty data, too few dimensions, an axis out of range or repeated where axes must be unique, a number of axes, wavelets or modes that does not fit, an unknown mode or wavelet, a continuous wavelet where a discrete one is needed or the reverse, a negative or too deep level where the depth is limited, coefficient arrays whose shapes do not fit together, malformed coefficient lists, filter banks that are not four filters of one length) raises an ordinary Python exception instead of returning a result, crashing or looping; valid arguments are not rejected. Every call of a public function on finite input returns or raises, and a failed call leaves its arguments and later calls unaffected.",
  ["inputs", "histories"], "public functions x one invalid argument at a time (and pairs) x valid values of the others; all small vectors of coefficient shapes, axes, levels and filter lengths",
  "Tests have a few assert_raises per function.",
  ["pywt/_dwt.py", "pywt/_multidim.py", "pywt/_multilevel.py", "pywt/_swt.py", "pywt/_cwt.py", X+"_dwt.pyx", X+"_swt.pyx", X+"_pywt.pyx"], "argument validation in the Python layer and at the head of Cython functions")
p("C24", "Every call's result depends on its arguments only, not on earlier calls",
  "Calling any public function gives the same result whatever public calls were made before it in the process, whatever the caller did to arrays, lists and wavelets returned earlier, and whether earlier calls succeeded or raised. Equal arguments passed as fresh or as reused objects give equal results.",
  ["histories"], "ordered pairs (and triples over a reduced alphabet) of public calls with arguments that differ in one component, with mutation of returned objects in between",
  "Tests run each function once or twice on one set of arguments.",
  ["pywt/_dwt.py", "pywt/_swt.py", "pywt/_cwt.py", "pywt/_functions.py", X+"_pywt.pyx"], "absence of caches keyed too coarsely; cwt's per-call fft reuse; family and name tables built at import")
p("C25", "Level and length arithmetic is exact for every size",
  "dwt_max_level(N, F) is the largest n with N >= (F-1)*2**n (zero if N < F-1), swt_max_level(N) is the exponent of 2 in N, and dwt_coeff_len(N, F, mode) is the number of coefficients dwt produces. They agree for every accepted way of giving the filter length (number, Wavelet and, for the level functions, name), for numbers of any size that fits the platform, and with the levels the multilevel transforms choose.",
  ["inputs"], "all small (N, F, mode) and all N near powers of two and near (F-1)*2**n up to 2**62",
  "Tests evaluate a few pairs; floating point in the level formula and integer widths matter at rare boundary values.",
  [C+"common.c", X+"_dwt.pyx", X+"_swt.pyx", "pywt/_dwt.py"], "dwt_max_level via log2, swt_max_level, dwt_buffer_length")
p("C26", "A failed memory allocation gives an exception and nothing else",
  "When native code cannot get memory at some point of a call, the call raises an ordinary exception or still returns its right result; it never crashes, returns wrong or unwritten data, or changes its arguments. Afterwards the same call gives its usual result, Wavelet objects are as before, and the failed call has left no memory behind.",
  ["fault_sequences", "inputs"], "public calls x each allocation that native code makes during the call, alone or with all the later ones failing",
  "Allocations do not fail in tests; the error paths of the C code are never executed.",
  [C+"wt.template.c", C+"wavelets.c", X+"_pywt.pyx", X+"_dwt.pyx", X+"_swt.pyx"], "malloc checks and cleanup labels in downcoef_axis, idwt_axis, swt_ and wavelet construction; return codes turned into exceptions")
p("C27", "An interrupted call leaves no trace",
  "When a call is interrupted by an exception from outside (KeyboardInterrupt, MemoryError) or from a callback the user passed, its arguments, Wavelet objects, numpy's error settings, the warning filters and the package's own tables are as they were before the call, and every later call gives the result it would have given without it, also when the interrupted call was the first of the process. An operation on a packet tree interrupted inside one of its transforms or callbacks leaves every node with its old or its new data, and the operation repeated gives the tree it would have given without the interruption.",
  ["fault_sequences", "crash_points", "histories"], "public calls x each point of the call where Python code can be interrupted, cold and warm processes; operations on packet trees x each such point",
  "Tests never interrupt a call.",
  ["pywt/_multilevel.py", "pywt/_swt.py", "pywt/_multidim.py", "pywt/_cwt.py", "pywt/_thresholding.py", "pywt/_functions.py", "pywt/_wavelet_packets.py", "pywt/data/_readers.py", "pywt/data/_wavelab_signals.py"], "no temporary changes of shared state outside with statements; caches stored in one step")
p("C28", "Demo signals and bundled data are the documented ones at every length",
  "demo_signal(name, n) returns, for every available signal and every integer n >= 1, a finite array of exactly n samples holding the published formula (Donoho's and Mallat's signals as in WaveLab) sampled at t = k/n, k = 1..n, up to rounding; Gabor and sineoneoverx have their fixed lengths and reject n. Names are case-insensitive, 'list' returns the available names, and unknown names and lengths that are not integers >= 1 raise ValueError. ascent, aero, camera, ecg and nino return the documented images and series, each call a copy of its own.",
  ["inputs"], "every signal name x every length n (powers of two, multiples of 5, squares and neither) x spellings of the name",
  "Tests compare each signal with WaveLab's output at a single length, a power of two.",
  ["pywt/data/_wavelab_signals.py", "pywt/data/_readers.py"], "one branch per signal in demo_signal, with integer divisions of n; the loaders of the npz files")
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for q in P:
        f.write(json.dumps(q) + "\n")
print(len(P))
