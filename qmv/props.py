"""which contract modules, units and bounded stand-ins decide which property"""
GLOBAL_ASSUMPTIONS = [
 'floating-point arithmetic is treated as exact real arithmetic; values are finite (no NaN, infinity, rounding)',
 'arrays passed to the functions under contract have at most 2^30 elements',
 'pointer parameters designate separate memory unless the contract says otherwise',
 'termination is not proved (partial correctness)',
 'memory allocation does not fail',
]
PROPS = {
 'C04': dict(modules=['mathutils']),
}
PROPS['C04']['note'] = 'Every function of MathUtilities is verified against its definition for all arguments satisfying its precondition (exact reals); additionally executed on concrete inputs under ASan/UBSan (bounded).'
PROPS['C22'] = dict(modules=['pitch'], note='Both conversions are verified for all arguments (pitch >= 0, concert A > 0); the round trip is a lemma over the two contracts, with log/pow uninterpreted apart from the one identity stated in the assumptions. Single-precision rounding is outside the proof and covered only by the bounded execution.')
PROPS['C16'] = dict(modules=['framer'], note='All Framer members are verified against the tiling contract (state transition per frame) for every length, hop and position; frame lengths and hops are assumed up to 2^30 and source lengths and positions up to 2^50; the frame count is clamped to INT_MAX.')
PROPS['C20'] = dict(modules=['distances'], note='All distance functions are verified against their defining sums for all vectors. Of BeatSpectrum the memory safety, frame and size clauses are proved; its values (normalised sums of distances) are decided by bounded execution only.',
  not_proved=['BeatSpectrum::process: values of the result (bounded execution)'])
PROPS['C09'] = dict(modules=['decimators'], note='Decimator and DecimatorB are verified against the transposed direct-form filter recursion (spec function DF2T) for all signals and block lengths; stream continuation across blocks is a lemma by induction. The verified DecimatorB factors are 2, 4 and 8 (stage loop fully unrolled); larger powers of two and in-place use are decided by bounded execution. Coefficients: unit gain at zero frequency and Nyquist suppression are proved; settling (stability) is executed.',
  not_proved=['DecimatorB factors of 16 and above', 'in-place processing (overlapping buffers)', 'stability of the filters: executed only'])
PROPS['C06'] = dict(modules=['filters'], note='Filter is verified against the difference equation (course-of-values spec function DIFFEQ over the whole stream): every process() call returns exactly its values for the stream continued from the history held by the object, and leaves the history of the extended stream; the sliding buffers, their move-back and all accesses are covered by loop invariants for every order and length. Independence of the chunking is a lemma by induction over these contracts.')
PROPS['C07'] = dict(modules=['filters'], note='FiltFilt::process is verified against the closed expression: reflection extension, filtering, reversal, filtering, central part, using the contracts of Filter::reset and Filter::process at the call sites; because the result is expressed without the filter history, independence of earlier calls is part of the postcondition.')
PROPS['C03'] = dict(modules=['windows'], note='Window (both instantiations), KaiserWindow and SincWindow are verified against the documented formulas for every type and length (Kaiser: length >= 2), including construction, copying, assignment and cutting; cos, sin, sqrt, pow are uninterpreted, so the formulas must match as expressions over them. The Bessel function is the 20-term series; that this equals I0 to working precision is executed only.',
  not_proved=['accuracy of the 20-term Bessel series (executed)', 'rounding of the cosine arguments'])
PROPS['C05'] = dict(modules=['median'], note='MedianFilter<double>: constructor, push, put, drop, get, getAt, setPercentile and reset are verified for every size and percentile; the sorted array staying a permutation of the last N values is a lemma over the contract of push (explicit permutation). NaN inputs and the static filter() are decided by bounded execution.',
  not_proved=['MedianFilter::filter (static form): bounded execution', 'NaN replaced by zero: bounded execution', 'instantiations other than double'])
PROPS['C17'] = dict(modules=['tempo'], note='TempoTrackV2::calculateBeats is verified for all detection functions, periods >= 1 and parameters: all accesses in bounds, at least one beat, beats appended, inside the detection function and strictly increasing (invariant: every back link points strictly backwards). The maximum searches are verified. That the path is the best-scoring one, the tempo states of calculateBeatPeriod and TempoTrack are decided by bounded execution against an independent statement of the algorithms.',
  not_proved=['values of calculateBeats (best path): bounded execution', 'calculateBeatPeriod (RCF, Viterbi): bounded execution', 'TempoTrack: bounded execution'])
PROPS['C15'] = dict(modules=['dfproc'], note='DFProcess::process (normalisation, zero-phase filter through the contract of FiltFilt, moving median over the clipped window, threshold, rectification) and PeakPicking::process are verified for every length, window and input: conditioned values, accepted interior strict local maxima only, strictly increasing, earlier contents kept, all accesses in bounds. That no accepted peak is missed, and the values of the local parabola, are decided by bounded execution.',
  not_proved=['completeness of peak picking: bounded execution', 'values of the least-squares parabola (assumed contract of PolyFit2): bounded execution here and in C23'])
PROPS['C01'] = dict(modules=['fft'], note='FFT::process, FFTReal::forward, forwardMagnitude and inverse (packing, null imaginary input, conjugate mirror, 1/n scaling, moduli, all accesses) and both constructors are verified for every length against the DFT sums, given the contracts of kiss_fft, kiss_fftr and kiss_fftri. Those three contracts are assumed in the proofs; the kissfft recursion itself is decided by bounded execution: every length up to the stated bound against the defining sums.',
  not_proved=['kissfft recursion and butterflies (kf_work, kf_bfly*), real-transform post-processing: bounded execution', 'contents of the kissfft plans (kiss_fft_alloc, kiss_fftr_alloc: contracts assumed) and their destruction: bounded execution'])
PROPS['C02'] = dict(modules=['dct', 'fft'], note='DCT::forward, forwardUnitary, inverse and inverseUnitary are verified for every length against the real DFT of the 4n-point extension (odd positions the input and its mirror, even positions zero) and the inverse of the antisymmetric spectrum, with the unitary scalings, through the contracts of FFTReal; results depend only on the input and the length. That these transforms of the extension are the type-II cosine sums and each other\'s inverse is a trigonometric identity checked by bounded execution only.',
  not_proved=['identity between the 4n-point transform and the cosine sum; invertibility: bounded execution', 'destruction: bounded execution'])
PROPS['C18'] = dict(modules=['downbeat'], note='DownBeat::findDownBeats is verified for all beats, bar lengths and audio: accesses in bounds, number of spectral differences, earlier results kept, downbeats congruent modulo the bar, starting in the first bar and reaching the last beat; measureSpecDiff is verified to be the Jensen-Shannon sum. That the spectra are those of the Hann-windowed beats, that the phase is the best one and that pushed blocks are buffered contiguously is decided by bounded execution.',
  not_proved=['values of the spectra and choice of the phase: bounded execution', 'pushAudioBlock buffering: bounded execution'])
PROPS['C21'] = dict(modules=['tonal'], note='TonalEstimator (its basis, and transform2TCS for every chroma vector) and the Gaussian of ChangeDetectionFunction for every width are verified on the real code including the std::valarray operations they use; the smoothing and distances of ChangeDetectionFunction::process and TCSGram are decided by bounded execution.',
  not_proved=['ChangeDetectionFunction::process and TCSGram (vectors of objects holding valarrays): bounded execution'])
PROPS['C10'] = dict(modules=['pvoc', 'mathutils', 'fft'], note='Every member of PhaseVocoder, the constructor included, is verified for every even frame length, hop and state: magnitudes, phases, rotation, unwrapping recurrence, stored history, reset, both inputs, through the contracts of FFTReal::forward and princarg; congruence of the unwrapped phase and the bound of its deviation are a lemma (induction step) over them. sqrt and atan2 are uninterpreted.',
  not_proved=['destruction: bounded execution'])
PROPS['C11'] = dict(modules=['onset', 'pvoc', 'windows'], note='The construction (defaults, cleared histories, phase vocoder, Hann window), every detection function, the whitening, the selection and both process() entry points are verified for every frame length, history and input against their definitions over magnitudes and phases, including exactly which history is stored, through the contracts of Window::cut and PhaseVocoder. std::complex arithmetic is executed as compiled, cexp is exp(re)(cos im + i sin im).',
  not_proved=['destruction: bounded execution'])
PROPS['C14'] = dict(modules=['mfcc'], note='MFCC is verified completely for every configuration and frame: the constructor builds the 40 triangular filters, the unitary cosine rows and the scratch memory as defined (all loops by closed forms over row arrays), both process() forms return the cosine sums of the log filter energies, with the zeroth coefficient exactly when requested, through the contracts of Window and FFTReal::forward. cos, sqrt, log10, pow are uninterpreted; rows of the pointer arrays are separate memory.',
  not_proved=['contents of the kissfft plans (assumed; executed)', 'rounding of the logarithm of tiny energies'])
PROPS['C12'] = dict(modules=['cq'], note='Both ConstantQ::process forms are proved to return, for every bin, the sum over the kernel entries of that bin (spectrum index FFTLength - bin; the entry at bin 0 does not contribute), computed from this spectrum only and written only to the output; ConstantQ and Chromagram construction are proved to yield the stated range (whole octaves), Q, K, transform length, hop and memory; both Chromagram::process forms are proved to return the sums over the octaves of the magnitudes, normalised as configured, the time-domain form for the spectrum of the Hamming-windowed half-swapped frame. Assumes the kernel class invariant (arrays of equal length, bins in range), established by sparsekernel(), which is checked by execution against its definition.',
  not_proved=['ConstantQ::sparsekernel (values and class invariant; executed against an independent kernel)', 'first call of Chromagram::process (generates the kernel and window; executed)', 'pow/log/ceil taken as exact'])
PROPS['C13'] = dict(modules=['key'], note='GetKeyMode construction is proved (frame, hop and history lengths, empty histories, tabulated profiles, decimator and chromagram as configured); GetKeyMode::process is proved, for every chroma history and audio (steady state of its Chromagram), to record in 1..24 the key owning the best of the 72 rotated-profile correlations of the zero-mean average chroma, to keep the key and chroma histories, and to return the median (ceil(n/2)-th smallest) of the recorded keys; krumCorr is proved to be the normalised correlation with the rotated profile and getKeyStrengths the maximum over the three bins of each key.',
  not_proved=['profiles have zero mean (executed; the construction is proved to keep the tabulated differences)', 'level invariance (follows from C12 for unit-maximum chroma; executed with gains 2^-12..2^12)', 'first call (kernel generation; executed)'])
PROPS['C24'] = dict(modules=['wavelet'], note='One contract per offered wavelet: whatever the result vectors held, createDecompositionFilters leaves exactly the filters of that wavelet - length, low-pass sum sqrt(2), high-pass sum zero, vanishing moments, and unit energy, even-shift orthogonality and the mirror relation (biorthogonality with the dual filter for the biorthogonal families); Daubechies filters are compared with an independent spectral factorisation computed in the contract, symlets are nearly symmetric. All arithmetic is exact on the tabulated constants, within a stated tolerance (1e-9; 2e-5 Daubechies 40, 2e-8 Symlet 30, 1e-8 Coiflet 5, 5e-6 Meyer, whose published tables are no better).',
  not_proved=['getWaveletName: names distinct and expected (executed for every type; the verifier has no model of std::string)'])
PROPS['C25'] = dict(modules=['blockalloc'], note='Block::allocate and Block::deallocate are proved, for every element size and every state of a block, to keep the intrusive free list well formed (ghost rank and unit-start functions): a unit handed out was not in use, lies inside the chunk and overlaps no unit in use; a released unit becomes free and every other unit keeps its state; nothing but the unit header and the released link is written; the chunk is released exactly when its last unit is. The stack of not-full blocks in BlockAllocator itself (deque of blocks) is executed.',
  not_proved=['BlockAllocator::allocate/deallocate: choice of block through the free-block stack and the unit header (std::deque of objects with pointer members is outside the verifier memory model); executed with up to 6000 live blocks', 'bounded memory (executed)'],
  assumptions=['std::deque::push_back keeps the address of existing blocks (standard library)'])
PROPS['C19'] = dict(modules=['segment'], note='makeSegmentation is proved for every state sequence: the segments are contiguous, in order, not empty, cover exactly the analysed frames, adjacent ones differ in type and every frame has the type of its segment. Chroma folding (cq2chroma), the unit norm of mpeg7_constq, the divergence kldist, Gaussian log probabilities down to the reference BLAS dot product (ddot_, both cblas layers, unrolled loop included) are proved from their definitions; create_histograms is proved memory safe for all sizes. The whole chain from features to types is proved for all sizes: hmm_init (sizes, positive probabilities, diagonal covariance), forward_backwards and hmm_train (every access to the rows allocated in loops, memory written), baum_welch (re-estimated transitions, initial probabilities and means), viterbi_decode (states within the model), cluster_melt (clusters in [1, k]), cluster_segment and constq_segment (every frame gets a type between 1 and the number of clusters). That the decoded path is the best one, the posteriors right and the clustering converged is decided by execution against independent oracles (exhaustive best path, brute-force posteriors, deterministic clock).',
  not_proved=['best path of viterbi_decode, values of forward_backwards, covariance of baum_welch, cluster_melt assignments, random means and sums of hmm_init: bounded execution', 'invert, cblas_dgemm (contracts assumed: only the memory they write)', 'create_histograms values, mpeg7_constq envelope: bounded execution', 'segment(), extractFeatures, initialise: bounded execution'],
  assumptions=['sample positions fit an int'])
PROPS['C23'] = dict(modules=['linalg'], note='The normal equations of the polynomial fit (TPolyFit::Square, all sizes) and the centring and centred scatter matrix of PCA (covcol, all sizes) are proved on the real code. pca_project is proved, for every data set, to replace each row by its centred coordinates along the directions left by the reduction, last first, and to keep the other columns centred. The elimination and the eigen decomposition are decided by execution: fits against exact polynomials and the normal equations, projections against centred data, orthonormal directions and decreasing variance.',
  not_proved=['GaussJordan, GaussJordan2, PolyFit2 (elimination with pivoting: bounded execution)', 'tred2, tqli, sort_eigen (contracts assumed: only the memory they write; orthonormal, decreasing variance: bounded execution)'])
PROPS['C08'] = dict(modules=['resampler'], note='Both streaming process() forms and reconstructOne are proved for every configuration, buffer state, chunk and input: never more than ceil(n t / s) samples, every available sample up to that bound, each the scaled product of the filter phase with the joined buffer and input at its position, the retained samples exactly those still needed, no internal error, the advance of the position. Lemmas over these postconditions show by induction that output does not depend on how the input is divided into calls and that the total after N samples lies between ceil(N t / s) and one more. Construction (filter and phase tables), fidelity and the one-shot form are decided by execution for 55 (thorough: 415) rate pairs.',
  not_proved=['Resampler::initialise establishes the phase tables and latency assumed by the invariant: bounded execution', 'Resampler::resample (one-shot): bounded execution', 'pass band and stop band of the filter: bounded execution (sines, 4e-5)'],
  assumptions=['the filter is at least one output period long (construction caps it at 200001 taps: fidelity is not claimed where higher/gcd exceeds about 600)'])
NA = {'C26': 'concurrency: the verifier (and this technique family here) has no thread model; POSIX mutex/condition semantics are outside the contracts'}
