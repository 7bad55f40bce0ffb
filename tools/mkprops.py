import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))
D="proadv/filtration/detection/"; R="proadv/filtration/replacement/replacements.py"; S="proadv/statistics/"
p("C01","Concurrent callers and earlier calls never change a result",
 "What a call returns depends only on the arguments it was given: any number of threads may call any of the library's functions at the same time, in any interleaving and after any history of earlier calls, and each call returns what the same call returns alone in a fresh process. In particular a caller may refill the same buffer with new samples, scribble over arrays it got back, or pass other data of the same length, and later calls are unaffected. (The synthetic-noise generator is random by contract: with the same generator state it gives the same answer.)",
 ["schedules","histories","inputs"],"every interleaving of caller threads (switching at any statement or operation inside the package), every history of earlier calls, every record length and parameter set",
 "The tests call each function once or twice, from one thread, on one small array; they cannot reach an interleaving or a second call that meets the first one's leftovers.",
 ["proadv/"],[("all intermediate state lives in locals; no module-level caches or scratch buffers","every module of the package")],["return values of every public function"])
p("C02","The caller's data is never written, not even for a moment",
 "While a library call runs, and after it, every array, list or parameter the caller passed in holds exactly what the caller put there, at every instant another thread could look, and read-only or strided inputs are accepted like any other. What a call returns is the caller's own: writing to a returned array changes neither the inputs, nor anything returned by another call, nor any later answer.",
 ["schedules","inputs","histories"],"every yield point of every call, all functions, contiguous, strided, read-only and list inputs, with and without spikes, NaN samples and degenerate parameters",
 "Tests compare only return values; a write that is undone before the call returns, or that happens only for some inputs, is invisible to them, and no test looks at the input again or checks aliasing of the output.",
 ["proadv/"],[("np.copy / .copy() / np.zeros_like before any assignment",R),("premodification works on a copy",D+"phasespace.py")],["input buffers at every yield point","storage of returned arrays"])
p("C03","A call can be interrupted anywhere and leaves nothing behind",
 "If a call is cut short at any point by Ctrl-C or by a failed memory allocation, the exception reaches the caller, the caller's data and all process-wide settings are what they were before the call, calls running in other threads are unaffected, and repeating the call gives the answer an uninterrupted call gives. A call that was not interrupted never hangs because another one was.",
 ["crash_points","schedules","inputs"],"every point inside package code at which an interrupt or a failed allocation can strike, for every function, alone and with other callers running",
 "No test interrupts anything; a flag, lock, half-filled cache or changed setting left behind by a call that died half way needs exactly that.",
 ["proadv/"],[("no cross-call state and no process-wide settings are touched, so there is nothing to restore","every module of the package"),("copies are modified, never the input",R)],["inputs, process settings and a retried call after the fault"])
p("C04","Randomness and process settings belong to the caller",
 "Only the synthetic-noise generator draws from the random number generator, and it draws from NumPy's global generator: no other function draws from it, reseeds it or depends on it, and with the same seed the noise generator gives bit-identical data, however many other library calls run before, during or after it. No function changes process-wide settings (warning filters, print options, environment, working directory and the like), even temporarily, and the calling thread's floating-point error handling is after the call what it was before.",
 ["schedules","histories","inputs"],"all interleavings of calls with a seeded noise generation, all functions, all generator states",
 "The tests never look at the generator state or at numpy's settings, and run nothing next to a noise generation.",
 ["proadv/",S+"signal/synthetic.py"],[("np.random.randint / np.random.normal are used only in the noise generator",S+"signal/synthetic.py")],["np.random.get_state()","np.geterr(), warnings.filters, print options ... at every yield point"])
p("C05","Synthetic pollution honours its contract for every random outcome",
 "Polluting n samples of non-zero mean at p percent (0 to 100) changes exactly floor(n*p/100) distinct samples and leaves all others bit-identical; taken in time order the changes alternate in sign starting with that of the mean, and each has size (p + e) times the mean's magnitude, where e >= 0 is half-normal with scale 0.05. Every sample is equally likely to be chosen, the call terminates for every state of the random generator, and a percentage above 100 is refused with ValueError instead of never returning.",
 ["inputs","histories","fault_sequences"],"every state of the random generator (including long runs of repeated or extreme draws), every record length, every percentage",
 "The tests check one or two seeds; duplicates, extreme draws and bias over positions need chosen generator states or thousands of seeds.",
 [S+"signal/synthetic.py"],[("rejection of repeated indices",S+"signal/synthetic.py:_random_index"),("alternating sign over sorted indices",S+"signal/synthetic.py:synthetic_noise")],["returned array vs input array"])
p("C06","Root and minimum search survive any behaviour of the user's function",
 "The bracketed root finder and the bounded minimiser evaluate the user's function only inside the given interval (end points included) and no more often than the stated budget (the root finder may also evaluate the two end points, the minimiser may always make two evaluations), let any exception it raises through unchanged, and may be re-entered from inside it. When they claim success the answer is right: a root is exact or lies within tolerance (if that is above rounding error) of a point where the observed sign changed, a minimiser's answer is the best point evaluated, with its observed value, and for a function with a single minimum lies within tolerance of it. Otherwise failure is reported (ValueError or the failure flag in the detailed report), and the reported evaluation count is the number of evaluations made.",
 ["fault_sequences","inputs","schedules"],"every sequence of answers the objective can give: smooth, discontinuous, flat, noisy, NaN or infinite at some evaluations, raising at any evaluation, re-entrant",
 "The tests minimise a handful of textbook functions that never fail; the guarantee is about every answer sequence.",
 [S+"optimize/optimize.py"],[("bracketing with bisection fallback",S+"optimize/optimize.py:brentq"),("golden section / parabolic steps clipped to the interval",S+"optimize/optimize.py:_optimize_within_bounds"),("evaluation counter and limit",S+"optimize/optimize.py")],["the objective's own log of evaluations","return value or exception"])
p("C07","Smoothers forget a sensor fault",
 "Every value of a moving or weighted moving average of a floating-point record is the (weighted) mean of its own window, so that smoothing recovers when a faulty stretch has passed: a moving or weighted moving average whose window no longer contains any faulty sample equals the one computed from a record without the fault, whatever the fault was (huge values, NaN, infinity, stuck sensor). For exponential smoothing and the Kalman filter a finite fault's influence shrinks with every later sample, by the factor (1 - alpha), respectively by a factor (1 - gain) that the data do not influence.",
 ["fault_sequences","histories","inputs"],"every schedule of sensor faults (position, length, kind, number), every window and smoothing constant, every record length",
 "The tests smooth a few clean short arrays; an incremental update that is poisoned by a past fault passes all of them.",
 [S+"series.py"],[("window mean computed from the samples in the window",S+"series.py:moving_average"),("recursive update",S+"series.py:exponential_moving_average"),("gain computed without the data",S+"series.py:kalman_filter")],["outputs after the fault, faulty vs fault-free record"])
p("C08","Streaming filters: cutting and restarting a record changes nothing",
 "The smoothers are causal on floating-point records: when acquisition stops at any instant, the outputs for the samples recorded so far are those a full-length record gives for them. A processor that crashed and restarts from durable state only (last smoothed value for exponential smoothing, the last window of samples for the moving averages, last state and the model's covariance for the Kalman filter) continues with exactly the outputs an uninterrupted run gives, wherever the cuts fall.",
 ["crash_points","histories","inputs"],"every set of crash instants in every record, every smoothing parameter",
 "Tests call each smoother once on one whole array; no test compares a prefix or a restart with the whole.",
 [S+"series.py"],[("output i is computed from samples up to i only",S+"series.py"),("recursion state is the last output",S+"series.py:exponential_moving_average")],["outputs of the smoothers over prefixes and resumed segments"])
p("C09","Replacement repairs exactly the flagged samples, whatever they contained",
 "Given a finite floating-point record and an array of the indices flagged as spikes (sorted, unique; possibly none, one, runs, or the ends of the record, but not every sample), every replacement method returns a new record of the same length in which each sample that was not flagged is unchanged (rounded to the requested decimals where the method rounds) and each flagged sample holds the value the method defines: previous repaired sample, mean, median, straight line between the valid neighbours (mean of the record for a run that reaches its end), the corresponding smoothed value, or a value extrapolated or interpolated from its neighbourhood. Flagging more, fewer or other samples never makes a method fail on a finite record of ordinary length.",
 ["fault_sequences","inputs","histories"],"every schedule of flagged samples (none, single, runs, both ends, everything but a few), every content of the flagged samples, every method and parameter",
 "Tests replace one or two interior spikes in a short array per method.",
 [R],[("copy, then assignment to flagged positions only",R),("run detection by differences of indices",R+":linear_interpolation")],["returned record vs input record"])
p("C10","Detectors survive any probe fault and flag exactly what their criterion says",
 "On any finite record an instrument can produce (clean turbulence, isolated or clustered spikes of any size at any position including the ends, common-mode spikes on all components, stuck or quantised sensor, dropouts to zero, velocities or a converter's whole-number counts) each detector returns, without raising, strictly increasing indices inside the record, namely the samples outside the method's threshold ellipse, ellipsoid or acceleration limit and no others. The answer does not depend on how the array is laid out in memory. (The kernel-density methods need a record that varies; samples within rounding error of a threshold may go either way.)",
 ["fault_sequences","inputs"],"every schedule of probe faults, record lengths from a few samples to thousands, every threshold parameter",
 "Each detector is tested on one or two short arrays with one known answer; wrong loop bounds, missing ends, swapped axes or degenerate ellipses stay invisible.",
 [D+"phasespace.py",D+"poincare.py",D+"correlation.py",D+"spherical.py",D+"acceleration.py",D+"trivariatekernel.py",D+"bivariatekernel.py",D+"pollution.py"],
 [("universal-threshold ellipses",D+"phasespace.py"),("degenerate ellipse guard",D+"poincare.py:calculate_ab"),("ellipsoid distance test",D+"spherical.py:_spike_indices"),("acceleration and sigma thresholds",D+"acceleration.py"),("kernel density cut-off",D+"trivariatekernel.py")],["returned index arrays"])
p("C11","Iterated despiking removes every gross spike and touches nothing else",
 "Alternating detection and replacement, the way the examples do it, on a turbulent record of a hundred or more samples with gross spikes (at least ten standard deviations, in well separated bursts of up to three samples, at most one burst per sixty samples, at any positions), removes all of them within ten rounds: afterwards every spiked sample is back within the range of ordinary turbulence. Samples no round flagged keep their value.",
 ["fault_sequences","histories"],"every placement, size, sign and clustering of gross spikes, for phase-space, spherical phase-space, acceleration and velocity-correlation despiking",
 "The tests run no detection/replacement loop at all; the guarantee is about the loop.",
 [D+"phasespace.py",D+"spherical.py",D+"correlation.py",R,"examples/"],[("threshold recomputed from the repaired record each round",D),("replacement between valid neighbours",R)],["the record after each round"])
p("C12","A processing station ends with the sequential answer despite faults",
 "When blocks of samples are cleaned by several workers through this library, and blocks are delivered late, twice or out of order, workers stall, are interrupted, or crash and their blocks are handed to others, the archive at the end holds for every block exactly what a single fault-free worker computes for it. Once faults stop, every block is finished within a bounded amount of simulated time.",
 ["schedules","fault_sequences","crash_points","histories"],"every delivery order, duplication, delay, worker crash, stall and interrupt point in a pipeline of detection, replacement, smoothing and statistics",
 "Nothing in the tests runs two calls at once, repeats one, or interrupts one.",
 ["proadv/"],[("calls are pure functions of their arguments, hence idempotent, re-runnable and parallelisable","every module of the package")],["archive contents vs sequential reference"])
p("C13","Statistics of what has arrived do not depend on how it was delivered",
 "Whatever a telemetry link does to the packets of a record (loss, duplication dropped by the collector, delay, any reordering), the statistics of the samples that have arrived are those of that set of samples: minimum, maximum, mean, median, mode (a most frequent value and its count), population variance and standard deviation, skewness, (Pearson) kurtosis, turbulent kinetic energy, the six Reynolds stresses and the skewness and kurtosis tests equal their textbook definitions to within rounding; the pollution rate is the percentage of samples above f + k*sd or below -f - k*sd (f the filtered value); these and the bivariate density estimate are the same for every order of arrival. A NaN sample is never silently turned into a number: minimum and maximum raise ValueError, the two tests TypeError, the other statistics (mode and pollution rate apart) return NaN. No samples (minimum, maximum, median, variance, standard deviation) or too few (the tests) is a ValueError.",
 ["fault_sequences","schedules","inputs"],"every delivery history (which packets arrive, in which order, how often), every instant at which a report is made, every finite record with sensor faults, interleaved and interrupted reports",
 "The tests evaluate each statistic on a few short arrays in one order; a wrong branch for one length, order, tie, sign or degenerate sample set passes all of them.",
 [S+"descriptive.py",S+"spread.py",S+"moment.py",S+"signal/fluid.py",S+"distributions/normal.py",D+"pollution.py","proadv/kernel/bivariate.py"],
 [("closed formulas over the whole array, no dependence on order",S),("explicit refusal of NaN and empty input",S+"descriptive.py")],["return values vs extended-precision definitions on the received set"])
p("C14","Work divided among workers gives what one worker would give",
 "The normal-distribution functions are computed value by value: cut a vector (array of any shape, list, scalar, integers or floats) into shards, hand them to workers in any order, let workers be interrupted, die and be replaced, and the values put together are those of one call on everything, which are the definitions: cdf and pdf to relative, sf = 1 - cdf to absolute rounding error, log forms the logarithms of the plain ones, shape preserved. A worker that gets an empty shard raises ValueError, one that gets a NaN raises TypeError, and no other worker is affected. Likewise the power spectrum of a record is the mean of the spectra of its (overlapping) blocks (Hann window, mean of the block removed, density scaling, one- or two-sided), whoever computes them in whatever order, and a record shorter than one block is refused with ValueError.",
 ["schedules","fault_sequences","crash_points","inputs"],"every division into shards, every assignment to workers, every order, interruption, death and repetition, every finite or infinite value, every block length and overlap",
 "The tests call each function once on one small array; nothing is divided, repeated or interrupted, and the switch points of the formulas are not sampled.",
 [S+"distributions/normal.py",S+"signal/spectrum.py"],[("elementwise evaluation",S+"distributions/normal.py"),("Welch average over blocks",S+"signal/spectrum.py")],["assembled values vs one call and vs the definition"])
p("C15","Filter nodes configured alike filter alike, across restarts",
 "Every Butterworth design (low-pass, high-pass, band-pass, band-stop; digital, with cut-offs relative to Nyquist or in hertz, or analogue) has the gain law 1/sqrt(1 + W^(2q)): 1/sqrt(2) at each cut-off, one in the pass band, falling in the stop band, with all poles stable. Nodes that stream the same record through the same filter in different representations (polynomials, zeros and poles, second-order sections) produce the same output, and a node that crashed, designs its filter again and continues from the registers it saved produces what it would have produced without the crash: designing the same filter again gives bit-identical coefficients.",
 ["crash_points","fault_sequences","schedules","configurations"],"every order, cut-off, type, representation and sampling rate, every block division, crash and interrupt point, interleaved designs",
 "The tests compare a few coefficient vectors with literals; no two representations are run against each other and nothing is designed twice.",
 [S+"signal/butter.py"],[("prototype, frequency transformation, bilinear map",S+"signal/butter.py:butterworth"),("pairing of poles and zeros",S+"signal/butter.py:xyz_to_sop")],["frequency response and output streams of simulated nodes"])
na_why="Tests sample a few points; but the claim is about a pure function of its arguments, with no schedule, time, fault or history in it."
p("C23","Kernel density and SSA numerics are accurate",
 "Estimated densities are non-negative and integrate to about one, and singular-spectrum smoothing keeps what lies below the chosen frequency, for every record.",
 ["inputs"],"every record and every parameter choice",na_why,["proadv/kernel/bivariate.py",S+"series.py"],[("diffusion estimator, trajectory-matrix projection","proadv/")],["return values"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
