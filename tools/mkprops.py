import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
GEN=["tftb/generators/amplitude_modulated.py","tftb/generators/frequency_modulated.py","tftb/generators/analytic_signals.py","tftb/generators/noise.py","tftb/generators/misc.py","tftb/generators/utils.py"]
PRO=["tftb/processing/base.py","tftb/processing/linear.py","tftb/processing/cohen.py","tftb/processing/affine.py","tftb/processing/reassigned.py","tftb/processing/ambiguity.py","tftb/processing/freq_domain.py","tftb/processing/time_domain.py","tftb/processing/postprocessing.py","tftb/processing/utils.py"]
ALL=GEN+PRO+["tftb/utils.py"]
RNG=["tftb/generators/noise.py","tftb/generators/analytic_signals.py"]

p("C01","Concurrent callers do not disturb each other",
 "When several threads use the library at once, on separate data, on the same signals, windows and grids, or by calling run() on one shared representation object, every call returns (or raises) exactly what it would have returned alone, whatever the interleaving of the threads and even if some of the calls are interrupted or run out of memory half way. This covers every generator, utility, distribution and post-processing function; drawing calls, and the order in which threads consume the shared random stream, are outside it.",
 ["schedules","inputs","fault_sequences"],
 "all interleavings of 2-4 caller threads at bytecode granularity, all mixes of public calls and shared arguments, all placements of an interrupt or failed allocation in some of the threads",
 "The tests are single-threaded and call every function once on fresh data: no interleaving is ever sampled, and a race that needs a switch between two particular instructions would not show even if they were threaded.",
 ALL,[("all intermediate results live in local variables; no module-level mutable state","tftb/generators/*.py, tftb/processing/*.py"),("run() builds its matrix in a local buffer and publishes it once, with values that depend only on constructor arguments","tftb/processing/linear.py, cohen.py, affine.py")],
 [("self.tfr, self.u, self.q, self.geo_f, self.freqs","attributes written by run() on a possibly shared object","tftb/processing/affine.py, base.py")],
 ["return value of every call in every thread"])
p("C02","The caller's arrays are never written to",
 "No call modifies an array or list the caller passed in (signals, windows, time and frequency grids, time-frequency matrices, instantaneous-frequency laws, coefficient lists): not on success, not when the call fails, is interrupted or runs out of memory part way, and not temporarily while it is running, when another thread could see it. Consequently an array that is read-only gives the same result as a writable one with the same contents.",
 ["inputs","crash_points","schedules","fault_sequences"],
 "all public calls, array dtypes, layouts (contiguous, strided, reversed, column, read-only) and contents, observed at every bytecode instruction of the call and after an abort at any of them",
 "The tests never compare an argument with its value before the call, never abort a call, and never look at the arguments while the call is running; two argument-mutating defects were in the tree (renyi_information) with all tests passing.",
 ALL,[("inputs are copied (fft, real, *, copy) before any in-place operation","tftb/processing/*.py"),("renyi_information rebinds instead of '+='/sort()","tftb/processing/postprocessing.py")],None,
 ["bytes of every argument before, during and after the call"])
p("C03","A representation can be run any number of times",
 "However a representation object has been used before (earlier run() calls, plots, runs or plots that were interrupted, ran out of memory or failed, an earlier returned matrix overwritten by the caller), the next run() that completes returns exactly what the first run() of a freshly constructed object with the same arguments returns, and leaves the object's own matrix, time grid and frequency grid in the same state as that first run() leaves them.",
 ["histories","crash_points","fault_sequences","inputs"],
 "all representation classes and constructor arguments; all histories of run, plot, scribble and aborted run/plot on one object; aborts at every instruction",
 "The tests construct a fresh object and run it once; run() accumulated into a matrix left over from earlier use in eight classes with all tests passing.",
 ["tftb/processing/base.py","tftb/processing/linear.py","tftb/processing/cohen.py","tftb/processing/affine.py"],
 [("run() allocates its accumulation matrix itself","linear.py ShortTimeFourierTransform.run, cohen.py *.run, affine.py Scalogram.run"),("constructor fixes signal, ts, fwindow, n_fbins, n_voices once","base.py BaseTFRepresentation.__init__, affine.py *.__init__")],
 [("tfr","the matrix of the last completed run","base.py"),("freqs, u, q, geo_f","grids recomputed by affine run()","affine.py")],
 ["return value of run(); tfr, ts and freqs attributes"])
p("C04","Displaying is read-only and repeatable",
 "Plotting a representation (any kind, threshold or option), or plotting instantaneous-frequency laws, changes neither the representation's signal, matrix, time grid and frequency grid nor any array obtained from it or passed to the plot call, even if the plot call fails or is interrupted at any point or the display back end fails. Repeating a plot call with the same arguments draws the same picture as the first one did, whatever other plots or aborted plots happened in between.",
 ["histories","crash_points","fault_sequences","configurations"],
 "all representation classes, plot kinds and options; all sequences of plots, aborted plots and failing show() on one object; aborts at every instruction",
 "The tests never plot; plot() truncated, squared and thresholded the stored matrix in place with all tests passing.",
 ["tftb/processing/base.py","tftb/processing/linear.py","tftb/processing/cohen.py","tftb/processing/affine.py","tftb/processing/plotifl.py"],
 [("plot() works on a shallow copy of the representation and a copy of its matrix","linear.py, cohen.py, affine.py plot()"),("Base plot only reads","base.py BaseTFRepresentation.plot")],None,
 ["attributes and returned arrays before/after plot; artists of the produced figure; plt.show seam"])
p("C05","Deterministic calls have no memory",
 "The result of a call that does not draw random numbers depends only on the values of its arguments at the time of the call: not on which calls were made before it (with the same, similar or different arguments), on calls that failed or were aborted, on what the caller has since done to earlier inputs or results (including reusing the same buffer with new contents), on the wall clock, on garbage collection, or on the process it runs in. This includes the accept/reject behaviour: a call raises after some history exactly when it raises in a fresh process.",
 ["histories","inputs","crash_points","configurations"],
 "all histories of public calls up to some hundreds of calls, including aborted ones, buffer reuse, overwritten results, near-identical arguments, clock jumps, and process restarts with another hash seed, time zone or working directory",
 "Each test makes a handful of calls with one argument set in one process; a cache with an incomplete key, a mutable default or a shared scratch buffer returns right results for the first call and wrong ones only after a particular history.",
 ALL,[("functions are written without module-level state, memoisation or mutable defaults","tftb/**/*.py")],None,
 ["return value of every call of a history against the same call in a pristine process"])
p("C06","Seeding makes the random generators reproducible",
 "After numpy's global generator is seeded (or its state restored), the sequence of random signals produced by a sequence of generator calls is a function of the seed and the calls alone: the same after any earlier history, including interrupted or failed generator calls, with any deterministic library calls interleaved, and in any process. Deterministic library calls (everything except the noise and random keying generators) never read or advance numpy's or Python's random state.",
 ["histories","crash_points","configurations","inputs"],
 "all seeds, all sequences of generator calls, all earlier histories and interleaved deterministic calls, aborted calls, process restarts",
 "Tests seed nothing and compare statistics of single draws; hidden draw-ahead, cached Gaussian pairs, private generators or draws from another source only show when two histories under one seed are compared.",
 RNG+["tftb/generators/__init__.py"],[("generators draw only from numpy's global RandomState (np.random.rand/randn/normal)","noise.py, analytic_signals.py")],
 [("np.random global state","the only entropy source of the library","noise.py, analytic_signals.py")],
 ["np.random.get_state()/random.getstate() around calls; returned signals"])
p("C07","Random signals meet their contracts for every random stream",
 "For every state of the random source, however rare the draws, and every length and symbol length of at least one sample (two for dopnoise), each random generator succeeds and returns exactly n_points finite samples (with a modulation law of the same length where it returns one); the one exception is a noise block whose draws are all equal, which has no variance to normalise. The keyed signals hold one symbol for n_comp samples at a time (the last may be cut short), drawn independently and uniformly from the documented alphabet: an amplitude in [0,1) for anaask, -1 or +1 for anabpsk, one of the Nbf frequencies 0.25+0.25*(k/Nbf-(Nbf-1)/(2*Nbf)) for anafsk, a phase of 0, pi/2, pi or 3*pi/2 for anaqpsk; and the signal is the unit-amplitude carrier (frequency f0, constant up to a phase offset) modulated by that law. noisecu and noisecg are analytic white noise of unit variance with uniform and Gaussian real part (for a power-of-two n_points of at least 4, exactly: no negative-frequency content and a real part of variance 1/2); dopnoise has unit energy and a frequency law that is free of randomness.",
 ["inputs","fault_sequences","histories"],
 "all generator states including extreme draws (0, 1-2^-53, exact ties, long runs of one symbol) at any position, all lengths and symbol lengths including ones that do not divide",
 "The tests draw one or two unseeded samples with symbol lengths that divide n_points; draws that hit an edge of the alphabet have probability 2^-53 and lengths that do not divide crashed or returned too many samples.",
 RNG,[("floor/round maps uniform draws to symbols; repeat + truncate to n_points","analytic_signals.py"),("hilbert + std normalisation over the padded power-of-two block","noise.py"),("energy normalisation of the Doppler noise","noise.py dopnoise")],None,
 ["returned signals and laws under an entropy source the simulator controls"])
p("C08","Failures surface to the caller and the call can be retried",
 "If memory runs out or an interrupt arrives at any point inside a library call, the interrupt always reaches the caller as KeyboardInterrupt, and the memory failure either reaches the caller as an exception or the call still returns its correct result; a call never answers with a partial, defaulted or otherwise different result, and never hangs. The same call made again afterwards, in the same process, gives its normal result.",
 ["crash_points","fault_sequences","inputs"],
 "all public calls, a failed allocation or an interrupt at every instruction where the interpreter can raise one, repeated failures, retries",
 "Tests never make an allocation fail or interrupt a call; an over-broad handler or a half-updated structure is only reached with a fault at the right instruction.",
 ALL,[("no exception handlers in the library: every failure propagates","tftb/**/*.py")],None,
 ["outcome of the faulted call and of its retry"])
p("C09","Process-wide settings are left as they were found",
 "Whatever library calls are made, in however many threads, and whether they succeed, raise or run out of memory, once they have finished the process-wide settings are as before: numpy's floating-point error handling, print options and buffer size, the warning filters, matplotlib's configuration and (for calls that do not draw) its open figures, numpy's and Python's random state (for deterministic calls), environment, working directory, locale, signal handlers, recursion and garbage-collector settings, standard streams, and no thread, file or child process is left behind.",
 ["histories","crash_points","schedules","configurations"],
 "all public calls with all outcomes, under all initial settings (for example np.seterr(all='raise') or custom filters), failed allocations at every allocating instruction, concurrent callers",
 "No test looks at global settings after a call, starts from non-default settings, or aborts a call between changing and restoring one.",
 ALL+["tftb/processing/plotifl.py"],[("the library sets no process-wide option","tftb/**/*.py")],None,
 ["snapshot of the settings before and after every call"])
p("C10","Every random call draws fresh, independent randomness",
 "Each call of a random generator uses its own part of the random stream, drawn during that call: two calls, in one thread or in several, never share randomness, a call's result is unaffected by how other generator calls' draws turned out, and the signal follows the stream: different streams give different signals, chance coincidences of a few symbols aside. No history, repetition of arguments, thread interleaving or interrupted call makes a generator reuse, replay or precompute an earlier draw.",
 ["histories","schedules","crash_points"],
 "all sequences and interleavings of generator calls with equal or different arguments, and all placements of an interrupt",
 "Tests draw each random signal once and never compare two draws or tie a draw to the entropy it consumed.",
 RNG,[("every generator calls np.random.* unconditionally on each invocation and keeps nothing","noise.py, analytic_signals.py")],None,
 ["returned signals when the simulator changes the entropy of one call at a time"])
p("C11","Plots go where the caller asked and nowhere else",
 "A plot call given no axes opens exactly one new figure and draws the picture in it; a representation plot given an axes object (and not asked for the signal and spectrum panels) draws only there and opens no figure; in both cases every other open figure keeps its contents exactly. show is called exactly once, after drawing, if and only if display was requested (plotifl always requests it), however many plots, failures or interrupts came before.",
 ["histories","configurations","crash_points"],
 "all representation classes, kinds and options, all sequences of plots with any figures already open or closed, aborted plots, failing back end",
 "The tests never plot; the ax argument was ignored and surface plots left a stray figure with all tests passing.",
 ["tftb/processing/base.py","tftb/processing/plotifl.py","tftb/processing/linear.py","tftb/processing/cohen.py","tftb/processing/affine.py"],
 [("plt.figure()/subplots once when ax is None; only ax.* methods after that","base.py plot"),("plt.figure() then pyplot calls on its axes","plotifl.py")],
 [("pyplot figure registry and current axes","process-global state shared with the caller","base.py, plotifl.py")],
 ["plt.get_fignums, artists of every open figure, plt.show seam"])
p("C12","Undersampling is reported on every call that causes it",
 "Every call of the hyperbolic, parabolic and power-law frequency-modulation generators whose instantaneous-frequency law leaves the interval [0, 0.5] issues one UserWarning through the warnings machinery, and a call whose law stays inside issues none, regardless of earlier calls, earlier identical warnings, changed filters, interrupts or threads. Under an 'error' filter the call raises it instead, and a later call under another filter still returns its normal result.",
 ["histories","configurations","schedules"],
 "all coefficients on either side of the limit, all histories of warned and unwarned calls, filter changes, aborted calls",
 "The tests check one warning once; a warn-once flag, a swallowed warning or a filter change left behind only shows on a later call.",
 ["tftb/generators/frequency_modulated.py"],[("np.any(iflaw < 0) or np.any(iflaw > 0.5) -> warnings.warn on each call","frequency_modulated.py fmhyp, fmpar, fmpower")],None,
 ["warnings recorded under an always/error/ignore filter"])
p("C13","The library keeps no hold on the caller's data",
 "Once the caller has dropped a call's arguments and results (and the representation objects built from them, and closed any figures), nothing in the library keeps those arrays alive, whether the calls succeeded, failed, were interrupted or ran in other threads, so their memory is returned.",
 ["histories","crash_points","schedules"],
 "all public calls and histories, aborted calls, threads that have ended",
 "No test observes object lifetime; a cache or registry that pins arrays passes every functional test.",
 ALL,[("no module-level containers, no caches, no reference cycles through globals","tftb/**/*.py")],None,
 ["weak references to arguments and results after the caller drops them and the collector runs"])
p("C14","Results are snapshots that nothing changes later",
 "An array returned by a library call (or held in a representation after run()) never changes afterwards because of a later library call, completed or aborted, or because the caller overwrites the arrays it passed in or another call's result, and overwriting it does not change what later calls return. Grids that the caller supplied or that a representation object holds (timestamps, time instants, lags, frequencies) and that the library hands back are shared, and outside this.",
 ["histories","crash_points","inputs"],
 "all pairs and sequences of public calls with equal or similar arguments, all overwrites of inputs and earlier results, aborted calls",
 "Tests look at a result immediately and drop it; aliasing with an input, a shared buffer or a later result is invisible to them.",
 ALL,[("results are freshly allocated by each call","tftb/**/*.py"),("run() never reuses the published matrix","linear.py, cohen.py, affine.py")],None,
 ["all earlier results re-compared after every later event of the history"])
p("C15","A representation can be copied, saved and restored at any point of its life",
 "At any point of its life (new, run, plotted, after a failed or interrupted run or plot, or while another thread is inside its run()) a representation object can be deep-copied and pickled under every protocol, and the copy, in the same process or in a new process started after the first one died, is a full one: it has the original's signal, matrix, grids and window, its next run() returns what the first run() of a new object with the same arguments returns, and its plots draw the same picture. Using, overwriting or discarding either of the two changes nothing about the other.",
 ["histories","crash_points","schedules"],
 "all representation classes and arguments, all points of an object's history, all copying methods, process restarts with only the saved bytes surviving",
 "No test copies or pickles an object; state kept outside the object (registries, caches keyed by identity) or members that cannot be copied pass every functional test and fail in process pools and after restarts.",
 ["tftb/processing/base.py","tftb/processing/linear.py","tftb/processing/cohen.py","tftb/processing/affine.py"],
 [("plain instance attributes hold the whole state: arrays, numbers and strings","base.py, linear.py, cohen.py, affine.py __init__ and run")],None,
 ["copy.deepcopy and pickle of objects; run() and plot() of the copies here and in a pristine process"])
p("C16","A call made in the middle of another one disturbs neither",
 "A library call made while another one is in progress on the same thread (from a signal handler or finalizer that runs between two of its instructions, from the caller's warning hook, or from a callback run by the display) returns or raises what it does alone, and so does the interrupted call, its plot included; neither waits for the other. This holds for any pair of operations, equal and nearly equal arguments, shared argument arrays, and run() on the very object in use; random calls nested in random calls share the random stream and are outside this.",
 ["schedules","histories","inputs"],
 "all pairs of public calls, all instants at which a handler can run, warning hooks and display callbacks",
 "Tests never re-enter the library; per-thread scratch space, busy flags and non-reentrant locks pass even multi-threaded tests and fail only when a handler runs inside a call.",
 ALL,[("calls keep all intermediate state in local variables","tftb/**/*.py"),("run() publishes its result in one assignment at the end","linear.py, cohen.py, affine.py")],None,
 ["outcome of the inner and of the outer call; pictures; deadlock of the simulated lock"])
p("C17","A forked process, and its parent, can go on using the library",
 "When a process that uses the library is forked at any point (between two calls, in the middle of a call, or while other threads are inside theirs), every call made afterwards in the child, the call it was in the middle of, and every call in the parent return or raise what they do alone, on inherited representation objects too; none waits for a thread that does not exist in its process, and neither process sees what the other does.",
 ["schedules","crash_points","histories"],
 "all public operations and inherited objects, all points at which a fork can happen in any thread, aborted calls before it",
 "No test forks; a lock held by another thread at the fork, scratch memory shared between processes, or state tied to a process or thread identity passes every single-process test and hangs or corrupts process pools.",
 ALL,[("no locks, threads, files, shared memory or process identities are kept","tftb/**/*.py")],None,
 ["outcome of every call in parent and child; simulated locks; time limit on the child"])
p("C18","Importing has no side effects and survives interruption",
 "Importing the package and its modules, in any order, succeeds under any settings of the caller and changes none of them, whatever they are: the states of the random generators, numpy's error handling and print options, warning filters, the matplotlib configuration, back end, interactive mode and open figures, environment, working directory, locale, signal handlers, recursion limit, collector, streams and threads; it prints and warns about nothing. An import stopped at any point by an interrupt or for want of memory leaves the settings as they were too, and can be tried again; after any such history, or after the modules were dropped and imported again with objects of the first import still in use, every operation behaves as in a process that imported the package undisturbed.",
 ["configurations","crash_points","histories"],
 "all orders of import, all settings in force before, all instructions of module code at which an import can be stopped, repeated imports",
 "Every test imports the package once, undisturbed, under default settings; a seed, a filter, a back end or an error mode set while importing, or a module that cannot be imported a second time, is invisible to them.",
 ALL+["tftb/__init__.py","tftb/generators/__init__.py","tftb/processing/__init__.py"],[("module code only defines functions and classes","tftb/**/*.py")],None,
 ["settings snapshot around imports; recorded output and warnings; outcome of calls afterwards"])
p("C19","Nothing grows with the number of calls",
 "However often calls are made, with equal arguments or with ever different ones, in however many short-lived threads, and whether they succeed, fail, are interrupted or run out of memory (objects made, run, plotted and dropped, figures closed, plots whose display fails), what the process holds on to on behalf of the library is bounded: memory, file descriptors, threads, and entries in the library's own containers do not keep growing with the number of calls once a bounded warm-up is over.",
 ["histories","crash_points","schedules"],
 "all sequences of calls of any length, all argument values, all instructions at which a call can be stopped",
 "Tests make each call a handful of times in a short-lived process; a record kept per call, per object or per failed call is invisible there.",
 ALL,[("no state outlives a call","tftb/**/*.py")],None,
 ["memory blocks, bytes, descriptors, threads, container entries over repeated cycles of calls"])
NA=[]
def na(id,title,st,files,mech,why,reason):
    p(id,title,st,["inputs"],"all finite input signals and parameters",why,files,mech)
    NA.append({"property":id,"reason":reason})
R="a pure function of its arguments: no schedule, clock, fault, interleaving, randomness or history occurs in the statement, so seeded simulation would only be input generation under another name"
na("N01","Wigner-Ville and Cohen-class distributions have their defining properties",
 "The Wigner-Ville, pseudo Wigner-Ville, smoothed pseudo Wigner-Ville, Margenau-Hill and Page distributions of any signal are real-valued, and the Wigner-Ville distribution satisfies the time and frequency marginals and conserves energy.",
 ["tftb/processing/cohen.py"],[("lag-windowed correlation + FFT","cohen.py run()")],"Tests check a few signals.",R)
na("N02","STFT is linear; spectrogram is its squared magnitude",
 "The short-time Fourier transform is linear in the signal and covariant to modulation, and the spectrogram equals its squared magnitude and is non-negative.",
 ["tftb/processing/linear.py","tftb/processing/cohen.py"],[("windowed FFT per time instant","linear.py run()")],"Tests check a few signals.",R)
na("N03","Reassignment moves energy without creating or destroying it",
 "The reassigned spectrogram and pseudo Wigner-Ville distribution carry the same total energy as the distribution they reassign.",
 ["tftb/processing/reassigned.py"],[("each cell's energy is added to one target cell","reassigned.py")],"Tests check one or two signals.",R)
na("N04","Affine distributions integrate to the signal's energy in the band",
 "Scalogram, Bertrand, D-Flandrin and Unterberger distributions, integrated over time and frequency, give the energy of the signal in [fmin, fmax].",
 ["tftb/processing/affine.py"],[("normalisation by integrate_2d","affine.py run()")],"Tests check one signal each.",R)
na("N05","Ambiguity functions peak at the origin and are symmetric",
 "The magnitude of the narrow- and wide-band ambiguity functions is largest at zero lag and Doppler, and the narrow-band one is Hermitian-symmetric.",
 ["tftb/processing/ambiguity.py"],[("lag product + FFT; Mellin transform","ambiguity.py")],"Tests check one signal.",R)
na("N06","Deterministic generators follow their modulation laws",
 "The amplitude- and frequency-modulated generators return signals of the requested length whose envelope and instantaneous frequency follow the documented law.",
 GEN[:3]+GEN[4:5],[("closed-form laws integrated to a phase","frequency_modulated.py, amplitude_modulated.py, misc.py")],"Tests check default parameters.",R)
na("N07","Localisation and instantaneous measures are correct",
 "loctime, locfreq, inst_freq and group_delay return the first and second moments, instantaneous frequency and group delay of any signal.",
 ["tftb/processing/time_domain.py","tftb/processing/freq_domain.py"],[("moment and phase-difference formulas","time_domain.py, freq_domain.py")],"Tests check one signal each.",R)
na("N08","Post-processing computes what it names",
 "hough_transform, renyi_information, ideal_tfr, friedman_density and ridges compute the documented functional of the given matrix.",
 ["tftb/processing/postprocessing.py"],[("direct formulas","postprocessing.py")],"Tests check one matrix each.",R)
na("N09","Numeric utilities are correct for all arguments",
 "nextpow2, divider, nearest_odd, modulo, izak, is_linear, integrate_2d, derive_window, sigmerge and scale return the documented value for every argument.",
 ["tftb/utils.py","tftb/processing/utils.py","tftb/generators/utils.py"],[("direct formulas","utils.py")],"Tests check a few values.",R)
na("N10","Invalid arguments are rejected",
 "Out-of-range frequencies, non-odd windows, multi-dimensional signals and other invalid arguments raise an exception instead of producing a result.",
 ALL,[("explicit range checks","generators, processing")],"Tests check a few invalid calls.",R)
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
