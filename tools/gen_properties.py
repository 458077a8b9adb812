"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=observe, hook_needed=hook)))
PK = 'pymultifracs/'
p('C01', 'A signal object answers as the stand-alone functions, whatever its history',
  'Every analysis method of a signal object (wavelet and Welch PSD, fractal analysis, wavelet analysis, multifractal analysis, Hurst, h_min, PSD difference) returns the values that the corresponding stand-alone function gives for the same data and the parameters in force, regardless of which methods were called before, with which parameters, in which order, and whether earlier results were kept. This includes parameters that compare or alias in unusual ways: q given as list, array or None, q arrays of other lengths, and a q array that the caller changed in place after an earlier call.',
  ['histories', 'configurations'],
  'Every finite sequence of method calls and parameter choices on one object, for unchanged data.',
  'No existing test touches the signal class. Its point is reuse of earlier results, so wrong answers appear only for particular sequences of calls, and there are unboundedly many sequences.',
  [PK+'signal.py', PK+'mfa.py', PK+'estimation.py', PK+'psd.py'],
  [('parameter comparison that decides between reuse and recomputation', 'signal.py: same_params, _wavelet_analysis, estimate_*'),
   ('results held on the object', 'signal.py: Signal fields')],
  ['Signal method return values'],
  [('wt_transform / wt_param', 'last wavelet analysis and its parameters', 'signal.py'),
   ('multi_fractal / mf_param', 'last saved multifractal analysis and its parameters', 'signal.py')])
p('C02', 'A failed or interrupted call never spoils later answers of a signal object',
  'If a method of a signal object fails part-way (memory exhausted, user interrupt, numerical library error, rejected parameters) at any point of its computation, the failure reaches the caller and every later call on that object still returns exactly what it would on an object that never saw the failed call (the steps a composite call such as the full analysis had completed before the failure count as done). In particular, repeating the failed call once the cause is gone gives the right result and never a stale one.',
  ['crash_points', 'histories'],
  'Every point inside every method call at which a library call it makes can fail, in every call history.',
  'Tests inject no failure. A stale cached result needs a failure at one point between two specific calls.',
  [PK+'signal.py'],
  [('order in which results and the parameters describing them are stored', 'signal.py: _wavelet_analysis, mf_analysis, estimate_*, fractal_analysis')],
  ['Signal method return values after an exception'])
p('C03', 'Results stored on a signal object always match their stored parameters',
  'At every moment between calls, including after failed calls, each result exposed by a signal object created from data (wavelet PSD, Welch PSD, fractal values, wavelet transform, multifractal result) is the one obtained from the data with the parameters the object exposes beside it, and a call that asks for its result not to be saved leaves the saved multifractal result as it was, unless the wavelet analysis it was derived from changed. Repeating a PSD, wavelet or saved multifractal request with unchanged parameters hands back the stored result without recomputing it.',
  ['histories', 'crash_points'],
  'Every call history, with and without failures inside calls.',
  'No test reads the stored fields; mismatches arise only from sequences of at least two calls or from a failure inside one.',
  [PK+'signal.py'],
  [('storing of results and parameters', 'signal.py: all methods that assign self.*'), ('reuse', 'signal.py: same_params and the != tests')],
  ['public fields of Signal'],
  [('*_param fields', 'parameters of the stored result', 'signal.py')])
p('C04', "No analysis modifies its caller's data, even when it is cut short",
  "No analysis, synthesis or plotting call changes any array, list or mapping passed to it or any intermediate result handed to it (signals, q, supplied noise, wavelet coefficients and leaders, PSDs), whether it completes or is cut short by a failure at any point. Read-only inputs such as memory-mapped recordings are therefore accepted and give the same results as writable ones.",
  ['crash_points', 'inputs', 'configurations'],
  'Every public function, option combination, memory layout and dtype of the inputs, and every point at which the call can be cut short.',
  'Existing tests never compare inputs before and after, use one layout and dtype, and inject no failures.',
  [PK+'wavelet.py', PK+'utils.py', PK+'structurefunction.py', PK+'cumulants.py', PK+'mfspectrum.py', PK+'bivariate/', PK+'psd.py', PK+'simul/'],
  [('fresh arrays at each stage instead of in-place arithmetic', 'wavelet.py: filtering, wavelet_analysis; utils.py: fast_power')],
  ['bytes of every argument before and after a call'])
p('C05', 'Analyses running concurrently in several threads never influence each other',
  'When several threads run analyses at the same time, on shared or separate inputs and with equal or different parameters, every one of them finishes and returns the same result it returns when run alone, for every interleaving. This covers wavelet analysis in all formalisms, multifractal and bivariate analysis, PSD and fractal estimation, synthesis from supplied noise, and signal objects private to a thread that share their data array.',
  ['schedules', 'configurations'],
  'Every interleaving of the caller threads and every mix of operations.',
  'All tests are single-threaded; a leak through shared scratch state shows only when a switch falls between two specific statements.',
  [PK+'wavelet.py', PK+'utils.py', PK+'mfa.py', PK+'psd.py', PK+'bivariate/', PK+'multiresquantity.py'],
  [('absence of module-level, class-level or default-argument state in the analysis path', 'all analysis modules')],
  ['results of each thread'])
p('C06', 'Analyses leave process-wide state untouched under concurrency and failure',
  'Importing the package and running any analysis leaves the interpreter-wide warning filters, numpy error and print settings, both global random generators (analysis consumes no randomness), plotting and logging configuration, environment variables and working directory exactly as they were, also when several threads run analyses at once and when calls fail part-way. While an analysis runs, warnings raised by other threads of the process are still delivered.',
  ['schedules', 'crash_points', 'histories'],
  'Every interleaving of threads and every failure point of every analysis call.',
  'Process-wide state is not inspected by any test; save-and-restore pairs break only when two threads overlap in a particular order or a failure skips the restore.',
  [PK+'utils.py', PK+'wavelet.py', PK+'mfspectrum.py', PK+'cumulants.py', PK+'viz.py'],
  [('NaN-aware maximum that must not complain about empty windows', 'utils.py: fixednanmax')],
  ['warnings.filters', 'numpy.geterr', 'numpy.random.get_state', 'matplotlib.rcParams', 'os.environ', 'os.getcwd'])
p('C07', 'Synthesis is a function of its arguments and the generator state alone',
  'Fractional Brownian motion, fractional Gaussian noise, multifractal random walks and their variants produce the same output and advance the global numpy generator by the same amount whenever they are called with the same arguments from the same generator state, whatever was synthesised, rejected or interrupted before; repeated calls draw fresh noise. Rejected requests (invalid H, integral scale longer than the data, unknown method) consume no randomness, and when the caller supplies all the noise of a synthesis that accepts it, none is drawn and the output depends on that noise.',
  ['histories', 'crash_points', 'configurations'],
  'Every history of earlier synthesis calls, including failed ones, and every generator state.',
  'Tests only look at shapes and raised errors; no test reseeds and compares, supplies noise, or watches the generator.',
  [PK+'simul/fbm.py', PK+'simul/mrw.py', PK+'simul/pzutils.py'],
  [('draws from the global generator', 'simul/pzutils.py, simul/mrw.py'), ('argument validation before drawing', 'simul/fbm.py, simul/mrw.py')],
  ['returned arrays and numpy.random.get_state()'])
p('C08', 'Synthesised noise has exactly the specified law over the randomness it draws',
  'For every length, H in (0,1), sigma, sampling step, number of realisations and synthesis method, fractional Gaussian noise is a linear map of independent standard normal draws whose covariance is exactly that of fractional Gaussian noise within a realisation and exactly zero across realisations, and fractional Brownian motion is its running sum. The multifractal random walk is the running sum of such noise times the exponential of an independent, mean-corrected Gaussian process with log-correlated covariance lambda^2 log(L/(k+1)) up to the integral scale (where its embedding is positive definite; otherwise this is announced, see C15), and the cumulant parametrisation equals it with H=c1+c2, lambda^2=-c2.',
  ['configurations', 'inputs'],
  'Every realisation of the random stream (the law is decided, not sampled) for every parameter choice.',
  'Tests cannot settle a probability law: they check output shapes, and through estimators a mean over 50 realisations with tolerance 0.1. With the random source under control the law is recovered exactly from the response to chosen streams.',
  [PK+'simul/fbm.py', PK+'simul/mrw.py', PK+'simul/pzutils.py'],
  [('circulant embedding', 'simul/pzutils.py: gaussian_cme'), ('Cholesky synthesis', 'simul/pzutils.py: gaussian_chol'), ('log-correlated process', 'simul/mrw.py: gaussian_w')],
  ['returned arrays as a function of the generator stream'])
p('C09', 'Missing samples affect only the coefficients and leaders that cover them',
  'If samples of a recording are missing (NaN), in any pattern of dropouts, then every wavelet coefficient at every scale whose support avoids the missing samples has the value it has without the dropout, every coefficient whose support touches one is reported missing, and other realisations analysed in the same call are unaffected. Leaders and p-leaders equal their definition (maximum, or p-sum before p-leader correction, over the finer-scale neighbourhood) taken over the surviving coefficients, and are missing only where none survives.',
  ['fault_sequences', 'inputs', 'configurations'],
  'Every dropout pattern and timing, every wavelet, normalisation, fractional integration order, p and signal length.',
  'Tests analyse complete recordings only.',
  [PK+'wavelet.py', PK+'utils.py', PK+'multiresquantity.py'],
  [('direct convolution and border masking with NaN', 'wavelet.py: filtering'), ('NaN-aware neighbourhood reduction', 'wavelet.py: _find_sans_voisin, _compute_leaders; utils.py: fixednansum, fixednanmax')],
  ['wavelet_analysis(...).wt_coefs.values / wt_leaders.values / nj'])
p('C10', 'A recording cut short or started late gives the same interior coefficients',
  'Analysing the part of a recording that was captured before the recorder stopped at an arbitrary sample, or after a start delayed by a multiple of the coarsest scale step, gives at every scale the same wavelet coefficients and uncorrected leaders as the full recording at every position whose support lies inside the captured part and clear of its ends. Positions whose support touches an end of the captured part are reported missing rather than filled with values.',
  ['crash_points', 'inputs', 'configurations'],
  'Every stop and start sample, every wavelet and option.',
  'Tests use one length per process and never compare analyses of a recording and of part of it.',
  [PK+'wavelet.py'],
  [('border masking and dyadic subsampling', 'wavelet.py: filtering'), ('scale range selection', 'wavelet.py: _decomposition_level, wavelet_analysis')],
  ['wavelet_analysis(...).wt_coefs.values / wt_leaders.values'])
p('C11', 'Estimates equal their definitions over the data that survives acquisition faults',
  'For recordings with any pattern of acquisition faults (missing samples, spikes, gain and offset jumps, early stop), every reported statistic of the uni- and bivariate analyses (structure functions and scaling exponents, H, cumulants and log-cumulants, multifractal spectrum, h_min, Hurst, coherence, wavelet and Welch PSD with their frequencies, spectral slope) equals its documented definition evaluated on the surviving coefficients, with regression weights equal to the number of surviving coefficients per scale when weighting is on. This holds for all q (H is None when 2 is not among them), all p, and for coefficient-only analyses.',
  ['fault_sequences', 'inputs', 'configurations'],
  'Every fault pattern on the recording and every option combination.',
  'Tests compare a few estimates with theory within 0.1 on complete, synthetic, 65536-sample recordings with q in -2..2 and p in {2, inf}; no case has missing data.',
  [PK+'structurefunction.py', PK+'cumulants.py', PK+'mfspectrum.py', PK+'estimation.py', PK+'psd.py', PK+'fractal_analysis.py', PK+'bivariate/', PK+'utils.py', PK+'mfa.py'],
  [('NaN-aware moments', 'structurefunction.py, cumulants.py, mfspectrum.py, bivariate/'), ('weighted regression on surviving counts', 'utils.py: linear_regression; multiresquantity.py: add_values, get_nj_interv')],
  ['fields of the returned analysis objects'])
p('C12', 'Results per realisation do not depend on batching, workers, order or retries',
  'However a set of realisations is split into batches, spread over concurrent workers, reordered, retried after a worker failed mid-job or processed twice, each realisation gets the result it gets when analysed alone, including its own missing-data pattern and regression weights. The only coupling allowed between realisations of a batch is the common range of scales and the announced suppression of the p-leader correction.',
  ['schedules', 'fault_sequences', 'configurations'],
  'Every partition into batches, assignment, interleaving, worker failure point and retry order, with different data faults per realisation.',
  'Tests analyse one fixed batch of 50 complete realisations and look only at its mean.',
  [PK+'wavelet.py', PK+'structurefunction.py', PK+'cumulants.py', PK+'mfspectrum.py', PK+'estimation.py', PK+'multiresquantity.py'],
  [('reductions along the sample axis only', 'wavelet.py, structurefunction.py, cumulants.py, mfspectrum.py, estimation.py')],
  ['per-realisation columns of all results'])
p('C13', 'A staged analysis can be saved, killed and resumed without changing the result',
  'Cutting an analysis into stages (synthesis, wavelet analysis, univariate, minimal or bivariate multifractal analysis, signal objects), saving any intermediate result by serialisation, losing the process at any point and resuming in a new process from whatever was saved gives the same final result as one uninterrupted call. All intermediate and final results can be serialised, copied and restored with all their documented fields and derived attributes.',
  ['crash_points', 'histories'],
  'Every stage boundary and crash point, every set of surviving saved results.',
  'No test serialises a result or runs the stages separately in different processes.',
  [PK+'mfa.py', PK+'multiresquantity.py', PK+'cumulants.py', PK+'bivariate/', PK+'signal.py', PK+'wavelet.py'],
  [('plain picklable result objects with attribute fall-backs', 'multiresquantity.py, cumulants.py, bivariate_cumulants.py: __getattr__'), ('one-call wrappers equal to their stages', 'mfa.py: mf_analysis_full, minimal_mf_analysis; bivariate/bimfa.py')],
  ['results after restore'])
p('C14', 'Plots only observe, can be repeated in any order, and report failed saves',
  'Plotting any result obtained from one realisation (into two-dimensional axes, where a plot uses the current ones), any number of times, in any order and mixed with other plots, succeeds, never changes the plotted results, and what it draws for a result is the same whatever was plotted or failed before. When a file name is given the complete image is written there, a storage failure (disk full, I/O error, missing directory) is reported to the caller, and repeating the call after the failure is cleared writes the image.',
  ['histories', 'fault_sequences'],
  'Every sequence of plot calls with storage failing at every write.',
  'No test plots or saves anything.',
  [PK+'structurefunction.py', PK+'cumulants.py', PK+'mfspectrum.py', PK+'estimation.py', PK+'psd.py', PK+'fractal_analysis.py', PK+'signal.py', PK+'bivariate/'],
  [('figure creation by name or number', 'structurefunction.py, cumulants.py: plot'), ('saving', 'plt.savefig in plot methods')],
  ['curves of the produced figures, saved files, result objects before and after'])
p('C15', 'Degraded conditions are announced, and still answered, under any warning policy',
  'When a request can be met only in part (a maximum scale above what the length of the recording allows, a p-leader correction whose eta_p is not positive, a non-positive-definite embedding, h_min below zero), every computation of such a result issues a warning and, unless warnings are turned into errors, returns the reduced result: scales clipped to the available range, leaders left uncorrected with the eta_p that caused it. The returned values are the same under every warning policy, and requests that can be met in full issue no such warning.',
  ['configurations', 'fault_sequences', 'histories'],
  'Every warning policy, in any order of degraded and regular requests, for every option combination.',
  'The test configuration turns warnings into errors, so no test can reach what follows a warning.',
  [PK+'wavelet.py', PK+'estimation.py', PK+'simul/pzutils.py'],
  [('warnings and fall-backs', 'wavelet.py: _decomposition_level, _correct_leaders; estimation.py: estimate_hmin; simul/pzutils.py: gaussian_cme')],
  ['issued warnings and returned results'])
p('C16', 'Analysing synthesised processes recovers their parameters for any noise',
  'Synthesising fractional Brownian motion or a multifractal random walk (H at least 1/2, where the latter is self-similar) from any state of the random generator and analysing it with the package (default wavelet and others, with or without weighting, in the coefficient, leader and p-leader formalisms, with fractional integration when needed) recovers H, the spectral slope 2H+1, and the intermittency lambda^2 within sampling error. Estimates change with the random stream only within that sampling error.',
  ['inputs', 'configurations'],
  'Every random stream; parameters H in (0.2, 0.9), lambda^2 in [0, 0.09].',
  'Tests run one stream with one wavelet, a fixed scale range and q set.',
  [PK+'simul/', PK+'wavelet.py', PK+'mfa.py', PK+'structurefunction.py', PK+'cumulants.py', PK+'psd.py', PK+'fractal_analysis.py'],
  [('the whole chain', 'simul -> wavelet -> structurefunction/cumulants/mfspectrum')],
  ['H, c1, c2, beta estimates'])
p('C17', 'Results have no hidden inputs from the environment',
  'The result of every analysis and of every synthesis from a given generator state, and the curves a plot draws for it, depend on nothing but its arguments: not on the clock or its jumps, hash randomisation, environment variables, working directory, locale, interpreter optimisation level, thread limits of numerical libraries, import order, the state of the global generators (for analyses), or earlier activity in the process.',
  ['configurations', 'histories'],
  'Every environment a process can be started in and every state it can have reached.',
  'The test command fixes hash seed, thread counts, seeds and directory; every run sees one environment.',
  ['pymultifracs/'],
  [('absence of reads from the environment', 'all modules')],
  ['results in simulated environments'])
p('C18', 'Starting the virtual display fails loudly and marks the display only on success',
  'Requesting the virtual frame buffer on an unsupported platform or on a machine without the server raises an error and leaves the DISPLAY variable as it was and starts nothing. When the server is present exactly one server is started for the requested or default window size, DISPLAY then names it, and the call waits for the requested time, or not at all for zero. The three-dimensional plot of a bivariate spectrum requests it only when asked to, and shows nothing when it is refused.',
  ['fault_sequences', 'configurations'],
  'Every outcome of the commands it runs, every platform, window size and waiting time, in any sequence of attempts.',
  'No test calls it (it needs an optional package and would start a process).',
  [PK+'viz.py'],
  [('external commands, clock and environment', 'viz.py: start_xvfb')],
  ['os.system calls, time.sleep calls, os.environ (all simulated)'])
NA = {}
def na(id, title, statement, qtext, why, files, mech, observe, reason):
    p(id, title, statement, ['inputs'], qtext, why, files, mech, observe)
    NA[id] = reason
na('C19', 'Scale and frequency conversions are mutually inverse',
   'Converting a scale to a frequency and back gives the scale for every sampling frequency, and converting a frequency band gives the scales whose frequencies lie inside the band.',
   'Every real scale, frequency and sampling frequency.', 'Not tested at all.',
   [PK+'utils.py'], [('closed formulas', 'utils.py: scale2freq, freq2scale, fband2scale')], ['return values'],
   'Pure arithmetic on its arguments: no schedule, clock, fault, randomness or history can influence it.')
na('C20', 'Estimates are equivariant under amplitude scaling and polynomial trends',
   'Multiplying a signal by a non-zero constant leaves all scaling exponents, log-cumulants of order one and above, spectra and h_min unchanged, and adding a polynomial trend of degree below the number of vanishing moments of the wavelet changes nothing.',
   'Every signal, constant and polynomial.', 'Tests compare with theory within 0.1 and use no such pairs.',
   [PK+'wavelet.py', PK+'structurefunction.py', PK+'cumulants.py', PK+'mfspectrum.py'], [('linear filtering and logarithms', 'wavelet.py')], ['estimates'],
   'A metamorphic relation of a pure function of the input signal; nothing for a simulator to schedule or fail. (That each estimate equals its definition, which implies this, is exercised on faulty recordings under C11.)')
na('C21', 'Leaders dominate coefficients and p-leaders increase to leaders with p',
   'A wavelet leader is at least the absolute value of every coefficient in its neighbourhood, and p-leaders are ordered in p and tend to leaders as p grows.',
   'Every signal and p.', 'Tests never compare formalisms.',
   [PK+'wavelet.py'], [('supremum / l^p norms over neighbourhoods', 'wavelet.py: _compute_leaders')], ['leaders'],
   'An inequality between pure functions of one input; it has no schedule or fault dimension.')
na('C22', 'The linear regression minimises the weighted squared error',
   'The slope and intercept returned for any abscissae, ordinates and positive weights minimise the weighted sum of squared errors.',
   'Every x, y and weights with at least two distinct abscissae.', 'Tested only through final estimates.',
   [PK+'utils.py'], [('closed form', 'utils.py: linear_regression')], ['return values'],
   'A closed formula evaluated on its arguments; deterministic simulation adds nothing to checking it on inputs.')
na('C23', 'The helper building log-spaced moments is symmetric, sorted and complete',
   'The helper that builds moment orders returns strictly increasing values, symmetric around zero, containing 0, 1, 2 and their opposites and the requested log-spaced range, and rejects non-positive bounds.',
   'Every bounds and count.', 'Not tested.',
   [PK+'utils.py'], [('construction', 'utils.py: build_q_log')], ['return value'],
   'A pure function of three numbers.')
na('C24', 'The bivariate Legendre spectrum is maximal at the first log-cumulants',
   'The bivariate spectrum computed from log-cumulants is at most one, attains one at the pair of first log-cumulants, and reduces to the product form when the signals are independent.',
   'Every set of admissible log-cumulants.', 'Not tested.',
   [PK+'bivariate/bivariate_cumulants.py'], [('second-order expansion', 'bivariate_cumulants.py: compute_legendre')], ['compute_legendre'],
   'A deterministic formula of four numbers; no nondeterminism or fault enters.')
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if __name__ == '__main__':
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps(x) + '\n')
