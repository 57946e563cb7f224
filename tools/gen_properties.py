#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the catalogue is kept here so that it stays diffable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mechanism],
                     observe_at=observe, hook_needed=None)))

PK = 'pymultifracs/'
prop('C01', 'Wavelet coefficients are the scaled, border-free wavelet transform',
 "The coefficient reported at scale j, position k is the signal passed through j-1 low-pass stages and one final sign-flipped high-pass stage of the chosen wavelet, each stage a same-size convolution followed by keeping every second sample (positions 1, 3, 5, ...), multiplied by 2^(j(1/2-1/normalization)) and by 2^(j*gamint). Positions nearer than one filter length (minus one sample) to either end of the sequence being filtered are reported as missing (NaN), never as a number. This holds whether or not leaders are requested along with the coefficients.",
 ['inputs', 'configurations'], "every real-valued signal (all sample values), every length, wavelet, normalization, gamint, number of realisations and leader formalism",
 "Tests run a few random signals and only check that the call returns and that a final estimate is within 0.1 of a target; no coefficient value is ever compared.",
 [PK+'wavelet.py'], [('filtering', PK+'wavelet.py:filtering'), ('per-scale normalisation', PK+'wavelet.py:wavelet_analysis'), ('coefficient-only path', PK+'wavelet.py:_wavelet_coef_analysis')],
 ['wavelet_analysis(...).wt_coefs.values'])
prop('C02', 'Reported coefficients never depend on what lies outside the recording',
 "If a recording is cut out of a longer one (the cut starting at a multiple of 2^J samples), every coefficient that the analysis of the cut reports as a number at scales up to J equals the coefficient of the longer recording at the corresponding position. No reported coefficient mixes in padding or other border artefacts.",
 ['inputs', 'configurations'], "every signal, every prefix and suffix content, every cut length and wavelet",
 "A border artefact changes a handful of coefficients by a small amount and moves no test's averaged estimate past its tolerance.",
 [PK+'wavelet.py'], [('border marked NaN after every filtering stage', PK+'wavelet.py:filtering')], ['wavelet_analysis(...).wt_coefs.values'])
prop('C03', 'A missing sample invalidates exactly the coefficients that use it',
 "When some samples of a signal are NaN, the coefficients whose filters reach one of those samples are NaN, and every other coefficient has exactly the value it has when the missing samples hold any number. The per-scale counts of valid coefficients and leaders equal the number of non-NaN entries reported.",
 ['inputs', 'configurations'], "every signal, every position of the missing samples, every wavelet and length",
 "No test contains a missing sample.",
 [PK+'wavelet.py', PK+'multiresquantity.py'], [('NaN propagation through direct convolution', PK+'wavelet.py:filtering'), ('valid counts', PK+'multiresquantity.py:add_values')], ['wavelet_analysis(...).wt_coefs.values', '.nj'])
prop('C04', 'A wavelet leader is the supremum of the coefficients in its neighbourhood',
 "With p = infinity, the leader at scale j, position k is the largest absolute value among all valid coefficients at scales 1..j located under the three consecutive positions k, k+1, k+2 of scale j (position i of scale j covering positions 2i and 2i+1 of scale j-1). Missing coefficients are ignored, and a leader is missing only when every coefficient of its neighbourhood is. There are two fewer leaders than positions available at each scale.",
 ['inputs', 'configurations'], "every signal, length, wavelet, gamint, missing-data pattern and number of realisations",
 "Tests only compare averaged log-cumulants of simulated signals with loose tolerances; a neighbourhood that is one position off leaves them unchanged.",
 [PK+'wavelet.py'], [('hierarchical maximum', PK+'wavelet.py:_find_sans_voisin'), ('three-neighbour maximum', PK+'wavelet.py:_compute_leaders')], ['wavelet_analysis(p_exp=inf).wt_leaders.values'])
prop('C05', 'p-leaders are corrected local l^p averages of the coefficients',
 "With finite p, the p-leader at scale j, position k is (2^-j * sum of 2^j' |d(j',k')|^p)^(1/p) over the valid coefficients under positions k, k+1, k+2 of scale j, multiplied by the finite-size factor ((1-2^(-j*eta))/(1-2^-eta))^(-1/p), where eta is the realisation's reported eta_p: the slope over scales j1..j2_eff of log2 mean |d(j,.)|^p (with the requested weighting). When eta_p is not positive for some realisation, no correction is applied, a warning says so and the analysis still completes and reports eta_p.",
 ['inputs', 'configurations'], "every signal, every p > 0, length, wavelet, gamint, j1, j2, weighting and number of realisations",
 "Only p = 2 on long simulated signals is run, with averaged estimates compared loosely; the eta_p <= 0 outcome is never reached.",
 [PK+'wavelet.py', PK+'structurefunction.py'], [('power mean', PK+'wavelet.py:_compute_leaders'), ('correction', PK+'wavelet.py:_correct_leaders'), ('eta_p', PK+'wavelet.py:_estimate_eta_p')], ['wavelet_analysis(p_exp=p).wt_leaders.values', '.eta_p'])
prop('C06', 'The analysed scale range is contiguous, valid and never exceeds the data',
 "For every length, the maximum level is the largest m with 2^m * (filter length + 1) <= length, and the same number is given by the public level query and used by the analysis. The analysis returns scales 1, 2, ..., n without gaps with n at most that level, every returned scale has at least three valid values in each realisation, analysis stops at the first scale where this fails, and j2_eff = min(j2, last scale kept) is always a scale present in all returned quantities. A warning is issued exactly when the requested j2 exceeds the maximum level.",
 ['inputs', 'configurations'], "every signal length, wavelet (filter length), j2 (integer, fractional or absent), leader formalism and missing-data pattern",
 "Tests use lengths 65536 and larger only and never look at the set of scales.",
 [PK+'wavelet.py'], [('level', PK+'wavelet.py:decomposition_level'), ('internal level', PK+'wavelet.py:_decomposition_level'), ('early stop', PK+'wavelet.py:wavelet_analysis')], ['decomposition_level', 'wavelet_analysis(...).j2_eff', '.wt_coefs.values', '.wt_leaders.values'])
prop('C07', 'Realisations analysed together do not influence each other',
 "Analysing several realisations as the columns of one array gives, for every column, the coefficients, leaders and estimates (structure functions, scaling exponents, H, cumulants, log-cumulants, spectrum, hmin) that analysing that column alone gives. For p-leaders this holds whenever eta_p is positive for every column.",
 ['inputs', 'configurations'], "every pair or triple of signals and every configuration, for complete data",
 "Tests pass 50 columns and look only at the average over columns, so any mixing between columns is invisible.",
 [PK+'wavelet.py', PK+'structurefunction.py', PK+'cumulants.py', PK+'mfspectrum.py', PK+'estimation.py', PK+'utils.py'], [('axis=0 reductions', PK+'structurefunction.py, cumulants.py, mfspectrum.py, utils.py')], ['mf_analysis_full', 'wavelet_analysis'])
prop('C08', 'Analyses never modify the data they are given',
 "No analysis function changes the contents of the arrays, lists or multi-resolution quantities passed to it: signals, coefficients, leaders, exponents, PSDs and noise arrays hold the same values after the call. Consequently calling the same analysis twice on the same objects gives the same result, and a later analysis leaves the results of an earlier one alone.",
 ['inputs', 'histories'], "every public analysis function and every input value, including missing values and order-0 exponents",
 "Tests never look at an input again after passing it.",
 [PK+'utils.py', PK+'wavelet.py', PK+'cumulants.py', PK+'mfspectrum.py', PK+'structurefunction.py', PK+'psd.py', PK+'fractal_analysis.py'], [('fresh arrays for results', 'all of the package')], ['argument arrays after the call'])
prop('C09', 'Linear regression returns the weighted least-squares line',
 "For all abscissae (not all equal), ordinates and positive weights, the returned slope a and intercept b minimise sum_j n_j (y_j - a x_j - b)^2, independently for each column. Points lying exactly on a line return that line whatever the weights, and the reported slope variance is sum_j w_j^2/n_j for the slope weights w_j.",
 ['inputs'], "all real x, y and positive weights, per column",
 "Tests only see the slope through tolerance-0.1 comparisons with weights of similar size.",
 [PK+'utils.py'], [('linear_regression', PK+'utils.py:linear_regression')], ['linear_regression', 'zeta', 'log_cumulants', 'Dq', 'hq', 'hmin'])
prop('C10', 'Structure functions and scaling exponents follow their definition',
 "For every q, the structure function at scale j is the mean of |X(j,k)|^q over the valid entries; values and their log2 are reported for every available scale. zeta(q) and the intercept are the regression line of log2 S(j,q) over scales j1..j2 only, weighted by the number of valid entries per scale when weighting is requested and uniformly otherwise. H is zeta(2)/2 - gamint, or None when 2 is not among the q.",
 ['inputs', 'configurations'], "all coefficient values, all q, scale ranges, weightings and numbers of realisations",
 "Tests look at H for q=2 with tolerance 0.1 on one scale range, always weighted, with 2 always among the q.",
 [PK+'structurefunction.py', PK+'utils.py', PK+'estimation.py'], [('mean of powers', PK+'structurefunction.py:_compute'), ('regression', PK+'structurefunction.py:_compute_zeta'), ('H', PK+'structurefunction.py:_get_H'), ('Hurst helper', PK+'estimation.py:compute_hurst')], ['StructureFunction attributes', 'compute_hurst'])
prop('C11', 'Cumulants and log-cumulants follow their definition at every order',
 "For every order m, the value at scale j is the m-th cumulant of the empirical distribution of ln|X(j,k)| over the valid entries. The log-cumulant c_m is log2(e) times the slope of the regression of these values over scales j1..j2 (weighted by valid counts when requested, uniformly otherwise), the intercept is that line's intercept, the variance of c_m is log2(e)^2 times the variance of that slope, and c1, c2, ..., C1, C2, ... and M = -c2 name the corresponding rows.",
 ['inputs', 'configurations'], "all coefficient values, orders, scale ranges, weightings and numbers of realisations",
 "Tests check only the average of c2 with tolerance 0.01 to 0.025; orders 1 and 3 and above, intercepts and per-scale values are never compared.",
 [PK+'cumulants.py', PK+'utils.py'], [('moment-to-cumulant recursion', PK+'cumulants.py:_compute'), ('regression', PK+'cumulants.py:_compute_log_cumulants')], ['Cumulants attributes'])
prop('C12', 'The multifractal spectrum follows the Chhabra-Jensen definition',
 "With weights R = |X|^q / sum |X|^q at each scale, V(j,q) = sum R log2|X| and U(j,q) = log2(n_j) + sum R log2 R over the valid entries; h(q) is the regression slope of V and D(q) is one plus the regression slope of U over scales j1..j2, weighted by valid counts when requested and uniformly otherwise.",
 ['inputs', 'configurations'], "all nonzero coefficient values, all q (including 0 and negative), scale ranges, weightings and numbers of realisations",
 "No test looks at the spectrum.",
 [PK+'mfspectrum.py', PK+'utils.py'], [('spectrum', PK+'mfspectrum.py:_compute')], ['MultifractalSpectrum attributes'])
prop('C13', 'The estimators agree with each other where theory says they must',
 "On the same data and scale range: zeta(0)=0, D(0)=1, h(0)=c1; D(q) = 1 + q h(q) - zeta(q) for every q, D never exceeds what the counts allow (0 <= U(j,q) <= log2 n_j), and zeta at q=2 of the coefficients satisfies H = zeta(2)/2 - gamint. Constant-magnitude coefficients have vanishing cumulants of order two and above.",
 ['inputs', 'configurations'], "all nonzero coefficient values with the same number of valid entries reported, all q, scale ranges and weightings",
 "Tests compare each estimator with a simulation parameter, never with another estimator, and only three estimators are read at all.",
 [PK+'structurefunction.py', PK+'cumulants.py', PK+'mfspectrum.py'], [('shared regression and power kernels', PK+'utils.py')], ['StructureFunction.zeta', 'Cumulants.c1', 'MultifractalSpectrum.Dq/hq/U'])
prop('C14', 'Estimates do not depend on the amplitude or sign of the signal',
 "Multiplying a signal by any nonzero constant multiplies coefficients, leaders and p-leaders by it (leaders and p-leaders by its absolute value) and leaves zeta(q), H, all log-cumulants, h(q), D(q), hmin and eta_p unchanged, whatever the scale range and weighting. Cumulants of order two and above are unchanged at every scale, and first cumulants and log structure functions shift by the same constant (times q) at every scale.",
 ['inputs', 'configurations'], "every signal, every nonzero amplitude, every configuration",
 "Each simulated test signal has one amplitude; three amplitudes appear only as separate random draws.",
 [PK+'wavelet.py', PK+'structurefunction.py', PK+'cumulants.py', PK+'mfspectrum.py', PK+'estimation.py'], [('linear filters, homogeneous estimators', 'all of the package')], ['mf_analysis_full', 'wavelet_analysis'])
prop('C15', 'Fractional integration shifts exponents by gamint and nothing else',
 "Adding gamma of fractional integration multiplies the coefficients at scale j by 2^(j*gamma), hence adds q*gamma to the coefficients' zeta(q) and gamma to their c1, h(q) and hmin, and leaves their other log-cumulants, D(q) and the reported H unchanged. Every H reported, from coefficients and from leaders, is zeta(2)/2 minus the gamma used.",
 ['inputs', 'configurations'], "every signal, every real gamma, scale range and weighting",
 "Tests use one data-dependent gamint and a loose tolerance on H.",
 [PK+'wavelet.py', PK+'structurefunction.py'], [('2^(gamint*scale)', PK+'wavelet.py:wavelet_analysis'), ('H correction', PK+'structurefunction.py:_get_H')], ['mf_analysis_full', 'wavelet_analysis'])
prop('C16', 'hmin is the slope of the log-supremum and negative values are flagged',
 "hmin and its intercept are the regression line over scales j1..j2 of log2 of the largest absolute valid coefficient per scale, weighted by valid counts when requested and uniformly otherwise, per realisation. A warning is issued when hmin is negative or zero for some realisation and warnings are enabled, and never when all are positive.",
 ['inputs', 'configurations'], "all coefficient values, scale ranges, weightings, numbers of realisations",
 "Tests only read the minimum of hmin to choose gamint; any sign or scale error goes unnoticed, and no test looks for the warning.",
 [PK+'estimation.py'], [('hmin', PK+'estimation.py:estimate_hmin')], ['estimate_hmin', 'mf_analysis(...).dwt.hmin/.lwt.hmin'])
prop('C17', 'The one-call analyses equal the composition of their documented parts',
 "The one-call analysis of a signal equals running the wavelet analysis with the same arguments and then each estimator on the coefficients (and on the leaders when requested) with the requested q, order, weighting and scales j1..j2_eff. Omitting q means q=[2], lists and arrays of q give the same result, without leaders the leader part is None, and the minimal variant returns the same structure function and leader cumulants as the full one and None elsewhere.",
 ['inputs', 'configurations'], "every signal and every combination of arguments",
 "Tests use one argument combination, always with leaders and an explicit array of q, and never the minimal variant.",
 [PK+'mfa.py'], [('wiring', PK+'mfa.py:mf_analysis'), ('minimal', PK+'mfa.py:minimal_mf_analysis'), ('one call', PK+'mfa.py:mf_analysis_full')], ['mf_analysis_full', 'mf_analysis', 'minimal_mf_analysis'])
prop('C18', 'Bivariate cumulants reduce to covariance and to univariate cumulants',
 "For a pair of signals, the bivariate values at orders (m,0) and (0,m) are the univariate cumulants of the first and of the second signal, (1,1) is the covariance of the two log-magnitudes, and the remaining mixed orders and (0,0) are zero. The bivariate log-cumulants are log2(e) times the regression slopes over j1..min(j2), rho_mf = -c11/sqrt|c20*c02| (per-scale correlation C11/sqrt|C20*C02|) for leaders and orders up to at least 2 and None for coefficients, exchanging the signals transposes everything, and without leaders the leader part is None.",
 ['inputs', 'configurations'], "every pair of equal-length signals, every order, scale range, weighting and formalism",
 "One test compares three leader estimates of four fixed datasets with tolerances 0.02 to 0.1.",
 [PK+'bivariate/bivariate_cumulants.py', PK+'bivariate/bimfa.py'], [('recursion', PK+'bivariate/bivariate_cumulants.py:_compute'), ('rho', PK+'bivariate/bivariate_cumulants.py:_compute_rho'), ('wiring', PK+'bivariate/bimfa.py')], ['bivariate_analysis_full', 'BiCumulants attributes'])
prop('C19', 'Bivariate structure functions and coherence follow their definition',
 "For every pair (q1,q2) the bivariate structure function at scale j is the mean of |X1|^q1 |X2|^q2, its log2 is regressed over j1..j2 to give zeta(q1,q2) and the intercept, and (q,0), (0,q) reduce to the univariate exponents. When both lists of orders contain 0, 1 and 2, the wavelet coherence at scale j is mean(X1 X2)/sqrt(mean(X1^2) mean(X2^2)), lies in [-1,1] and equals 1 for a signal with itself; exchanging the signals transposes the exponents and keeps the coherence.",
 ['inputs', 'configurations'], "every pair of coefficient sets, all (q1,q2), scale ranges and weightings",
 "No test reads a bivariate structure function or the coherence.",
 [PK+'bivariate/bivariate_structurefunction.py'], [('moments', PK+'bivariate/bivariate_structurefunction.py:_compute'), ('regression', PK+'bivariate/bivariate_structurefunction.py:_compute_zeta')], ['BiStructureFunction attributes'])
prop('C20', 'Missing entries are excluded from every estimate, not averaged in',
 "Every estimator (structure functions, cumulants, spectrum, hmin, wavelet PSD and their bivariate versions) gives, on coefficients containing missing (NaN) entries, exactly the values it gives when those entries are removed; no NaN leaks into a result and a missing entry counts neither as zero nor as one, at q=0 and negative q too. Weights use the number of valid entries.",
 ['inputs', 'configurations'], "all coefficient values, all patterns of missing entries leaving at least one valid entry per scale, all q and orders",
 "Border NaNs are present in the tests, but counting them as 0 or 1 moves averaged slopes by less than the tolerances.",
 [PK+'utils.py', PK+'structurefunction.py', PK+'cumulants.py', PK+'mfspectrum.py', PK+'estimation.py', PK+'multiresquantity.py'], [('NaN-aware means and sums', PK+'utils.py:fixednansum, fast_power'), ('valid counts', PK+'multiresquantity.py:add_values')], ['all estimator attributes'])
prop('C21', 'The wavelet PSD is the mean squared coefficient per octave',
 "The wavelet power spectral density has one value per analysed scale: the mean of the squared valid coefficients computed with unit normalization and half an order of fractional integration by the Daubechies wavelet of the requested number of vanishing moments, at frequency (3/4)*fs/2^j. Scaling the signal by a scales it by a^2, and changing the sampling frequency only rescales the frequency axis.",
 ['inputs', 'configurations'], "every signal, length, sampling frequency, number of moments",
 "No test computes a PSD.",
 [PK+'psd.py'], [('wavelet PSD', PK+'psd.py:wavelet_estimation')], ['wavelet_estimation'])
prop('C22', 'Scale-frequency conversions are inverse and bands select the right scales',
 "Scale-to-frequency and frequency-to-scale conversion are inverse functions for all positive frequencies and all scales, agree with the frequency axis of the wavelet PSD, and halve the frequency per octave. A frequency band is converted into the range of exactly those integer scales whose frequency lies inside the closed band.",
 ['inputs'], "every real scale, positive frequency, band and sampling frequency",
 "No test converts a scale.",
 [PK+'utils.py', PK+'psd.py'], [('scale2freq', PK+'utils.py:scale2freq'), ('freq2scale', PK+'utils.py:freq2scale'), ('fband2scale', PK+'utils.py:fband2scale')], ['scale2freq', 'freq2scale', 'fband2scale'])
prop('C23', 'Spectral-slope estimation fits exactly the in-band, nonzero frequencies',
 "The spectral-slope estimate is the ordinary least-squares line of log PSD against log frequency (in the chosen log base) over exactly the frequencies f with f_low <= f <= f_high, bounds included, and f != 0; values outside the band have no influence. A PSD that is an exact power law C*f^s returns slope s and intercept log C for every band containing at least two frequencies, and the slope does not depend on the log base.",
 ['inputs', 'configurations'], "every PSD, frequency axis (including one containing 0), band and log base",
 "No test estimates a spectral slope.",
 [PK+'fractal_analysis.py', PK+'psd.py'], [('band and fit', PK+'fractal_analysis.py:estimate_beta'), ('zero-frequency removal', PK+'psd.py:_log_psd')], ['estimate_beta', 'fractal_analysis'])
prop('C24', 'Simulated Gaussian processes have exactly the requested covariance',
 "With standard normal noise, simulated fractional Gaussian noise has autocovariance sigma^2 dt^(2H)/2 (|k+1|^2H - 2|k|^2H + |k-1|^2H) at every lag, for both synthesis methods, so fractional Brownian motion has variance sigma^2 (t dt)^(2H) and is its cumulative sum; realisations are independent of each other. More generally the Gaussian generators realise exactly the covariance sequence they are given.",
 ['inputs', 'configurations'], "every H in (0,1], sigma, dt, length, number of realisations and both synthesis methods (circulant embedding when it is nonnegative)",
 "Tests check shapes only; a wrong variance or correlation is invisible.",
 [PK+'simul/fbm.py', PK+'simul/pzutils.py'], [('covariance', PK+'simul/fbm.py:fgn'), ('circulant embedding', PK+'simul/pzutils.py:gaussian_cme'), ('Cholesky', PK+'simul/pzutils.py:gaussian_chol')], ['fgn', 'fbm', 'gaussian_cme', 'gaussian_chol'])
prop('C25', 'The multifractal random walk is built from its stated ingredients',
 "A multifractal random walk is the cumulative sum of fractional Gaussian noise times exp(w), with w Gaussian of covariance lambda^2 ln(L/(k+1)) for lags k < L (L a whole number of samples) and 0 beyond, centred per realisation and shifted by -(lambda^2/2) ln L. With lambda = 0 (circulant embedding) it is fractional Brownian motion with the same noise, it is proportional to sigma, and construction from log-cumulants (c1, c2) equals construction with H = c1 + c2 and lambda^2 = -c2.",
 ['inputs', 'configurations'], "every H, lambda, L, sigma, length, number of realisations and synthesis method",
 "Tests check shapes and, through the analysis, an averaged c2 with tolerance 0.025.",
 [PK+'simul/mrw.py'], [('mrw', PK+'simul/mrw.py:mrw'), ('gaussian_w', PK+'simul/mrw.py:gaussian_w'), ('mrw_cumul', PK+'simul/mrw.py:mrw_cumul')], ['mrw', 'mrw_cumul'])
prop('C26', 'Simulators honour supplied noise, requested shape and parameter limits',
 "When the caller supplies the noise, the simulated signal is a deterministic function of it and of nothing else, for both synthesis methods. An integer shape N gives a vector of N samples and a shape (N, R) an N-by-R array with one independent realisation per column; H outside [0,1], an integral scale larger than the series and an unknown method raise ValueError, and nothing else inside the documented ranges does (the Cholesky method needs a positive definite covariance: 0 < H < 1, lambda > 0, L > 1).",
 ['inputs', 'configurations'], "every noise array, shape, H, L, sigma and method",
 "Tests try a handful of shapes and out-of-range values and never supply noise.",
 [PK+'simul/fbm.py', PK+'simul/mrw.py', PK+'simul/pzutils.py'], [('argument checks', PK+'simul/fbm.py:fgn, simul/mrw.py:mrw'), ('noise argument', PK+'simul/pzutils.py')], ['fgn', 'fbm', 'mrw'])
prop('C27', 'Signal objects return what a fresh analysis would, whatever was called before',
 "Every analysis method of a signal object returns the result the same call would give on a newly created object holding the same data (after the wavelet analysis it builds on, where it needs one), for every sequence of earlier calls with any parameters (the data, sampling frequency and logarithm of the object not being reassigned). Cached results are reused only when every parameter they depend on is unchanged, one analysis never disturbs the stored parameters of another, and an analysis that needs a wavelet analysis raises an error when there is none.",
 ['histories', 'inputs'], "every sequence of method calls and every choice of their parameters",
 "No test creates a signal object; staleness needs two calls with particular parameters.",
 [PK+'signal.py'], [('parameter comparison', PK+'signal.py:same_params'), ('caches', PK+'signal.py:Signal')], ['Signal methods'], state=[('stored parameters and results', 'last parameters and outputs of each analysis', PK+'signal.py:Signal')])
prop('C28', 'Element-wise powers are exact and keep missing values missing',
 "Raising an array to any exponent (integer, fractional, zero or negative) gives the element-wise power for every base on which it is defined, keeps NaN entries NaN (for exponent 0 too), keeps the shape and leaves the input unchanged. NaN-aware sums and maxima along an axis ignore NaN and give NaN only where every entry is NaN.",
 ['inputs'], "all array contents including NaN, all exponents, all axes",
 "Tests use exponents -2..2 on full pipelines and never compare a power.",
 [PK+'utils.py'], [('fast_power', PK+'utils.py:fast_power'), ('fixednansum', PK+'utils.py:fixednansum'), ('fixednanmax', PK+'utils.py:fixednanmax')], ['fast_power', 'fixednansum', 'fixednanmax'])
prop('C29', 'The exponent grid builder gives a symmetric, sorted, complete grid',
 "For all positive q_min, q_max and n, the built vector of exponents is strictly increasing, symmetric about 0, contains -2, -1, 0, 1, 2, and its other members are exactly plus and minus n log-spaced values from q_min to q_max. A non-positive bound raises ValueError.",
 ['inputs'], "all positive bounds and sizes",
 "No test calls it.",
 [PK+'utils.py'], [('build_q_log', PK+'utils.py:build_q_log')], ['build_q_log'])
prop('C30', 'The Welch PSD is four times the averaged Hamming periodogram, on a matching axis',
 "The Welch estimate is four times the one-sided density (per radian) of Hamming-windowed, half-overlapping, un-detrended segments averaged over segments, on the frequencies fs*k/n_fft for k = 0..n_fft/2, one value per frequency. A missing segment size means n_fft, a segment size above n_fft raises n_fft to it, and scaling the signal by a scales the estimate by a^2.",
 ['inputs', 'configurations'], "every signal, sampling frequency, n_fft and segment size",
 "No test computes a PSD.",
 [PK+'psd.py'], [('wrapper', PK+'psd.py:welch_estimation')], ['welch_estimation'])
prop('C31', 'The skewed random walk correlates magnitude with strictly past noise',
 "The skewness term at time k is the sum over lags 1..N of K0/(lag^alpha dt^beta) times the noise at k-lag: it depends on past noise only, and a skewed multifractal random walk is the cumulative sum of its present noise times exp(w minus that term), of the requested shape, with w centred and shifted by -lambda^2 ln(L/dt). With K0 = 0 it reduces to the unskewed construction, and the mirrored walk is the one driven by the opposite noise.",
 ['inputs', 'configurations'], "every noise, K0, alpha, beta, dt, length and number of realisations",
 "No test calls it.",
 [PK+'simul/mrw.py'], [('convolution', PK+'simul/mrw.py:skewness_convolution'), ('walk', PK+'simul/mrw.py:skewed_mrw')], ['skewness_convolution', 'skewed_mrw'])
prop('C32', 'The bivariate Legendre surface is the log-normal quadratic form',
 "On the grid h1 x h2 the bivariate spectrum is 1 + (c02 b/2)((h1-c10)/b)^2 + (c20 b/2)((h2-c01)/b)^2 - c11 b ((h1-c10)/b)((h2-c01)/b) with b = c20 c02 - c11^2: it equals 1 at (c10, c01), rows follow h1 and columns h2, and the support is evenly spaced over the requested interval with the requested resolution.",
 ['inputs'], "all log-cumulants with b != 0, all supports and resolutions",
 "No test computes it.",
 [PK+'bivariate/bivariate_cumulants.py'], [('compute_legendre', PK+'bivariate/bivariate_cumulants.py:compute_legendre')], ['BiCumulants.compute_legendre'])
prop('C33', 'Figures show the estimates they are titled with',
 "Every figure of an estimate draws the per-scale values against the scales, and the regression line through the reported slope and intercept at j1 and j2; spectra are drawn as D(q) against h(q), and log-log PSD plots draw the logarithms of the PSD and of its nonzero frequencies below the low-pass limit. The number printed in a legend is the estimate it names, one panel per order is drawn, and drawing never changes the estimates.",
 ['inputs', 'configurations'], "all estimate values and scale ranges",
 "No test draws a figure.",
 [PK+'structurefunction.py', PK+'cumulants.py', PK+'mfspectrum.py', PK+'estimation.py', PK+'psd.py', PK+'bivariate/bivariate_cumulants.py', PK+'bivariate/bivariate_structurefunction.py'], [('plot methods', 'plot, plot_scaling, plot_hmin, log_plot')], ['data handed to the drawing library'])

prop('C34', 'Two-dimensional walks have the announced volatility and integration',
 "mrw2D returns, for a size N rounded up to the next even number and R realisations, two N x N x R arrays. The second holds the increments: independent Gaussian values of standard deviation sigma, each multiplied by exp(w), where w is a Gaussian field drawn independently for every realisation whose covariance at periodic distance d is lam^2 ln max(L / (1 + d), 1) (whenever that covariance is realisable); lam = 0 gives Gaussian white noise of standard deviation sigma. The first is the fractional integral of order H + 1 of the second. The two-dimensional fractional integral multiplies the Fourier coefficient at integer frequency k by |k|^-alpha (by 1 at k = 0, so the mean is kept): it is linear, acts on every realisation separately, is the identity at order 0, adds orders, and leaves its argument unchanged.",
 ['inputs', 'configurations'], "all noise values, sigma, lam and H",
 "No test calls the two-dimensional generators.",
 [PK+'simul/mrw.py'], [('two-dimensional synthesis', 'mrw2D, fract_int_2d')], ['generated fields and the exact map from the noise to them'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, (p['id'], len(p['title']))
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
print(len(P), 'properties')
