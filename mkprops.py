#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that the long texts stay readable)."""
import json, os
P=[]
S='deltares_wave_toolbox/'
C=S+'cores/'
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=statement,
        quantifier={"over":over,"text":text},why_tests_cant=why,anchors=a))

p("C01","Caller data is never modified",
 "No public function, constructor or method ever changes an array, list or object that the caller passed in, nor an array the caller gave to an object earlier. Results are delivered only through return values and through the object's own attributes.",
 ["inputs","histories"],"every public entry point, every argument that is an array or an object holding arrays, any sequence of method calls on an object built from caller arrays",
 "A test sees an overwritten input only if it keeps a copy and compares; none does. The converters return the very array they are given, so one in-place operation anywhere below leaks into the caller's data.",
 [C+'core_engine.py',C+'core_spectral.py',C+'core_time.py',C+'core_wavefunctions.py',C+'core_wave_decomposition.py',C+'core_dispersion.py',S+'series.py',S+'spectrum.py'],
 [("array converters hand back the caller's own array",C+"core_engine.py:convert_to_array_type, convert_to_vector"),("in-place work only on freshly allocated arrays",C+"core_dispersion.py:disper; "+C+"core_spectral.py:coherence, applybandfilter")],
 ["arguments and object attributes after the call"])
p("C02","Query results do not depend on earlier queries",
 "A numeric query on a wave-height set, time series or spectrum returns the same value whatever queries, sorts or plots were made on that object before, and with whatever limits. Sorting reorders wave heights and periods together and keeps the order of equally high waves, so it never changes which period belongs to which height.",
 ["histories"],"all ordered pairs (thorough: triples) of public methods on one object, with independent arguments",
 "Tests call each query on a fresh object; the quantifier is over call histories.",
 [S+'series.py',S+'spectrum.py',C+'core_time.py'],
 [("every query recomputes from the stored data",S+"spectrum.py:get_*"),("joint stable sort",C+"core_time.py:sort_wave_params")],
 ["return values of the get_*, highest_waves, max/min/mean/var queries"],
 [("Hm0, Tps, Tmm10, ...","results of the last query, kept as attributes",S+"spectrum.py"),("hwave, twave","wave heights and periods, reordered by sorting queries",S+"series.py")])
p("C03","Results carry the physical dimension they are documented with",
 "Rescaling the unit of elevation, of horizontal distance or of time in the inputs rescales every result exactly as its documented dimension says: heights as elevation, periods and times as time, variance density as elevation squared times time, wave numbers as inverse distance, steepness and coherence as pure numbers. Hence no operation adds, compares, exponentiates or substitutes quantities of different dimension (absolute numerical tolerances written as literals excepted).",
 ["inputs"],"all inputs of all numerical entry points; all branches",
 "Tests use one set of SI numbers; a wrong power of dt, df, h or 2*pi*f can coincide there. The guarantee is over all unit systems.",
 [C+'core_spectral.py',C+'core_time.py',C+'core_wavefunctions.py',C+'core_dispersion.py',C+'core_wave_decomposition.py',S+'series.py',S+'spectrum.py'],
 [("formulas of all cores",C+"*.py")],["returned numbers"])
p("C04","Results do not depend on the time origin or the gauge origin",
 "Shifting a time axis by a constant changes no spectrum, Fourier coefficient, filtered or decomposed signal, wave height or period, and shifts crossing, crest and trough times by exactly that constant. Shifting all gauge positions by a constant changes neither the incident nor the reflected signal.",
 ["inputs"],"every time axis and every gauge layout, for all functions taking a time axis or positions",
 "Nearly all tests start at t=0 and x=0, where absolute and relative times coincide.",
 [C+'core_spectral.py',C+'core_time.py',C+'core_wave_decomposition.py',S+'series.py'],
 [("only differences of times are used",C+"core_spectral.py:time2freq; "+C+"core_time.py:determine_zero_crossing"),("positions relative to the first gauge",C+"core_wave_decomposition.py:decompose_linear_ZS")],["returned values"])
p("C05","Signal transforms obey superposition and amplitude scaling",
 "Fourier transform, unfolding, inverse transform, band filtering and wave decomposition are linear in the signal: the result for a sum of signals is the sum of the results and a scaled signal gives the scaled result. Spectral estimates scale with the square of the signal amplitude, moments and band averages are linear in the spectrum, and neither the frequency axis nor the choice of retained components depends on the signal's amplitude.",
 ["inputs"],"all signals and scale factors",
 "Tests feed single signals of one amplitude; thresholds, offsets or nonlinear terms acting at other amplitudes are not seen.",
 [C+'core_spectral.py',C+'core_wave_decomposition.py',C+'core_wavefunctions.py'],
 [("linear pipelines",C+"core_spectral.py:time2freq, unfold_spectrum, freq2time, applybandfilter, bandpassfilter; "+C+"core_wave_decomposition.py:decompose_linear_ZS; "+C+"core_wavefunctions.py:compute_moment")],["returned values"])
p("C06","Spectral parameters follow their moment definitions everywhere",
 "Whenever they are reported, Hm0 = 4 sqrt(m0), Tm-1,0 = m-1/m0, Tm01 = m0/m1 and Tm02 = sqrt(m0/m2), with every moment taken over the same frequency band; TpD = m0/m1 over its peak band. The combined parameter function and the individual queries of the spectrum object give the same value for the same spectrum and limits.",
 ["inputs","configurations"],"all spectra, all limits, both interfaces and the high- and low-frequency variants",
 "Each test checks a few numbers for one spectrum shape through one interface; agreement between the interfaces for all inputs is never compared.",
 [C+'core_wavefunctions.py',S+'spectrum.py'],
 [("moment ratios",C+"core_wavefunctions.py:compute_spectrum_params, tpd; "+S+"spectrum.py:get_Hm0, get_Tmm10, get_Tm01, get_Tm02 and HF/LF variants")],["returned values"])
p("C07","Frequency limits are honoured, each one on its own",
 "A given lower or upper frequency limit restricts the result to that band even if the other limit is left out; a limit left out means the corresponding end of the frequency axis. Upper limits beyond the axis add the exact integral of an f^-5 tail attached to the last density value; for negative orders a zero frequency is left out of a moment. Limits bracket the same band in moments, peak periods and smoothed peak periods, including the values at both limits.",
 ["inputs","configurations"],"all four given/omitted combinations, limits inside, at and beyond the axis, all moment orders",
 "Tests use either no limits or both; single limits and limits beyond the axis are not combined.",
 [C+'core_wavefunctions.py',S+'spectrum.py'],
 [("limit defaults",S+"spectrum.py:_set_flim; "+C+"core_wavefunctions.py:compute_spectrum_params, compute_moment"),("tail",C+"core_wavefunctions.py:compute_moment")],["returned values"])
p("C08","High/low-frequency split and steepness formulas",
 "Without an explicit cutoff, the high-frequency parameters start and the low-frequency parameters end at the same cutoff 0.45/Tm-1,0 of the whole spectrum, and the user is warned; with an explicit cutoff exactly that one is used and no warning is given. Wave steepness is 2 pi H/(g T^2) with height and period of the same band and the caller's g.",
 ["inputs","configurations"],"all spectra and all combinations of explicit and omitted limits",
 "Tests check single values on one spectrum; consistency between the two halves, the explicit-cutoff paths and g are not covered.",
 [S+'spectrum.py'],[("cutoff and steepness",S+"spectrum.py:get_Hm0_HF, get_Hm0_LF, get_Tmm10_HF, get_Tmm10_LF, get_s0p, get_smm10, get_smm10_HF")],["returned values, warnings"])
p("C09","Randomness is seeded, confined and one phase per component",
 "Only the synthesis of a time series from a spectrum draws random numbers (importing the package neither draws nor seeds); with a non-negative seed (zero included) its result is a function of its arguments alone, with a negative seed the random state is not reset. Every frequency component gets its own phase, uniform over a full circle and independent of the spectrum.",
 ["inputs","histories"],"all seeds, all earlier use of the random generator",
 "The tests check one seed twice; other seeds (such as 0) and hidden use of randomness are not covered.",
 [C+'core_spectral.py',S+'spectrum.py'],[("seeding before drawing",C+"core_spectral.py:spectrum2timeseries")],["returned series; state of the global random generator"])
p("C10","Side effects are confined to plotting on request",
 "Numerical functions and queries write no file, print nothing, draw nothing and change no global state; importing the package does no more than apply its plot style. Each plot method draws on one new figure and returns it, and writes a file if and only if a non-empty path is given, to exactly that path, after everything has been drawn.",
 ["inputs","histories"],"all entry points and all argument combinations",
 "Tests plot a few times without looking at the saved file or at what other functions do besides returning.",
 [S+'series.py',S+'spectrum.py',C+'core_spectral.py',C+'core_wavefunctions.py'],[("plot methods",S+"series.py:plot*, "+S+"spectrum.py:plot")],["files, pyplot calls, stdout"])
p("C11","Malformed input is rejected before anything is computed",
 "Axis and value arrays of different length, two-dimensional arrays where vectors are required, and time or frequency axes that are not strictly increasing with constant step (or, for a series object, not nearly equidistant) are refused with an error by every entry point documented to check them. Likewise fractions outside 0..1, percentages outside 0..100, unsorted wave heights, fewer than two gauges, gauges out of order and gauge weights outside 0..1.",
 ["inputs"],"all malformed inputs of each kind, for each documented check",
 "Tests exercise a handful of malformed examples; one-sided or mis-combined conditions pass them.",
 [C+'core_spectral.py',C+'core_wavefunctions.py',C+'core_time.py',C+'core_wave_decomposition.py',C+'core_engine.py',S+'series.py',S+'spectrum.py'],
 [("guards at function entry",C+"*.py; "+S+"series.py:Series.__init__; "+S+"spectrum.py:Spectrum.__init__"),("constant step test",C+"core_engine.py:monotonic_increasing_constant_step")],["exceptions"])
p("C12","Parallel outputs stay aligned",
 "Arrays returned or stored together have equal length and describe the same item at each index: frequency and value, time and signal, wave height and period, crest and trough. Length and index range of every output follow from the input lengths alone, for even and odd numbers of samples.",
 ["inputs"],"all lengths (even and odd), all entry points returning parallel arrays",
 "Tests use a few lengths; off-by-one slices at the other parity or at the last bin go unnoticed.",
 [C+'core_spectral.py',C+'core_time.py',S+'series.py'],
 [("slicing and allocation",C+"core_spectral.py:time2freq_nyquist, unfold_spectrum, frequency_averaging, spectrum2timeseries; "+C+"core_time.py:determine_params_individual_waves; "+S+"series.py:_determine_individual_waves")],["returned arrays"])
p("C13","Wave-height statistics use the right ranks",
 "Statistics of the highest fraction p of n waves average height and period of exactly the floor(n p) highest waves, and the height exceeded by P percent of the waves is the floor(n P/100)-th highest one; both are zero when that count is zero. The significant height uses p = 1/3, Hrms is the root of the mean squared height, Hmax the largest height, and the Rayleigh 2% height the significant height times sqrt(ln 50 / 2).",
 ["inputs"],"all wave-height sets, fractions and percentages",
 "Tests have a few lists; rounding and rank off-by-one errors depend on n p.",
 [C+'core_time.py',S+'series.py'],[("rank selection",C+"core_time.py:highest_waves_params, exceedance_wave_height; "+S+"series.py:WaveHeights")],["returned values"])
p("C14","Zero crossings are counted and placed exactly once each",
 "A down-crossing lies between two successive samples exactly if the first is >= 0 and the second < 0, an up-crossing if the first is <= 0 and the second > 0. Every pair of successive samples is examined, the crossing time is the zero of the straight line between the two samples, and the wave count is the number of crossings minus one, or zero without crossings.",
 ["inputs"],"all nine sign combinations of two successive samples, every position, both directions",
 "Sampled signals rarely contain exact zeros or crossings in the first or last interval.",
 [C+'core_time.py'],[("crossing scan",C+"core_time.py:determine_zero_crossing")],["returned count and times"])
p("C15","Individual waves run from crossing to crossing",
 "Wave i occupies exactly the samples from its own crossing up to the next one; its period is the difference of these crossing times, its crest and trough are the largest and smallest sample there with the time of that (first) sample, and its height is crest minus trough. There is one wave per pair of successive crossings.",
 ["inputs"],"all signals and crossing sets, every wave including first and last",
 "Tests compare a few regular signals, where neighbouring waves are alike.",
 [C+'core_time.py',S+'series.py'],[("wave loop",C+"core_time.py:determine_params_individual_waves"),("object attributes",S+"series.py:_determine_individual_waves")],["returned arrays, object attributes"])
p("C16","Coherence is a magnitude-squared coherence between 0 and 1",
 "The coherence of two signals is the squared modulus of their band-averaged cross spectrum divided by the product of their band-averaged auto spectra, all averaged over the same bands. It is real, symmetric in the two signals, at most one by the Cauchy-Schwarz inequality, and one for a signal with itself.",
 ["inputs"],"all pairs of Fourier signals and averaging widths",
 "The tests check one pair; unaveraged moduli, missing conjugates or mismatched bands can agree there.",
 [C+'core_spectral.py'],[("coherence",C+"core_spectral.py:coherence")],["returned values"])
p("C17","Folding, unfolding and filtering keep the right Fourier components",
 "The folded transform keeps the first floor(n/2)+1 components and unfolding restores all n components with the upper half being the conjugate mirror image of the lower, for even and odd n, so that the inverse transform gives back a real signal of the original length (the last folded component of an even record, at the Nyquist frequency, is real for every real signal). The band filter passes components with lower <= f < upper unchanged (an upper limit at or beyond the last frequency keeps the last one too) and sets all others to zero.",
 ["inputs"],"all lengths of both parities, all band limits",
 "The tests use few lengths and filter tones far from the band edges.",
 [C+'core_spectral.py'],[("fold",C+"core_spectral.py:time2freq_nyquist"),("unfold",C+"core_spectral.py:unfold_spectrum"),("filter",C+"core_spectral.py:applybandfilter, bandpassfilter")],["returned coefficients"])
p("C18","The dispersion solver is defined in all three depth regimes",
 "Infinite depth gives w^2/g, negative depth gives w/sqrt(g|h|) and positive finite depth the solution of w^2 = g k tanh(k h) with the sign of w, each as an array with one wave number per frequency. The iteration for finite depth is Newton-type on that very equation and uses the caller's depth and g.",
 ["inputs","configurations"],"all depths (finite, infinite, negative), all frequencies including zero",
 "The tests only ever call the finite-depth branch; the two others used to raise.",
 [C+'core_dispersion.py'],[("regime dispatch and iteration",C+"core_dispersion.py:disper")],["returned values"])
p("C19","Energy is normalised consistently",
 "A parametric spectrum carries exactly the requested wave height over the requested range (axis only, or including the tail). Both one-sided density estimates equal 2|X|^2/(df N^2) before band averaging. A synthesised series uses component amplitude sqrt(2 S df), with S interpolated linearly, zero outside the given range, and df the spacing of the generated components.",
 ["inputs"],"all spectra, wave heights, lengths, time steps and durations",
 "Tests compare a few values at loose tolerance with fixed parameters; scaling errors that cancel for those parameters remain.",
 [C+'core_spectral.py',C+'core_wavefunctions.py'],[("rescaling",C+"core_wavefunctions.py:create_spectrum_jonswap"),("estimators",C+"core_spectral.py:compute_spectrum_time_series, compute_spectrum_freq_series"),("synthesis",C+"core_spectral.py:spectrum2timeseries")],["returned values"])
p("C20","Object methods are faithful front ends of the core functions",
 "Each object method and wrapper returns what the corresponding core function returns for the object's own data and the caller's arguments: no argument is dropped, swapped or replaced, and defaults mean the same. In particular the Welch estimate receives the sampling rate 1/dt, segment length, overlap, transform length and window of the caller (zero meaning the library default) and is a one-sided density, and segment settings derived from a desired resolution are 1/(dt df) with half overlap.",
 ["configurations","inputs"],"all public wrappers and all their parameters",
 "Tests call most wrappers with defaults only.",
 [S+'series.py',S+'spectrum.py',C+'core_spectral.py',C+'core_wavefunctions.py',C+'core_wave_decomposition.py'],[("delegation",S+"series.py; "+S+"spectrum.py; *_object_*, *_series wrappers")],["arguments reaching the core functions"])
p("C21","Documented options work and all others are refused",
 "The crossing direction accepts up and down in any letter case, the spectral-range option accepts 0 and 1, and any other value raises an error instead of selecting a default. A Battjes-Groenendijk curve without a spectral wave height raises an error, and a foreshore slope outside 1:250..1:20 or a Rayleigh regime gives a warning but still a result.",
 ["configurations"],"every value of every documented option",
 "Tests cover part of the valid values and few invalid ones.",
 [C+'core_time.py',C+'core_wavefunctions.py',S+'series.py'],[("option dispatch",C+"core_time.py:determine_zero_crossing; "+C+"core_wavefunctions.py:create_spectrum_jonswap, compute_BattjesGroenendijk_wave_height_distribution; "+S+"series.py:plot_exceedance_waveheight_Rayleigh")],["exceptions, warnings, results"])
p("C22","Results do not depend on the element type or container of the input",
 "Integer arrays, lists and column vectors give the same numbers as the equivalent floating-point vectors: nothing is truncated to integers, no complex part is dropped where it carries information, and results documented as scalars are scalars, not arrays of length one.",
 ["inputs"],"integer, floating-point and complex element types; lists, vectors, single-column arrays; every numerical entry point",
 "Tests feed float vectors; integer or column input reaches different code paths.",
 [C+'core_spectral.py',C+'core_wavefunctions.py',C+'core_time.py',C+'core_engine.py'],[("allocation and conversion",C+"core_engine.py:convert_to_vector; "+C+"core_spectral.py:frequency_averaging; "+C+"core_wavefunctions.py:compute_tps, compute_moment")],["returned values and their types"])
p("C23","The wave decomposition solves its weighted normal equations exactly",
 "At every retained frequency the incident and reflected amplitudes satisfy both weighted least-squares equations for waves exp(-ikx) and exp(+ikx) at the gauge positions relative to the first gauge, with the caller's weights and wave numbers of the caller's depth; at frequencies whose scaled determinant does not exceed the caller's limit both amplitudes are zero. Incident means propagating towards positive x.",
 ["inputs"],"all gauge layouts (shown for two, three and four gauges), weights, depths, frequencies",
 "The one decomposition test uses unit weights and one layout, with loose agreement after filtering.",
 [C+'core_wave_decomposition.py'],[("2x2 solve",C+"core_wave_decomposition.py:decompose_linear_ZS")],["returned series"])
p("C24","The Battjes-Groenendijk curve joins its two Weibull parts consistently",
 "The distribution uses exponents 2 below and 3.6 above the transition height (0.35+5.8 tan(slope)) times depth, scale heights such that both parts give the same exceedance at the transition, and the second-moment condition as convergence criterion. The curve starts at height 0 with probability 1 and ends at probability 1/n, with heights scaled by the Hrms computed from the spectral height and depth.",
 ["inputs"],"all wave heights, depths, slopes and numbers of waves",
 "A single parameter set is tested.",
 [C+'core_wavefunctions.py'],[("B&G formulas",C+"core_wavefunctions.py:compute_BattjesGroenendijk_wave_height_distribution")],["returned arrays"])
p("C25","Parametric spectra have the JONSWAP shape",
 "Up to its normalisation a parametric spectrum is f^-5 exp(-1.25 (f/fp)^-4) gamma^exp(-(f/fp-1)^2/(2 sigma^2)) with sigma 0.07 below and 0.09 at and above the peak frequency, and zero at zero and negative frequencies. Pierson-Moskowitz is the same spectrum with enhancement factor 1, through every interface.",
 ["inputs","configurations"],"all frequency axes, peak frequencies and enhancement factors",
 "Tests compare tabulated values for one or two parameter sets at coarse resolution.",
 [C+'core_wavefunctions.py'],[("shape loop",C+"core_wavefunctions.py:create_spectrum_jonswap, create_spectrum_piersonmoskowitz and object variants")],["returned density"])
p("C26","Records without waves give empty or zero statistics",
 "A record without zero crossings, or a wave set without waves, is a valid object: its wave arrays are empty, sorting it is harmless, and its significant, highest-fraction and exceedance heights are zero.",
 ["inputs","histories"],"all records without waves; all statistics methods on them",
 "No test builds such a record; every call used to raise.",
 [C+'core_time.py',S+'series.py'],[("early returns",C+"core_time.py:sort_wave_params, highest_waves_params, exceedance_wave_height, determine_params_individual_waves")],["returned values"])
p("C27","Peak periods come from the spectral maximum inside the band",
 "The peak period is one over the frequency of the largest density inside the limits (the highest such frequency if several). The smoothed peak period is one over the vertex of the parabola through the maximum and its two neighbours, shifted inwards at the ends of the band, and falls back to the frequency of a maximum if the parabola has no maximum.",
 ["inputs"],"all spectra and limits, maxima in the interior, at either end, and repeated",
 "Tests use single-peaked spectra with interior maximum.",
 [C+'core_wavefunctions.py',S+'spectrum.py'],[("peak search",C+"core_wavefunctions.py:compute_spectrum_params, compute_tps; "+S+"spectrum.py:get_Tp, get_Tps")],["returned values"])
p("C28","Band averaging uses complete, consecutive, equal bins",
 "Band averaging replaces each group of m consecutive frequencies and densities by their means, with m the desired spacing divided by the original spacing, rounded and at least one; groups start at the first sample, do not overlap, leave no gap, and an incomplete last group is dropped. Without a desired spacing nothing is averaged.",
 ["inputs"],"all lengths, spacings and desired spacings",
 "Tests have a few spacings whose ratio divides the length.",
 [C+'core_spectral.py'],[("bin loop",C+"core_spectral.py:frequency_averaging")],["returned arrays"])
p("C29","Record statistics follow their definitions",
 "Mean, variance, maximum and minimum of a series are those of its signal; skewness is the third central moment over the 3/2 power of the second; asymmetry is the third moment of the Hilbert transform over the same. Both are free of the mean level and of the amplitude.",
 ["inputs"],"all signals",
 "Tests check one signal with zero mean.",
 [S+'series.py'],[("statistics",S+"series.py:get_skewness, get_asymmetry, max, min, mean, var")],["returned values"])
p("C30","Plots show the object's own data",
 "Each plot method draws exactly the documented curves from the object's own data, each under its own name: a series plot the signal against its time axis and, on request, the crossings on the zero line; a spectrum plot the density against its frequency axis and a mark at one over each period found so far; the exceedance plots the sorted wave heights of all waves, the Rayleigh curve of their own rms height and, on request, the Battjes-Groenendijk curve of the given parameters, all divided by the significant height if normalised. Percentages stand where the curves have them, axis options are passed on, and axes are called after the unit they show.",
 ["inputs","configurations"],"all data and all option combinations of the plot methods",
 "Tests call the plot methods and check at most that a figure comes back; what is drawn on it is never looked at.",
 [S+'series.py',S+'spectrum.py'],[("drawing calls",S+"series.py:plot, plot_exceedance_waveheight, plot_exceedance_waveheight_Rayleigh, plot_hist_waveheight; "+S+"spectrum.py:plot")],["lines, labels and axes of the returned figure"])
p("C31","Objects keep and describe what they hold",
 "After construction, and after any later analysis, an object's sizes, time step, dimension flag and data attributes are those of the data it holds, and its textual descriptions name exactly these. Each spectral query leaves the value it returns on the object under its own name, replacing the value of an earlier query with other limits and, apart from the queries it is itself composed of, leaving the values kept by other queries as they are. After a re-analysis of a record the stored wave heights, periods and their count are those of the waves it returned.",
 ["inputs","histories"],"all objects, data and query histories; all limits",
 "Tests read return values; the attributes (which the plots use) and descriptions are hardly ever read, and never after a second query with other limits.",
 [S+'series.py',S+'spectrum.py'],[("attributes set by constructors and queries",S+"series.py:WaveHeights, Series; "+S+"spectrum.py:Spectrum.__init__, get_*"),("descriptions",S+"series.py:__str__, __repr__; "+S+"spectrum.py:__str__, __repr__")],["attributes, str and repr"],
 [("nwave, nt, dt, nf, spec","sizes of the data held",S+"series.py, "+S+"spectrum.py"),("Hm0, Tps, Tmm10, ...","results of the last query",S+"spectrum.py")])
# properties that static analysis cannot decide here
p("N01","The dispersion relation is solved to about machine precision",
 "For positive finite depth the returned wave number satisfies the dispersion relation with a relative error near machine precision.",
 ["inputs"],"all frequencies and depths","numerical accuracy of a fixed number of iterations; tests sample it",
 [C+'core_dispersion.py'],[("two correction steps",C+"core_dispersion.py:disper")])
p("N02","Transform followed by inverse transform returns the signal",
 "Transforming a signal, unfolding and transforming back gives the same signal to rounding accuracy.",
 ["inputs"],"all signals","numerical identity of the FFT library",
 [C+'core_spectral.py'],[("fft/ifft",C+"core_spectral.py")])
p("N03","The Battjes-Groenendijk iteration terminates and converges",
 "For every valid input the iteration for the scale heights terminates with the requested tolerance.",
 ["inputs"],"all wave heights, depths, slopes","termination of a floating-point fixed-point iteration",
 [C+'core_wavefunctions.py'],[("while loop",C+"core_wavefunctions.py:compute_BattjesGroenendijk_wave_height_distribution")])
p("N04","Moment integration is accurate",
 "Moments of smooth spectra are accurate to the order of the quadrature rule, including when limits fall between frequencies.",
 ["inputs"],"all smooth spectra and limits","quadrature error is a numerical quantity",
 [C+'core_wavefunctions.py'],[("Simpson rule",C+"core_wavefunctions.py:compute_moment")])
p("N05","A synthesised series reproduces the given spectrum statistically",
 "The spectrum estimated from a synthesised series converges to the given one.",
 ["inputs"],"all spectra and seeds","a statement about a random ensemble",
 [C+'core_spectral.py'],[("random phases",C+"core_spectral.py:spectrum2timeseries")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'properties.jsonl'),'w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
