"""Writes properties.jsonl (kept as a script so the statements stay in one readable place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n} for n in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "EMD components always add back up to the signal",
  "For every finite signal of two or more samples and every supported configuration, EMD finishes normally and returns a finite two-dimensional array whose rows are as long as the signal. The rows add up to the input to within 1e-8 absolute (plus floating-point rounding), whatever the signal's length, amplitude, number type and memory layout, the time axis, the spline kind, the number of mirrored points, the extrema detection, the stopping rule, the thresholds and the component limit.",
  ["inputs", "configurations"], "all signals x all configurations",
  "Unit tests reconstruct a few smooth signals with default settings; completeness must hold on every tie, plateau, boundary shape, scale, dtype and stopping path.",
  ["PyEMD/EMD.py", "PyEMD/splines.py", "PyEMD/utils.py"],
  [("sifting loop and residue bookkeeping", "PyEMD/EMD.py: EMD.emd"), ("envelopes", "PyEMD/EMD.py: EMD.extract_max_min_spline")],
  observe=["return value of EMD.emd / EMD.__call__"])

p("C02", "EMD component count, prefix consistency and separated accessors",
  "A positive component limit k is never exceeded by the number of oscillatory components, and the oscillatory components obtained under a limit are exactly the first ones of the unlimited decomposition. After a run, the separated components and residue (and the components and trend) describe that run: they add up to the signal, they are the rows that were returned, a residue is returned as an extra last row exactly when it is not numerically zero, and the trend is the slowest returned row (the residue when there is one); this stays so when the caller changes the returned array. Asking for them before any run raises a ValueError.",
  ["inputs", "configurations", "histories"], "all signals x all limits x all accessors after any run",
  "Tests look at one signal and one limit; off-by-one in the bookkeeping of the trend row shows only for particular extrema counts and limits.",
  ["PyEMD/EMD.py"],
  [("component limit and trend row", "PyEMD/EMD.py: EMD.emd"), ("accessors", "PyEMD/EMD.py: EMD.get_imfs_and_residue, EMD.get_imfs_and_trend")],
  state=["EMD.imfs", "EMD.residue"], observe=["EMD.emd", "EMD.get_imfs_and_residue", "EMD.get_imfs_and_trend"])

p("C03", "Extrema and zero-crossings are found exactly",
  "On every signal the reported maxima and minima are exactly the places where the signal turns: strict local peaks and valleys, and flat stretches that turn, reported once at their middle sample (rounded half to even); flat stretches that continue in the same direction or touch either end of the signal are not extrema. Maxima and minima therefore alternate, are sorted, and carry the signal's values there; with parabolic detection each turn is instead reported at the vertex of the parabola through the three neighbouring distinct samples (position and value), on uniform and non-uniform time axes of any offset and length. Zero-crossings are reported once per strict sign change between neighbouring samples and once per run of zeros, at the middle of the run. (Differences and values below 1e-150 may count as zero.)",
  ["inputs"], "all signals, both detection modes, all time axes",
  "The number of tie patterns (plateaus inside, at the first or second sample, at the end, touching zero) grows exponentially; tests pin a handful.",
  ["PyEMD/EMD.py"],
  [("simple detection", "PyEMD/EMD.py: EMD._find_extrema_simple"), ("parabolic detection", "PyEMD/EMD.py: EMD._find_extrema_parabol, EMD._not_duplicate")],
  observe=["EMD.find_extrema"])

p("C04", "Boundary mirroring yields a valid knot set covering the signal",
  "For every signal with at least three extrema, both detection modes and every number of mirrored points from one up, the upper and lower knot sequences keep every detected extremum of their kind unchanged and in order, have strictly increasing positions, and reach or pass both ends of the time axis. All further knots are mirror images, about the signal end or about the outermost extremum as the boundary sample decides, of the extrema (or end sample) nearest to that boundary and carry their values, and no more than the requested number is added per side. Signals with fewer than three extrema produce no envelopes.",
  ["inputs", "configurations"], "all signals x nbsym x detection mode",
  "There are eight boundary branches and several fall-backs, selected by relations between boundary samples and the nearest extrema; tests visit few of them.",
  ["PyEMD/EMD.py"],
  [("mirroring, simple", "PyEMD/EMD.py: EMD.prepare_points_simple"), ("mirroring, parabol", "PyEMD/EMD.py: EMD.prepare_points_parabol")],
  observe=["EMD.prepare_points", "EMD.extract_max_min_spline"])

p("C05", "Envelope splines interpolate correctly for every spline kind",
  "For every increasing knot sequence and every spline kind, the envelope passes through all knots that fall on samples, is linear in the knot values' scale and offset, reproduces constants and straight lines exactly, and is evaluated at exactly the samples inside the knot range. Each kind is the curve its name promises (not-a-knot cubic, Akima, monotone PCHIP, cubic Hermite with finite-difference slopes, piecewise linear, quadratic), a three-knot cubic is the natural cubic spline through its knots, kind names are case-insensitive, and an unknown kind raises ValueError.",
  ["inputs", "configurations"], "all knot sequences x spline kinds x evaluation points",
  "Tests compare a couple of knot sets; a wrong coefficient or boundary condition shows only for particular knot spacings and counts.",
  ["PyEMD/EMD.py", "PyEMD/splines.py"],
  [("dispatch and range selection", "PyEMD/EMD.py: EMD.spline_points"), ("three-point cubic", "PyEMD/splines.py: cubic_spline_3pts"), ("other kinds", "PyEMD/splines.py")],
  observe=["EMD.spline_points", "PyEMD.splines"])

p("C06", "Sifting follows the configured stopping rules",
  "Each oscillatory component is obtained by repeatedly subtracting the mean of the upper and lower envelope from the current residual: exactly FIXE times when FIXE is set; until extrema and zero-crossing counts have differed by at most one for FIXE_H consecutive siftings (never counting the first) when FIXE_H is set; otherwise until that balance holds and the change of the last sifting is below one of the three IMF thresholds while all maxima are non-negative and all minima non-positive; and in any case no more than MAX_ITERATION-1 times. The decomposition ends when the residual has fewer than three extrema, the component limit is reached, or the residual's range or total absolute value falls below its threshold. FIXE takes precedence over FIXE_H.",
  ["inputs", "configurations"], "all signals x stopping configurations x thresholds",
  "Stopping decisions depend on the whole history of siftings; tests check a single run per rule and never the exact stopping step.",
  ["PyEMD/EMD.py"],
  [("sifting loop", "PyEMD/EMD.py: EMD.emd"), ("IMF test", "PyEMD/EMD.py: EMD.check_imf"), ("end test", "PyEMD/EMD.py: EMD.end_condition")],
  observe=["EMD.emd", "EMD.check_imf", "EMD.end_condition"])

p("C07", "Time axis and number type never change what is decomposed",
  "With simple detection the result does not depend on the time values at all; with parabolic detection it is unchanged when the time axis is shifted or stretched by a positive factor, and omitting the axis equals passing consecutive integers. An integer signal gives the same components as the same values stored as floats, and any memory layout or byte order gives the same result as a contiguous copy. A time axis of the wrong length raises ValueError, repeated neighbouring time values under parabolic detection raise AssertionError, and the automatically created timeline counts 0,1,2,... exactly for every length and number type.",
  ["inputs", "configurations"], "all signals x time axes x dtypes x lengths",
  "Overflow and precision loss appear only at particular dtype/length combinations, and axis dependence only for particular axes.",
  ["PyEMD/EMD.py", "PyEMD/utils.py"],
  [("time handling", "PyEMD/EMD.py: EMD.emd, EMD._normalize_time"), ("timeline and type unification", "PyEMD/utils.py")],
  observe=["EMD.emd", "PyEMD.utils.get_timeline", "PyEMD.utils.unify_types"])

p("C08", "Every run is a pure function of its input and configuration",
  "Whatever was decomposed before with the same object, with other objects or in other threads using their own objects, a decomposition gives exactly the result a freshly built object with the same settings gives. Input arrays, returned arrays of earlier runs, configuration values and the global random state are never modified, and results do not alias the caller's input. A failed call (bad arguments) leaves the object usable and later results unaffected.",
  ["histories", "schedules"], "all short histories of operations and all interleavings of two runs with few preemptions",
  "State leaks need a specific order of calls or a specific interleaving; each test builds a fresh object and makes one call.",
  ["PyEMD/EMD.py", "PyEMD/EEMD.py", "PyEMD/CEEMDAN.py", "PyEMD/utils.py"],
  [("per-run state", "PyEMD/EMD.py: EMD.emd (self.DTYPE, self.imfs, self.residue)"), ("ensemble state", "PyEMD/EEMD.py: EEMD.eemd, PyEMD/CEEMDAN.py: CEEMDAN.ceemdan"), ("type cache", "PyEMD/utils.py: deduce_common_type")],
  state=["EMD/EEMD/CEEMDAN instances", "module level caches", "numpy global RNG"], observe=["results of public calls"])

p("C09", "EEMD is the exact ensemble statistics of its noisy trials",
  "For whatever noise the trials draw, the result's k-th row is the mean over exactly those trials that have a k-th component, the ensemble counts and standard deviations describe the same sets, all per-trial components are kept under their order in trial order, and exactly the requested number of trials is decomposed, each being the signal plus its own noise under the requested time axis and component limit. With separated trends every trial's trend goes to the last row and to no other row, and the residue is the signal minus the sum of the rows. With zero noise width the ensemble is the plain EMD of the signal.",
  ["inputs", "configurations"], "all combinations of trial outcomes (noise draws) x options",
  "Trials with differing component counts and particular combinations of them are needed to expose wrong averaging; tests use one random draw and compare shapes.",
  ["PyEMD/EEMD.py"],
  [("ensemble bookkeeping", "PyEMD/EEMD.py: EEMD.eemd, ensemble_mean, ensemble_count, ensemble_std"), ("trial", "PyEMD/EEMD.py: EEMD._trial_update")],
  state=["EEMD.all_imfs", "EEMD.E_IMF", "EEMD.residue"], observe=["EEMD.eemd", "EEMD.ensemble_*", "EEMD.all_imfs", "EEMD.get_imfs_and_residue"])

p("C10", "Noise: right scale and kind, reproducible by seed, fresh per trial",
  "The noise of an EEMD trial has the configured kind and a width of noise_width times the signal's exact peak-to-peak range, for every number type; CEEMDAN's has the configured scale. The same seed, set on any object at any time, gives bit-identical results for the same sequence of calls with both ensemble methods, differing seeds give different noise, no two trials of an ensemble share their noise and repeated calls continue the stream instead of repeating it. An unsupported noise kind raises ValueError.",
  ["inputs", "histories"], "all signal dtypes/ranges x seeds x call histories",
  "Repeated or mis-scaled noise produces plausible output that passes shape and reconstruction assertions.",
  ["PyEMD/EEMD.py", "PyEMD/CEEMDAN.py"],
  [("noise generation", "PyEMD/EEMD.py: EEMD.generate_noise, noise_seed; PyEMD/CEEMDAN.py: CEEMDAN.generate_noise, noise_seed"), ("scale", "PyEMD/EEMD.py: EEMD.eemd")],
  state=["random generator of each ensemble object"], observe=["noise handed to the per-trial decomposer", "generate_noise"])

p("C11", "CEEMDAN is complete and follows the adaptive-noise recursion",
  "For every signal and every noise draw the returned rows are finite and add up to the signal, a positive component limit k yields at most k components plus the final residual row, and the separated residue is what is left over. The first component is the mean over trials of the first mode of the normalised signal plus scaled first noise mode; every later one is the previous residual minus the mean over trials of the local mean of that residual plus noise, using each trial's noise mode of that order where it exists, scaled by epsilon and the residual's standard deviation. Extraction stops exactly when the limit is hit, the residual cannot be decomposed, or its range or absolute sum is below the configured threshold.",
  ["inputs", "configurations"], "all combinations of noise draws x signals x options",
  "Which noise modes exist per trial and when extraction ends depends on every draw; tests use one random draw and mostly check completeness.",
  ["PyEMD/CEEMDAN.py"],
  [("recursion", "PyEMD/CEEMDAN.py: CEEMDAN.ceemdan"), ("stop", "PyEMD/CEEMDAN.py: CEEMDAN.end_condition"), ("noise modes", "PyEMD/CEEMDAN.py: CEEMDAN._decompose_noise, _eemd, _trial_update")],
  state=["CEEMDAN.C_IMF", "CEEMDAN.residue"], observe=["CEEMDAN.ceemdan", "CEEMDAN.end_condition", "CEEMDAN.get_imfs_and_residue"])

p("C12", "Parallel ensembles equal serial ones under every worker schedule",
  "With multiprocessing enabled, EEMD and CEEMDAN produce the same components, counts, per-trial components, residue and following random stream as the serial run with the same seed, whatever the number of processes, whichever worker executes which batch of trials and in whatever order results arrive (up to summation rounding). Every trial is executed exactly once and with its own noise, and all worker pools are closed even over repeated calls.",
  ["schedules", "configurations"], "all assignments of work batches to workers and all completion orders, for small trial and process counts",
  "A test observes the one schedule the operating system happens to choose, and cannot force results to arrive out of order.",
  ["PyEMD/EEMD.py", "PyEMD/CEEMDAN.py"],
  [("parallel map", "PyEMD/EEMD.py: EEMD.eemd; PyEMD/CEEMDAN.py: CEEMDAN._eemd, CEEMDAN._decompose_noise"), ("state sent to workers", "__getstate__ of both classes")],
  state=["copies of the ensemble object in every worker"], observe=["results of eemd/ceemdan"])

p("C13", "White-noise significance test decides by the Wu-Huang bounds",
  "For every set of non-zero components, level and test kind, a component is significant in the a-priori test exactly when its log energy density lies outside the two-sided confidence band around minus its log mean period, and in the a-posteriori test exactly when it lies above the upper bound after all energies are shifted so that the chosen rescaling component lies on its own bound. The answer has one 0/1 entry per component numbered from 1, does not depend on the order of the other components, the a-posteriori answer is unchanged when all components are multiplied by a common factor, and the rescaling component itself is never significant. Empty input or NaN values give None and invalid arguments raise AssertionError.",
  ["inputs", "configurations"], "all component sets x alpha x rescaling component x test kind",
  "Tests only check the result's type; a wrong bound flips decisions for particular energies and periods only.",
  ["PyEMD/checks.py"],
  [("test", "PyEMD/checks.py: whitenoise_check"), ("bounds", "PyEMD/checks.py: significance_apriori, significance_aposteriori"), ("period and energy", "PyEMD/checks.py: mean_period, energy")],
  observe=["whitenoise_check and its helpers"])

p("C14", "Compact differentiation and filtering are exact on their polynomial space",
  "For every vector of at least seven samples, the compact derivative is linear, changes sign when the vector is reversed, is inversely proportional to the spacing and is exact for polynomials up to degree five at every point including the ends; the compact filter is linear and symmetric under reversal, reproduces polynomials up to degree three exactly at every point for every filter intensity between -0.5 and 0.5, removes the highest frequency completely, never amplifies or shifts any frequency in the interior, and at intensity one half leaves everything away from the ends unchanged. The tridiagonal solver returns the solution of the system it is given for every diagonally dominant matrix, and never modifies its arguments.",
  ["inputs"], "all unit vectors (linearity basis) x all lengths x filter intensities",
  "A wrong boundary coefficient affects one sample in one row; tests compare smooth functions with loose tolerances.",
  ["PyEMD/compact.py"],
  [("solver", "PyEMD/compact.py: TDMAsolver"), ("filter", "PyEMD/compact.py: filt6"), ("derivative", "PyEMD/compact.py: pade6")],
  observe=["TDMAsolver", "filt6", "pade6"])

p("C15", "Plots show every component once, with correct instantaneous frequency",
  "Plotting components draws one axis per component, in order, with exactly that component's values against the given (or default index) time axis, plus one residue axis exactly when requested, for any number of components including one; data passed explicitly takes precedence over the attached decomposition, and missing data raises AttributeError. The instantaneous-frequency plot has one axis per component whose curve equals the derivative of the unwrapped Hilbert phase in Hz, for both difference schemes and every filter setting, so a pure tone shows its frequency. Filter intensities outside the open interval (-0.5, 0.5) raise AssertionError, and inputs are not modified.",
  ["inputs", "histories"], "all small component sets x options x call sequences",
  "Tests only check that plotting does not raise.",
  ["PyEMD/visualisation.py"],
  [("plots", "PyEMD/visualisation.py: Visualisation.plot_imfs, plot_instant_freq"), ("frequency", "PyEMD/visualisation.py: Visualisation._calc_inst_freq, _calc_inst_phase")],
  observe=["lines drawn on the axes of the current figure"])

p("C16", "The compiled EMD agrees with the reference EMD",
  "For every double-precision signal on a consecutive integer axis (with parabolic detection: on any axis that starts at zero with smallest step one) and every configuration both support, the just-in-time compiled variant returns the same components as the plain EMD, and its rows add up to the signal. Its separated components and trend are the returned rows, a reused object gives the same results as a fresh one, and neither its configuration nor its input is modified by runs. Its timeline helper counts 0, 1, 2, ... exactly.",
  ["inputs", "configurations"], "all signals x supported configurations",
  "There are no tests for the compiled variant; it is a hand-made copy that must follow every branch of the original.",
  ["PyEMD/experimental/jitemd.py", "PyEMD/EMD.py"],
  [("compiled loop", "PyEMD/experimental/jitemd.py: emd, JitEMD"), ("compiled extrema and mirroring", "PyEMD/experimental/jitemd.py")],
  observe=["JitEMD.emd", "JitEMD.get_imfs_and_trend"])

p("C17", "The MATLAB-style EMD reconstructs its input and keeps its bookkeeping",
  "For every floating-point signal and time axis the MATLAB-style decomposition finishes, returns as many components, extrema counts and iteration counts as it announces, numbered from zero, and the components add up to the signal; a limit of two or more bounds their number. Each component is sifted exactly until the configured rule stops it (a fixed number of siftings, a number of consecutive siftings with extrema and zero-crossings differing by at most one, the three mean-to-amplitude thresholds, or the iteration limit), and its iteration count and, for rules that look at extrema, its extrema count are reported with it. Extrema, zero-crossings and mirrored knots obey the same definitions as the main implementation's simple detection, and the input is not modified.",
  ["inputs", "configurations"], "all signals x time axes x limits",
  "Tests decompose a couple of signals with a single component.",
  ["PyEMD/EMD_matlab.py"],
  [("decomposition", "PyEMD/EMD_matlab.py: EMD.emd"), ("extrema", "PyEMD/EMD_matlab.py: EMD.findExtrema")],
  observe=["EMD_matlab.EMD.emd", "EMD_matlab.EMD.findExtrema"])

p("C18", "2-D decompositions reconstruct the image and find its extrema",
  "For every image, square or not and of any number type, EMD2D finishes with or without a component limit and BEMD with one; the layers have the image's shape, are finite and add up to the image, a limit bounds the number of layers before the remainder without changing the earlier layers, runs on one object do not influence each other, and the image is not modified. EMD2D finds as maxima (minima) exactly the interior pixels that none of their eight neighbours exceeds (undercuts); BEMD, as (column, row) positions, exactly the pixels from which no pixel at least one unit higher (lower) can be reached over 8-neighbours without going below (above) the start. The extended image of EMD2D is the image surrounded by its own reflections, and envelopes are spanned on the found extrema and evaluated over the image's own area.",
  ["inputs", "configurations"], "all small images x limits x options",
  "The repository's tests for the two-dimensional classes are skipped altogether.",
  ["PyEMD/EMD2d.py", "PyEMD/BEMD.py"],
  [("EMD2D", "PyEMD/EMD2d.py: EMD2D.emd, prepare_image, find_extrema"), ("BEMD", "PyEMD/BEMD.py: BEMD.bemd")],
  observe=["EMD2D.emd", "BEMD.bemd", "EMD2D.prepare_image", "EMD2D.find_extrema"])

p("C19", "Settings mean the same however they are given, and display never matters",
  "A setting has the same effect whether it is passed to the constructor or assigned to the object later, and passing a documented default changes nothing. Decomposer settings given to EEMD or CEEMDAN act in every trial exactly like those of a decomposer passed in, and a passed decomposer is used as it is, whatever else is given. Calling an object equals calling its method, with positional or keyword arguments; progress display and logging never change a result; a copied or pickled object continues exactly as the original would, including its random stream, and without affecting it.",
  ["configurations", "histories"], "all combinations of settings up to a size x ways of giving them x signals",
  "Tests set a few options one way; a setting that is dropped, converted or forwarded wrongly only shows in combinations they do not try.",
  ["PyEMD/EMD.py", "PyEMD/EEMD.py", "PyEMD/CEEMDAN.py", "PyEMD/EMD2d.py"],
  [("settings", "PyEMD/EMD.py: EMD.__init__; PyEMD/EEMD.py: EEMD.__init__; PyEMD/CEEMDAN.py: CEEMDAN.__init__; PyEMD/EMD2d.py: EMD2D.__init__"), ("call interface", "__call__ of all classes"), ("copies", "__getstate__ of the ensembles")],
  observe=["results under both ways of configuring"])

p("C20", "2-D sifting follows the configured stopping rules",
  "Each layer of EMD2D and BEMD is obtained from the current remainder by subtracting the mean of its two envelopes again and again (EMD2D, working on the image normalised to [0,1], subtracts each mean once more before the next envelopes) while there are more than four minima and maxima (BEMD: more than one): FIXE+1 times when FIXE is set; until the layer was acceptable in FIXE_H consecutive siftings, never counting the first, when FIXE_H is set; otherwise until it is acceptable; and never more than MAX_ITERATION times. A layer is acceptable when the envelope mean deviates from its own average by less than mean_thr everywhere, the sifting changed next to nothing, its mean absolute value is below mean_thr or, for EMD2D, its mean square is below mse_thr. The decomposition ends at the limit, when nothing is left or extracted and, for EMD2D, when the extrema run out.",
  ["inputs", "configurations"], "all small images x stopping configurations x limits",
  "The repository's tests for the two-dimensional classes are skipped altogether.",
  ["PyEMD/EMD2d.py", "PyEMD/BEMD.py"],
  [("EMD2D sifting", "PyEMD/EMD2d.py: EMD2D.emd, check_proto_imf, end_condition"), ("BEMD sifting", "PyEMD/BEMD.py: BEMD.bemd, check_proto_imf, end_condition")],
  observe=["layers of EMD2D.emd and BEMD.bemd", "check_proto_imf"])

p("C21", "Decompositions commute with the symmetries of the problem",
  "Negating the signal negates every component, for EMD with every configuration, for the MATLAB-style variant and for both ensembles when the noise is negated too. Reversing in time a signal whose neighbouring samples differ (and its time axis) reverses every component. With a fixed number of siftings and the amplitude thresholds off, multiplying the signal by a positive factor multiplies every component by it and adding a constant changes the residue only; CEEMDAN and the MATLAB-style variant scale with the signal under every configuration (the latter drops a remainder whose absolute values add up to less than 1e-10).",
  ["inputs", "configurations"], "all signals x configurations x symmetry operations",
  "A branch treating maxima and minima, the two ends, or large and small values unequally changes results only for particular signals, each of which looks plausible on its own.",
  ["PyEMD/EMD.py", "PyEMD/EMD_matlab.py", "PyEMD/EEMD.py", "PyEMD/CEEMDAN.py"],
  [("maxima and minima, both ends", "PyEMD/EMD.py: EMD.prepare_points, find_extrema, check_imf; PyEMD/EMD_matlab.py: EMD.preparePoints, findExtrema"), ("scale", "PyEMD/CEEMDAN.py: CEEMDAN.ceemdan; PyEMD/EEMD.py: EEMD.eemd")],
  observe=["components and residue of the transformed signal"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for r in P: f.write(json.dumps(r) + "\n")
