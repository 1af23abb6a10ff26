import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,
                   **({"state":[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}))))
p("C01","Correlation and difference values are the defined sums over pairs of frames",
 "For any two signals (or one), any integer frame times (regular or irregular, unsorted, different per camera), any computation axis, memory layout, input dtype and output length, every value of the computed correlation (difference) equals the sum of products (squared differences) over exactly those pairs of frames whose time difference is that delay. The direct and the Fourier method give the same values, delays for which no pair exists carry zero, the real version files a pair under the absolute delay, and the complex version keeps positive and negative delays apart.",
 ["inputs"],"all data arrays (any number of frames, any frame shape), all frame-time sequences, axes, layouts, lengths, methods, real and complex",
 "Tests compare a handful of random arrays between two methods of the library itself; which pair lands in which bin for arbitrary times, lengths beyond the data, axes and layouts is never quantified over.",
 ["cddm/core.py","cddm/_core_nb.py"],[("cross_correlate/cross_correlate_fft/cross_difference, auto_*","cddm/core.py"),("ccorr/acorr dispatch","cddm/core.py"),("numba kernels","cddm/_core_nb.py")],
 ["return values of cross_correlate, cross_correlate_fft, auto_correlate, auto_correlate_fft, cross_difference, auto_difference, ccorr, acorr"])
p("C02","Counts are the number of frame pairs at each delay",
 "The count that accompanies each correlation or difference value is the exact number of frame pairs that were summed at that delay, for every combination of frame times, lengths and output sizes, for one and for two cameras. Counting from times alone (including the form for mixed or per-camera times) agrees with the counts that accompany the data, and the total over delays is the number of pairs within range.",
 ["inputs"],"all frame-time sequences and lengths, auto and cross, real and complex, any output length",
 "Tests check regular times and one random sequence; off-by-one effects at zero delay, at the last delay and for repeated or unsorted times need all inputs.",
 ["cddm/core.py","cddm/_core_nb.py"],[("cross_count/auto_count","cddm/core.py"),("_add_count_cross/_add_count_auto","cddm/_core_nb.py")],["return values of cross_count, auto_count and the count item of ccorr, acorr"])
p("C03","Normalisation sums range over the same pairs as the correlation",
 "The sums that accompany a correlation (sum of squared magnitudes, sum of the first and of the second signal) range over exactly the pairs counted at the same delay and are present exactly when the requested normalisation needs them. This holds for both methods, regular and irregular times, real and complex form, and one or two cameras.",
 ["inputs"],"all signals, times, axes and normalisation requests",
 "Tests compare the two methods with each other on one array; a bias shared by both, or one that shows only at particular delays, is invisible.",
 ["cddm/core.py","cddm/_core_nb.py"],[("cross_sum/cross_sum_fft/auto_sum/auto_sum_fft","cddm/core.py"),("ccorr/acorr","cddm/core.py")],["sums returned by cross_sum, cross_sum_fft, auto_sum, auto_sum_fft, ccorr, acorr"])
p("C04","Adding to given output arrays accumulates exactly",
 "When output arrays are passed in, the call adds exactly the newly computed sums to every one of them (values, counts and normalisation sums) in place, and returns those arrays. Splitting a data set over any sequence of such calls therefore gives the sum of the separate results, and nothing else in the arrays changes.",
 ["histories","inputs"],"all sequences of accumulating calls with any data, times, lengths and methods",
 "Tests make at most one accumulating call; accumulation is about histories of calls.",
 ["cddm/core.py","cddm/_core_nb.py"],[("aout handling","cddm/core.py:_default_out, ccorr, acorr"),("in-place kernels","cddm/_core_nb.py")],["arrays passed as aout"])
p("C05","Multiple-tau levels are correlations of repeatedly binned data",
 "The fast part of a multiple-tau computation is the linear correlation up to period times level size, and level j of the slow part is the correlation of the data binned j times (mean, first or one randomly chosen frame of each two, the same for both cameras), up to the level size. The number of levels is the largest for which the binned data still fill a level unless it is given, and results do not depend on the computation axis, memory layout, or method.",
 ["inputs","configurations"],"all data, level sizes, periods, level numbers, binning modes, axes, methods, normalisations, frame times",
 "Tests check shapes and a few values at default settings; the relation has to hold at each level for any length that does not divide evenly.",
 ["cddm/multitau.py","cddm/core.py"],[("_compute_multi","cddm/multitau.py"),("binning functions","cddm/multitau.py, cddm/_core_nb.py")],["return values of ccorr_multi, acorr_multi"])
p("C06","Streaming linear correlation equals the in-memory result, at every step",
 "Processing a video frame by frame gives, after each completed chunk, exactly the correlation (difference) of all the frames received so far, and at the end that of all the frames that fit, as long as delays do not exceed a chunk; in chunk mode it gives the sum over separate chunks. Every intermediate result shown to a viewer is such a prefix result, and no frame beyond those needed is processed.",
 ["histories","inputs","configurations"],"all videos, chunk sizes, lengths, viewer intervals, frame times, real and complex, with or without background removal",
 "Tests compare one final result per method; intermediate states of the chunk buffers and non-dividing lengths are not covered.",
 ["cddm/core.py","cddm/multitau.py"],[("iccorr/iacorr","cddm/core.py"),("_compute_multi_iter","cddm/multitau.py")],["viewer calls and return value of iccorr, iacorr"],
 [("ring buffers","two half chunks per level","cddm/multitau.py:_init_data_f"),("accumulators","data_fast","cddm/multitau.py")])
p("C07","Streaming multiple-tau equals the in-memory multiple-tau result",
 "The streaming multiple-tau computation gives, after each completed chunk, for the fast part and for each level, exactly the sums over the complete chunks of that level, and at the end the same result as the in-memory computation on the same frames for every level. This holds for any chunk size, level size, number of levels, binning mode, period and length.",
 ["histories","inputs","configurations"],"all videos, all chunk/level sizes, level numbers, binning modes, lengths and viewer intervals",
 "Tests compare one or two sizes that divide evenly; levels above the buffers, explicit level numbers and odd lengths are histories of the ring buffers that tests never visit.",
 ["cddm/multitau.py"],[("_compute_multi_iter","cddm/multitau.py"),("_add_data1/_add_data2","cddm/multitau.py")],["viewer calls and return value of iccorr_multi, iacorr_multi"],
 [("ring buffers","two half chunks per level","cddm/multitau.py:_init_data_f")])
p("C08","Running mean and variance are those of the frames processed so far",
 "The background and variance that streaming computations report after each chunk are the mean and the (population) variance of all frames of the respective camera processed so far, per pixel. With automatic background removal, the mean of the first chunk is subtracted from all frames before anything else is computed, and the stand-alone statistics functions report the same mean and variance.",
 ["histories","inputs"],"all videos, chunk sizes, modes, and positions in the stream",
 "Tests look at the final values of one run only.",
 ["cddm/multitau.py","cddm/core.py"],[("_calc_stats, _calculate_background","cddm/multitau.py"),("stats","cddm/core.py")],["background and variance passed to viewers and returned; stats()"])
p("C09","Masks and thread splitting do not change results",
 "Computing on a masked frame gives the unmasked results at the selected pixels and not-a-number elsewhere, and splitting the frame for threads gives identical results in the original frame shape. This holds for in-memory and streaming computations, for data, normalisation sums, background and variance, whatever the mask, frame shape and divisor.",
 ["inputs","configurations"],"all masks, frame shapes, thread divisors, axes and normalisations",
 "Tests use one mask and one divisor.",
 ["cddm/core.py","cddm/multitau.py"],[("reshape_input/reshape_output/reshape_frame","cddm/core.py"),("_get_frames","cddm/multitau.py")],["results of ccorr_multi, acorr_multi, iccorr, iacorr, iccorr_multi, iacorr_multi, reshape_output"])

T="TLA+ trace validation with TLC of recorded runs of the real code"
D=" + exhaustive TLC model checking of a design model"
BASE=("Decides every recorded run exactly (integer/Gaussian-integer data, so float results are exact); runs are generated from "
      "the configuration space with VERIF_SEED. Bounded by the sampled configurations and small array sizes; trusts TLC, the recorder and numpy conversion to integers. ")
n={}
def note(id,technique,text): n[id]=dict(technique=technique,note=text)
note("C01",T+D,BASE+"Model DCorr proves the pair filing for symbolic data up to 4 time stamps per camera.")
note("C02",T+D,BASE+"Model DCorr proves that every pair in range is filed exactly once.")
note("C03",T+D,BASE+"Sums are defined over the same pair bins as the counts.")
note("C04",T+D,BASE+"Traces are histories of accumulating calls; the accumulator is state of the specification.")
note("C05",T+D,BASE+"Random frame choice is specified as nondeterminism: some choice per level must explain all outputs.")
note("C06",T+D,BASE+"Model DMulti proves the ring-buffer streaming algorithm correct for symbolic frames (chunks up to 4, up to 25 frames); a weakened model must be rejected.")
note("C07",T+D,BASE+"Model DMulti proves that streaming equals the in-memory definition for symbolic frames (chunks up to 4, up to 25 frames, all level numbers); a weakened model must be rejected. Choice binning: one pixel per frame makes the result reveal which frames were chosen; the choice must take one of every two items, and correlation, counts, squares and means of both cameras must all follow from that one choice.")
note("C08",T+D,BASE+"Mean and variance are compared as exact integers N*mean and N^2*variance.")
note("C09",T+D,BASE+"Selected pixels must carry the specified values, others NaN, in the original frame shape.")

p("C10","Normalized results follow the defined formulas",
 "Normalising raw correlation or difference data gives the defined combination of the sums, counts, background and variance for every normalisation (baseline, standard, structured, weighted, with background subtraction or compensation), in correlation or difference representation, scaled or not, masked or not, real or complex. Baseline and structured values agree with the definition over frame pairs, a weighted result is the blend of its standard and structured parts with the given or the documented default weight, the input is never modified, and a given output array receives the result.",
 ["inputs","configurations"],"all raw data (any counts including zero), backgrounds, variances, weights, masks, flags, modes",
 "Tests compare a few methods up to noise on one simulated data set, so a wrong sign, factor or camera index that matters only for non-zero background or two different cameras remains unseen.",
 ["cddm/norm.py","cddm/_core_nb.py"],[("normalize","cddm/norm.py"),("normalize_* and weight kernels","cddm/_core_nb.py")],["return values of normalize, weight_from_data, scale_factor, noise_delta, noise_mean, noise_level, take_data"])
p("C11","A computed normalisation can be served, others are refused",
 "The normalisation requested for a computation decides exactly which sums are computed, the available normalisations are exactly those that the computed sums, background and variance allow, any available one is served and any other request is refused with an error instead of producing a number. Flags built from words or keywords denote the same request.",
 ["inputs","configurations"],"all pairs of a computation request and a normalisation request, with and without background and variance, one or two cameras, both methods",
 "Tests exercise a few combinations; the request space is a product of independent options with cases that each fail differently.",
 ["cddm/norm.py","cddm/core.py","cddm/multitau.py"],[("norm_from_string, norm_flags, normalize dispatch","cddm/norm.py"),("_default_norm_from_data","cddm/norm.py"),("norm checks of ccorr/acorr","cddm/core.py")],["acceptance or exception of ccorr, acorr, normalize; norm_from_string; norm_flags"])
note("C10",T+D,BASE+"Model DNorm proves the formulas equal to their definition over frame pairs for all small data. Default weights are real numbers: they are checked for consistency (blend, range, independence of representation) at 1e-3 and exactly where both parts agree.")
note("C11",T+D,BASE+"Request combinations are enumerated, not sampled, for the available/served relation.")
p("C12","Log-spaced averages are weighted means at the delays they are reported for",
 "Averaging linear data into levels, merging levels or multiple-tau results, and the accompanying effective counts follow one definition. Every reported value is a mean of the data with weights that sum to one and are centred at the reported delay, delays grow strictly, no level is missing or repeated, and counts are given at the same delays. Folding, phase alignment, interpolation and the rank filters do what their documentation says without changing their input.",
 ["inputs","configurations"],"all data lengths, level sizes, periods, numbers of levels, binning modes, real and complex data of any frame shape",
 "Tests call a few of these functions at one size; an off-by-one in the level count, delay spacing or edge handling shows only for lengths that do not fit.",
 ["cddm/multitau.py","cddm/norm.py","cddm/avg.py","cddm/_core_nb.py"],[("multilevel, merge_multilevel, log_average, log_merge and their count versions","cddm/multitau.py"),("fold_data, shift_data, equalize_data","cddm/norm.py"),("filters and interpolation","cddm/_core_nb.py")],["return values of those functions"])
note("C12",T+D,BASE+"Model DAvg follows symbolic weights through the levels for every length up to 22 (70 in the thorough run). Effective counts are real numbers and are compared to 0.01.")
p("C13","Video operators act on each multi-frame, in order, and only on demand",
 "Cropping, masking, adding, subtracting, multiplying and normalising a multi-camera video give, for each multi-frame in order, exactly that operation applied to every camera's frame with the matching multi-frame of the second operand. The result is as long as the shortest source, nothing beyond the requested multi-frame is read from any source, operands and source frames are unchanged unless in-place work is requested, and the requested data type is used. Storing a video into arrays, memory maps or memory keeps every multi-frame of every camera, and a missing, too small or too large length, wrong number of cameras or bad region is refused.",
 ["inputs","histories","configurations"],"all chains of operators, sources of any lengths, numbers of cameras, shapes, data types, slices, masks",
 "Tests apply single operators to one random video of equal lengths; order of reading, chains, lengths that differ and in-place aliasing are histories they never visit.",
 ["cddm/video.py"],[("crop, mask, subtract, add, multiply, normalize_video","cddm/video.py"),("asarrays, asmemmaps, load, fromarrays","cddm/video.py"),("_process_frames","cddm/video.py")],["multi-frames produced by each operator, number of multi-frames taken from each source, arrays returned or stored"],
 [("iterator position","multi-frames taken per source","cddm/video.py generators")])
note("C13",T+D,BASE+"Model DVideo checks the demand-driven operator chain exhaustively for small sources.")
p("C14","Background iteration and live display never change, lose or reorder the video",
 "Moving a video to a background thread or playing it delivers exactly the multi-frames of the source, each once and in order, and then ends, also when the source fails. The background reader works ahead of the consumer, by at most the queue size plus the multi-frame in hand. Viewers attached to the video show, in the consumer's thread, a strictly increasing subsequence of the frames of their camera (all of them when the display keeps up, the differences of the selected frames for the difference viewer) and never hold up the video; when it ends the viewers are forgotten and no thread is left.",
 ["schedules","histories","fault_sequences"],"all interleavings of source, consumer and display, all queue sizes, lengths, numbers of viewers, display speeds, source failures",
 "The order of thread steps is not under the control of the unit tests, which run one video through and look at the final array only.",
 ["cddm/video.py"],[("threaded, play_threaded","cddm/video.py"),("play, show_video, show_diff","cddm/video.py"),("ImageShow","cddm/video.py")],["multi-frames delivered, calls into the source iterator, frames given to norm_func, images in figures, figure_title"],
 [("queue","multi-frames read ahead","cddm/video.py:threaded"),("viewer queue","one frame waiting to be shown","cddm/video.py:show_video")])
note("C14",T+D,"Logs of gated runs are accepted only if some schedule of the specification explains them (the set of all explaining states is tracked). Model DThreaded checks all interleavings for up to 4 multi-frames, capacity 3, 2 viewers, with liveness; a model without end mark must be rejected. Bounded by the recorded schedules; background exceptions are allowed to end the iteration.")
p("C15","Transformed frames hold the discrete Fourier coefficients at the right place",
 "The transform of a video holds, for every camera and multi-frame in order, the discrete Fourier coefficients of each frame, and cropping keeps exactly the wavenumbers up to the given limits at their documented positions, refusing limits the frame cannot provide. The result is the same for every installed Fourier library and any shape, input is unchanged unless overwriting was asked for, and no frame is transformed before it is wanted. Normalisation of transforms, the display of transforms and modulated-window filtering follow the same coefficients.",
 ["inputs","configurations"],"all frame shapes, data types, crop limits, libraries, numbers of cameras and frames",
 "Tests transform one random frame shape with fixed crop limits; parity of the size, limits at the border and differences between libraries are not visited.",
 ["cddm/fft.py"],[("rfft2_video, fft2_video, rfft2_crop, fft2_crop, normalize_fft","cddm/fft.py"),("norm_rfft2, show_fft","cddm/fft.py"),("library selection","cddm/conf.py:set_rfft2lib, set_fftlib")],["frames produced by the transforms, crops, displays"])
note("C15",T+D,BASE+"Exact transforms for sizes 1, 2 and 4 (twiddle factors are integers); other sizes compare every library with a direct sum to 1e-3.")
p("C16","Half-plane and full-plane transform data describe each other exactly",
 "Reducing full-plane Fourier data to its half plane, to the opposite half plane or to a half-plane mask, and completing half-plane data to the full plane, place every value at the position of its wavevector or its conjugate at the opposite one. For any shape and parity, along any pair of axes and for any data type the conversions invert each other, missing entries are marked invalid, the input is unchanged, and sizes that do not fit the frame are refused.",
 ["inputs"],"all sizes and parities, crops, axes, data types, real, complex and boolean data",
 "The existing tests do not call these functions at all; parity of the size and non-default axes are where index errors hide.",
 ["cddm/map.py"],[("as_rfft2_data, as_rfft2_conj, as_rfft2_mask, from_rfft2_data, as_fft2_shape","cddm/map.py")],["return values of these functions"])
p("C17","Wavevector selection averages exactly the requested ring and sector",
 "Wavevector grids, moduli and angles follow the frame shape also for cropped data; index maps assign every wavevector of the sector to the ring of width kstep it lies in and mark all others invalid, and sectors side by side share and lose nothing. k_select returns, for every requested ring with data, the mean of the valid correlation data over those wavevectors, conjugated where only the opposite one is stored, and the mean of their moduli, with and without mask, for half-plane and full-plane data. Its input is unchanged.",
 ["inputs","configurations"],"all transform sizes, frame shapes, angles, sectors, steps, masks, requested indices, data with invalid values",
 "Tests only plot one index map; the result depends on parity, aspect ratio, wrap-around of angles and masks, which a few cases cannot cover.",
 ["cddm/map.py"],[("k_select","cddm/map.py"),("fft2_k_indexmap, fft2_sector_indexmap, k_indexmap, sector_indexmap","cddm/map.py"),("rfft2_grid, fft2_grid, rfft2_kangle, fft2_kangle","cddm/map.py")],["maps and selections returned"])
note("C16",T+D,BASE+"Half-plane data whose self-conjugate column is inconsistent cannot be completed uniquely and is not used.")
note("C17",T+D,BASE+"Rings and sectors are decided with integers (edges given by integer directions); on an exact edge either side is accepted. Half-plane selection is checked where each half-plane entry stands for one wavevector of the sector (odd widths).")
p("C18","Settings change only by request, are restored, and never change results",
 "The run-time settings (verbosity, display library, transform libraries, thread counts) change only through their setters, which return the previous value, keep it when a library is missing, and refuse unknown names and impossible thread counts. Computations, also failing ones, leave every setting as it was, silence ends with the bracket that began it, nothing is printed at level zero or below, and results are the same under all settings. A process starts with exactly what the configuration file and the environment say, environment first, defaults for what is absent or unreadable.",
 ["histories","configurations","fault_sequences"],"all sequences of setter calls, nested silencing, messages and computations; computations that fail at any point; all configuration files and environments",
 "Tests never read settings back after a computation, never let a computation fail while messages are off, and run with one configuration.",
 ["cddm/conf.py","cddm/print_tools.py"],[("set_verbose, set_showlib, set_fftlib, set_rfft2lib, set_fft_threads, set_numba_threads","cddm/conf.py"),("start-up configuration","cddm/conf.py"),("disable_prints, enable_prints, print1, print2, print_progress, print_frame_rate","cddm/print_tools.py")],["return values of the setters, CDDMConfig, thread counts of numba and pyfftw, printed text, results of computations, settings of a started process"],
 [("settings","verbosity, libraries, threads","cddm/conf.py:CDDMConfig")])
note("C18",T+D,BASE+"Results under different settings are compared to the first run, to a hundredth. Model DConfig checks every history of requests with nested silencing; a model that does not restore the level on failure must be rejected.")
p("C19","Every compile-time configuration computes the same defined results",
 "With single precision, with multi-threaded (parallel) compiled functions and with fast math, correlation, difference, counts, sums, multi-tau, streaming, masking, normalisation and averaging give the results that their definitions prescribe, up to the rounding of the selected precision, for every input type that the default configuration accepts.",
 ["configurations","inputs","schedules"],"precision, target and fast-math settings combined with the inputs of the other properties; thread schedules of the parallel target",
 "The test suite runs in one configuration; the others compile different code from the same sources and are never executed by it.",
 ["cddm/conf.py","cddm/core.py","cddm/multitau.py","cddm/norm.py","cddm/_core_nb.py"],[("CDDM_DOUBLE_PRECISION, CDDM_TARGET_PARALLEL, CDDM_FASTMATH","cddm/conf.py")],["results of the computations under other settings"])
note("C19",T+D,"The drivers of C01-C10 and C12 run again under the other settings (a sample of their cases in the quick run, all in the thorough run) against the same trace specifications. "+BASE+"In single precision integers up to about 10^5 are exact to 0.3. Non-finite results are not asked for under fast math.")
p("C20","Simulated experiments show the requested motion, cameras and noise",
 "A random walk starts in the box, moves each step by velocity times time step plus independent normal steps of deviation delta times the square root of the time step (constants, per-particle values or functions of the positions), and stays in the periodic box; equal seeds give equal results. Video frames show every particle at its position at the frame's time on top of the background, in the requested type: points or spots of the given width that continue across the border; camera 1 rotated around the centre and offset, camera 2 as it is. Frames of two cameras are delivered once, paired by number, as soon as both exist, for all trigger times. Random trigger times stay in their periods with the required gap, with the frequencies the schemes prescribe, and the estimated count is the expected number of pairs. Conversion subtracts black level, scales to full range and clips; noise has the signal's mean and variance. Intensities that do not fit are refused.",
 ["inputs","schedules","histories"],"all particle positions, motions and velocity fields, frame sizes, widths, offsets and turns, all trigger times of two cameras, seeds, signals and conversions",
 "Tests run a few default simulations and check hardly any pixel; no test has frames of the two cameras more than one apart.",
 ["cddm/sim.py","cddm/_sim_nb.py"],[("brownian_walk, brownian_particles","cddm/sim.py"),("particles_video, simple_brownian_video, data_trigger","cddm/sim.py"),("create_random_time, create_random_times1, create_random_times2, random_time_count","cddm/sim.py"),("coordinate_transform, form_factor, adc, seed","cddm/sim.py")],["positions","frames","positions consumed from the source","trigger times","converted images"],
 [("waiting frames","frames taken by one camera that wait for the other","cddm/sim.py:particles_video"),("position","particle coordinates","cddm/sim.py:brownian_walk")])
note("C20",T+D,"Motion is exact in eighths of a pixel, rotations are quarter turns; spots are compared with an exponential table as intervals of one grey level. Random parts are checked by scaling of the same random steps, by moments (at least six standard errors) and by the exact support of schedules. Frames whose sums exceed the pixel type, and spots wider than the frame, are outside. Model DSim checks all schedules of two cameras; a model in which a camera keeps only its latest frame must be rejected. Runs also with the parallel target.")
p("C21","Windows are the named functions of the distance from the frame centre",
 "For every frame shape and parameter, the Hann, Tukey, Blackman and Gaussian windows have at each pixel the value of the named function of the pixel centre's distance from the frame centre, in units of half the frame size along each axis: symmetric under reflection, transposed with the frame, falling with distance, zero from distance one on (aperture windows), one in the flat part of Tukey (parameter 0: aperture, 1: Hann), separable for the Gaussian. The given output array is used; parameters outside their range are refused.",
 ["inputs"],"all frame shapes (odd, even, non-square), all parameters",
 "Tests compare the windows of one square shape with stored sums; odd and non-square shapes and edges of the parameter range are not reached.",
 ["cddm/window.py"],[("blackman, gaussian, tukey, hann","cddm/window.py")],["window arrays"],[])
note("C21",T+D,"Distances are compared as exact rationals; function values in integer arithmetic (Taylor terms, square roots) with a few parts in a thousand of slack, shape relations (order, symmetry, zero, one) exactly. Model DWindow checks the arithmetic against the identities of the functions.")
p("C22","Viewers show the average of the selected data, and widgets what is selected",
 "After any history of calls (set_data, set_norm, set_mask/set_indices, plot) and of mouse events on sliders, radio buttons and check boxes of a data viewer, get_data() is the mean of the normalized (folded, log-averaged) data over the wavevectors or entries selected last, in the chosen representation, get_k() their mean wavevector; each request changes only what it names (a slider its own parameter, a check box its own flag, an incompatible norm nothing), set_mask() tells whether anything is selected, the plot is what get_data() returned at the last plot or event, and the input data are unchanged. Incomplete viewers refuse. VideoViewer shows the frame at the slider, reads an iterator forward once, no further than needed.",
 ["schedules","inputs"],"all histories of calls and widget events, all viewers, masks, frame shapes, data kinds",
 "Tests open viewers without clicking anything and do not look at curves.",
 ["cddm/viewer.py"],[("DataViewer, CorrViewer, MultitauViewer, *ArrayViewer, VideoViewer","cddm/viewer.py")],["get_data(), get_k(), curves, sliders, check boxes, frame on display, frames taken"],[("request state","data set, norm, selection, representation, figure","cddm/viewer.py"),("video state","slider position, frame on display, frames taken","cddm/viewer.py")])
note("C22",T+D,"Real widgets are pressed by mouse events at places found by the text beside them; the specification holds the state and recomputes the curve of every event from the normalized data and the geometry of the plane. Model DView explores every order of requests on small domains; its variant with widgets that take over stale positions is rejected.")
p("C23","Weights minimise the error of the noise model, noise estimates are as defined",
 "For every correlation value, camera imbalance and pair of mean fields that two complex Gaussian fields can have, the functions of weights (from correlation, from difference, from data with scale) give the weight of least variance, separately for real and imaginary part, and the error functions give the variance of the weighted estimator that follows from Wick's theorem. noise_delta, scale_factor, noise_level and noise_mean are the defined functions of variances, window and data (with masks, single or two cameras, clipped to 0..1), weights of measured data are those of denoised data; unknown modes are refused, inputs stay unchanged.",
 ["inputs"],"all correlation values, imbalances, mean fields, scales, masks",
 "Tests compare one weight array with a stored one; imbalance, mean fields, imaginary parts and the optimum itself are not looked at.",
 ["cddm/norm.py","cddm/_core_nb.py"],[("weight_from_*, weight_prime_from_*","cddm/_core_nb.py"),("sigma_weighted, sigma_prime_weighted","cddm/_core_nb.py"),("noise_*, scale_factor","cddm/norm.py")],["returned arrays"])
note("C23",T+D,"Second moments are computed with Wick's theorem on Gaussian integers (quarters); weights are compared as rationals to 3e-5, variances to 0.002. Which field is the conjugated one is left open. Model DWeight proves published formulas equal to the moments and the optimum on a grid of 4320 fields; leaving out one term must be rejected. The denoising filter itself belongs to C12.")
p("C24","Computations change nothing but the outputs they are given",
 "In every history of calls over shared arrays, every function of the library (correlation, streaming, multi-tau, normalization, averaging, video, Fourier, simulation, window, viewer) leaves all arrays of the program as they are - data, times, masks, backgrounds, weights, frames and the results of earlier calls, whatever their memory layout - except the outputs it was given and, if in-place work was asked for, its operands. A computed result is new memory or the given output: it shares none with the inputs or with earlier results. A refused call changes nothing but its outputs.",
 ["inputs","schedules"],"all histories of calls, with arrays and views of any layout",
 "Tests call a function once with fresh arrays and look at the returned value; inputs, earlier results and memory are not compared.",
 ["cddm"],[("correlation and its given outputs","cddm/core.py"),("normalization","cddm/norm.py"),("video and its in-place options","cddm/video.py"),("Fourier and its in-place options","cddm/fft.py"),("viewers","cddm/viewer.py")],["returned arrays","input arrays"])
note("C24",T+D,"Histories of up to about 40 random calls on one set of arrays; all arrays of the program and all earlier results are compared after each call (bytes, shape, strides), and memory shared by results is looked for. Kinds of calls (computes, views, in place) are fixed per function from the documentation. Model DHeap explores up to three calls on four arrays; a model in which results come in a workspace used again must be rejected.")
p("C25","Malformed requests are refused, well-formed ones served",
 "For every request to a correlation, multi-tau, streaming or reshaping function: if its arrays, times, outputs, axis, mask, method, normalization, binning, sizes (level, chunk, count, levels), thread divisor, mode and supply of frames fit together, it is served; otherwise the call ends with an exception - it neither hangs nor returns data. A refusal leaves all settings (verbosity, libraries, threads) and arrays as they were, and every later well-formed request is answered as if the refused one had not been made.",
 ["inputs","schedules"],"all requests with any combination of mistakes, in any order",
 "Tests try a handful of mistakes, one at a time, and never look at what a refusal leaves behind.",
 ["cddm/core.py","cddm/multitau.py"],[("_inspect_cross_arguments, _inspect_auto_arguments, _default_out","cddm/core.py"),("_default_norm, _default_method","cddm/core.py"),("reshape_input, thread_frame_shape, reshape_output","cddm/core.py"),("_default_method_and_binning, _default_chunk_size, _inspect_t1_t2_count, _compute_multi_iter","cddm/multitau.py")],["exceptions","returned arrays","settings"])
note("C25",T+D,"Random requests with no, one or two mistakes (names of the mistakes in drv_req.MISTAKES), 30 to a history, at verbosity 0 to 2; a standing request in between must give the same answer every time. Served and refused must agree with Request in both directions; the kind of exception is left open. A call that gives no answer in two minutes counts as neither. Model DRequest works streams off without asking: accepted requests reach the end with all pairs seen, refused ones do not; serving whatever the supply must be rejected. Not decided: outputs of a single camera asked to be complex differences, counts or sums of another length than the correlation, real outputs for complex results.")
p("C26","A pipeline of stages computes the composition of its stages",
 "For every experiment built from the library's parts - a source video (generator, list or arrays), cropping, background and window operators (new or in place), live displays, background threads, the transform with its wavevector limits and any transform library, k masks, thread splitting, and a linear or multi-tau correlator fed as a stream or from memory - the multi-frames delivered at the end, kept to the end, and the correlation data, counts, background and variance are exactly those of composing the definitions of the stages.",
 ["inputs","schedules"],"all pipelines, videos and schedules of background threads",
 "Tests run one stage at a time, or one fixed pipeline whose result is compared with itself.",
 ["cddm/video.py","cddm/fft.py","cddm/core.py","cddm/multitau.py"],[("video operators, threaded, show_*, play, fromarrays, asarrays","cddm/video.py"),("rfft2_video, fft2_video","cddm/fft.py"),("iccorr, iacorr, ccorr, acorr","cddm/core.py"),("iccorr_multi, iacorr_multi, ccorr_multi, acorr_multi","cddm/multitau.py")],["returned arrays","delivered frames"])
note("C26",T+D,"240 random experiments (1920 thorough) with frames of 1, 2 or 4 points a side, whose transforms are Gaussian integers; every result is computed a second time by composing VideoOps, FftOps and MultiTau in TLC and compared with =. Background threads run as the machine schedules them. Model DPipe explores every schedule of stage, display, queue and consumer; a stage with one block for all results must be rejected.")
p("C27","Messages follow the verbosity, progress tells how much is done",
 "In every history of verbosity settings (set_verbose, disable_prints, enable_prints) and calls, at level 0 or with printing disabled nothing is printed but warnings; at level 1 each operation the program calls prints its heading and its progress once, and nothing of the operations it is made of; at level 2 also the parameters that are in force and the number of frames processed. Progress starts at zero, never falls, and reaches one hundred percent, where its line is closed, exactly when everything has been processed. Code of the program that runs in between (a source of frames, a viewer) prints, and sets the level, as it would outside. A refused call prints no results and keeps the level.",
 ["histories","inputs"],"all histories of settings and calls, with program code running inside streams",
 "No test looks at what is printed, and all but a few run silent.",
 ["cddm/print_tools.py","cddm/core.py","cddm/multitau.py","cddm/norm.py","cddm/video.py"],[("print1, print2, print_progress, print_frame_rate, disable_prints, enable_prints","cddm/print_tools.py"),("_compute_multi, _compute_multi_iter","cddm/multitau.py"),("normalize","cddm/norm.py"),("asarrays, asmemmaps","cddm/video.py")],["standard output","return values of the settings functions"])
note("C27",T+D,"Standard output is cut into headings, steps, parameters, progress bars, closed lines, warnings and marks of the program itself; texts are not compared. Parameters are judged where the request or the result says what they were. If the program changes the level in the middle of a stream, the end of the progress is not required to be seen. Model DMessages proves the same predicates of the streaming loop for all program behaviours between frames; an inner operation that switches printing on without looking must be rejected.")
#MORE
with open('/verif/properties.jsonl','w') as f:
    json.dump(n,open('/verif/harness/notes.json','w'),indent=1)
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+"\n")
print(len(P))
