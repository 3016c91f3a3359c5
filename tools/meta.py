"""Writes properties.jsonl and MANIFEST.json from the entries below (run by hand, never by a check)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, tests, files, mech, tech, note, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests,
                  files=files, mech=mech, tech=tech, note=note, observe=observe or [], state=state or []))


TRUST = ' Trusts numpy/scipy and the oracle code in /verif/vf; sizes and parameters stay in the generated ranges.'

prop('C01', 'Centred array re-sizing, axes and grids keep pixels where they belong',
     'Padding, cropping, off-centre cropping and binning keep every retained pixel at its exact offset from the array centre (index N//2) and fill everything else, for every combination of odd and even, rectangular, real and complex arrays, and refuse invalid requests. Coordinate axes and radial/azimuthal grids give the coordinate of each pixel about that same centre in both centering conventions. Rounding helpers return the least admissible integer not below their input.',
     ['inputs'], 'All array shapes (odd/even, rectangular), data types, target sizes, chains of re-sizings, offsets, binning factors and sampling steps.',
     'Tests check a few even square sizes; parity, dtype and rectangular combinations multiply far beyond them.',
     ['falco/util.py'], [('centre-preserving pad/crop', 'falco/util.py pad_crop, pad_to_even_square, offcenter_crop'), ('binning', 'falco/util.py bin_downsample'), ('axes and grids', 'falco/util.py create_axis, radial_grid, azimuthal_grid')],
     'Hypothesis-generated arrays against per-pixel reference models and metamorphic chains',
     'Every output pixel is compared with an explicit per-pixel definition.' + TRUST)

prop('C02', 'Optical propagators are the exact Fourier/Fresnel transforms they stand for',
     'Pupil-to-focus and focus-to-pupil propagation equal the explicit Fourier sum at the requested coordinates, with unitary critical sampling, and a round trip returns the field rotated by 180 degrees. Plane-to-plane propagation is the Fresnel angular spectrum (energy-preserving, invertible, additive), relays rotate by exact multiples of 180 degrees, and the vortex propagator is linear, nulls on-axis light and has its reverse mode as exact adjoint.',
     ['inputs', 'configurations'], 'All complex fields, array sizes and parities, samplings in each axis, centering conventions, wavelengths, distances, relay counts, vortex charges.',
     'Tests use fixed on-axis fields and square samplings; an axis swap, a wrong parity shift or a phase sign is invisible there.',
     ['falco/prop.py'], [('matrix Fourier transforms', 'falco/prop.py mft_p2f, mft_f2p'), ('centred FFTs', 'falco/prop.py fft2d, ifft2d'), ('relay', 'falco/prop.py relay'), ('plane to plane', 'falco/prop.py ptp'), ('vortex', 'falco/prop.py mft_p2v2p')],
     'Hypothesis-generated fields against explicit DFT sums, adjoint identities and analytic vortex behaviour',
     'Each propagator is compared pixel for pixel with an O(N^4) sum or closed form.' + TRUST)

prop('C03', 'Diffraction steps of the optical library follow Fresnel theory',
     "After any sequence of lenses, propagation steps, stops and phase maps, the wavefront held by the bundled PROPER library is the Fresnel integral of the starting field up to a constant phase, and its reported sampling, beam size, distance to focus, reference sphere and focal ratio are those of the pilot Gaussian beam. Steps conserve energy, add up, are undone by the reverse step, and carry the travelled path when asked to. Multiplying, adding, dividing and phasing act on the centred field as stated, and the final field or intensity is cut out about the centre.",
     ['inputs', 'histories'], 'All sequences of lenses and steps (to, through and around foci, planar or curved references), wavelengths, diameters, grid sizes, beam ratios and fields.',
     'Tests run a few prescriptions; the choice of propagator depends on the history of the beam.',
     ['falco/proper/prop_lens.py', 'falco/proper/prop_propagate.py', 'falco/proper/prop_ptp.py', 'falco/proper/prop_stw.py', 'falco/proper/prop_wts.py', 'falco/proper/prop_select_propagator.py', 'falco/proper/prop_end.py'], [('propagators', 'falco/proper/prop_ptp.py, prop_stw.py, prop_wts.py'), ('choice of propagator', 'falco/proper/prop_select_propagator.py, prop_lens.py'), ('edits of the field', 'falco/proper/prop_multiply.py, prop_add_phase.py, prop_add_wavefront.py, prop_end.py')],
     'Generated optical trains against the analytic propagation of decentred, tilted Gaussian beams; algebraic laws on random fields',
     'Trains whose Gaussian would leave the grid in space or frequency are not judged.' + TRUST)

prop('C04', 'Mask drawing and resampling of the optical library keep geometry',
     'Each pixel of a drawn ellipse, rectangle, regular or irregular polygon or rounded rectangle holds the fraction of it that the shape covers, wherever the shape lies and however it is turned; apertures and obscurations multiply the field by it. Magnifying, rotating and pixellating an image keep what lies at each place about its centre, at the requested size, shift and conservation. An error map read from a file sits where its sampling, centre, shift, rotation and magnification put it and changes the field by its type and units.',
     ['inputs', 'configurations'], 'All shapes, sizes, positions (also partly or wholly off the grid), rotations, subsampling factors, array sizes, scales, shifts and map types.',
     'Tests draw a few centred shapes; positions, rotations and non-square maps multiply beyond them.',
     ['falco/proper/prop_ellipse.py', 'falco/proper/prop_rectangle.py', 'falco/proper/prop_polygon.py', 'falco/proper/prop_irregular_polygon.py', 'falco/proper/prop_rounded_rectangle.py', 'falco/proper/prop_magnify.py', 'falco/proper/prop_rotate.py', 'falco/proper/prop_pixellate.py', 'falco/proper/prop_errormap.py'], [('shapes', 'falco/proper/prop_ellipse.py, prop_rectangle.py, prop_polygon.py'), ('resampling', 'falco/proper/prop_magnify.py, prop_rotate.py, prop_pixellate.py, prop_resamplemap.py'), ('error maps', 'falco/proper/prop_errormap.py, prop_readmap.py')],
     'Generated shapes and images against supersampled predicates and analytic blobs at the transformed places',
     'Ellipses turn clockwise by their ROTATION where all other shapes turn counter-clockwise (pupils of FALCO rely on it); masks are judged to the accuracy of their subsampling.' + TRUST)

prop('C26', 'Aberrations, occulters and prescriptions of the optical library are as stated',
     'Zernike aberrations equal their polynomials on full and obscured circles and fits recover the coefficients of a map about any centre; random error maps have the requested spectrum and rms; occulters have the stated transmission. A prescription run once, over a wavelength file, in parallel or through saved states gives the weighted result of the separate runs, and its table lists each surface as the beam met it. Files written are read back as they were, and a finished session leaves no files or settings behind.',
     ['inputs', 'configurations', 'histories'], 'All sets of Zernikes and coefficients, obscurations, map shapes and centres, spectra, occulters, wavelength lists and orders of saved-state visits.',
     'Tests use single Zernikes and one prescription; saved states, centres, limits and parallel runs are not exercised.',
     ['falco/proper/prop_zernikes.py', 'falco/proper/prop_fit_zernikes.py', 'falco/proper/prop_psd_errormap.py', 'falco/proper/prop_8th_order_mask.py', 'falco/proper/prop_run.py', 'falco/proper/prop_run_multi.py', 'falco/proper/prop_state.py', 'falco/proper/prop_table.py'], [('aberrations', 'falco/proper/prop_zernikes.py, prop_noll_zernikes.py, prop_fit_zernikes.py, prop_psd_errormap.py'), ('runs', 'falco/proper/prop_run.py, prop_run_multi.py, prop_table.py'), ('saved states', 'falco/proper/prop_state.py, prop_savestate.py, prop_end_savestate.py')],
     'Generated maps, spectra and prescriptions against closed forms and separate runs; stateful saved-state histories',
     'Spectra are judged by ring means with the known scatter, and a frequency limit is not combined with a stated rms.' + TRUST)

prop('C05', 'Mask generators render the requested geometry',
     'Pupil, Lyot-stop, DM-stop and focal-plane mask generators return the area-sampled shape they are asked for: transmission 1 inside, 0 outside, and the covered fraction on edge pixels, for every diameter, clocking, shear, magnification, sampling and centering. Shearing moves the mask, clocking rotates it, magnification scales it, and padding only removes light. A down-sampled mask is the same shape at the coarser sampling.',
     ['inputs', 'configurations'], 'All diameters, widths, clocking angles, shears, magnifications, samplings, array paddings and both centerings.',
     'Tests compare areas or sums for one or two parameter sets; sign, centering and edge errors keep those sums.',
     ['falco/mask.py', 'falco/proper/prop_ellipse.py', 'falco/proper/prop_polygon.py', 'falco/proper/prop_irregular_polygon.py'], [('ellipse antialiasing', 'falco/mask.py gen_ellipse'), ('simple pupil', 'falco/mask.py falco_gen_pupil_Simple'), ('bowtie and annular masks', 'falco/mask.py'), ('resampling', 'falco/mask.py rotate_shift_downsample_pupil_mask')],
     'Hypothesis-generated mask parameters against independent supersampled geometry and metamorphic relations',
     'Pixels away from edges must match exactly; edge pixels within a stated area tolerance.' + TRUST)

prop('C06', 'Dark-hole and software masks select exactly the requested pixels',
     'A focal-plane region contains exactly the pixels whose coordinates satisfy its geometric definition (radii, shape, side, opening angle, clocking, offsets), and its array is large enough to hold it. Correction and scoring regions are the unions of their zones, with consistent sizes, axes and pixel counts, and spatial weights multiply over the annuli containing a pixel.',
     ['inputs', 'configurations'], 'All region shapes, sides, radii, angles, clockings, offsets, resolutions, fields of view, centerings, and lists of zones and weights.',
     'Tests check pixel sums of a few regions; the region logic branches on shape, side, clocking and zone lists.',
     ['falco/mask.py', 'falco/setup.py'], [('software mask', 'falco/mask.py gen_sw_mask'), ('region assembly', 'falco/setup.py falco_configure_dark_hole_region'), ('weights', 'falco/setup.py falco_set_spatial_weights')],
     'Hypothesis-generated regions against a per-pixel geometric predicate',
     'Pixels within rounding of a boundary are left undecided.' + TRUST)

prop('C07', 'Spectral sampling and control-mode weights are complete and normalised',
     'Sub-band centres, in-band wavelengths and their weights form a quadrature of the band: weights sum to one, each unique wavelength is listed once and every (sub-band, in-band) pair maps to it. Control modes list each weighted (star, wavelength, aberration) combination exactly once with normalised weights, drop the zero-weight ones, and refuse lists without piston or with repeats.',
     ['inputs', 'configurations'], 'All band widths, numbers of sub-bands and wavelengths, star lists, aberration-mode lists in any order and container.',
     'Tests use a few sizes; index bookkeeping errors show only for unusual combinations.',
     ['falco/setup.py'], [('spectral weights', 'falco/setup.py falco_set_spectral_properties'), ('mode weights', 'falco/setup.py falco_set_jacobian_modal_weights')],
     'Hypothesis-generated spectral set-ups against an explicit enumeration',
     'Exact set and weight comparison with an enumeration.' + TRUST)

prop('C08', 'Configuration objects behave like one consistent, lazily evaluated dictionary',
     'Attribute and item access to a configuration object see the same values through any history of sets, deletes, merges and copies. Lazy expressions in a configuration file always evaluate against current values, dependency cycles are reported as errors, copies and separately loaded configurations never affect each other or the global YAML loader, and documented defaults hold until overridden.',
     ['histories', 'inputs', 'configurations'], 'All sequences of operations on configuration trees, all YAML trees with lazy expression graphs, all overriding values.',
     'Tests check short fixed scripts; aliasing and staleness need longer histories.',
     ['falco/config/Object.py', 'falco/config/ModelParameters.py', 'falco/config/yaml_loader.py', 'falco/config/Eval.py', 'falco/config/Probe.py'], [('object store', 'falco/config/Object.py'), ('lazy evaluation', 'falco/config/yaml_loader.py, Eval.py'), ('defaults', 'falco/config/ModelParameters.py')],
     'Stateful model-based generation against a plain-dictionary model; generated YAML trees',
     'Every observation after every step is compared with the model.' + TRUST)

prop('C09', 'Argument validators accept exactly their documented domain',
     'Each validator returns its input unchanged when it is in the documented domain and otherwise raises the exception class the caller chose, with the name of the failing argument. Numerical routines given one argument outside their documented domain raise instead of returning a number.',
     ['inputs'], 'All Python and numpy scalars, strings, containers and arrays (shapes, dtypes, NaN, infinities, signs, zero).',
     'Tests list a few values per validator.',
     ['falco/check.py'], [('validators', 'falco/check.py')],
     'Hypothesis-generated values against a table of documented domains',
     'Accept/reject decision and message are compared with the documented domain.' + TRUST)

prop('C10', 'Every mirror surface model renders the commanded sum of influence functions',
     'The surface of a deformable mirror is the sum over actuators of gain times command times the influence function placed at that actuator\'s projected position, for every alignment, orientation, centering, sampling, influence-function file and sign. The full, compact, differentiable and PROPER-level models agree on that surface, stay correct after commands, alignment or sampling change, and refuse unknown orientations.',
     ['inputs', 'configurations', 'histories'], 'All commands, gain maps, actuator counts, offsets, tilts, clockings, rotation orders, orientations, centerings, pixel scales, influence functions and signs.',
     'Tests use one alignment per model; sign, axis-order, half-pixel and stale-cache errors need combinations of them.',
     ['falco/dm.py', 'falco/diff_dm.py', 'falco/proper/prop_dm.py'], [('full surface', 'falco/dm.py propcustom_dm, gen_surf_from_act'), ('poke cube', 'falco/dm.py gen_poke_cube'), ('differentiable model', 'falco/diff_dm.py')],
     'Hypothesis-generated mirrors against an independent direct evaluation of the influence-function sum; histories of changes',
     'Agreement with the oracle to 1e-6 or better (interpolation-limited cases to a stated bound).' + TRUST)

prop('C11', 'Mirror commands always respect bounds and actuator constraints',
     'After any history of commands every actuator has the value its constraints imply: total voltage inside the bounds, pinned and dead actuators at their fixed values, tied actuators moving together. The neighbour rule yields commands whose neighbouring differences are within the limit, quantisation picks the documented representable step and is what gets rendered, and the gain map is the slope of the height curve at the present voltage.',
     ['histories', 'inputs', 'configurations'], 'All command histories, bias maps, bounds, lists of pinned, dead and tied actuators, neighbour limits, step sizes and gain curves.',
     'Tests apply one command once.',
     ['falco/dm.py'], [('constraint enforcement', 'falco/dm.py enforce_constraints, DeadMap, ActLimits'), ('neighbour rule', 'falco/dm.py'), ('gain map', 'falco/dm.py update_gain_map')],
     'Stateful generation of command histories against a reference constraint model',
     'Exact comparison with the model after every step; chains of ties through several shared actuators are excluded.' + TRUST)

prop('C12', 'Fitting a surface recovers the commands that make it',
     'A surface given at actuator resolution is inverted exactly by the least-squares fit, and fitting a rendered surface returns the commands that made it, in the orientation that makes it, for every alignment and influence-function sign. The pre-filter is the effect of each actuator on every other, resampled influence functions keep their values and centring, and the iterative fit reports the surface of the commands it returns.',
     ['inputs', 'configurations'], 'All command maps, alignments, orientations, fit methods, actuator grids, kernels and resampling ratios.',
     'Tests fit one surface with one method.',
     ['falco/dm.py', 'falco/proper/prop_fit_dm.py', 'falco/proper/prop_dm.py'], [('surface fit', 'falco/dm.py fit_surf_to_act'), ('prefilter', 'falco/dm.py build_prefilter'), ('iterative fit', 'falco/proper/prop_fit_dm.py')],
     'Hypothesis round trips (commands to surface to commands) and algebraic oracles',
     'Exact for actuator-resolution fits; a few percent for resampled surfaces.' + TRUST)

prop('C13', 'The differentiable mirror\'s backward pass is the adjoint of its forward pass',
     'For every command map and every upstream gradient, the inner product of the rendered surface with the gradient equals the inner product of the commands with the back-propagated gradient, for each actuator. The same holds for the wavefront error, which is twice the surface, and repeated rendering gives the same answer.',
     ['inputs', 'configurations'], 'All commands, gradients, actuator counts (odd and even), alignments, orientations, centerings, samplings.',
     'Gradient tests use one configuration and loose tolerances.',
     ['falco/diff_dm.py', 'falco/dm.py'], [('backward pass', 'falco/diff_dm.py render_backprop')],
     'Hypothesis-generated dot-product (adjoint) tests',
     'Relative error bound near machine precision for all actuators at once.' + TRUST)


prop('C14', 'Compact and full models compute the field an independent coronagraph would',
     'For every coronagraph type the compact and full optical models return the focal-plane field that an independent plane-by-plane evaluation of the described instrument gives: star and planet position and weight, pupil, Zernike aberration, mirror surfaces and stops, apodizer, relays, focal-plane mask, Lyot stop, and normalization at that wavelength. This holds with and without the focal-plane mask, for the star and an off-axis source, and for every sub-band, in-band wavelength and star. Both models agree where they model the same thing.',
     ['inputs', 'configurations'], 'All mirror commands, misalignments, pupil/mask/stop samplings, distances, relays, rotation and centering flags, wavelengths, stars, aberration modes and source positions.',
     'Tests propagate one configuration per coronagraph and compare a few pixel values with stored numbers.',
     ['falco/model/models.py', 'falco/mask.py', 'falco/zern.py', 'falco/setup.py'], [('compact model', 'falco/model/models.py compact, compact_general'), ('full model', 'falco/model/models.py full, full_Fourier'), ('normalization', 'falco/model/models.py, falco/setup.py falco_get_PSF_norm_factor')],
     'Hypothesis-generated instruments; differential test against an independently written propagator built on explicit Fourier sums',
     'Pixel-by-pixel agreement to 1e-9 or better. Small arrays (up to 10 actuators, 40 pixels across the beam); PROPER-prescription layouts are outside.' + TRUST)

prop('C15', 'The control Jacobian is the derivative of the compact model',
     'Each Jacobian column equals the change of the compact-model dark-hole field per unit command of that actuator, times the mirror weight, for every coronagraph, mode and mirror, at the present commands. Tied actuators respond together, dead ones not at all, and the normalized-intensity variant is the derivative of the normalized field. Columns do not depend on the schedule: threads and slices written in any order give the serial Jacobian.',
     ['inputs', 'configurations', 'schedules'], 'All coronagraphs, mirror commands, alignments, actuator subsets, ties, stars, aberration modes, relays, stops, wavelengths, and column schedules.',
     'Tests compare one Jacobian of one configuration, at flat mirrors, to loose tolerance.',
     ['falco/model/jacobians.py', 'falco/model/models.py'], [('Jacobian', 'falco/model/jacobians.py precomp, lyot, vortex, no_fpm'), ('assembly', 'falco/model/models.py jacobian, write_jac_slices, reassemble_jac_from_slices')],
     'Hypothesis-generated instruments; central differences of the compact model; metamorphic schedule comparison',
     'Relative agreement to 2e-6 without diffraction between mirrors; 1.5 percent with it, 6 percent for the vortex (coarser internal grid).' + TRUST)


prop('C16', 'AD-EFC minimizes the expected dark-hole intensity it is given',
     'The gradient of the AD-EFC cost is the derivative of the weighted dark-hole energy of the estimate plus the model field change, plus the mirror usage penalty, for every mirror set, mode set and starting command. Its step uses that model at the scaled and weighted commands and returns the mirror voltages it optimized. With a linear response the result is the regularized least-squares solution.',
     ['inputs', 'configurations'], 'All mirrors, starting commands, command changes, estimates, modal and spatial weights, aberration modes, stars, stops, scaling factors and regularizations.',
     'Tests check that one AD-EFC run reaches a contrast, which wrong gradients only slow down.',
     ['falco/model/models.py', 'falco/ctrl.py', 'falco/diff_dm.py'], [('gradient', 'falco/model/models.py compact_reverse_gradient'), ('controller', 'falco/ctrl.py _efc_ad')],
     'Hypothesis-generated instruments; gradient against central differences of the compact model; metamorphic scale and optimum checks',
     'Gradient agrees with finite differences to 5e-6 (1e-3 for tilted mirrors).' + TRUST)

prop('C17', 'Parallel execution gives the serial results under every thread schedule',
     'Images of a sub-band and of the band, normalization, perfect-knowledge estimates and control Jacobians computed by threads equal those computed serially, whatever order and timing the threads have. Each wavelength, polarization state and star enters once, with its own weight. The model parameters are afterwards as they were.',
     ['schedules', 'configurations'], 'All coronagraphs, thread counts, thread timings (delays injected around propagation steps), wavelengths, polarization states, stars and aberrations.',
     'Tests run one configuration with whatever schedule the machine happens to give.',
     ['falco/imaging.py', 'falco/est.py', 'falco/model/models.py', 'falco/zern.py', 'falco/setup.py'], [('parallel images', 'falco/imaging.py get_sbp_image, get_summed_image'), ('parallel estimate', 'falco/est.py perfect'), ('parallel Jacobian', 'falco/model/models.py jacobian')],
     'Hypothesis-generated instruments and thread delays; differential test of parallel against serial execution',
     'Schedules are perturbed by drawn delays, not enumerated.' + TRUST)

prop('C18', 'Images and throughput are the intensities of the modelled fields',
     'A simulated image is the weighted sum, over wavelengths, polarization states and stars, of the squared modulus of the full-model field; the expected image is that of estimate plus model change, inside the dark hole. Off-axis images and the throughput follow from a source at the stated place and the stated metric. A noisy image has the mean and variance of photon, dark-current, read and quantization noise of its own sub-band.',
     ['inputs', 'configurations'], 'All instruments, command changes, stars and their weights, wavelengths and weights, off-axis positions, throughput metrics, exposure and detector settings.',
     'Tests compare a few pixel sums of one configuration.',
     ['falco/imaging.py', 'falco/config.py'], [('images', 'falco/imaging.py get_sbp_image, get_summed_image, get_expected_summed_image, calc_thput'), ('detector', 'falco/imaging.py add_noise_to_subband_image')],
     'Hypothesis-generated instruments; differential test against independently propagated fields; statistical test of the noise',
     'Pixel agreement to 1e-8; noise moments to about 6 sigma of 3000 pixels.' + TRUST)

prop('C19', 'Field estimates return the field and leave the instrument as it was',
     'The perfect estimate is the band-averaged full-model field of every mode. Pair-wise probing of an instrument that responds linearly returns its field and incoherent light exactly, with model or Jacobian probe responses and on either mirror. Probe commands make the stated surface at the stated place with the stated intensity, and commands are afterwards as they were.',
     ['inputs', 'histories'], 'All instruments with linear response, fields, incoherent light, probe counts, shapes, axes, offsets, rotations, schedules, gains, mirrors and starting commands.',
     'Tests run one estimate of one model, whose nonlinearity hides errors of a few percent.',
     ['falco/est.py', 'falco/dm.py'], [('perfect', 'falco/est.py perfect'), ('pair-wise', 'falco/est.py pairwise_probing'), ('probe shapes', 'falco/est.py gen_pairwise_probe, gen_pairwise_probe_square')],
     'Hypothesis-generated linear instruments with exact inverse; differential test against independent propagation',
     'Exact to 1e-8 for linear instruments; the Kalman-filter variant (incomplete in the code) and square probes in lambda/D are outside.' + TRUST)

prop('C20', 'EFC applies the regularized least-squares command of the best setting',
     'For each combination of regularization and gain the command is the solution of the weighted, regularized least-squares problem of the chosen modes, pixels and actuators; the combination with the lowest measured or expected intensity is applied, once, and its image and commands are reported, serially or in parallel. The planned controller follows its schedule. Culling keeps the actuators above the stated threshold and the tied ones.',
     ['inputs', 'histories'], 'All Jacobians, estimates, weights, mirror sets, ties, gains, voltage bounds, trial settings, schedules.',
     'Tests check that one run of a loop reaches a contrast.',
     ['falco/ctrl.py'], [('EFC', 'falco/ctrl.py _efc, _grid_search_efc, _planned_efc'), ('culling', 'falco/ctrl.py cull_weak_actuators'), ('schedule', 'falco/ctrl.py efc_schedule_generator')],
     'Hypothesis-generated control problems; oracle is an independent QR least-squares solution and replayed search',
     'Relative agreement to 1e-6 of the condition of each problem; bounded by 5 actuators across.' + TRUST)

prop('C21', 'The loop history is true and each iteration uses the current state',
     'Over every history of the control loop, the recorded commands, intensities, throughput, surface statistics, regularizations and estimates are those of the iteration they are filed under. Jacobians are recomputed exactly when scheduled and belong to the commands and mirrors then in use. The final state equals the last record and can be saved and read back.',
     ['histories', 'configurations'], 'All schedules of mirrors, relinearization, grid search and regularization; controllers; estimators; bounds; ties; number of iterations.',
     'Tests run one loop and look at its last contrast.',
     ['falco/wfsc.py', 'falco/ctrl.py', 'falco/est.py', 'falco/config.py'], [('loop', 'falco/wfsc.py loop'), ('history', 'falco/wfsc.py store_intensities, store_dm_command_history; falco/config.py')],
     'Stateful generation of control-loop histories with an observer that recomputes each record',
     'Histories of up to 5 iterations on small instruments.' + TRUST)


prop('C22', 'Zernike modes and sensitivities are those of the instrument',
     'Mode maps are the Noll Zernike modes of the stated beam, centred, with unit RMS, and sums of them, plain or for an obscured beam, contain every mode asked for with its coefficient and put it on the wavefront as phase or amplitude. The reported sensitivity of each mode and annulus is the mean squared change of the focal-plane field for the stated RMS of that mode, over that annulus, every wavelength and the band.',
     ['inputs', 'configurations'], 'All mode numbers and lists, coefficients, beam sizes, obscurations, centerings; coronagraphs, commands, annuli, wavelengths and bands.',
     'Tests compare a few low modes and one instrument; orderings, normalizations, radii and grids vary beyond them.',
     ['falco/zern.py', 'falco/proper/prop_zernikes.py', 'falco/proper/prop_noll_zernikes.py', 'falco/util.py'], [('mode maps', 'falco/zern.py gen_norm_zern_maps'), ('sums of modes', 'falco/proper/prop_zernikes.py'), ('sensitivities', 'falco/zern.py calc_zern_sensitivities')],
     'Hypothesis-generated modes and instruments against factorial formulas, Gram-Schmidt polynomials and an independent propagation',
     'Circular and centrally obscured beams, even arrays.' + TRUST)

prop('C23', 'Setup turns the given parameters into one consistent instrument',
     'An instrument whose optional settings are left out is the instrument with their documented defaults; unknown choices are refused. Samplings, coordinate axes and array sizes of every plane follow from the given diameters, resolutions and masks; given masks and fields keep their place at any array size. Mirror planes are padded to hold beam and actuators and to meet the propagation sampling at every wavelength, and setting up the same instrument again changes nothing.',
     ['configurations'], 'All small instruments: coronagraph types, subsets of optional settings, array sizes, resolutions, wavelengths, distances, mirror sets.',
     'Tests set up a few fixed configurations that give every setting.',
     ['falco/setup.py'], [('defaults', 'falco/setup.py set_optional_variables'), ('planes', 'falco/setup.py get_entrance_pupil_coordinates .. get_DM_stop'), ('padding', 'falco/setup.py falco_set_dm_surface_padding'), ('fields', 'falco/setup.py falco_set_initial_Efields')],
     'Hypothesis-generated configurations; differential against explicit defaults, explicit coordinates and sampling bounds',
     'Simulated instruments in the Fourier and FPM-scaling layouts.' + TRUST)

prop('C24', 'Thin-film occulters have the transmission of their layers',
     'Reflection and transmission coefficients of any stack of thin films in either polarization are those of Maxwell\'s equations and conserve energy. Tables of them over metal and dielectric thickness belong to the mask, wavelengths and reference they are used for, also when read from a file, and each pixel of a mask has the value of its own pair of thicknesses. An instrument whose occulter is designed in layers has the images that mask makes.',
     ['inputs', 'configurations', 'histories'], 'All stacks, materials, angles, polarizations, thickness maps, sequences of tabulated masks, actuator layouts and wavelengths.',
     'Tests compare a handful of coefficients at one wavelength and angle.',
     ['falco/thinfilm.py', 'falco/hlc.py'], [('stack solver', 'falco/thinfilm.py solver'), ('tables', 'falco/thinfilm.py calc_complex_trans_matrix, gen_complex_trans_table'), ('masks', 'falco/hlc.py gen_fpm_from_LUT, gen_fpm_surf_from_cube, fpm_inf_cube_3x3')],
     'Hypothesis-generated stacks and masks against the characteristic-matrix method and an independent propagation; stateful table cache',
     'The cosine, lanczos3 and xinetics mask bases (unfinished in the code) are outside.' + TRUST)


prop('C25', 'Segmented mirrors have the segments asked for, where they belong',
     'A segmented mirror has the present segments of its hexagonal lattice, of the stated width and gap, and nothing else, in every way of building one: as support, as field, as pupil with struts, and as PROPER wavefront. Each segment carries its own piston, tilts and Zernike modes about its own centre. Hexagonal modes are orthonormal over the segment and obscured segments stay dark.',
     ['inputs', 'configurations'], 'All numbers of rings, sizes, gaps, missing segments, offsets, struts, pistons, tilts and modes.',
     'Tests compare stored images of a few fixed mirrors.',
     ['falco/hexsegmirror.py', 'falco/proper/prop_hex_wavefront.py', 'falco/proper/prop_hex_zernikes.py', 'falco/mask.py'], [('support and field', 'falco/hexsegmirror.py get_support, get_field'), ('segmented wavefront', 'falco/proper/prop_hex_wavefront.py'), ('modes', 'falco/proper/prop_hex_zernikes.py'), ('pupil', 'falco/mask.py falco_gen_pupil_customHex')],
     'Hypothesis-generated mirrors rendered pixel by pixel from the hexagonal lattice',
     'Pixels within a hundredth of a segment of an edge are not judged.' + TRUST)


def main():
    only = set(os.listdir(os.path.join(ROOT, 'vf', 'props')))
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as fh:
        for p in P:
            d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                 'quantifier': {'over': p['over'], 'text': p['text']},
                 'why_tests_cant': p['tests'],
                 'anchors': {'files': p['files'],
                             'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                             'hook_needed': None}}
            if p['observe']:
                d['anchors']['observe_at'] = p['observe']
            assert len(d['title']) <= 80, d['title']
            fh.write(json.dumps(d) + '\n')
    m = {'version': 1,
         'setup_cmd': './check --selftest',
         'checks': [{'property': p['id'], 'quick_cmd': './check %s' % p['id'],
                     'thorough_cmd': './check %s --tier thorough' % p['id'],
                     'technique': p['tech'], 'level': 'exploration', 'level_note': p['note']}
                    for p in P if p['id'].lower() + '.py' in only],
         'not_applicable': [],
         'notes': 'Checks run falco straight from /repo (pure Python, nothing to build). Failures are shrunk and '
                  'written to replays/; ./check --replay FILE runs one again.'}
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fh:
        json.dump(m, fh, indent=1)
        fh.write('\n')


if __name__ == '__main__':
    main()
