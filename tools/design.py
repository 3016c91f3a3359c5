import ast,glob,json
o={}
for f in sorted(glob.glob('/verif/vf/props/c??.py')):
    t=ast.parse(open(f).read()); L=[]
    for n in t.body:
        if isinstance(n,ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d,ast.Call) and 'facet' in ast.unparse(d.func):
                    k={k.arg:ast.unparse(k.value) for k in d.keywords}
                    L.append((n.name,k.get('quick','?'),k.get('thorough','?'),(ast.get_docstring(n) or '').replace('\n',' ').replace('  ',' ')))
    o[f[-6:-3].upper()]=L

head = r'''# Checking falco-python by property-based testing and fuzzing

falco-python simulates stellar coronagraphs and controls their deformable mirrors (DMs): setup of an instrument from
parameters (`falco/setup.py`, `config/`), masks (`mask.py`, `hexsegmirror.py`, `hlc.py`, `thinfilm.py`), propagation
(`prop.py`, `proper/`), mirrors (`dm.py`, `diff_dm.py`), models and their Jacobians (`model/`), images (`imaging.py`),
estimation (`est.py`), control (`ctrl.py`), sensitivities (`zern.py`) and the loop that ties them together (`wfsc.py`).
The twenty-six properties in `properties.jsonl` (C01-C26) cover every one of these parts. All are decided by
generated-input search against an explicit oracle; none is listed as not applicable.

## How a check works

`./check CNN` runs `vf/run.py`, which imports falco from `/repo`'s working tree (pure Python: nothing to build), loads
`vf/props/cNN.py` and runs its *facets*, each split over shards in eight worker processes (one BLAS thread each). A facet is a
Hypothesis strategy of JSON-able cases plus a body that builds the object under test from the case and compares it with
an oracle. Large arrays are never drawn element by element: a case holds a seed, shapes and structure, so that shrinking
acts on what matters. The Hypothesis seed derives from `VERIF_SEED`; the database is off; runs are reproducible. A failing case is
shrunk by Hypothesis and written to `replays/<id>-<facet>.json`; `./check --replay FILE` runs it alone.
`--tier thorough` multiplies the numbers of cases by 20-50 (hours rather than seconds for the whole set);
`--facet`, `--scale` and `-v` narrow or deepen a run.

Evidence (`evidence/<id>.json`, rewritten by each run) states per facet: cases run, distinct non-trivial ones (by the
rule written next to it), counts per class of case, and samples. An internal error of a facet is a harness error (exit
2, no VIOLATION line), never a violation. A property fails only by an exception or a comparison inside the code under test's contract.

Floating-point comparisons use `close(a, b, rtol, atol)` with tolerances at least a hundred times the error seen on the unchanged
tree, and several orders below the effect of a plausible mistake wherever the oracle is exact. Every exclusion
is written below, where the property it belongs to is described.

`vf/modkit.py` is the central oracle. It draws whole coronagraphs (Lyot, focal-plane-aperture (FLC), vortex and hybrid
Lyot; 16-24 pixels across the beam; both centerings; optional relay rotations, apodizer, stops at either mirror, distances
between mirrors, orientations, tilts, Zernikes, several stars, polychromatic bands), builds the FALCO configuration *and*
independently propagates the same drawn arrays with explicit DFT matrices, its own angular spectrum and its own mirror
surfaces. It shares no code with the package except the vortex propagator (which C02 decides separately).
`vf/dmkit.py` is the same for mirrors: the sum of influence functions evaluated directly at projected positions.

Files are written only inside a scratch directory made and removed per case (`core.scratch()`); falco's data, brief and
workspace directories are pointed there. No check kills processes or touches accounts, mounts or the network.

## The properties
'''
P = {}
P['C01'] = '''*Specified*: pixel bookkeeping of `util.py`. *Oracle*: explicit per-pixel definitions (index N//2 is the centre);
metamorphic: chained re-sizings equal one. *Domain*: shapes 1-40 odd/even and rectangular, all dtypes. *Cost*: seconds.
Tests use a few even squares, so parity and dtype errors pass them.'''
P['C02'] = '''*Specified*: `prop.py`. *Oracle*: O(N^4) Fourier sums at documented coordinates; unitarity and inverses; analytic
vortex behaviour (charge 0 relays, even charges null on-axis light, charge 2 scatters as (R/r)^2); adjoint identity of the
reverse vortex. *Excluded*: relays of odd-sized pixel-centred arrays (the code rolls even arrays only).'''
P['C03'] = '''*Specified*: PROPER's pilot-beam propagation (`prop_lens`, `prop_propagate`, `prop_ptp/stw/wts`, `prop_end`, ...).
*Oracle*: ABCD/complex-q propagation of decentred, tilted Gaussian beams through generated trains, to 1e-6 up to a constant phase;
exact laws (energy, additivity, reversal, path phase) on random fields. Trains whose Gaussian would leave the grid in
space or angle are not judged.'''
P['C04'] = '''*Specified*: PROPER shapes, resampling and error maps. *Oracle*: finely point-sampled predicates; analytic blobs
evaluated at transformed places. *Taken as given*: ellipses turn clockwise with ROTATION (pupils of this package rely on it), rounded corners are
approximate. *Excluded*: `prop_writemap`'s centre keywords of non-square maps (nothing reads them), MIRROR_SURFACE's factor is as documented.'''
P['C05'] = '''*Specified*: pupils, Lyot stops, DM stops, FPMs of `mask.py`. *Oracle*: 15x15 point sampling of analytic shapes; for
telescopes (Roman CGI, LUVOIR A/B, HabEx, Keck, WFIRST-180718) the published geometry written out independently. *Excluded*:
LUVOIR-A's explicit strut width under magnification, LUVOIR-B's unused rotation flag, 180718 sectors beyond 15 degrees of clocking,
hyper-Gaussian variants under clocking (all ill-defined or unused in the code). Sign of the Roman tab sectors is taken from the code.'''
P['C06'] = '''*Specified*: `gen_sw_mask`, dark-hole regions and weights. *Oracle*: per-pixel predicate; unions of zones; products of annuli.
Pixels within 1e-7 of a boundary are undecided.'''
P['C07'] = '''*Specified*: spectral quadrature and control modes set up by `setup.py`. *Oracle*: explicit enumeration of (sub-band, wavelength)
pairs and of (star, wavelength, Zernike) modes, exact set and weight comparison.'''
P['C08'] = '''*Specified*: `config/`. *Oracle*: plain-dictionary model of histories of sets, deletes, merges, copies through field and
item syntax; generated YAML trees and expression graphs (chains, diamonds, cycles, shared values, overrides before and after first evaluation).'''
P['C09'] = '''*Specified*: `check.py` and its use by numerical routines. *Oracle*: a table of documented domains over a generator of every kind of value.'''
P['C10'] = '''*Specified*: all surface models. *Oracle*: `dmkit` - direct sum of gain x command x influence function at projected positions
(spline interpolation of the file's samples), plus agreement between models, linearity, histories of alignment changes.
*Bounds*: 3-12 actuators, tilts to 20 degrees, clocking to 45. The projection of a tilted mirror shears influence functions as the code documents.'''
P['C11'] = '''*Specified*: `dm.py` constraint enforcement. *Oracle*: reference model of bounds on V+bias, dead, pinned (sticky: stays at
the pinned value, documented), tied pairs, neighbour rule, quantization, gain curve. *Excluded*: chains of ties (documented as one pass),
`pinned` without `Vpinned` (they come as a pair).'''
P['C12'] = '''*Specified*: `fit_surf_to_act`, `prop_fit_dm`, influence-function prefilter/resampling. *Oracle*: round trip of rendered commands;
exact at actuator resolution, a few percent otherwise; convolution identity for PROPER's fit.'''
P['C13'] = '''*Specified*: `diff_dm.py`. *Oracle*: <render(u), g> = <u, backprop(g)> for all actuators at once, and wavefront = 2 x surface in both directions.'''
P['C14'] = '''*Specified*: `model.full`, `model.compact` with all evaluation options, and the external-PROPER layouts (roman_phasec,
wfirst_phaseb, 'proper') by stand-in prescriptions that record what they are asked and return a field computed from it. *Oracle*: `modkit`
propagation. *Excluded*: normalisation without FPM for an FLC whose mirrors' plane and Lyot plane differ in sampling (ill-defined);
off-axis stars in the PROPER layouts (the code passes only the source offset).'''
P['C15'] = '''*Specified*: `model.jacobian`, slices, ties, minimizeNI. *Oracle*: central differences of the compact model (itself decided by C14).
2e-6 where light does not diffract between mirrors; 1.5% with it (the code crops the diffracted poke), 6% for the vortex (coarser internal grid):
the tolerance is relative to the column norm; a sign, an offset or a missing weight is far above it. Schedules compared bit for bit.'''
P['C16'] = '''*Specified*: `compact_reverse_gradient` and `_efc_ad`. *Oracle*: central differences of the compact model: gradient(du) =
2 sum_m w_m Re(G_m^H (E + dE(du))) + 2 utu du with G at the starting commands (as the code states); bounded least squares for the
optimum in the linear regime. The step is judged on cost decrease, bounds, and consistency of what it reports.'''
P['C17'] = '''*Specified*: every parallel path against its serial twin, with drawn delays injected at propagation calls so that
threads interleave differently in each case; a components facet replaces the model by a recording stand-in so that each (wavelength, polarization, star)
must arrive exactly once with its own weight. *Bound*: schedules are perturbed, not enumerated. *Taken as given*: the parallel summed image evaluates a wavelength
shared by two sub-bands once (equal to the serial result because fields depend on the wavelength only).'''
P['C18'] = '''*Specified*: `imaging.py`. *Oracle*: intensities of `modkit` fields; noise moments at 7 sigma (the distributional oracle is computed
from counts, gain, dark, read and quantization). *Excluded*: testbed images (NotImplemented).'''
P['C19'] = '''*Specified*: `est.py`. *Oracle*: perfect estimates against `modkit`; pair-wise probing against a drawn *linear* instrument
(stand-ins for image and model) for which the estimator is exact, with incoherent light, schedules, dead pairs, bounds; probe surfaces against sinc/cosine formulas.
*Excluded*: the unfinished Kalman filter, square probes in lambda/D, axis 'm', Nzern>1 with probing (the code sizes its result for one).'''
P['C20'] = '''*Specified*: `ctrl.py`. *Oracle*: QR solution of the stacked weighted least-squares problem; search replayed over all settings with
a linear instrument; planned schedules replayed; AD-EFC's planned controller over a stand-in cost with known minima; culling against its threshold.
*Excluded*: regularizations below 1e-6 of the largest singular value (ill-conditioned normal equations, as in the code).'''
P['C21'] = '''*Specified*: `wfsc.loop` and `out`. *Oracle*: an observer at the controller records the state of each iteration; each recorded quantity is recomputed from
the recorded commands (images, throughput, surfaces, sensitivities, histories of modulated/unmodulated, correction/scoring intensities), and the Jacobian in use is compared with a fresh one.
*Bounds*: 2-3 iterations (thorough: 5). `ev.corr/score.Inorm` and other values of the last sub-band only are not judged.'''
P['C22'] = '''*Specified*: `zern.py`, `prop_zernikes`. *Oracle*: factorial formulas; Gram-Schmidt polynomials over the annulus; sensitivities by `modkit` differences.'''
P['C23'] = '''*Specified*: `setup.py`. *Oracle*: differential (setting left out vs its documented default given), explicit coordinates, sampling criteria,
idempotence, kept settings, bare values for lists. *Excluded*: fractional 2*Nbeam NdmPad when no mirror is used; dark all-zero Lyot stops; plain-list `dm_ind` without mirror 1.'''
P['C24'] = '''*Specified*: `thinfilm.py`, `hlc.py`. *Oracle*: characteristic-matrix method; energy conservation; table histories against fresh tables; whole HLC instruments against
`modkit`. *Excluded*: cosine/lanczos3/xinetics bases (unfinished stubs).'''
P['C25'] = '''*Specified*: `hexsegmirror.py`, PROPER hexagonal wavefronts, custom segmented pupil. *Oracle*: pixel-by-pixel rendering from the lattice; hexagonal polynomials
by orthonormality. *Excluded*: pixels within 1% of a segment of an edge; hexagonal mode 18 follows the reference's printed formula.'''
P['C26'] = '''*Specified*: PROPER aberrations, PSD maps, occulters, prescriptions, states, files. *Oracle*: closed forms, re-runs, stateful saved-state histories.
*Excluded*: RMS together with MAX_FREQUENCY; pyfftw, MKL and C libraries are not installed, so those paths are not reached.'''
import json
facets = o
out = head
for l in open('/verif/properties.jsonl'):
    d = json.loads(l)
    out += '\n### %s %s\n%s\n\n' % (d['id'], d['title'], P[d['id']])
    for n, q, t, doc in facets[d['id']]:
        out += '- `%s` (%s / %s): %s\n' % (n, q, t, doc)
import glob, os
tail = open('/verif/tools/design_tail.md').read()
planted = ''
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(f))
    planted += '- `%s`: %s (needs %s). Caught by %s.\n' % (
        os.path.basename(os.path.dirname(f)), m['what_it_breaks'], m['needs'], m['property'])
tail = tail.replace('@PLANTED@', planted)
open('/verif/DESIGN.md', 'w').write(out.rstrip() + '\n\n' + tail)
