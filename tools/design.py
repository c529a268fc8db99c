#!/usr/bin/env python3
# Writes DESIGN.md from tools/design_head.md, the statements (props.py), the harnesses (src/*.cpp), the notes below,
# known_findings.txt and seeded/*/meta.json.
import os, re, glob, json
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
exec(open(os.path.join(HERE, 'props.py')).read())
# oracle; decisions and limits
N = {}
N['P01'] = ('the identity J^T S J = S on Jacobians taken by central differences at random particles (all six coordinates for the '
    'SYMPLECTIC set, at dp = 0 for THIN_LENS, to second order for TRANSPORT).',
    'T5jk of combined-function TRANSPORT bends, fringe-integral second-order pole-face terms, TRANSPORT sextupole chromatic terms and '
    'TRANSPORT gradient bends away from the reference momentum are approximations of the model and not judged.')
N['P02'] = ('a metamorphic relation: the same particle through the same field, divided differently.',
    'A thin RectMultipole of zero length does nothing in the THIN set; multipole kicks compose only to first order.')
N['P03'] = ('the library itself on single particles, and recorded histories of probe processes against a model of the step manager.',
    'Negative process priorities are unspecified. Re-tracking lost particles uses the default integrator set.')
N['P04'] = ('matrix exponentials of the linearised hard-edge equations of motion and RK4 solutions of the exact ones, written independently.',
    'The SYMPLECTIC set uses slope-coordinate integrators for monitors and solenoids.')
N['P05'] = ('3x3 rotation matrices and vectors in long double, written independently; straight lines for particles.', '')
N['P06'] = ('frame arithmetic of an independent model around the bare maps of the library.',
    'Girders with unequal supports are only judged in straight lines; ct is not changed by frame transforms; MagnetMover::Copy is not supported.')
N['P07'] = ('the implicit inequalities of the documented shapes in long double.',
    'A CollimatorAperture of zero length (taper undefined) is not generated.')
N['P08'] = ('an independent piecewise-linear interpretation of the table along s.',
    'Octagons are not mixed with other types; CIRCLE/ELLIPSE with confused APER_3/4 are not judged.')
N['P09'] = ('an account of every particle (alive or recorded exactly once) and the library\'s own drift for what misses the jaws.',
    'Protons that enter a collimator with less than their rest energy, the precise mode merging equal positions, and names longer than the columns are not judged. '
    'LossMapCollimationOutput::Dispose is not given negative positions.')
N['P10'] = ('distribution functions (Kolmogorov-Smirnov, correlations, frequencies), kinematic identities per event, an independent complex '
    'sum for the elastic amplitude, an independent transcription of the diffractive cross section integrated on a fine grid, and the energy loss formula with its units.',
    'Loss in layers so thin that the Landau expansion is negative is only required not to be a gain. The derivative used for matching the resonance background at the cut is not resolved by the samples. '
    'DiffractiveScatter.cpp is compiled with bounds checking only, as its table takes a minute otherwise.')
N['P11'] = ('a model holding the constants; weighted averages.', 'Constants tabulated as -1 (unknown) are not judged.')
N['P12'] = ('a stateful model: vectors of typed cells, headers, and the documented exceptions.', '')
N['P13'] = ('round trip, an independent TFS printer with free layout, and mutations of valid files that must be refused.', '')
N['P14'] = ('round trip of bunches through text, and a model of the files that monitors write.', 'Identities are only part of the format of operator<<.')
N['P15'] = ('sample statistics in long double, and a list-of-particles model.',
    'ParticleBunch::swap takes its argument by value; ProjectDistribution is a TODO; operator== of PSvector compares bytes.')
N['P16'] = ('inverse normalisation: the samples are taken back to normalised coordinates and compared with the distributions; reference matrices of the normal modes.',
    'The sign convention of the coupling parameter, and equal emittances of coupled modes with dispersion, are not judged. A filter that rejects everything loops. The horizontal halo filter rejects x == 0 exactly.')
N['P17'] = ('distribution functions (KS), means, exact repetition after a reset; quantiles of Landau from its series.', '')
N["P18"] = ("plain arrays in long double and residuals of the defining equations; sparse maps against their dense matrices; printed matrices are read back.", "RMtrx::Invert is not implemented.")
N['P19'] = ('fixed-point and derivative relations evaluated by tracking; a textbook ring model (src/ring.h).',
    'SVD threshold 1e-6; six-dimensional orbits only with a slip of at least 0.2 m.')
N['P20'] = ('textbook matrices of the same ring (src/ring.h), and symplectic eigenvectors of the one-turn derivative.',
    'Symplectification is not combined with SetForceLongitudinalStability; SetDelta at most 3e-8; CalculateEnergyDerivative, RemoveFunction (undefined) and the pairing of FindRMSDispersion are not claimed.')
N['P21'] = ('a list model of the construction history.', 'InstallModelElement only splits drifts.')
N['P22'] = ('a recursive glob matcher.', '')
N['P23'] = ('a model of every element\'s parameters, with the operations of each channel.',
    'The main strength scales all components; strengths of zero, and correctors of zero scale, do not receive writes; the order of channels is unspecified.')
N['P24'] = ('the generating description of the tables: every row is known element by element, its map is known from P04.',
    'KS is the integrated strength; E1, E2 of RBEND as given; unknown types with a length, zero-length bends, multipoles, solenoids and cavities are not generated; correctors of XTFF ignore their kicks; HGAP is not judged.')
N['P25'] = ('direct sums over pairs of slices, with wake functions given by the harness.',
    'Kicks are first order in dp; bunches without length are not judged; coupler RF phases from zero; the collimator table and the tabulated resistive potential are not claimed; CSR acts from behind.')
N['P26'] = ('a field integral over the enclosed current, with a model of the turn-by-turn modes.',
    'AC tune ranges are exactly representable; the measured profile ignores Rmax; the place of the kick within a divided lens is unspecified.')
N['P27'] = ('classical and quantum formulas of the loss (mean, spread, spectrum) and integration of the Thomas-BMT equation.',
    'Slopes damp by 1/(1+u/P0) in non-canonical mode as implemented; SortByCT of spin bunches is documented as losing the correlation; collimation of spin bunches and tilted bends are not judged for spin; the approximate generator has a power-law tail.')
N['P28'] = ('a model of monitors, buffers and passages.', 'Either sign convention of an angled axis; a buffer that is both default and registered is not judged.')
N['P29'] = ('the same linear maps applied to centroids and covariances; ParticleTracking as differential oracle; sums over slices.',
    'Nearly singular covariances (other than rank 0, 1, full) are not judged in the converter; bends with wakes, standing-wave structures, nonlinear fields and first-order frame transforms are not judged; ProjectDistribution is a TODO; TransportMatrix::SectorBendT is unused.')
N['P30'] = ('covariances of the ATL law over many seeds, and exact repetition.',
    'Vibration with increments is unspecified; absolute mode resets x and z; only vertical motion is modelled.')
N['P31'] = ('the report of the errors against the frames, and moments of many seeds.', '')
N['P32'] = ('the ponderomotive model of a cavity, phasor sums, and canonical kicks.',
    'ct is not changed by cavities of the LCAV and transverse sets; standing-wave cavities are not subdivided; r12 of travelling waves is second order; phasors that sum to zero and the THIN_LENS standing wave are not judged.')
N['P34'] = ('half gaps computed from the table values of the collimator\'s own row, judged point by point through the aperture.',
    'The jaw errors are passed to the generator as variances although called sigmas: only bounds that hold for either reading are judged. '
    'Zero-length collimators and several collimators of one name are not generated; jaw tilts of the gap file are not used by the library.')
N['P35'] = ('the polynomial itself, a fresh object, and the same data with one point moved.', 'Coinciding abscissae and a single point are not generated.')
N['P36'] = ('radiation integrals I2 to I5 with lattice functions of textbook matrices followed through every bend (I4 without the path length term, '
    'as the library radiates per unit length of the reference orbit).',
    'Rings near synchro-betatron resonances or with a synchrotron tune above 0.03 are discarded; the library neglects weak focusing inside the bends, '
    'hence emittances are judged within 14% and moments within 15%.')
N['P37'] = ('a linear machine kept by the test, with the pseudo-inverse of its known singular value decomposition; a beamline with real correctors and monitors.', '')
N['P33'] = ('polynomials and waves in complex long double; time reversal of tracked particles.', 'Reversal of travelling-wave fields is judged at the origin only.')

def laws(pid):
    f = glob.glob(os.path.join(ROOT, 'src', pid.lower() + '_*.cpp'))
    if not f:
        return None
    s = open(f[0]).read()
    m = re.search(r'pbt::info = \{(.*?)\};', s, re.S)
    parts = re.split(r'",\s*\n?\s*"', m.group(1)) if m else []
    strs = []
    for chunk in re.findall(r'((?:"(?:[^"\\]|\\.)*"\s*)+)', m.group(1)):
        strs.append(''.join(re.findall(r'"((?:[^"\\]|\\.)*)"', chunk)))
    L = []
    for m in re.finditer(r'^LAW\((\w+), (\d+), (\d+),\s*((?:"(?:[^"\\]|\\.)*"\s*)+)\)', s, re.M):
        L.append((m.group(1), int(m.group(2)), int(m.group(3)), ''.join(re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(4)))))
    return os.path.basename(f[0]), strs, L
fixed, known = {}, {}
for l in open(os.path.join(ROOT, 'known_findings.txt')):
    m = re.match(r'fixed: property=(P\d+) (\w+) (.*)', l)
    if m:
        fixed.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
    m = re.match(r'known: (KF-\d+) \| (P\d+) \| (.*)', l)
    if m:
        known.setdefault(m.group(2), []).append((m.group(1), m.group(3)))
seeds = {}
for d in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    j = json.load(open(d))
    seeds.setdefault(j['property'], []).append((os.path.basename(os.path.dirname(d)), j))
caught = {}
cf = os.path.join(HERE, 'caught.json')
if os.path.exists(cf):
    caught = json.load(open(cf))
o = [open(os.path.join(HERE, 'design_head.md')).read().rstrip(), '']
o += ['## The properties', '',
      'For each: the oracle, what is generated and when a case counts as non-trivial, the bounds, the laws with their number of cases '
      '(quick / thorough), what the tests cannot reach, what is deliberately not judged, and the defects of Merlin++ found on the way.', '']
tq = tt = 0
for p in PROPS:
    pid = p['id']
    info = laws(pid)
    o += ['### %s %s' % (pid, p['title']), '', p['statement'], '']
    if not info:
        o += ['Not claimed.', '']
        continue
    f, strs, L = info
    o += ['*Deciding technique*: %s (`src/%s`).' % (p['tech'], f), '', '*Oracle*: ' + N[pid][0], '']
    if strs:
        o += ['*Generated*: ' + strs[1], ''] if strs[0] == pid else ['*Generated*: ' + strs[0], '']
        if len(strs) > 2:
            o += ['*Bounds*: ' + strs[2], '']
    o += ['*Laws* (cases quick / thorough):', '']
    for n, q, t, text in L:
        tq += q
        tt += t
        o += ['- `%s` (%d / %d): %s' % (n, q, t, text)]
    o += ['', '*Beyond the tests*: ' + p['why'], '']
    if N[pid][1]:
        o += ['*Not judged*: ' + N[pid][1], '']
    if fixed.get(pid):
        o += ['*Defects repaired* (%d commits in /repo): ' % len(fixed[pid]) + '; '.join(m for _, m in fixed[pid]) + '.', '']
    for k, m in known.get(pid, []):
        o += ['*Known finding %s*: %s.' % (k, m), '']
o += ['## Planted bugs and what catches them', '', 'Every change compiles, passes the stable tests, and has a demonstration (`seeded/<id>/demo.sh`).', '',
      '| id | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
for pid in sorted(seeds):
    for i, j in seeds[pid]:
        o += ['| %s | %s | %s | %s | %s |' % (i, pid, j['what_it_breaks'], j['needs'], caught.get(i, pid))]
o += ['', 'In all, %d laws of %d properties: %d cases quick, %d thorough.' % (sum(len(laws(p['id'])[2]) for p in PROPS if laws(p['id'])), len(PROPS), tq, tt), '']
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(o))
print(len(o), 'lines')
