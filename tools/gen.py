#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from one list."""

import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)

P = []

def prop(id, title, statement, over, text, why, files, mechanism, state=(),
        observe=(), tech=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over,
        text=text, why=why, files=files, mechanism=mechanism, state=state,
        observe=observe, tech=tech, na=na))

prop('P01', 'Work distribution is a balanced exact partition',
    'For any amount of work and any number of workers, the chunk sizes handed '
    'out are non-negative, add up to the total and differ by at most one, with '
    'the larger chunks first; the cumulative bounds belonging to them start at '
    'zero, end at the total and delimit exactly these chunks. Every process '
    'receives the same chunk list, and process grids formed from it put every '
    'process into exactly one row and one column.',
    ['inputs', 'configurations'],
    'all work sizes and all numbers of chunks or processes, including fewer '
    'items than workers and zero items',
    'tests only use the distribution implicitly with one or two processes and '
    'a few sizes',
    ['elphmod/MPI.py'],
    [('distribute', 'elphmod/MPI.py: distribute'),
     ('matrix', 'elphmod/MPI.py: matrix')],
    observe=['chunk sizes and bounds returned to the caller'])

prop('P02', 'Results do not depend on the number of processes',
    'Every parallel operation returns, on every process, the same arrays as a '
    'serial run with the same inputs, however many processes take part, '
    'including more processes than work items, and whether or not memory is '
    'shared between them. No data of another process is read before it has '
    'been written, no process is left waiting in a collective operation the '
    'others do not enter, and shared arrays hold the same data on all '
    'processes when the call returns.',
    ['schedules', 'configurations', 'inputs'],
    'any number of processes, any relative speed of the processes between '
    'synchronisation points, any input data',
    'the tests run with one and two processes on evenly divisible work and '
    'one schedule',
    ['elphmod/MPI.py', 'elphmod/dispersion.py', 'elphmod/dos.py',
     'elphmod/diagrams.py', 'elphmod/elph.py', 'elphmod/ph.py',
     'elphmod/bravais.py', 'elphmod/elel.py'],
    [('shared_array, SharedArray', 'elphmod/MPI.py'),
     ('Gatherv/Allgatherv of chunked results', 'all modules'),
     ('Bcast between nodes followed by Barrier', 'elphmod/MPI.py')],
    observe=['arrays returned on every rank'])

prop('P03', 'Lattice geometry: primitive, reciprocal and cell volumes',
    'For every Bravais-lattice type supported by Quantum ESPRESSO, the '
    'primitive vectors have the lengths, angles and centring that the lattice '
    'constants prescribe, whether given as multiples of the first constant or '
    'as separate lengths and angles, and computing them leaves the inputs '
    'unchanged. Reciprocal vectors are dual to them, the cell volume is the '
    'determinant, and transformations between Cartesian and crystal '
    'coordinates, rotations and reflections are exact inverses that preserve '
    'lengths and angles where they should.',
    ['inputs'],
    'all admissible lattice constants, cell angles and linearly independent '
    'lattice vectors, all points',
    'tests sample one hexagonal or cubic lattice and fixed numbers',
    ['elphmod/bravais.py'],
    [('primitives', 'elphmod/bravais.py'),
     ('reciprocals, volume', 'elphmod/bravais.py'),
     ('crystal_to_cartesian, cartesian_to_crystal', 'elphmod/bravais.py'),
     ('rotate, rotation, reflection helpers', 'elphmod/bravais.py')],
    observe=['returned vectors', 'the argument arrays after the call'])

prop('P04', 'Supercells tile the crystal exactly once',
    'For any integer supercell matrix, the listed unit cells contain each '
    'primitive cell of the supercell exactly once, the number of cells is the '
    'magnitude of the determinant, and every lattice vector decomposes '
    'uniquely into a supercell vector plus one of the listed cells. Mapping a '
    'vector to the supercell and back is the identity, for left-handed, '
    'skewed and diagonal supercells alike.',
    ['inputs', 'configurations'],
    'all integer supercell matrices within bounds and all lattice vectors',
    'tests use a handful of diagonal and one or two skewed supercells',
    ['elphmod/bravais.py'],
    [('supercell', 'elphmod/bravais.py'),
     ('to_supercell', 'elphmod/bravais.py')],
    observe=['(determinant, inverse matrix, cells) and the decomposition'])

prop('P05', 'Symmetry reduction and k-point meshes are complete',
    'Each point of a mesh has exactly the images that the lattice symmetry '
    'generates, the irreducible set contains exactly one member of every '
    'orbit, and expanding data from the irreducible wedge back to the mesh '
    'reproduces any symmetric data. Meshes are uniform and complete, and paths '
    'through the Brillouin zone visit the requested corners in order with '
    'monotonically increasing arc length equal to the Cartesian distance.',
    ['inputs', 'configurations'],
    'all mesh sizes within bounds, both lattice angles, any symmetric data on '
    'the mesh and any corner points of paths',
    'tests compare a few meshes and one path',
    ['elphmod/bravais.py'],
    [('images, irreducibles, symmetries', 'elphmod/bravais.py'),
     ('mesh, path', 'elphmod/bravais.py'),
     ('complete, complete_k', 'elphmod/bravais.py')],
    observe=['returned point sets and completed arrays'])

prop('P06', 'Wigner-Seitz construction yields minimal images with unit weight',
    'For any pair of basis sites and any coarse mesh, the lattice vectors '
    'selected for interpolation are exactly those of minimal distance among '
    'all periodic images, each mesh translation is represented, and the '
    'degeneracy weights of equivalent images add up to one. Folding a '
    'reciprocal-space point into the first Brillouin zone likewise returns an '
    'equivalent point of minimal length.',
    ['inputs', 'configurations'],
    'all positions of basis sites in the cell, mesh sizes and lattice shapes '
    'within bounds, all reciprocal-space points',
    'tests exercise only a few fixed crystals without ties at cell boundaries',
    ['elphmod/bravais.py'],
    [('wigner, wigner_2d, wigner_seitz', 'elphmod/bravais.py'),
     ('to_Voronoi', 'elphmod/bravais.py')],
    observe=['vectors, degeneracies and lengths returned'])

prop('P07', 'Fourier interpolation reproduces the mesh data it came from',
    'A real-space model obtained from quantities on a uniform mesh of wave '
    'vectors gives back exactly these quantities when evaluated at every mesh '
    'point, for electrons, phonons, Coulomb interaction and electron-phonon '
    'coupling. This holds for any mesh, basis positions and matrix data with '
    'the required symmetry, also when only the irreducible or half of the '
    'wave vectors is supplied.',
    ['inputs', 'configurations'],
    'all data on the mesh (subject to hermiticity and time reversal where '
    'required), all mesh sizes within bounds, all basis positions',
    'tests check a few models with particular data',
    ['elphmod/el.py', 'elphmod/ph.py', 'elphmod/elel.py', 'elphmod/elph.py',
     'elphmod/dispersion.py'],
    [('k2r / q2r', 'elphmod/el.py, ph.py, elel.py, elph.py'),
     ('hermiticity and fold-back helpers', 'elphmod/el.py, ph.py')],
    observe=['model evaluated at the mesh points'])

prop('P08', 'Model matrices are Hermitian, periodic, and velocities consistent',
    'The matrices of electron, phonon and Coulomb models equal the lattice '
    'Fourier sum of their real-space data, are periodic in the reciprocal '
    'lattice, and are Hermitian and time-reversal symmetric whenever the '
    'real-space data are. Derivatives with respect to the wave vector and '
    'alternative phase conventions agree with the matrices they derive from.',
    ['inputs'],
    'all real-space data, all wave vectors, with and without basis positions',
    'tests evaluate particular models at a few points',
    ['elphmod/el.py', 'elphmod/ph.py', 'elphmod/elel.py', 'elphmod/elph.py'],
    [('H, v, t', 'elphmod/el.py'), ('D, C', 'elphmod/ph.py'),
     ('W', 'elphmod/elel.py'), ('g, gR', 'elphmod/elph.py')],
    observe=['matrices at arbitrary wave vectors'])

prop('P09', 'Tidying a model does not change what it describes',
    'Merging duplicate lattice vectors, dropping negligible elements, sorting '
    'and completing the lattice-vector list, symmetrising, and undoing or '
    'applying masses or Wigner-Seitz degeneracies change no matrix at any '
    'wave vector beyond the stated threshold, and applying them twice equals '
    'applying them once. Symmetrising yields the Hermitian part and leaves '
    'data that are already symmetric unchanged.',
    ['inputs', 'histories'],
    'all real-space data, lists of lattice vectors with and without '
    'duplicates, thresholds, and repeated application',
    'tests standardise a few fixed models once',
    ['elphmod/el.py', 'elphmod/ph.py', 'elphmod/elel.py', 'elphmod/elph.py'],
    [('standardize, symmetrize', 'elphmod/el.py, ph.py, elel.py, elph.py'),
     ('divide_mass, divide_ndegen', 'elphmod/ph.py, bravais.py')],
    observe=['matrices before and after'])

prop('P10', 'Electron models on supercells describe the same electrons',
    'Mapping a tight-binding model to any supercell yields a model whose '
    'matrix at each supercell wave vector is the primitive matrices at the '
    'folded wave vectors up to the unitary Bloch transformation, in dense and '
    'sparse form, and extracting the unit cell again restores the original '
    'model including its metadata. Reordering orbitals, selecting, clearing, '
    'decoupling or shifting orbitals by lattice vectors transform the matrix '
    'exactly as the operation says.',
    ['inputs', 'configurations', 'histories'],
    'all hoppings, wave vectors, orbital numbers and integer supercell '
    'matrices within bounds',
    'tests compare total energies or a few bands of one model',
    ['elphmod/el.py'],
    [('supercell, unit_cell', 'elphmod/el.py'),
     ('order_orbitals, shift_orbitals, clear, decouple', 'elphmod/el.py')],
    observe=['H at folded wave vectors', 'metadata of the model'])

prop('P11', 'Phonon models on supercells describe the same lattice dynamics',
    'Mapping a lattice-dynamical model to any supercell preserves the '
    'dynamical matrix at all folded wave vectors, the mass and position of '
    'every atom and its species, in dense and sparse form, and the supercell '
    'shares no storage with the original; extracting the unit cell restores '
    'it. Reordering atoms, shifting atoms by lattice vectors, clearing or '
    'selecting them transform matrix and atomic data consistently.',
    ['inputs', 'configurations', 'histories'],
    'all force constants, wave vectors, masses, positions and integer '
    'supercell matrices within bounds, left-handed ones included',
    'tests compare one or two supercells at few points',
    ['elphmod/ph.py'],
    [('supercell, unit_cell', 'elphmod/ph.py'),
     ('order_atoms, shift_atoms, clear', 'elphmod/ph.py')],
    observe=['D at folded wave vectors', 'r, M, a, atom_order'])

prop('P12', 'Coupling and Coulomb models on supercells stay equivalent',
    'Mapping an electron-phonon or Coulomb model to any supercell preserves '
    'the matrix elements between Bloch states at all folded wave vectors, in '
    'dense and sparse form, also if several entries share a lattice vector. '
    'The supercell model documents its own primitive vectors and unit cells, '
    'and a cleared model has vanishing short-range matrix elements on every '
    'supercell.',
    ['inputs', 'configurations'],
    'all real-space matrix elements, wave vectors and integer supercell '
    'matrices within bounds',
    'tests check single supercells at zero wave vector',
    ['elphmod/elph.py', 'elphmod/elel.py'],
    [('supercell', 'elphmod/elph.py, elphmod/elel.py'),
     ('clear, decouple helpers', 'elphmod/elph.py')],
    observe=['g, W at folded wave vectors'])

prop('P13', 'Model files written can be read back unchanged',
    'Hamiltonians, Coulomb matrices, force constants (including Born charges, '
    'dielectric constant and quadrupoles) and electron-phonon coupling, when '
    'written to any of the supported file formats and read again, give the '
    'same model to within the printed precision, whatever the magnitude and '
    'sign of the numbers. Units and conventions are converted back exactly as '
    'they were converted on writing.',
    ['inputs', 'configurations'],
    'all data within the ranges of the formats, all numbers of orbitals, '
    'atoms and lattice vectors within bounds',
    'tests round-trip particular small models; field overflow, merged columns '
    'and precision depend on the values',
    ['elphmod/el.py', 'elphmod/ph.py', 'elphmod/elel.py', 'elphmod/elph.py',
     'elphmod/bravais.py'],
    [('to_hrdat/read_hrdat', 'elphmod/el.py'),
     ('to_flfrc/read_flfrc', 'elphmod/ph.py'),
     ('to_Wmat/read_Wmat', 'elphmod/elel.py'),
     ('to_epmatwp, write_xml_files, write_data', 'elphmod/elph.py'),
     ('write_wigner_file/wigner', 'elphmod/bravais.py')],
    observe=['matrices of the model read back'])

prop('P14', 'Structure and input files written can be read back unchanged',
    'Crystal structures written as Quantum ESPRESSO input, XYZ or band files '
    'and read again give the same cell, species, positions and parameters to '
    'within the printed precision. Lists, flags and numbers of any admissible '
    'value survive, and parsing one file does not depend on what was read '
    'before. Volumetric data (XSF, cube), POSCAR files, band and Wannier files '
    'and tables printed by other programs are read with the values at the '
    'indices, in the units and with the origin defined by their format.',
    ['inputs', 'histories'],
    'all positions, cells, species and parameters within the ranges of the '
    'formats',
    'tests read a few fixed files',
    ['elphmod/bravais.py', 'elphmod/misc.py', 'elphmod/el.py',
     'elphmod/md.py'],
    [('read_pwi/write_pwi', 'elphmod/bravais.py'),
     ('read_namelists, read_xsf/write_xsf, read_cube', 'elphmod/misc.py'),
     ('read_bands/write_bands, read_pwo, read_atomic_projections',
      'elphmod/el.py'),
     ('to_xyz/from_xyz', 'elphmod/md.py')],
    observe=['structure dictionaries, positions'])

prop('P15', 'Smearing functions are mutually consistent',
    'For every smearing scheme the occupation function goes from one far '
    'below to zero far above the Fermi level (and is symmetric about one half, '
    'except for the cold smearing), the broadened delta function is minus its '
    'derivative with respect to x, the function delta_prime is the derivative '
    'of the broadened delta function, and the generalised entropy s vanishes '
    'far from the Fermi level and has the derivative -x delta(x), i.e., x f(x) '
    '- s(x) has the derivative f(x). The same functions are found by all names '
    'and abbreviations, scalars, integers, and arrays are treated alike, and '
    'no finite argument leads to an overflow or an undefined number in the '
    'Fermi functions.',
    ['inputs', 'configurations'],
    'all real arguments, every smearing scheme and every accepted name',
    'tests compare a few values numerically',
    ['elphmod/occupations.py'],
    [('fermi_dirac, gauss, marzari_vanderbilt, methfessel_paxton, lorentz, '
      'heaviside, double_fermi_dirac, two_fermi_dirac',
      'elphmod/occupations.py'),
     ('smearing', 'elphmod/occupations.py')],
    observe=['values of the functions'])

prop('P16', 'The Fermi level found yields the requested number of electrons',
    'Whenever a Fermi level is returned for given energies, smearing and '
    'electron number, the total occupation at this level deviates from the '
    'request by no more than the tolerance, and weights or spin factors enter '
    'as documented. Adding a constant to all energies shifts the level by the '
    'same constant.',
    ['inputs', 'configurations'],
    'all energies, weights, electron numbers, temperatures and smearings '
    'within bounds',
    'tests use single band structures and fillings',
    ['elphmod/occupations.py'],
    [('find_Fermi_level', 'elphmod/occupations.py')],
    observe=['returned level'])

prop('P17', 'Tetrahedron and triangle integration is exact for linear bands',
    'Densities of states, weighted densities and double-delta integrals by '
    'linear interpolation equal the exact integral over the piecewise linear '
    'interpolation of the mesh data, are non-negative for non-negative '
    'weights, and independent of the order of the corners. Integrated over '
    'energy the density of states gives the number of states, and iso-energy '
    'contours lie exactly where the interpolated band crosses the energy.',
    ['inputs'],
    'all corner energies, ties included, all weights, all energies',
    'tests integrate one model band structure; degenerate corners are rare',
    ['elphmod/dos.py', 'elphmod/bravais.py'],
    [('simplex weights, hexDOS, hexa2F, double_delta', 'elphmod/dos.py'),
     ('isoline', 'elphmod/dos.py')],
    observe=['density of states functions', 'contours'])

prop('P18', 'Interpolation on periodic meshes is exact at and between nodes',
    'Linear, polynomial and Fourier interpolation on periodic meshes return '
    'the given data at the nodes and reproduce constants everywhere; linear '
    'interpolation is affine between neighbouring nodes and wraps around the '
    'zone boundary. Resampling to a coarser commensurate mesh selects the '
    'original values, and to a finer mesh and back is the identity.',
    ['inputs', 'configurations'],
    'all data, mesh sizes within bounds, both mesh shapes, all evaluation '
    'points',
    'tests interpolate a fixed function on a fixed mesh',
    ['elphmod/bravais.py'],
    [('linear_interpolation, interpolate, Fourier_interpolation',
      'elphmod/bravais.py'), ('resize, stack', 'elphmod/bravais.py')],
    observe=['interpolated values'])

prop('P19', 'Sum rules hold after they have been imposed',
    'After imposing the acoustic sum rule, rigid translations of the crystal '
    'cost no energy and couple to no electrons, and where rotational '
    'invariance is requested the Born-Huang rotation conditions hold as well. '
    'The correction (other than the simple one, which only replaces self '
    'force constants) makes the smallest possible change and keeps the '
    'permutation symmetry of the force constants; data already obeying the '
    'rules are left unchanged. Born charges add up to zero after neutralisation.',
    ['inputs', 'configurations'],
    'all force constants, couplings, charges, masses and positions',
    'tests check particular force constants',
    ['elphmod/ph.py', 'elphmod/elph.py'],
    [('asr, sum_rule_correction', 'elphmod/ph.py'),
     ('asr', 'elphmod/elph.py'), ('zasr', 'elphmod/ph.py')],
    observe=['dynamical matrix and coupling at zero wave vector'])

prop('P20', 'Separating long-range interactions is reversible and consistent',
    'Subtracting the long-range dipole and quadrupole part from force '
    'constants or couplings on a mesh and adding it back on evaluation '
    'restores the original matrices at the mesh points. The long-range '
    'dynamical matrix is Hermitian, real at zero wave vector, symmetric under '
    'inversion of the wave vector, scales correctly with charges and '
    'dielectric constant, and respects the acoustic sum rule for neutral '
    'crystals.',
    ['inputs', 'configurations'],
    'all Born charges, quadrupoles, dielectric tensors, positions and data',
    'tests compare single materials',
    ['elphmod/ph.py', 'elphmod/elph.py'],
    [('prepare_long_range, generate_long_range, D_lr', 'elphmod/ph.py'),
     ('update_short_range', 'elphmod/ph.py, elphmod/elph.py'),
     ('g_lr', 'elphmod/elph.py')],
    observe=['D and g at mesh points', 'long-range terms'])

prop('P21', 'Self-energies and susceptibilities equal their defining sums',
    'Bare susceptibility, phonon self-energy, polarisation and electron '
    'self-energy equal the textbook Brillouin-zone sums with divided '
    'differences of the occupation function, including the analytic limit for '
    '(nearly) degenerate states, for every smearing. Self-energies are '
    'Hermitian at zero frequency and independent of the gauge of the '
    'eigenvectors, and unoccupied or fully occupied band sets contribute '
    'nothing.',
    ['inputs', 'configurations'],
    'all band energies, couplings, momenta on the mesh, temperatures and '
    'smearings within bounds, exact degeneracies included',
    'tests use few points where degeneracies do not occur',
    ['elphmod/diagrams.py'],
    [('phonon_self_energy, susceptibility, polarization',
      'elphmod/diagrams.py'),
     ('electron self-energy, fan_migdal', 'elphmod/diagrams.py')],
    observe=['returned self-energies'])

prop('P22', 'Energy derivatives by diagrams form one consistent series',
    'The grand potential, the first-order force, the bubble and the triangle '
    'are successive derivatives of one another with respect to the '
    'perturbation of the band energies, for every smearing, with correct '
    'symmetry factors and limits for coinciding energies. The triangle is '
    'symmetric under permutation of equivalent perturbations.',
    ['inputs', 'configurations'],
    'all energies, perturbations and temperatures within bounds, coinciding '
    'energies included',
    'tests compare finite differences of one model',
    ['elphmod/diagrams.py'],
    [('grand_potential, first_order, triangle', 'elphmod/diagrams.py')],
    observe=['returned derivatives'])

prop('P23', 'Renormalised coupling is the same in orbital and band basis',
    'Screening the electron-phonon coupling by a Coulomb interaction gives '
    'the bare coupling plus interaction times polarisation times coupling, '
    'whether evaluated in the orbital or band basis, for density-density and '
    'general interactions, and it terminates for all supported shapes. '
    'Vanishing interaction leaves the coupling unchanged, and screening is '
    'linear in it.',
    ['inputs', 'configurations'],
    'all couplings, interactions, eigenvectors, band energies and shapes',
    'tests check one particular shape',
    ['elphmod/diagrams.py'],
    [('renormalize_coupling_orbital, renormalize_coupling_band',
      'elphmod/diagrams.py')],
    observe=['renormalised coupling'])

prop('P24', 'Molecular dynamics: forces and Hessians derive from one energy',
    'For any displacement, the forces of the driver are the derivative of its '
    'free energy and its Hessian the derivative of the forces; the '
    'undistorted structure is a stationary point with the dynamical matrix of '
    'the input model; and dense and sparse evaluation agree. Evaluating '
    'energies or forces changes neither the positions handed in nor later '
    'results, and the electron number is conserved.',
    ['inputs', 'histories'],
    'all displacements, models and temperatures within bounds, any sequence '
    'of evaluations',
    'tests compare finite differences at single displacements',
    ['elphmod/md.py'],
    [('Driver.free_energy, jacobian, hessian', 'elphmod/md.py'),
     ('Driver.diagonalize, update', 'elphmod/md.py')],
    observe=['energies, forces, Hessians'])

prop('P25', 'Coupling sampled or transformed never reflects stale data',
    'The coupling at any pair of wave vectors equals the double Fourier sum '
    'of the current real-space data, in atomic or band basis, regardless of '
    'which wave vectors were requested before and of modifications of the '
    'model in between. Sampling on meshes agrees with evaluation point by '
    'point, and the coupling obeys the exchange symmetry of a Hermitian '
    'perturbation.',
    ['inputs', 'histories'],
    'all couplings, eigenvectors and wave vectors; all sequences of '
    'evaluations and modifications within bounds',
    'tests evaluate each model in one order only',
    ['elphmod/elph.py'],
    [('g with cached partial transform', 'elphmod/elph.py'),
     ('sample', 'elphmod/elph.py'), ('asr, standardize, clear',
      'elphmod/elph.py')],
    state=[('partial Fourier transform', 'coupling at the last q point',
        'elphmod/elph.py: self.q, self.gq')],
    observe=['g for sequences of calls'])

prop('P26', 'Superconducting quantities follow their defining formulas',
    'Coupling strength, effective phonon frequencies and critical '
    'temperatures are the documented functions of phonon energies, couplings '
    'and density of states, invariant under a common choice of energy units '
    'and under the gauge of the eigenvectors, and the formulas reduce to each '
    'other in their stated limits. Band indices of initial and final '
    'electronic states are never interchanged.',
    ['inputs'],
    'all positive couplings, frequencies and Coulomb parameters; all '
    'multiband couplings within bounds',
    'tests compare single published numbers',
    ['elphmod/eliashberg.py'],
    [('Tc', 'elphmod/eliashberg.py'), ('McMillan', 'elphmod/eliashberg.py')],
    observe=['returned lambda, frequencies, temperatures'])

prop('P27', 'Sampled dispersions belong to the matrices they come from',
    'Eigenvalues on meshes and paths are the sorted eigenvalues of the '
    'matrix at exactly the requested wave vectors, eigenvectors diagonalise '
    'it and are orthonormal, and additional steps (band reordering, gauge '
    'fixing, unfolding, mesh sampling, rotated or symmetry-reduced '
    'evaluation) only permute, rephase or weight them. Unfolding weights add '
    'up to one per band and the order of wave vectors of results is that of '
    'the request.',
    ['inputs', 'configurations'],
    'all matrices, lists and meshes of wave vectors within bounds, every '
    'combination of options',
    'tests use few models and rarely combine options',
    ['elphmod/dispersion.py'],
    [('dispersion, dispersion_full, sample, unfold', 'elphmod/dispersion.py'),
     ('band_order', 'elphmod/dispersion.py')],
    observe=['eigenvalues, eigenvectors, order arrays'])

prop('P28', 'Derived quantities and helpers equal their definitions',
    'Quantities derived from models and the numerical helpers shared by all '
    'modules are what their definitions say for every input: cells of '
    'closest equivalent mesh points and their degeneracies (each equivalence '
    'class has total weight one, no image is closer), neighborhoods as '
    'connected components, trapezoidal weights, extremum of a parabola, first '
    'matching vector, real-space grids, the interaction of a single band as '
    'projection of the orbital interaction, Hartree energy, norms and sums of '
    'force constants, character of vibrations, decay of hopping and coupling.',
    ['inputs', 'configurations'],
    'all inputs and options within bounds, every number of processes up to 3',
    'no test covers most of these functions, the others at single inputs',
    ['elphmod/misc.py', 'elphmod/bravais.py', 'elphmod/elel.py',
     'elphmod/ph.py', 'elphmod/elph.py', 'elphmod/el.py'],
    [('to_Voronoi, wigner_2d', 'elphmod/bravais.py'),
     ('orbital2band, hartree_energy', 'elphmod/elel.py'),
     ('group, differential, minimum', 'elphmod/misc.py'),
     ('decay, sum_force_constants, polarization', 'elphmod/ph.py')],
    observe=['returned values'])

prop('P29', 'Output of other programs is read faithfully',
    'What the readers return is what the program that wrote the file meant, '
    'for every file of the documented layout: projections and their states '
    '(order, spin, resolved by k point and band), groups of orbitals and '
    'their sums, bands below the Fermi level, charge densities in real and '
    'reciprocal space with the cell volume and total charge of every '
    'lattice, force constants and long-range data of XML files, couplings, '
    'matrices and phonon data from text output including which bands, atoms '
    'and cells they belong to, for every size of the tables and every '
    'arrangement of their rows.',
    ['inputs', 'configurations'],
    'all numbers and sizes of tables within bounds, all lattices',
    'tests read a few files of a single material, most readers not at all',
    ['elphmod/el.py', 'elphmod/ph.py', 'elphmod/elph.py'],
    [('read_atomic_projections, read_projwfc_out, proj_sum', 'elphmod/el.py'),
     ('read_pp_density, read_rhoG_density', 'elphmod/el.py'),
     ('read_flfrc_xml', 'elphmod/ph.py'),
     ('coupling, read_EPW_output, read_prtgkk, read_patterns, read_xml_files',
        'elphmod/elph.py')],
    observe=['returned values'])

prop('P30', 'Images show the data at the right place and in the right color',
    'Every pixel of an image of reciprocal space, of a (wedge of a) Brillouin '
    'zone or of a zone made of zones has the interpolated value of the data '
    'at its own wave vector, for every lattice angle, orientation, '
    'resolution and number of processes, and the fill value outside; the '
    'image contains the whole zone; color bars, tiles, rectified and '
    'resampled images and compositions along a line are placed and scaled '
    'as given; colors follow the limits and leave the color map of the user '
    'as it is.',
    ['inputs', 'configurations'],
    'all data, fill values and limits; lattices, meshes and sizes within '
    'bounds',
    'no test looks at any image',
    ['elphmod/plot.py', 'elphmod/bravais.py'],
    [('plot, double_plot, toBZ', 'elphmod/plot.py'),
     ('colorbar, arrange, rectify, adjust_pixels, compline, color',
        'elphmod/plot.py')],
    observe=['returned images'])

NOTE = ('Bounded: holds for all values of the symbolic inputs within the '
    'sizes stated by each harness in the evidence; reals instead of floats '
    'up to the stated tolerance; trusts the NumPy stand-in (validated per '
    'run by replaying solver witnesses on the unmodified code) and z3.')

def main():
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(dict(id=p['id'], title=p['title'],
                statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['text']),
                why_tests_cant=p['why'],
                anchors=dict(files=p['files'],
                    mechanism=[dict(name=a, where=b)
                        for a, b in p['mechanism']],
                    state=[dict(name=a, meaning=b, where=c)
                        for a, b, c in p['state']],
                    observe_at=list(p['observe']), hook_needed=None)))
                + '\n')

    checks = []
    na = []
    for p in P:
        if p['na']:
            na.append(dict(property=p['id'], reason=p['na']))
        elif os.path.exists(os.path.join(ROOT, 'harness', p['id'] + '.py')):
            checks.append(dict(property=p['id'],
                quick_cmd='python3-vt run.py %s quick' % p['id'],
                thorough_cmd='python3-vt run.py %s thorough' % p['id'],
                evidence_file='evidence/%s.json' % p['id'],
                technique=p['tech'] or 'symbolic execution of the Python '
                    'source with z3-decided branches and obligations',
                level='model_checking', level_note=NOTE))
        else:
            na.append(dict(property=p['id'], reason='no check yet'))
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3, numpy"',
            checks=checks, not_applicable=na,
            notes='See DESIGN.md. Replay a counterexample with '
                '/opt/venv/bin/python symx/replay.py FILE.'), f, indent=1)
        f.write('\n')

if __name__ == '__main__':
    main()
