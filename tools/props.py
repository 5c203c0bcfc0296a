TESTS = 'The 6 stable tests compare whole outputs on a handful of bundled calculations'

prop('C01', 'Band energies are in eV, relative to the Fermi level, for every code',
     'For every supported code (VASP, Abinit, Quantum ESPRESSO, Wannier90), with or without SOC, spin channel or subset of k-points and '
     'bands, the energy attached to each band of each k-point is the energy of that same band and k-point in the input, in eV, minus the '
     'Fermi level in eV (the one in the input or the one given by the user). The same holds for the energy of the first level above the '
     'selected bands.',
     'inputs configurations', 'all input files of the four formats, all windows of bands, all k-point subsets, both ways of giving EF',
     TESTS + '; unit and offset slips in one reader (Hartree, bohr, spin channel, record offset) are invisible to the others and to a '
     'single input.',
     'irrep/bandstructure.py irrep/readfiles.py irrep/kpoint.py',
     [('readers convert Hartree to eV', 'irrep/readfiles.py:ParserAbinit, ParserEspresso'),
      ('EF subtraction in the k-point loop', 'irrep/bandstructure.py:BandStructure.__init__')],
     ['BandStructure.kpoints[i].Energy_raw', 'Kpoint.upper'],
     'abstract interpretation of the readers to closed forms, compared with the physical specification by random interpretation',
     'Decided for the 20 reader configurations listed in sa/checks/common.py; trusts the file-format models in sa/world.py and the numpy '
     'semantics in sa/lib*.py; what the interpreter cannot resolve is reported as undecided in the evidence.')

prop('C02', 'Lattice, positions and plane-wave cutoff are physical for every code',
     'Whatever the code and the units of its files, lattice vectors are in Angstrom and atomic positions are reduced coordinates attached '
     'to the right species; the reciprocal lattice is 2*pi times the inverse transpose of the lattice. The plane waves kept for a k-point are exactly those '
     'with hbar^2|k+G|^2/2m below the cutoff in eV, in ascending order of that energy.',
     'inputs configurations', 'all lattices, positions, scale factors, coordinate modes and cutoffs, of the four formats',
     TESTS + '; bohr/Angstrom or 2*pi slips need a different code, coordinate mode or cutoff to show.',
     'irrep/bandstructure.py irrep/readfiles.py irrep/gvectors.py irrep/spacegroup.py',
     [('parsers convert bohr and cartesian coordinates', 'irrep/readfiles.py'), ('cutoff filter', 'irrep/gvectors.py:sortIG, calc_gvectors')],
     ['BandStructure.Lattice', 'BandStructure.RecLattice', 'Kpoint.ig'],
     'abstract interpretation of the readers to closed forms, compared with the physical specification by random interpretation',
     'Decided for the reader configurations listed in sa/checks/common.py; trusts the file-format models in sa/world.py; plane-wave sets are '
     'compared on random instances of the extracted symbolic selection.')

prop('C05', 'Every wavefunction coefficient stays paired with its plane wave, band and spin',
     'After reading, cutting off, sorting and selecting bands, each coefficient of a wave function belongs to the plane wave, the spinor component and '
     'the band it is stored under, for every code, with and without SOC and for both spin channels.',
     'inputs configurations', 'all numbers of bands and plane waves, all orders of plane waves in the files, all cutoffs',
     TESTS + ' whose plane waves are already sorted or whose cutoff removes nothing; a permutation applied to one of the paired arrays only needs '
     'another order to show.',
     'irrep/bandstructure.py irrep/readfiles.py irrep/gvectors.py irrep/kpoint.py',
     [('same selection applied to G vectors and coefficients', 'irrep/gvectors.py:sortIG'), ('FFT of UNK files', 'irrep/readfiles.py:ParserW90')],
     ['Kpoint.WF', 'Kpoint.ig'],
     'abstract interpretation with symbolic array permutations, compared with the specification by random interpretation',
     'Decided for the reader configurations listed in sa/checks/common.py; trusts the record layouts in sa/world.py.')

prop('C03', 'Conversions between the DFT cell and the reference cell obey one convention, in every output',
     'With reference vectors A_ref = refUC^T A and origin shiftUC, the program reports for every symmetry operation R_ref = refUC^-1 R refUC and '
     't_ref = refUC^-1 (t + R s - s), for every atom x_ref = refUC^-1 (x - s), and the action on k as R^-T k - in the printed description and in the '
     'JSON output alike, while trace.txt lists the operations of the DFT cell - and the cell transformation used is the one the user asked for, or the one found by the '
     'symmetry library.',
     'inputs configurations', 'all operations, transformations of the cell and shifts of the origin, every way of requesting them',
     TESTS + '; a transposed matrix or a missing shift only shows for a non-symmetric rotation combined with a particular origin.',
     'irrep/spacegroup.py',
     [('conversion of rotations and translations', 'irrep/spacegroup.py:SymmetryOperation.rotation_refUC, translation_refUC'),
      ('choice of the transformation', 'irrep/spacegroup.py:SpaceGroup.determine_basis_transf')],
     ['output of SpaceGroup.show, SymmetryOperation.show / json_dict / str2'],
     'abstract interpretation to closed forms and text templates, compared with the conventions by random interpretation',
     'The branch of determine_basis_transf that searches a shift for non-centrosymmetric groups is not decided.')

prop('C06', 'Little group, characters and multiplicities follow from the operations and the band traces',
     'The little group of a k-point consists of exactly the operations with R^-T k = k modulo reciprocal lattice vectors, by ascending index; the character '
     'of a set of degenerate bands under an operation is the sum of the traces over exactly these bands; in the reference cell it is '
     'multiplied by the sign of the spinor matrix and exp(-2 pi i (t_table - t_ref) k_ref); the multiplicity of an irrep is '
     'the scalar product of the characters over the little group divided by its order, and it is reported exactly if it is not zero. Table characters '
     'are converted to the actual operations by the sign and exp(2 pi i dt k).',
     'inputs', 'all little groups (also non-symmorphic and hexagonal), orders of operations, k-points, degeneracies and tables',
     TESTS + '; conventions that are wrong for 3-fold rotations, shifted origins or zone-boundary k-points pass them.',
     'irrep/kpoint.py irrep/spacegroup.py',
     [('little group and traces', 'irrep/kpoint.py:Kpoint.__init__, calculate_traces'),
      ('multiplicities', 'irrep/kpoint.py:Kpoint.identify_irreps'), ('table characters', 'irrep/spacegroup.py:SpaceGroup.get_irreps_from_table')],
     ['Kpoint.little_group', 'Kpoint.char', 'Kpoint.char_refUC', 'Kpoint.irreps'],
     'abstract interpretation to closed forms on symbolic lists of operations, compared with the definition by random interpretation',
     'Per-band traces are an arbitrary function here; their formula is the subject of C04.')

prop('C04', 'Matrix elements of a symmetry operation and overlaps follow one convention in all routines',
     'The trace of a symmetry operation in a band, its matrix within a degenerate set and the overlap of two k-points are those of normalised Bloch functions: '
     '<m|{R|t}|n> = sum over the plane waves of conj(psi_m[R^-T(k+G)-k]) U psi_n[G] exp(-2 pi i t.R^-T(k+G)), U being the spinor matrix, and '
     '<k1|k2> pairs the coefficients with k1+G1 = k2+G2. A plane wave without image is an error and never a silent zero.',
     'inputs', 'all operations (3-fold and non-symmorphic included), k-points at the zone boundary, sets of plane waves, spinors, offsets by reciprocal vectors',
     TESTS + '; a transposed rotation or spinor matrix gives the same traces for many operations.',
     'irrep/gvectors.py irrep/kpoint.py',
     [('diagonal elements', 'irrep/gvectors.py:symm_eigenvalues'), ('full matrix', 'irrep/gvectors.py:symm_matrix'),
      ('search of the rotated plane wave', 'irrep/gvectors.py:transformed_g'), ('overlap', 'irrep/kpoint.py:Kpoint.overlap')],
     ['Kpoint.char', 'Kpoint.Separate', 'Kpoint.overlap'],
     'abstract interpretation to closed forms (with the search resolved as a symbolic permutation), compared with the definition by random interpretation',
     'Sets of plane waves are random instances closed under the operation; the gauge of the wave functions is an assumption on the input.')

prop('C07', 'K-points, bands and symmetries are selected by their numbers counted from 1',
     'The k-points analysed are exactly those requested by number (from 1, in the order given, numbers outside the file ignored; all of them by default), each with the '
     'coordinates, energies and name that belong to it; the bands are IBstart to IBend, both included, up to the last band of the file by default; the '
     'symmetries printed, stored, used for traces or for separation are those with the requested numbers. Ranges a-b on the command line include both ends.',
     'inputs configurations', 'all selections, contiguous or not, partially outside the file, for every code',
     TESTS + ', which use one selection per code.',
     'irrep/bandstructure.py irrep/kpoint.py irrep/spacegroup.py irrep/utility.py',
     [('list of k-points and window of bands', 'irrep/bandstructure.py:BandStructure.__init__'), ('selected symmetries', 'irrep/spacegroup.py:SpaceGroup.show, json'),
      ('ranges', 'irrep/utility.py:str2list')],
     ['BandStructure.kpoints', 'Kpoint.num_bands', 'irrep-output.json'],
     'abstract interpretation of the selection code to closed forms, compared with the requested selection by random interpretation',
     'Selections are those enumerated in sa/checks/c07.py; sizes of the files are symbolic.')

prop('C08', 'Sets of degenerate bands tile the window of bands',
     'The sets of degenerate bands of a k-point cover the window of bands exactly once, in order; a new set begins exactly where the next energy is higher by more than '
     'the threshold of the user; degeneracies, mean energies and characters are those of exactly these sets.',
     'inputs', 'all sequences of energies (single set, no degeneracy, clusters at the ends of the window) and thresholds',
     TESTS + '; an error at the first or last set only shows for particular degeneracies there.',
     'irrep/kpoint.py irrep/bandstructure.py',
     [('borders and degeneracies', 'irrep/kpoint.py:Kpoint.__init__'), ('mean energies', 'irrep/kpoint.py:Kpoint.calculate_traces')],
     ['Kpoint.borders', 'Kpoint.degeneracies', 'Kpoint.Energy_mean'],
     'abstract interpretation to closed forms over the symbolic band energies, compared with the definition by random interpretation',
     'Energies are assumed to be in ascending order, as all codes write them.')

prop('C09', 'Every command line option and configuration value takes effect',
     'Each option of the command line is accepted with its documented type and default and reaches, unaltered, the place in the analysis, the call or the file name where it '
     'takes effect, for every code and every combination with the other options; optional parts (writing the symmetries, separation, Zak phases, Wannier charge centers, '
     'plot files) are done exactly when requested and for every subspace; entries of the configuration file replace those of the command line.',
     'inputs', 'all values of the options, in combinations of codes, flags and separating symmetries',
     'The tests pass a handful of options each; an option that is dropped or crossed with another on one path is not noticed.',
     'irrep/cli.py irrep/bandstructure.py',
     [('options and dispatch', 'irrep/cli.py:cli'), ('configuration file', 'irrep/cli.py:LoadContextFromConfig'), ('propagation', 'irrep/bandstructure.py:BandStructure.__init__')],
     ['arguments of BandStructure, SpaceGroup, Kpoint', 'names of the files written'],
     'evaluation of the option declarations and abstract interpretation of cli() with the analysis classes as boundaries; each option traced as a symbol to its uses',
     'Options are symbols or representative strings; click itself is trusted.')

prop('C16', 'All outputs are faithful accounts of one and the same analysis',
     'The console table, the JSON data, trace.txt, irreps.dat and the file for plotting contain, for every k-point and every set of degenerate bands, in order, the '
     'energies, degeneracies, little-group operations, irreps with multiplicities and (complex) characters of the analysis, neither shifted nor truncated; '
     'positions along the path and the direct and indirect gaps follow from the k-points and energies.',
     'inputs', 'all numbers of k-points, sets, operations and irreps, real and complex characters, with and without inversion and irreps',
     TESTS + '; a column or index that is off only shows for a particular number of sets or operations.',
     'irrep/bandstructure.py irrep/kpoint.py irrep/spacegroup.py',
     [('console table', 'irrep/kpoint.py:Kpoint.write_characters'), ('JSON', 'irrep/kpoint.py:Kpoint.json, irrep/bandstructure.py:BandStructure.json'),
      ('trace.txt', 'irrep/kpoint.py:Kpoint.write_trace, irrep/bandstructure.py:BandStructure.write_trace'),
      ('plot file', 'irrep/bandstructure.py:BandStructure.write_plotfile')],
     ['console', 'irrep-output.json', 'trace.txt', 'irreps.dat', 'bands-*.dat'],
     'abstract interpretation of the writers to text templates (all output statements, loops and conditions), rendered in random models and compared number by number',
     'Labels and layout are not part of the property: only numbers, irrep labels and their order are compared.')

prop('C17', 'Every table describes a space group and complete irreps of its little groups',
     'Each of the 460 tables is that of the space group and kind (with or without spinors) in its name; its operations form a group modulo the lattice translations of its centring, and '
     'its spinor matrices represent their rotations up to a sign; both tables of a group list the same operations and k-points; the operations of each k-point are those that leave it '
     'invariant modulo reciprocal lattice vectors; the characters of each k-point are those of a complete set of inequivalent irreducible representations in which a lattice translation T is '
     'exp(-2 pi i k.T), as for Bloch states, each with its own label, which belongs to the k-point.',
     'inputs', 'all tables, operations, k-points and irreps',
     'The tests use the tables of two space groups at a few k-points.',
     'irreptables/irreptables/tables/irreps-SG=1-scal.dat irreptables/irreptables/__init__.py',
     [('data', 'irreptables/irreptables/tables/irreps-SG={1..230}-{scal,spin}.dat'), ('their use', 'irrep/spacegroup.py:SpaceGroup.get_irreps_from_table')],
     ['IrrepTable.symmetries', 'IrrepTable.irreps', 'irreps and multiplicities of bands'],
     'exact decision on the text of all tables: group closure, little groups, factor systems, orthonormality, completeness, conjugation and class-sum relations of characters',
     'The names of irreps and the choice of k-points follow external conventions and are not part of the property. Known findings: at P and W of 14 space groups the tables use exp(+2 pi i k.T).')

prop('C18', 'A table is loaded with exactly its contents, and only if it is the table asked for',
     'Loading a table gives its operations (rotation, translation, spinor matrix) in order, and for each irrep its label, dimension, k-point with coordinates, and real or complex characters '
     'under the numbers of the operations of the little group; blank lines and ranges of operations are understood. By default the file of the package for the number and the kind '
     '(with or without spinors) is read; a file whose number or kind is another one is refused.',
     'inputs', 'all rotations, translations, spinor matrices, characters, sets of operations and layouts of the header',
     'The tests read two tables; lines that are not understood are skipped silently by the loader.',
     'irreptables/irreptables/__init__.py irrep/utility.py',
     [('loader', 'irreptables/irreptables/__init__.py:IrrepTable.__init__, SymopTable.__init__, KPoint.__init__, Irrep.__init__'), ('numbers', 'irrep/utility.py:str2list_space, str2bool')],
     ['IrrepTable attributes', 'AssertionError'],
     'abstract interpretation of the loader on symbolic files, objects compared with the contents of the file by random interpretation',
     'Four layouts of symbolic files with up to three k-points and four operations.')

prop('C19', 'Separation by a symmetry loses, duplicates and mixes no state',
     'Separating the bands of a k-point by the eigenvalues of an operation puts every eigenstate of the operation within every set of degenerate bands into exactly one subspace, with its own '
     'energy, its wave function (the eigenvector applied to the bands) and the characters and irreps of its set; two states are in the same subspace exactly if their eigenvalues agree (if Kramers '
     'pairs are grouped: the real parts of the eigenvalues), wherever they lie on the unit circle. Within a subspace states are in ascending order of energy. The band '
     'structure of a subspace contains exactly the k-points that have its eigenvalue, in order. The k-point and band structure that are separated do not change.',
     'inputs', 'all sets of degenerate bands, unitary matrices and eigenvalues, with and without grouping of Kramers pairs',
     TESTS + '; they separate one band structure by one operation with two eigenvalues.',
     'irrep/kpoint.py irrep/bandstructure.py',
     [('k-point', 'irrep/kpoint.py:Kpoint.Separate, copy_sub'), ('band structure', 'irrep/bandstructure.py:BandStructure.Separate')],
     ['BandStructure.Separate', 'outputs of subspaces'],
     'abstract interpretation with the diagonalisation as an opaque function; the resulting dictionaries are evaluated in random models and compared with the partition of the eigenstates',
     'numpy.linalg.eig is trusted. Known finding: num_bandinvs of a subspace is the one of the whole k-point.')

prop('C20', 'The symmetry-only mode reads no wave functions and analyses no bands',
     'With -onlysym, for every code, the space group is determined from the structure exactly as in a full run, no file or record with wave functions is read, no k-point is '
     'analysed and no file of results is written (except the file of symmetries if requested); the command ends normally whatever other options are given.',
     'inputs', 'all codes, formats of the files and combinations of options',
     'The tests of this mode cover two codes and only compare console output.',
     'irrep/cli.py irrep/bandstructure.py irrep/readfiles.py',
     [('mode', 'irrep/bandstructure.py:BandStructure.__init__'), ('command', 'irrep/cli.py:cli')],
     ['files read and written', 'arguments of SpaceGroup'],
     'effects (files opened, records read, objects created) collected by abstract interpretation over all paths of BandStructure and cli with the option set',
     'The wave functions of Abinit are in the file of the header; there it is records that are counted.')

prop('C21', 'Inversion-odd states, Kramers pairs and topological indices are counted correctly',
     'For a k-point whose little group contains inversion about the origin, the number of odd states is the rounded sum over the sets of (degeneracy - Re character)/2, and it is '
     'undefined otherwise; the total is the sum over the k-points where it is defined; with SOC, Kramers pairs are half of it, and Z2 and Z4 are the total '
     'number of pairs modulo 2 and 4, in print and in the JSON data alike.',
     'inputs', 'all positions of inversion in the little group, k-points with and without inversion, numbers of odd states',
     TESTS + '; most materials have few odd states, so that a wrong modulus or index passes.',
     'irrep/kpoint.py irrep/bandstructure.py',
     [('counting', 'irrep/kpoint.py:Kpoint.__init__'), ('totals and indices', 'irrep/bandstructure.py:BandStructure.num_bandinvs, write_characters, json')],
     ['Kpoint.num_bandinvs', 'console', 'irrep-output.json'],
     'abstract interpretation of the search and of all assignments with their path conditions, compared with the definition by random interpretation',
     'Z2/Z4 printed without SOC are not part of the property.')

prop('C23', 'Operations written to a .sym file and read back are the same operations',
     'A .sym file lists the operations in order, each as its Cartesian rotation and minus its Cartesian translation over the lattice parameter, precisely enough to be read '
     'back; reading it for the same lattice and lattice parameter gives the same integer rotations and the same translations modulo lattice vectors, in the same order.',
     'inputs', 'all lattices, rotations, translations, lattice parameters and numbers of operations',
     TESTS + '; wrong conventions are invisible for symmetric lattices and operations without translation.',
     'irrep/spacegroup.py',
     [('writing', 'irrep/spacegroup.py:SymmetryOperation.str_sym, SpaceGroup.write_sym_file'), ('reading', 'irrep/spacegroup.py:read_sym_file, cart_to_crystal, SpaceGroup._findsym')],
     ['prefix.sym', 'operations of the space group read with -from_sym_file'],
     'abstract interpretation of the writer to the text and of the reader on a symbolic file to closed forms, each compared with the definition by random interpretation',
     'Translations are compared modulo lattice vectors.')

prop('C24', 'Spin expectation values and unfolding weights of degenerate sets are correct',
     'Kpoint.get_rho_spin returns for each set of degenerate bands its borders, mean energy, overlap matrix and (with SOC) the matrices of the three Pauli matrices; '
     'Kpoint.unfold returns for each set the trace of these with the projector on the plane waves that belong to the primitive-cell k-point, i.e. those with '
     '(k+G) S^-T = k_primitive modulo 1 for the supercell matrix S.',
     'inputs', 'all supercells, k-points, sets of plane waves, coefficients and degeneracies',
     TESTS + ', none of which calls these methods.',
     'irrep/kpoint.py',
     [('spin matrices', 'irrep/kpoint.py:Kpoint.get_rho_spin'), ('selection of plane waves', 'irrep/kpoint.py:Kpoint.unfold')],
     ['Kpoint.get_rho_spin', 'Kpoint.unfold'],
     'abstract interpretation to closed forms, compared with the definition by random interpretation',
     'Compared on random instances of plane waves, coefficients and supercells.')

prop('C25', 'Operations are matched one to one with those of the tables, in a cell where they agree',
     'Each operation of the crystal is identified with the operation of the tables that has the same rotation in the reference cell and a translation that differs by a lattice '
     'vector of the crystal, within the threshold of the user; its translation difference and the sign of its spinor matrix are its own; operations are then kept in the order of the tables. '
     'Operations without counterpart, with another translation, or matched twice are refused, and a cell transformation found automatically is always one for which all operations match, '
     'every inversion center of the conventional cell being tried in centrosymmetric groups.',
     'inputs', 'all permutations, lattice translations, spinor matrices, transformations of the cell and shifts of the origin',
     'The tests run through two crystals in which operations come in the order of the tables up to simple permutations.',
     'irrep/spacegroup.py',
     [('matching', 'irrep/spacegroup.py:SpaceGroup.match_symmetries'), ('signs', 'irrep/spacegroup.py:SpaceGroup.__match_spinor_rotations'),
      ('cell', 'irrep/spacegroup.py:SpaceGroup.determine_basis_transf, vecs_centering, vecs_inv_centers'), ('order', 'irrep/spacegroup.py:SpaceGroup.__init__')],
     ['SpaceGroup.symmetries', 'refUC and shiftUC', 'RuntimeError'],
     'abstract interpretation under premises (which operation is which), branches decided by evaluating their conditions in random models of the premise, results compared with the premise',
     'Lists of one to five operations; the numerical minimisation is trusted to return a minimum.')

prop('C26', 'Axis, angle, inversion and spinor matrix of every operation are those of its rotation',
     'For every rotation or rotoinversion of a crystal, in any cell and any orientation of it in space, a SymmetryOperation has inversion == (determinant < 0); a unit axis and an angle in (-pi, pi] '
     'such that the rotation by the angle about the axis, times the determinant, is the cartesian rotation matrix; the spinor matrix exp(-i angle/2 axis.sigma); and its translation reduced to [0,1), '
     'lattice vectors up to rounding being zero. None of them is refused, and the description that is printed shows number, axis, angle as a fraction of pi, and inversion of the operation.',
     'inputs', 'all rotations of the cubic and hexagonal holohedries, cells, orientations, translations, and eigenvectors in any order, sign and phase',
     'The tests run a few crystals in one orientation, and compare neither axes nor angles nor spinor matrices.',
     'irrep/spacegroup.py',
     [('geometry', 'irrep/spacegroup.py:SymmetryOperation.__init__, _get_operation_type'), ('text', 'irrep/spacegroup.py:SymmetryOperation.get_angle_str, show')],
     ['SymmetryOperation.axis, angle, inversion, spinor_rotation, translation, angle_str', 'printed description'],
     'abstract interpretation of the constructor to closed forms of rotation, translation and cell, evaluated for all crystallographic operations in random cells and compared with the Rodrigues formula',
     'Eigenvectors are assumed of unit norm and real for real eigenvalues of real matrices, as LAPACK returns them.')

prop('C22', 'Zak phases, gaps and Wannier charge centers along a closed path follow their definitions',
     'For the k-points of a path closed by a reciprocal lattice vector, with any numbers of bands at them, zakphase returns for n = 1...(smallest number of bands) the sum over all links, the closing one included, '
     'of the phases of the determinants of the overlaps of the lowest n states, in [0, 2 pi); the lowest energy of band n+1 minus the highest energy of band n over all k-points, the middle between these two, and the '
     'smallest separation of bands n and n+1 at one k-point (infinite for the last n). wcc returns the sorted phases, in units of 2 pi in [0,1), of the eigenvalues of the ordered product of the unitary parts of '
     'all overlaps. The command line prints these numbers for the right number of bands and subspace.',
     'inputs', 'all overlap matrices, energies, numbers of k-points and of bands',
     'No test runs either option, and mistakes in a link or the order of the product show only for some paths.',
     'irrep/bandstructure.py irrep/cli.py',
     [('phases', 'irrep/bandstructure.py:BandStructure.zakphase, wcc'), ('text', 'irrep/cli.py:cli')],
     ['arrays returned by zakphase() and wcc()', 'lines printed for -zak and -wcc'],
     'abstract interpretation of both methods with symbolic overlaps to closed forms, evaluated for random overlaps and compared with the definitions',
     'The overlap matrix between two k-points itself is the subject of C04.')

prop('C15', 'Every record of a calculation is read from the right file, at its position and with its layout',
     'For each code, with or without spinors, spin channels, PAW, for any number of atoms, species, pseudopotentials, symmetries, shifts of the k-grid, k-points, bands and plane waves: the files opened are those of the '
     'calculation; every read of WAVECAR starts at a record and takes numbers of the type stored there, at least as many as belong to it; and every record of a WFK, wfc*.dat or UNK* file is read with exactly '
     'the sequence of items that the format prescribes for the record at that position (headers, one record per pseudopotential, two for PAW, a block per k-point). A well-formed file is never refused.',
     'inputs', 'all sizes that occur in the headers, all codes and their variants, all k-points and bands',
     'The files of the tests have one combination of sizes each (no PAW, unshifted grids), and wrong offsets show up only when a size differs.',
     'irrep/readfiles.py',
     [('WAVECAR', 'irrep/readfiles.py:WAVECARFILE.record, ParserVasp'), ('WFK', 'irrep/readfiles.py:ParserAbinit.parse_header, parse_kpoint'),
      ('wfc*.dat and UNK', 'irrep/readfiles.py:ParserEspresso.parse_kpoint, ParserW90.parse_kpoint, parse_grid')],
     ['reads of binary files: name, position, format'],
     'abstract interpretation of the readers; position, format and name of every read are closed forms over the sizes and loop indices, evaluated for all indices and compared with the layout of the format',
     'The layouts are transcribed from the documentation of the codes; marker sizes of Fortran records (fortio) are trusted.')

prop('C14', 'No step from well-formed input to output fails with an internal error',
     'For well-formed input and any accepted combination of options, no function of irrep or irreptables - whether of a code, variant, option or output in common use or in rare use - dies of an internal error: '
     'a name, attribute, method, keyword or module member that does not exist, a variable used before any assignment, arguments that do not fit a signature, results unpacked into another number of names, format '
     'fields without values, command-line options that are no parameters, arrays of shapes that cannot be combined, indices outside lists, operations on None or on values of the wrong type.',
     'configurations inputs', 'all functions of both packages; all codes, variants, options and methods that the abstract runs of the other properties go through',
     'Python detects none of these before the statement is executed, and the tests go through few of the branches.',
     'irrep/bandstructure.py irrep/kpoint.py irrep/readfiles.py irrep/spacegroup.py irrep/gvectors.py irrep/utility.py irrep/cli.py irreptables/irreptables/__init__.py',
     [('all functions of both packages', 'irrep/*.py, irreptables/irreptables/__init__.py'), ('rarely used branches', 'irrep/readfiles.py, irrep/cli.py, irrep/kpoint.py')],
     ['internal errors (AttributeError, NameError, TypeError, IndexError, ...)'],
     'name, attribute, signature, unpacking, format and definite-assignment analysis of the syntax trees, and search of all abstract runs (about 570) for operations that fail on a feasible path',
     'An operation counts as failing if it fails for every value that its operands can have there; attributes are those of the classes and of the numpy stubs.')

prop('C12', 'The same input gives the same output',
     'Every result of a calculation - values returned, attributes of the objects, printed text and written files - is a function of the input alone: the same files and options give the same result in every process. '
     'No result depends on the order in which the elements of a set of strings come (which changes from one process to the next), on random numbers, the time, the process or the listing of directories, '
     'or on memory that has been allocated and not yet written.',
     'inputs runs', 'all codes and options, all processes (seeds of string hashes), all contents of fresh memory',
     'A test is run with one hash seed and usually finds fresh memory zero; results that vary between runs pass by chance.',
     'irrep/readfiles.py irrep/bandstructure.py irrep/kpoint.py irrep/spacegroup.py irrep/gvectors.py irrep/cli.py irreptables/irreptables/__init__.py',
     [('species', 'irrep/readfiles.py:ParserEspresso, ParserVasp, ParserW90'), ('states', 'irrep/kpoint.py:Kpoint'), ('options', 'irrep/cli.py:cli')],
     ['values, attributes, files and text of two runs with the same input'],
     'abstract interpretation that marks the order of sets, and np.empty memory, and follows both to results; queries of the syntax tree for sources of randomness, time and directory order',
     'Order of sets of numbers is the same in every process of CPython and is not counted; libraries are trusted to be deterministic.')

prop('C13', 'Analysis and output leave what they are given unchanged',
     'Methods that analyse, print or export - of band structures, k-points, space groups, symmetry operations and tables - leave the objects they are called on and the arguments they are given as they were: energies, wave functions, '
     'plane waves, characters, irreps, symmetries, cells and lists keep their values, so that a second call, or another analysis afterwards, gives the same result as if the first had not been made. '
     'The exceptions are the attributes that a method exists to set (labels of irreps by identify_irreps, for example).',
     'inputs histories', 'all methods that analyse or export, all values of their arguments and objects, all sequences of such calls',
     'The tests make one call of each kind, and compare its output only.',
     'irrep/bandstructure.py irrep/kpoint.py irrep/spacegroup.py irrep/gvectors.py irrep/utility.py irreptables/irreptables/__init__.py',
     [('k-points', 'irrep/kpoint.py:Kpoint.Separate, unfold, json, write_characters, overlap'), ('band structures', 'irrep/bandstructure.py:BandStructure.zakphase, wcc, Separate, json, plot'),
      ('space groups', 'irrep/spacegroup.py:SpaceGroup.show, json, write_trace, get_irreps_from_table')],
     ['attributes and arguments before and after each call'],
     'abstract interpretation that follows aliases of arrays, lists and records; every object reachable from the arguments is compared, before and after the call, in random models',
     'Changes that numpy makes inside functions of libraries are known for the functions that irrep uses only.')
