#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property list)."""
import json, os
H='include/macis/'
S='src/sparsexx/include/sparsexx/'
M='src/macis/'
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=(),obs=()):
    assert len(title)<=80,title
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(obs),hook_needed=None)))

p('P01','Determinant bit strings behave as ordered sets of orbitals at every width',
 'A determinant stored as a fixed-width bit string is a set of spin orbitals: first/last set bit, population count, lists of set bits, splitting into and merging from the two spin halves, truncation, widening, mask filling and conversion to machine words all agree with that set. The "less than" comparison on bit strings is the numeric order of the string (a strict total order), and the printed occupation string names exactly the occupied orbitals. This is true for every supported width (32, 64, 128, 256 and other multiples), including bits at word boundaries.',
 ['inputs','configurations'],'every bit string, every supported width',
 'Tests use a handful of strings, chiefly 32/64/128 bits; each width takes a different compiled path and word-boundary bits are not all exercised.',
 [H+'bitset_operations.hpp',H+'types.hpp',H+'sd_operations.hpp'],
 [('ffs/fls/full_mask/bitset_lo_word/bitset_less',H+'bitset_operations.hpp'),('comparators',H+'bitset_operations.hpp')])
p('P02','Excitation generation is complete, duplicate-free and electron-conserving',
 'From any determinant, the generated single, double and combined excitation lists (one spin or both) contain exactly the determinants reachable by moving one or two electrons from occupied to empty orbitals without changing the number of electrons of either spin, each exactly once. The occupied and empty orbital lists partition the orbital range. Output containers hold only the result of the current call.',
 ['inputs','configurations','histories'],'every determinant, orbital count and bit width, including full, empty and one-electron strings, and repeated calls reusing the same containers',
 'Tests check one or two hand-made determinants; completeness and uniqueness are statements over all determinants.',
 [H+'sd_operations.hpp',H+'bitset_operations.hpp'],
 [('generate_*singles/doubles*',H+'sd_operations.hpp'),('bitset_to_occ_vir',H+'sd_operations.hpp')])
p('P03','Enumerated CI spaces are exactly the combinatorial spaces',
 'Enumerating the full CI space for given orbital and electron counts yields every determinant with those counts exactly once, and the CIS and CISD spaces around a reference are exactly that reference plus its single (and double) excitations, each once. The Hartree-Fock reference occupies the lowest orbitals of each spin (or the energetically lowest when orbital energies are given). The number of strings is the binomial count.',
 ['inputs','configurations'],'every (orbitals, alpha, beta) combination and bit width; every ordering of orbital energies',
 'Tests check sizes for one or two systems.',
 [H+'sd_operations.hpp'],
 [('generate_hilbert_space/generate_combs/generate_cisd_hilbert_space/canonical_hf_determinant',H+'sd_operations.hpp')])
p('P04','Hamiltonian matrix elements equal those of the second-quantised operator',
 'For any two determinants with the same number of electrons of each spin the computed Hamiltonian matrix element equals the expectation of the electronic Hamiltonian defined by the one- and two-electron integrals, with the correct fermionic sign, is symmetric in bra and ket, and vanishes beyond double excitations. Diagonal elements obtained by incremental update from a neighbouring determinant equal the directly computed diagonal element. The result depends neither on the bit width nor on how the excitation rank is evaluated.',
 ['inputs','configurations'],'every pair of determinants, all integral tables with the usual permutation symmetry, all bit widths',
 'Tests compare one molecule against stored numbers; sign and phase errors need particular occupation patterns between the excited orbitals.',
 [H+'hamiltonian_generator.hpp',H+'hamiltonian_generator/matrix_elements.hpp',H+'hamiltonian_generator/fast_diagonals.hpp',H+'hamiltonian_generator/impl.hpp',H+'sd_operations.hpp'],
 [('matrix_element*',H+'hamiltonian_generator/matrix_elements.hpp'),('fast_diag_*',H+'hamiltonian_generator/fast_diagonals.hpp'),('single/doubles_sign_indices',H+'sd_operations.hpp')])
p('P05','Sparse Hamiltonian blocks hold exactly the significant elements',
 'The sparse Hamiltonian built for a list of bra and ket determinants has exactly one entry for each pair whose matrix element exceeds the threshold in magnitude, with that value, in a well-formed row-compressed layout; nothing else is stored and nothing is lost. The result is independent of whether bra and ket lists coincide, of list order and of how the list is cut into blocks.',
 ['inputs','configurations'],'every bra/ket list, ordering, blocking, threshold and bit width',
 'Tests compare one CISD matrix with stored arrays (missing from the tree here), with sorted identical bra and ket lists only.',
 [H+'csr_hamiltonian.hpp',H+'hamiltonian_generator/double_loop.hpp',H+'hamiltonian_generator.hpp'],
 [('make_csr_hamiltonian_block_',H+'hamiltonian_generator/double_loop.hpp')])
p('P06','The distributed Hamiltonian and its action do not depend on the process count',
 'Building the Hamiltonian distributed over any number of processes gives row blocks that together are exactly the serial matrix, split into on-process and off-process parts without loss or duplication, and applying it to a distributed vector gives the serial matrix-vector product. This holds when there are more processes than rows and when blocks are empty or uneven.',
 ['configurations','schedules','inputs'],'all process counts, row partitions and determinant lists',
 'Tests run with one or two processes on one matrix; partition edge cases depend on the process count.',
 [H+'csr_hamiltonian.hpp',S+'matrix_types/dist_sparse_matrix.hpp',S+'spblas/pspmbv.hpp'],
 [('make_dist_csr_hamiltonian',H+'csr_hamiltonian.hpp'),('pgespmv/generate_spmv_comm_info',S+'spblas/pspmbv.hpp')])
p('P07','Reduced density matrices are exact expectation values',
 'The one- and two-particle density matrices formed from a CI vector are the expectation values of the corresponding spin-summed operators (for the two-particle matrix up to the index symmetries of real integrals): the one-particle matrix traces to the electron count, and contracting both with the integrals reproduces the quadratic form of the Hamiltonian. Requesting only the one-particle matrix gives the same one-particle matrix as requesting both.',
 ['inputs','configurations'],'every determinant list, CI vector and bit width',
 'Tests compare one vector against a stored file; sign patterns and the one-matrix-only call path are not reached.',
 [H+'util/rdms.hpp',H+'hamiltonian_generator/rdms.hpp',H+'hamiltonian_generator/double_loop.hpp'],
 [('rdm_contributions*',H+'hamiltonian_generator/rdms.hpp'),('form_rdms',H+'hamiltonian_generator/double_loop.hpp')])
p('P08','Work-partition constraints divide the excitation space without gap or overlap',
 'The constraints used to share out the excitation space classify every spin string with at least as many electrons as a constraint fixes into exactly one constraint, however far constraints are subdivided; the per-constraint generators of singles and doubles return exactly the excitations that satisfy the constraint, and the per-constraint counts predicted for load balancing equal the counts actually generated. The assignment of constraints to processes gives each to exactly one process.',
 ['inputs','configurations'],'every string, subdivision depth, orbital count, process count and generating determinant',
 'Tests compare aggregate counts for one system; a gap or overlap concerns individual strings for specific subdivisions.',
 [H+'asci/mask_constraints.hpp'],
 [('satisfies_constraint/generate_constraint_*',H+'asci/mask_constraints.hpp'),('dist_constraint_general/constraint_histogram',H+'asci/mask_constraints.hpp')])
p('P09','ASCI search selects the best-scoring determinants and keeps no duplicates',
 'Given a trial wavefunction, the ASCI search returns the requested number of distinct determinants (fewer only when fewer candidates exist), all with the right electron counts, and with pruning disabled no determinant reachable by a single or double excitation from the core determinants but left out has a strictly larger perturbative score than one that was taken. If fewer candidates than requested exist, all of them (and all the core determinants) are returned. With pruning enabled (too many contributions at hand) the same holds up to the pruning tolerance per core determinant, and the search always ends.',
 ['inputs','configurations'],'every Hamiltonian, trial wavefunction, core size and target size',
 'Tests check sizes and energies for one molecule; a wrong score or a dropped contribution merely shifts an energy slightly.',
 [H+'asci/determinant_search.hpp',H+'asci/determinant_contributions.hpp',H+'asci/determinant_sort.hpp'],
 [('asci_search/asci_contributions_standard',H+'asci/determinant_search.hpp'),('append_*_asci_contributions',H+'asci/determinant_contributions.hpp')])
p('P10','ASCI search results do not depend on the number of processes',
 'The set of determinants selected by the ASCI search is the same for every number of processes, up to exact ties at the cut-off, and every process returns the identical list; pruning changes scores by at most the pruning tolerance per core determinant. Work-partitioning options affect only speed.',
 ['configurations','schedules','inputs'],'all process counts and partitioning options, all Hamiltonians and trial wavefunctions',
 'Tests run the search with one or two processes on one molecule and compare only a final energy.',
 [H+'asci/determinant_search.hpp',H+'asci/mask_constraints.hpp',H+'util/dist_quickselect.hpp'],
 [('asci_contributions_constraint',H+'asci/determinant_search.hpp'),('dist_quickselect + allgatherv merge',H+'asci/determinant_search.hpp')])
p('P11','Contributions to the same determinant are summed exactly once',
 'Sorting and accumulating a list of (determinant, score) contributions yields one entry per distinct determinant whose score is the sum of all its contributions; no determinant is lost, invented or left duplicated, whatever the order or multiplicity of the input. Orderings by determinant and by score are true sorts.',
 ['inputs'],'every contribution list, including empty, one-element, all-equal and already sorted lists',
 'Only exercised indirectly through whole ASCI runs.',
 [H+'asci/determinant_sort.hpp'],
 [('sort_and_accumulate_asci_pairs/reorder_ci_on_*',H+'asci/determinant_sort.hpp')])
p('P12','Distributed selection returns the k-th element on every process and terminates',
 'For any distribution of values over any number of processes (including empty processes and repeated values) and any valid rank k, distributed selection returns the k-th largest (or smallest) value of the combined multiset, the same on every process, and always terminates. It never changes the combined multiset of values held by the processes.',
 ['inputs','configurations','schedules'],'all distributions of values, process counts, k and tie patterns',
 'Tests use random reals (ties practically impossible) on one or two processes.',
 [H+'util/dist_quickselect.hpp'],
 [('dist_quickselect',H+'util/dist_quickselect.hpp')])
p('P13','Parallel routines never mismatch collectives or deadlock',
 'In every parallel routine all processes call the same sequence of collective operations with compatible roots, counts and types, and every message sent is received, so that the routine completes on any number of processes and under any message timing. Type-aware communication helpers (including those for wide bit strings and in-place reductions) deliver exactly the data sent.',
 ['schedules','configurations','inputs'],'all process counts and all data-dependent branches of the parallel routines',
 'Tests use at most two processes; a mismatch needs a data distribution that makes processes take different branches.',
 [H+'util/mpi.hpp',H+'util/dist_quickselect.hpp',H+'solvers/davidson.hpp',H+'solvers/selected_ci_diag.hpp',H+'asci/determinant_search.hpp',S+'util/mpi.hpp',S+'spblas/pspmbv.hpp'],
 [('collective wrappers',H+'util/mpi.hpp'),('p_davidson/p_diagonal_guess',H+'solvers/davidson.hpp')])
p('P14','Sparse format conversions preserve the matrix',
 'Converting a sparse matrix between coordinate, compressed-row, compressed-column and dense forms, with zero- or one-based indexing, sorting it and expanding a stored triangle keep every entry at its place with its value; the reported sizes and entry counts match. Any chain of such operations leaves the mathematical matrix unchanged (apart from the expansion asked for).',
 ['inputs','histories','configurations'],'every sparsity pattern (empty rows and columns, rectangular, unsorted), both index bases, every chain of conversions',
 'Tests use one fixed small square matrix with no empty rows.',
 [S+'matrix_types/conversions.hpp',S+'matrix_types/coo_conversions.hpp',S+'matrix_types/dense_conversions.hpp',S+'matrix_types/coo_matrix.hpp',S+'matrix_types/coo_matrix_ops.hpp',S+'matrix_types/csr_matrix.hpp',S+'matrix_types/csc_matrix.hpp'],
 [('converting constructors',S+'matrix_types/conversions.hpp'),('sort/expand/determine_indexing',S+'matrix_types/coo_matrix_ops.hpp')])
p('P15','Sparse times dense products equal the mathematical product',
 'The product alpha*A*V + beta*W computed from any supported sparse storage, index base, number of columns and leading dimension equals the mathematical result and writes nothing outside the result; the distributed product equals the serial one for every row partition and process count; the number of threads never matters.',
 ['inputs','configurations','schedules'],'every matrix, scalars, block width, leading dimension, partition and process count',
 'Tests use one matrix with default scalars and one or two processes.',
 [S+'spblas/spmbv.hpp',S+'spblas/pspmbv.hpp',S+'matrix_types/dist_sparse_matrix.hpp'],
 [('gespmbv',S+'spblas/spmbv.hpp'),('pgespmv',S+'spblas/pspmbv.hpp')])
p('P16','Sparse submatrix, permutation and graph operations return exactly the right part',
 'For a compressed-row matrix with ascending column indices in each row, extracting a submatrix, the complement of a column range, the upper triangle or the diagonal, taking the trace, permuting rows and/or columns (or composing/inverting permutations) and building the adjacency graph of a sparse matrix return exactly the corresponding part or rearrangement of its entries, for every legal range, permutation and index base and any number of threads.',
 ['inputs','configurations'],'every sparsity pattern, index range, permutation and index base',
 'Tests cover one small matrix and one permutation.',
 [S+'util/submatrix.hpp',S+'util/permute.hpp',S+'util/graph.hpp'],
 [('extract_*',S+'util/submatrix.hpp'),('permute_*',S+'util/permute.hpp')])
p('P17','Sparse matrix files read back as the matrix that was written',
 'Writing a sparse matrix as a coordinate text file or a binary triplet file and reading it back, in any supported in-memory format and any index base the file reveals (zero-based files are recognised by an index zero), yields the same matrix, including its dimensions; a distributed matrix is written as the whole matrix. Compressed-column exchange text is read as the matrix it describes, whether real or a mere pattern. One triangle, with a symmetric header or in a square binary triplet file, is read as the full symmetric matrix. Blank lines and the kind of white space mean nothing; files that are missing or cut short are refused.',
 ['inputs','configurations'],'every matrix, format, index base and header kind',
 'No test writes and re-reads a file with empty rows, rectangular shape or one-based indices.',
 [S+'io/write_mm.hpp',S+'io/read_mm.hpp',S+'io/read_binary_triplets.hpp',S+'io/write_binary_triplets.hpp',S+'io/read_rb.hpp',S+'io/write_dist_mm.hpp'],
 [('read_*/write_*',S+'io')])
p('P18','Wavefunction, integral and density-matrix files read back as written',
 'A wavefunction, integral table or pair of density matrices written to a file and read back, in the same or a later call of the same process, is the data that was written: same determinants in order, same coefficients to the printed precision, same integrals with all eight index permutations filled in, same core energy and orbital count. Writing replaces an existing file and touches no other; a file of another program that lists one representative per symmetry class, in any order, with headers and orbital energies, means the same tables; density-matrix files of another size, cut short or missing, and integral files with a line that names a negative orbital are refused.',
 ['inputs','histories'],'all wavefunctions, orbital counts, integral tables; all sequences of writes and reads',
 'Tests only read one stored file of each kind and never write.',
 [H+'wavefunction_io.hpp',H+'util/fcidump.hpp',M+'fcidump.cxx',H+'util/detail/rdm_files.hpp',H+'util/binary_rdms.hpp'],
 [('read/write_wavefunction',H+'wavefunction_io.hpp'),('read/write_fcidump, read/write_rdms_binary',M+'fcidump.cxx')])
p('P19','Integral basis transformations are the exact multilinear transformation',
 'Transforming one- and two-electron integrals by a coefficient matrix gives the sum over old indices weighted by one coefficient per index, for square and rectangular coefficient matrices and any legal leading dimensions; the identity leaves the tables unchanged and transformations compose.',
 ['inputs','configurations'],'all dimensions, coefficient matrices and leading dimensions',
 'Tests use random square matrices compared with the same formula at one size.',
 [M+'transform.cxx',H+'util/transform.hpp'],
 [('two_index_transform/four_index_transform',M+'transform.cxx')])
p('P20','Active-space reduction and generalised Fock quantities preserve the energy',
 'Freezing inactive orbitals gives an active Hamiltonian and inactive energy whose active-space expectation value equals the full-space expectation value of the corresponding determinants or wavefunctions; the inactive, active and generalised Fock matrices are the defined contractions of integrals and density matrices, and the energy recovered from the generalised Fock matrix equals the energy from the density matrices.',
 ['inputs','configurations'],'all inactive/active/virtual splits (including empty classes), integrals and density matrices',
 'Tests compare one molecule and one split with stored values.',
 [M+'fock_matrices.cxx',H+'util/fock_matrices.hpp',M+'orbital_energies.cxx'],
 [('active_hamiltonian/inactive_fock_matrix/generalized_fock_matrix',M+'fock_matrices.cxx')])
p('P21','Orbital-rotation parameters, gradients and Hessian products are consistent',
 'Packing non-redundant orbital-rotation parameters into an antisymmetric matrix and unpacking are mutually inverse, the packed gradient is twice the antisymmetric part of the generalised Fock matrix on the non-redundant pairs, rotations generated from antisymmetric matrices are the matrix exponential and orthogonal with determinant one, the gradient is the first derivative of the energy of the rotated orbitals, and the Hessian-vector product is its symmetric second derivative (for vanishing active-active gradient), in agreement with the numerical derivatives.',
 ['inputs','configurations'],'all inactive/active/virtual splits (including empty classes) and parameter vectors',
 'Tests touch the gradient only through converged optimisations.',
 [M+'orbital_rotation_utilities.cxx',M+'orbital_gradient.cxx',M+'orbital_hessian.cxx',M+'orbital_steps.cxx',H+'util/orbital_rotation_utilities.hpp',H+'util/orbital_hessian.hpp'],
 [('linear_orb_rot_to_matrix/matrix_to_linear_orb_rot/fock_to_linear_orb_grad',M+'orbital_rotation_utilities.cxx')])
p('P22','ASCI growth and refinement obey their stopping and size contracts',
 'Growing an ASCI wavefunction increases its size monotonically by at most the growth factor up to exactly the requested size, or fails visibly; refinement keeps the size, stops when two successive energies agree within tolerance and fails visibly if that never happens within the iteration limit. Each round searches from the determinants with the largest coefficients, whatever order they come in. The returned energy, coefficients and determinants always belong together: coefficients are normalised, one per determinant, and the energy is their Hamiltonian expectation value.',
 ['histories','inputs','configurations'],'all settings, starting wavefunctions and Hamiltonians',
 'Tests run two fixed settings on one molecule.',
 [H+'asci/grow.hpp',H+'asci/refine.hpp',H+'asci/iteration.hpp'],
 [('asci_grow',H+'asci/grow.hpp'),('asci_refine',H+'asci/refine.hpp'),('asci_iter',H+'asci/iteration.hpp')])
p('P23','DIIS keeps the most recent vectors and extrapolates with weights summing to one',
 'The extrapolation accelerator remembers exactly the most recent vectors up to its capacity, discarding the oldest first, and its extrapolated vector is the combination with weights summing to one that minimises the norm of the equally combined error vectors. This holds for any sequence of additions and extrapolations.',
 ['histories','inputs'],'all sequences of additions and extrapolations, all capacities',
 'No test targets it; it is only used inside one orbital optimisation.',
 [H+'util/diis.hpp'],
 [('DIIS::add_vector/extrapolate',H+'util/diis.hpp')])
p('P24','The Davidson solver returns the lowest eigenpair or reports failure',
 'On a symmetric matrix the Davidson solver, serial or distributed over any number of processes, either returns a normalised vector and an eigenvalue whose residual is below the requested tolerance, which is never above the energy of the (normalised) guess and, for a tight tolerance and a guess within one connected block of the matrix that overlaps its lowest eigenvectors, is the lowest eigenvalue of that block, or reports that it did not converge; for a guess within one connected block it does not fail when the subspace may grow to the whole coupled space, and it never returns an unconverged or non-finite result. The default starting guess is the unit vector of the smallest diagonal element, held by exactly one process.',
 ['inputs','configurations','schedules'],'all symmetric matrices, guesses, tolerances, subspace limits and process counts',
 'Tests solve one random matrix and one molecule with one or two processes.',
 [H+'solvers/davidson.hpp'],
 [('davidson/p_davidson/diagonal_guess/p_diagonal_guess/gram_schmidt',H+'solvers/davidson.hpp')])
p('P25','CI ground states are the exact ground states of the chosen determinant space',
 'Solving the CI problem in a determinant list returns an eigenvalue of the Hamiltonian in that list, the lowest one whose state overlaps the starting vector (by default the determinant of lowest energy; a supplied vector, where it is large enough to be one) or lower, with matching normalised coefficients given on each process as its block of rows, independently of determinant order, supplied guess and process count; complete-active-space calculations additionally return density matrices of that state. Permuting the list permutes the coefficients (up to overall sign).',
 ['inputs','configurations','schedules'],'all Hamiltonians, determinant lists, orders, guesses and process counts',
 'Tests compare a single molecule with stored energies.',
 [H+'solvers/selected_ci_diag.hpp',H+'util/cas.hpp'],
 [('selected_ci_diag',H+'solvers/selected_ci_diag.hpp'),('compute_casci_rdms',H+'util/cas.hpp')])
p('P26','Orbital optimisation keeps energy, orbitals and density matrices consistent',
 'A complete-active-space orbital optimisation returns an energy equal to core plus inactive plus density-matrix energy of the final orbitals and announces convergence only when the orbital gradient is below tolerance; started near a minimum it returns that minimum whatever the step limit and acceleration settings, never an energy above that of its starting point. It reuses supplied density matrices when their trace matches the electron count and recomputes them otherwise, honours every leading dimension, takes no more iterations than allowed, and before extrapolation sets in no iteration moves the orbitals by more than the step limit and stopping and going on from the orbitals reached changes nothing.',
 ['inputs','configurations','histories'],'all orbital splits, integrals and settings',
 'Tests run two or three molecules to a stored energy.',
 [H+'util/mcscf_impl.hpp',M+'casscf.cxx',H+'util/mcscf.hpp',M+'orbital_steps.cxx'],
 [('mcscf_impl',H+'util/mcscf_impl.hpp')])
p('P27','The block eigensolver returns the requested lowest eigenpairs or fails visibly',
 'The block preconditioned eigensolver either returns the requested number of lowest eigenvalues in ascending order with matching orthonormal vectors and residuals under the tolerance according to the chosen convergence test, or raises an error; undersized workspace and invalid settings are rejected and a workspace query changes nothing. The convergence history, when requested, has one complete record per iteration.',
 ['inputs','configurations','histories'],'all symmetric matrices, block sizes, settings, preconditioners',
 'There is only an example program for it.',
 ['src/lobpcgxx/include/lobpcgxx/driver.hpp','src/lobpcgxx/include/lobpcgxx/convergence.hpp','src/lobpcgxx/include/lobpcgxx/cholqr.hpp','src/lobpcgxx/include/lobpcgxx/rayleigh_ritz.hpp','src/lobpcgxx/include/lobpcgxx/residuals.hpp','src/lobpcgxx/include/lobpcgxx/simplified_interface.hpp','src/lobpcgxx/include/lobpcgxx/operator.hpp'],
 [('lobpcg','src/lobpcgxx/include/lobpcgxx/driver.hpp')])
p('P28','Quasi-Newton minimisation and line searches honour their contracts',
 'A line search that returns normally returns a point on the search line together with the function value and gradient of exactly that point, satisfying its decrease condition, and otherwise raises an error; the quasi-Newton minimiser never increases the function, maintains a Hessian approximation satisfying the secant condition for the latest step, and either meets its convergence test or raises an error.',
 ['inputs','histories'],'all smooth functions, starting points, step histories and initial Hessian choices',
 'No test exercises it.',
 [M+'bfgs/bfgs.hpp',M+'bfgs/bfgs_hessian.hpp',M+'bfgs/line_search.hpp'],
 [('bfgs',M+'bfgs/bfgs.hpp'),('line searches',M+'bfgs/line_search.hpp'),('BFGSHessian',M+'bfgs/bfgs_hessian.hpp')])
p('P29','Second-order perturbation amplitudes and natural orbitals are consistent',
 'Canonical orbital energies, second-order amplitudes and the resulting one-particle density matrix follow their defining sums over occupied and virtual orbitals, the density matrix traces to the electron count, and the natural orbitals diagonalise it with occupations in descending order.',
 ['inputs','configurations'],'all orbital splits, integrals and leading dimensions',
 'No test exercises it.',
 [M+'moller_plesset.cxx',M+'orbital_energies.cxx',H+'util/moller_plesset.hpp',H+'util/orbital_energies.hpp'],
 [('mp2_t2/mp2_1rdm/mp2_natural_orbitals',M+'moller_plesset.cxx'),('canonical_orbital_energies',M+'orbital_energies.cxx')])
p('P30','Legacy determinants, Hamiltonians and densities match second quantisation',
 'In the legacy solver, the full space contains each determinant once, the single and double excitations of a determinant are complete and carry the fermionic sign, applying creation and annihilation operators follows the anticommutation rules, and Hamiltonian elements between determinants equal those of the second-quantised operator. The pair lists hold every connected pair of states once, the sparse Hamiltonian of a set of determinants holds exactly its non-vanishing elements, and the one- and two-body density matrices of a state are its exact expectation values.',
 ['inputs'],'all determinants of up to 32 orbitals, all determinant sets, integrals and states',
 'The legacy test program only prints the space.',
 ['attic/src/cmz_ed/slaterdet.c++','attic/inc/cmz_ed/slaterdet.h++','attic/src/cmz_ed/combins.c++','attic/src/cmz_ed/hamil.c++','attic/src/cmz_ed/rdms.c++'],
 [('slater_det','attic/src/cmz_ed/slaterdet.c++'),('FermionHamil','attic/src/cmz_ed/hamil.c++')])
p('P31','Legacy integral and density tables keep their meaning through all operations',
 'In the legacy solver, integrals read from a file are exactly those the file states (with the stated symmetries, the first entry winning, malformed entries refused), survive being written and read back, and are refused when the orbital count disagrees. Orbital rotations of integrals and density matrices are the exact multilinear transforms, restriction to an active space picks exactly its entries, and the density matrices of the whole system assembled from an active space are those of the doubly occupied orbitals times the active state. Settings files give every key its value and refuse duplicates.',
 ['inputs','histories'],'all integral files, tables, rotations, active-space splits and settings files',
 'No legacy test reads more than one small file, and none checks the tables.',
 ['attic/inc/cmz_ed/integrals.h++','attic/inc/cmz_ed/rdms.h++','attic/inc/cmz_ed/utils.h++','attic/src/cmz_ed/utils.c++'],
 [('integrals','attic/inc/cmz_ed/integrals.h++'),('rdms','attic/inc/cmz_ed/rdms.h++'),('ReadInput','attic/src/cmz_ed/utils.c++')])
p('P32','Legacy Krylov solvers return exact Ritz data, resolvents and ground states',
 'In the legacy solver, Lanczos and band Lanczos produce orthonormal Krylov vectors and the (band) tridiagonal matrix of the Hamiltonian in them, stopping short only when the space is exhausted; the returned ground state is the lowest eigenpair seen by the starting vector, convergence is announced only when two successive energies agree within tolerance, resolvents equal the exact ones when the space is exhausted and otherwise those of the projected matrix, and the dense helpers return complete ordered orthonormal eigensystems and QR factors. The exact-diagonalisation driver returns the energy and density matrices of one and the same ground state, including the core energy.',
 ['inputs','configurations'],'all symmetric matrices, starting vectors, band widths, iteration limits, frequencies and small Hamiltonians',
 'Legacy tests compare two ground-state energies; resolvents are never tested.',
 ['attic/inc/cmz_ed/lanczos.h++','attic/inc/cmz_ed/bandlan.h++','attic/src/cmz_ed/bandlan.c++','attic/src/cmz_ed/eigsolver.c++','attic/src/cmz_ed/ed.c++'],
 [('MyLanczos/GetGS','attic/inc/cmz_ed/lanczos.h++'),('MyBandLan','attic/inc/cmz_ed/bandlan.h++'),('BandResolvent/QRdecomp/GetEigsys','attic/src/cmz_ed/bandlan.c++'),('RunED','attic/src/cmz_ed/ed.c++')])
if __name__=='__main__':
    out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
    with open(out,'w') as f:
        for r in P: f.write(json.dumps(r)+'\n')
    print(len(P))
