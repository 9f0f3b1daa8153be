#!/usr/bin/env python3
"""single source for properties.jsonl and MANIFEST.json"""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IN, HI, CO = 'inputs', 'histories', 'configurations'
L = 'lib/mpslib/'
P = []


def prop(id, title, statement, over, text, why, files, mech, na=None, note=None, **extra):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    a.update(extra)
    P.append(dict(p=dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why, anchors=a), na=na, note=note))


MP, MF, EN, HA = L + 'mps.py', L + 'mpsfunctions.py', L + 'engines.py', L + 'Hamiltonians.py'

prop('S01', 'Moving the orthogonality centre never changes the represented state',
     'Moving the orthogonality centre of a finite matrix product state to any bond, through any sequence of moves, leaves the represented quantum state unchanged, including its norm and its global phase. The centre ends up at the requested bond.',
     [IN, HI], 'every choice of tensors (real or complex, unequal bond and local dimensions), every start bond and every sequence of target bonds, without truncation',
     'Tests only check orthonormality of the result for random float tensors; no test compares the amplitudes before and after, or a path of several moves.',
     [MP, MF], [('centre shift', MP + ':__position__'), ('tensor factorisation', MF + ':prepareTensor')])
prop('S02', 'Tensors left and right of the centre are isometries and the norm is recorded',
     'After the centre of a finite state has been placed at a bond by sweeping over a tensor, every tensor swept to its left is left-orthonormal, every tensor swept to its right is right-orthonormal, and the centre matrix has unit norm. The recorded scalar norm times the unit-norm centre form is exactly the norm of the state.',
     [IN, HI], 'every choice of tensors and dimensions and every centre position reachable by sweeps',
     'The existing tests sample random tensors at one size; they do not fix the recorded norm or states with unequal dimensions.',
     [MP, MF], [('centre shift', MP + ':__position__'), ('tensor factorisation', MF + ':prepareTensor'), ('orthogonality check', MF + ':ortho')])
prop('S03', 'Tensor factorisations reproduce their input and return isometries',
     'Each routine that splits a tensor into an isometry, a remainder and a norm (QR based or SVD based, either sweep direction) returns factors whose product is exactly the input tensor, whose isometric factor is an isometry on the documented side, and whose remainder has unit norm.',
     [IN, CO], 'every input tensor of every shape, either direction, with or without phase fixing and with truncation disabled',
     'Tests call the routines only through larger algorithms; a wrong transpose, missing norm or wrong phase on one branch survives them.',
     [MF], [('QR split', MF + ':prepareTensor'), ('SVD split', MF + ':prepareTensorSVD'), ('truncating split', MF + ':prepareTruncate'), ('wrappers', MF + ':svd/qr')])
prop('S04', 'Truncation keeps the largest Schmidt values, respects the cap and is exact otherwise',
     'A truncating step never keeps more singular values than the requested cap and never drops one above the threshold unless the cap forces it; the kept ones are the largest, renormalised to unit norm. The reported discarded weight is the sum of squares of what was dropped, and when nothing is dropped the state is unchanged.',
     [IN, CO], 'every spectrum (including degenerate and zero singular values), every cap and every threshold',
     'Tests truncate one random state with a loose accuracy bound; boundary cases (cap equal to rank, values equal to the threshold) are never reached.',
     [MF, MP], [('truncating split', MF + ':prepareTruncate'), ('two-site truncation', MP + ':__applyTwoSiteGate__'), ('chain truncation', MF + ':truncateMPS, ' + MP + ':truncate')])
prop('S05', 'State arithmetic is vector-space arithmetic',
     'Addition, subtraction, negation, in-place addition, multiplication and division by a scalar, and complex conjugation of finite matrix product states produce exactly the state the same vector-space operation gives on their amplitudes, wherever the orthogonality centres are. Operands of the non-in-place operations are not modified.',
     [IN, HI, CO], 'every pair of states (tensors, dimensions, real or complex, stored norms, centre positions) and every scalar',
     'Tests add states only with the centre at one end and check a few local observables; signs, stored norms, mid-chain centres and mixed real/complex operands are not covered.',
     [MP, MF], [('operators', MP + ':__add__/__iadd__/__sub__/__mul__/__neg__/...'), ('direct sum', MF + ':addMPS, ' + MF + ':directsum')])
prop('S06', 'Overlap is the sesquilinear inner product of the represented states',
     'The overlap of two finite states equals the inner product of their amplitude vectors (one of them complex conjugated), including stored norms and phases, for any centre positions. Computing it does not change either state.',
     [IN, HI, CO], 'every pair of states, any centre positions, given as objects or as tensor lists',
     'No existing test compares an overlap with an exact inner product.',
     [MF, MP], [('overlap', MF + ':overlap'), ('dot', MP + ':dot')])
prop('S07', 'Local expectation values and matrix elements equal their exact values',
     'Measuring a local operator at any site, a list of one operator per site, or local matrix elements between two states returns exactly the value obtained from the full amplitude vectors, for arbitrary (also non-Hermitian) operators, and leaves the state and its centre position unchanged.',
     [IN, HI, CO], 'every state, centre position, site, operator list and (for two-state elements) pair of states',
     'Tests compare measurements of diagonal operators before and after truncation only, to a loose tolerance; complex off-diagonal operators and two-state elements are untested.',
     [MP, MF], [('local measurement', MP + ':measureLocal/measureList/measureMatrixElementList'), ('list measurement', MF + ':measureLocal/matrixElementLocal')])
prop('S08', 'Multi-point correlators, including fermionic strings, equal their exact values',
     'Measuring a product of local operators at weakly increasing sites, optionally with fermionic sign strings, returns the expectation value of that operator product in the represented state, for any number and spacing of sites including repeated sites and chain ends.',
     [IN, CO], 'every state, every operator list and site list, even and odd fermion parity',
     'Two-point functions are measured in one disabled test; the documentation itself warns the routine could be wrong.',
     [MP], [('correlator', MP + ':measure')])
prop('S09', 'Environment blocks equal exact partial contractions',
     'Growing a left or right block by one site, with or without an operator, from any starting block, equals the exact contraction of that block with the tensors of the site; composing growth over a chain and closing it gives the exact matrix element, and left-grown and right-grown blocks agree at every cut.',
     [IN, CO], 'every block, tensors of bra and ket (independent of each other), operator tensor and direction, at unequal bond, operator and local dimensions',
     'Tests use the blocks inside converging algorithms with equal bra and ket; asymmetric index mistakes cancel there.',
     [MF, EN], [('layer growth', MF + ':addLayer/addELayer/initializeLayer'), ('chains', MF + ':getL/getR/contractMPO/contractE'), ('density', MF + ':computeDensity')])
prop('S10', 'Effective-Hamiltonian products are the projected Hamiltonian',
     'The products of the zero-site, one-site and two-site effective Hamiltonians with a vector equal the full operator projected onto the frame of the surrounding tensors, all implementation variants agree with each other, and they are Hermitian whenever the full operator is.',
     [IN, CO], 'every left and right block, operator tensor and centre vector, at unequal dimensions',
     'Tests only see converged energies, which hide errors that vanish at the fixed point or for symmetric inputs.',
     [MF], [('products', MF + ':HAproduct*/contractionH'), ('bond products', MF + ':HAproductBond/HAproductZeroSiteMat'), ('dense forms', MF + ':HAproductSingleSite*')])
prop('S11', 'Transfer operators act as exact tensor contractions and obey duality',
     'Applying a left or right transfer operator (single tensor, mixed, unit cell, or with a projector or momentum factor removed) to a vector equals the exact contraction; unit-cell operators are the ordered composition of the single-site ones, and left and right actions are adjoint to each other.',
     [IN, CO], 'every tensor (or pair of tensors), boundary vector, direction, unit-cell length and momentum of either sign',
     'Tests only check eigenvector residuals of one tensor with itself; mixed operators, momenta and multi-site composition are untested.',
     [MF], [('transfer operators', MF + ':TransferOperator/MixedTransferOperator/GeneralizedMatrixVectorProduct'), ('unit cell', MF + ':UnitcellTransferOperator'), ('projected', MF + ':pseudoTransferOperator/OneMinusPseudoTransferOperator')])
prop('S12', 'Applying a matrix product operator to a state is exact',
     'Applying a matrix product operator to a finite state without truncation gives exactly the state obtained by acting with the dense operator on the amplitudes, for any centre position and unequal dimensions.',
     [IN, HI, CO], 'every state, centre position and operator tensors',
     'No test applies an operator to a state.',
     [MP, HA], [('operator application', MP + ':applyMPO')])
prop('S13', 'Spin-chain operators are the advertised Hamiltonians',
     'Each spin-chain Hamiltonian constructor (XXZ, flipped XXZ, transverse-field Ising variants) builds an operator equal to the textbook sum of couplings and fields with exactly the given site-dependent parameters, for every chain length; in periodic form its blocks are the translation-invariant bulk blocks.',
     [IN, CO], 'every value of every coupling on every bond and site, chain lengths within the bound, open and infinite boundary form',
     'Ground-state energies are tested for uniform couplings only; swapped or shifted site dependence and most classes are never compared with the formula.',
     [HA], [('XXZ', HA + ':XXZ/XXZflipped'), ('Ising', HA + ':TFI/TFI_2')])
prop('S14', 'Fermionic operators are the advertised Hamiltonians with correct signs',
     'Each fermionic Hamiltonian constructor (spinless fermions, Hubbard chain, impurity models) builds an operator equal to the second-quantised Hamiltonian with the given site-dependent parameters under the documented ordering, including all exchange signs.',
     [IN, CO], 'every value of every hopping, interaction and potential on every bond and site, chain lengths within the bound',
     'Only the impurity-model energy of one parameter set is tested; a sign of one hopping term cancels in spectra of open chains.',
     [HA], [('spinless', HA + ':SpinlessFermions'), ('Hubbard', HA + ':HubbardChain')])
prop('S15', 'Bosonic and discretised-continuum operators are the advertised Hamiltonians',
     'Each bosonic or discretised-continuum Hamiltonian constructor builds an operator equal to the documented lattice Hamiltonian (kinetic, interaction, potential and boundary terms) for every parameter value, truncated local dimension and lattice spacing.',
     [IN, CO], 'every parameter value and every spacing, local dimensions and chain lengths within the bound',
     'No test constructs any of these operators.',
     [HA], [('continuum models', HA + ':BoseHubbard/LiebLiniger/...')])
prop('S16', 'Two-site gate generators sum to the Hamiltonian',
     'The local two-site terms that an operator hands out for gate construction add up to the full Hamiltonian on an open chain (each on-site term counted exactly once), and the gate for a step is the exponential of the step times that local term with consistent index order.',
     [IN, CO], 'every coupling value, every pair of neighbouring sites, chain lengths within the bound including two sites, every step value',
     'All gate tests of the suite error out or compare one evolution loosely; boundary sites and site-dependent fields are untested.',
     [HA], [('local term and gate', HA + ':twoSiteGate/twoSiteHamiltonian')])
prop('S17', 'Applying gates to a state is exact up to the reported truncation',
     'Applying a one-site gate at any position gives exactly the gate acting on the represented state, including its norm; an untruncated two-site gate gives exactly the gate acting on the state up to a positive renormalisation to a unit-norm centre. Both move the centre where documented, and the two-site gate reports the truncated weight of what it dropped and the new bond dimension.',
     [IN, HI, CO], 'every state, centre position, site and (not necessarily unitary or symmetric) gate',
     'No passing test applies a gate.',
     [MP], [('one site', MP + ':applyOneSiteGate'), ('two site', MP + ':applyTwoSiteGate')])
prop('S18', 'TEBD performs the documented second-order Trotter schedule',
     'n TEBD steps apply exactly the second-order Trotter product of n steps to the state, touching every bond; the elapsed time and truncated weight it reports add up over calls, and neither the result nor the bookkeeping depends on verbosity or checkpoint settings.',
     [IN, HI, CO], 'every number of steps, chain length (even and odd), step size, verbosity and checkpoint interval, and splitting of a run into several calls, within the bound',
     'The existing time-evolution tests fail at this commit because they pass removed arguments.',
     [EN], [('TEBD loop', EN + ':doTEBD'), ('layers', EN + ':applyEven/applyOdd')])
prop('S19', 'TDVP performs the documented projector-splitting sweep with one time direction',
     'One TDVP step evolves every site forward and every bond backward exactly once per half sweep with half the step, using the exact effective Hamiltonians of the current state; the sign convention of the step is the same for every available integrator, and reported time does not depend on verbosity.',
     [IN, HI, CO], 'every state, Hamiltonian, step (real or imaginary), integrator choice, number of steps and verbosity, chain lengths within the bound',
     'The existing TDVP tests fail at this commit; a single observable of a real initial state cannot see the time direction.',
     [EN, MF], [('TDVP sweep', EN + ':doTDVP'), ('integrators', MF + ':evolveTensor*/evolveMatrix*')])
prop('S20', 'Single-site DMRG solves exact local problems and keeps its environments consistent',
     'At every step of a single-site DMRG sweep the local eigenproblem handed to the solver is the full Hamiltonian projected onto the current frame, the starting vector is the current state, and the updated state is exactly the solver result; the cached environments used later always equal the exact contraction of the current tensors.',
     [IN, HI, CO], 'every initial state, Hamiltonian, solver result and sweep position, chain lengths within the bound',
     'Energy tests accept any sequence that converges; a stale environment or lost phase still converges to the same energy.',
     [EN, MF], [('sweeps', EN + ':DMRGengine.simulate/__optimizeSS__'), ('solvers', MF + ':lanczos/eigsh')])
prop('S21', 'Two-site DMRG keeps the optimised two-site wave function and its truncation honest',
     'At every step of a two-site DMRG sweep the local problem is the projected Hamiltonian of the two sites, the state after the step is the solver result truncated to its largest Schmidt values (renormalised), the bond cap is never exceeded and the cached environments equal the exact contractions.',
     [IN, HI, CO], 'every initial state, Hamiltonian, solver result, cap and threshold, chain lengths within the bound',
     'Two-site sweeps appear only as warm-up in tests that fail at this commit.',
     [EN], [('two-site sweeps', EN + ':DMRGengine.simulateTwoSite')])
prop('S22', 'Infinite DMRG growth steps rebuild a consistent enlarged system',
     'After an infinite-DMRG update the boundary blocks are the exact blocks of the grown system, the state the next sweep starts from is the documented centre guess (grown left part, left Schmidt matrix, inverse connector, right Schmidt matrix, grown right part), and unit-cell tensors, boundary operators and Hamiltonian cell are exchanged consistently; sweeps, updates and re-gauging follow the documented schedule, and re-gauged boundary blocks are the exact ones of the gauged cell.',
     [IN, HI, CO], 'every unit-cell state, boundary blocks and Hamiltonian, unit cells within the bound, any centre position',
     'Only the converged energy of one example is checked by hand; nothing in the suite covers the update.',
     [EN, MF], [('update', EN + ':IDMRGengine.__update__'), ('boundary blocks', EN + ':HomogeneousIMPSengine, ' + MF + ':getBoundaryHams')])
prop('S23', 'Network contraction equals the mathematical sum for any order, and rejects bad networks',
     'Contracting a labelled tensor network returns the sum over all positive labels with the negative labels as ordered output indices, independent of contraction order, traces, disconnected parts or dummy dimensions, and inconsistent networks are rejected instead of giving a value.',
     [IN, CO], 'every tensor entry, and every network of a family of topologies, label assignments and contraction orders within the bound',
     'The contraction routine has no test of its own.',
     ['lib/ncon/ncon.py'], [('contraction', 'lib/ncon/ncon.py:ncon')])
prop('S24', 'Krylov iterations build an orthonormal basis and the exact projected matrix',
     'The Lanczos routines build an orthonormal Krylov basis of the given operator and start vector, a real symmetric tridiagonal projection equal to the operator in that basis, and return vectors that are the stated combinations of it; a time step keeps the norm and complex phase of the input for every input vector.',
     [IN, CO], 'every Hermitian operator and start vector (real or complex, any norm), any Krylov dimension within the bound',
     'Tests use the iteration only to converge one energy; normalisation and type handling of time steps are not observed.',
     ['lib/Lanczos/LanczosEngine.py'], [('ground state', 'lib/Lanczos/LanczosEngine.py:LanczosEngine.__simulate__'), ('time step', 'lib/Lanczos/LanczosEngine.py:LanczosTimeEvolution.__doStep__')])
prop('S25', 'Copies and saved states are faithful and independent',
     'Copying a state, or saving it and loading it back, yields a state with the same amplitudes, norm, centre, boundary type, bond cap and canonical data, and later changes to either one never affect the other; checkpoints of engines round-trip the same way; an evolution run that keeps one checkpoint leaves exactly its last one behind, one that keeps all leaves all, and from the first checkpoint on a complete one is on disk at every moment, whenever the program stops.',
     [IN, HI, CO], 'every state, centre position and boundary type; every later modification of the original or the copy',
     'No test copies, saves or loads.',
     [MP, EN, HA], [('copy', MP + ':copy'), ('save/load', MP + ':save/load, ' + EN + ':Container.save/load')])
prop('S26', 'Canonical (Gamma-Lambda) form represents the same state',
     'Bringing a finite state into canonical form yields Schmidt values and site tensors whose alternating product is the normalised original state up to a global phase, with left and right orthonormality at every bond and trivial boundary values, wherever the centre was before.',
     [IN, HI], 'every finite state (object or tensor list) and centre position with full-rank bonds',
     'Tests check only the two orthonormality conditions, never that the canonical form is the same state.',
     [MF, MP], [('canonical form', MF + ':canonizeMPS'), ('method', MP + ':canonize')])
prop('S27', 'Regauging an infinite state is a gauge transformation to the promised form',
     'Regauging a unit cell or a single tensor to left, right or symmetric form returns tensors related to the input by an invertible gauge transformation and one overall scale, and fulfilling the promised orthonormality, given the dominant transfer-matrix eigenvectors.',
     [IN, CO], 'every tensor or unit cell whose dominant transfer-matrix eigenpair satisfies its defining equation, every gauge choice',
     'Tests check orthonormality for random tensors; the relation of the result to the input state is not tested.',
     [MF], [('regauge', MF + ':regauge/regaugeIMPS')])
prop('S28', 'Infinite-environment linear problems are the documented ones',
     'The linear system solved for a renormalised infinite environment is exactly identity minus transfer operator plus projector applied to the unknown, with the documented inhomogeneity, direction and momentum, and the solution returned is the solver result reshaped without change.',
     [IN, CO], 'every tensor, boundary vectors, inhomogeneity, direction and momentum',
     'Tests check it at zero momentum for one random tensor.',
     [MF], [('linear system', MF + ':RENORMBLOCKHAMGMRES/TDVPGMRES/OneMinusPseudoTransferOperator')])
prop('S29', 'Infinite-system optimisers use exact effective Hamiltonians and consistent gauges',
     'Each iteration of the infinite variational optimiser solves the eigenproblems of the exact site and bond effective Hamiltonians built from the current left and right fixed points, and the gradient norm and energy density it reports are the exact expressions in the current tensors.',
     [IN, HI], 'every left/right tensors, centre matrix, environments and solver results',
     'The one stable test observes only a converged energy.',
     [EN], [('VUMPS iteration', EN + ':VUMPSengine'), ('gradient iteration', EN + ':HomogeneousIMPSengine')])
prop('S30', 'Bit and basis helpers are exact for every word',
     'Setting, clearing, testing and flipping a bit change exactly that bit and report exactly that bit for every word and position, and enumerations of bit bases contain every admissible word exactly once in order.',
     [IN, CO], 'every 64-bit word and bit position; basis sizes within the bound',
     'Only incidental use in one exact-diagonalisation helper.',
     ['lib/utils/binaryoperations.py', 'lib/utils/utilities.py'], [('bits', 'lib/utils/binaryoperations.py'), ('basis', 'lib/utils/utilities.py:binarybasis*')])
prop('S31', 'Step-size control and conjugate-gradient coefficients follow their rules',
     'The adaptive step controller picks, for every gradient norm and history, the step its table prescribes, never an undefined or out-of-range one, and resets as documented; the conjugate-gradient coefficient equals its documented formula for every variant.',
     [IN, HI], 'every gradient norm, table of thresholds and steps, reset counter and pair of gradients',
     'No test covers these helpers.',
     ['lib/utils/utilities.py'], [('controller', 'lib/utils/utilities.py:determineNewStepsize'), ('coefficient', 'lib/utils/utilities.py:determineNonLinearCGBeta')])
prop('S32', 'Wick expansions of free-particle correlators are exact',
     'The Wick-expansion helpers return exactly the free-particle expectation value of c+_i1...c+_in c_j1...c_jn for the given matrix of two-point functions <c+_i c_j>: the sum over pairings with the exchange sign for fermions and without signs for bosons.',
     [IN, CO], 'every matrix of two-point functions and operator lists within the bound',
     'No test covers these helpers.',
     ['lib/utils/utilities.py'], [('expansions', 'lib/utils/utilities.py:SFwick/SBwick')])
prop('S33', 'Tangent-space updates are orthogonal to the state and equal the projected action',
     'The tangent-space update of a left-orthogonal uniform state is orthogonal to the state in the left gauge and equals the projection of the nearest-neighbour Hamiltonian action (local terms and left environment) onto the tangent space; its reported norm is the exact residual norm, its energy density the exact one, and the environment is requested for the exact source of the current state. The tangent-space and open-site products equal the exact contractions.',
     [IN], 'every left-orthogonal uniform state with its exact right density, every environment, every nearest-neighbour operator and local dimension within the bound',
     'Only exercised by example scripts.',
     [MF], [('update', MF + ':TDVPupdate'), ('products', MF + ':tangentSpaceHAproduct/LiebLinigerHAproduct')])
prop('S34', 'Grid, gauge and matrix helpers compute what they document',
     'Commutators, hermiticity and diagonality tests are exact; grid bisection returns the cell containing the point; the root finder returns a bracketed root within its tolerance; discrete derivatives and bra-ket placement act exactly on the given sites; matching a state to a reference removes exactly the relative phase and gauge.',
     [IN], 'every matrix, grid and point within the bound',
     'No test covers these helpers.',
     ['lib/utils/utilities.py', MF], [('helpers', 'lib/utils/utilities.py, ' + MF + ':computedx/matchState/placeBraket')])
prop('S35', 'State constructors produce exactly the requested states',
     'Product states have exactly the given local states on every site, random, constant and list constructors return the drawn or given tensors up to the recorded norm in left-canonical form with the requested length, local and bond dimensions, boundary type, data type, offset and scale; the arguments are never modified or shared; element-wise real and imaginary parts act on every tensor of a new state; fine-graining splits every site so that an empty site becomes two empty ones and a particle their even superposition, for every bond dimension.',
     [IN, CO], 'every set of local vectors or tensors, offset and scale; lists of different local dimensions, open and periodic chains, real and complex, within the bound',
     'Tests only start from random states and never look at them.',
     [MP, MF], [('constructors', MP + ':MPS.productState/random/ones/fromList'), ('drawing', MF + ':MPSinitializer/MPSinit')])
prop('S36', 'Effective problems of a periodic ring equal the exact ring contraction',
     'For a ring of N equal tensors the effective Hamiltonian and norm of one site, and those of the matrix on one bond, are exactly the ring Hamiltonian (every on-site term, every bond term, the closing bond included, each once) and the ring overlap with that one place left open; the state itself is not modified.',
     [IN, CO], 'every tensor, every on-site and nearest-neighbour operator and every vector the problem is applied to, rings of three sites and more, within the bound',
     'No test builds a periodic ring.',
     [EN], [('ring environments', EN + ':PeriodicMPSengine.empty_pow/getHeffNeff'), ('matrix-vector products', EN + ':matvec/matvecbond/gram/grambond')])
prop('S40', 'Iterative solvers converge to the true ground state or exact evolution',
     'Given enough iterations, the optimisers and integrators converge to the exact ground state or exact time evolution within the requested tolerance.',
     [IN, HI], 'every Hamiltonian and initial state',
     'Convergence for all inputs is an analytic statement; tests observe single runs.',
     [EN, MF], [('optimisers', EN)],
     na='convergence of floating-point ARPACK/LAPACK/Krylov/ODE iterations is an unbounded analytic statement about compiled library code; no solver encoding of it is in reach')
prop('S41', 'Floating-point rounding stays within the stated tolerances',
     'Results computed in double precision deviate from the exact algebraic result by no more than a small multiple of machine precision times the condition of the problem.',
     [IN], 'every input representable in double precision',
     'Needs error analysis over all doubles.',
     [MF], [('all kernels', MF)],
     na='the arithmetic runs inside BLAS/LAPACK kernels whose IEEE-754 semantics (blocking, FMA, summation order) cannot be encoded within reach; all claims are over exact arithmetic')


def claimed():
    sys.path.insert(0, HERE)
    r = []
    import re
    have = set()
    d = os.path.join(HERE, 'scen')
    for f in os.listdir(d):
        if f.endswith('.py'):
            have |= set(re.findall(r"@scenario\('(S\d+)'", open(os.path.join(d, f)).read()))
    return have


def main():
    have = claimed()
    off = json.load(open(os.path.join(HERE, 'tools', 'off.json'))) if os.path.exists(os.path.join(HERE, 'tools', 'off.json')) else {}
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for x in P:
            f.write(json.dumps(x['p']) + '\n')
    checks, na = [], []
    for x in P:
        i = x['p']['id']
        if x['na']:
            na.append({'property': i, 'reason': x['na']})
        elif i in off:
            na.append({'property': i, 'reason': off[i]})
        elif i in have:
            checks.append({
                'property': i,
                'quick_cmd': './run.sh %s quick' % i,
                'thorough_cmd': './run.sh %s thorough' % i,
                'technique': 'symbolic execution of the real Python functions on exact symbolic arrays; SMT (z3, QF_LRA over monomials / QF_NRA / QF_BV) decides each assertion for all values; counterexamples replayed on the real code',
                'level': 'model_checking',
                'level_note': x['note'] or 'Holds for all values of the symbolic inputs within the listed sizes (see evidence coverage.bounds); exact arithmetic, LAPACK/ARPACK modelled by contract; outside those sizes nothing is claimed.',
            })
        else:
            na.append({'property': i, 'reason': 'not yet built in this revision; no claim is made'})
    m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
         'notes': 'Solver-based checking by in-process symbolic execution of /repo/lib; see DESIGN.md.'}
    json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks;', len(na), 'not applicable')


main()
