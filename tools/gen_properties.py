"""Writes /verif/properties.jsonl (one JSON object per line).  Run: python3 tools/gen_properties.py"""
import json, os
ED = "impurityModel/ed/"
PROPS = []


def P(id, title, statement, over, qtext, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mechanism],
                     observe_at=observe, hook_needed=None)))


FIN, SPE, GS, CF = ED + "finite.py", ED + "spectra.py", ED + "get_spectra.py", ED + "get_spectra_using_CF.py"
CRE, REM, PSR, AVG, MPI = ED + "create.py", ED + "remove.py", ED + "product_state_representation.py", ED + "average.py", ED + "mpi_comm.py"
PL1, PL2 = "impurityModel/plotScripts/plotSpectra.py", "impurityModel/plotScripts/plotRIXS.py"

P("C01", "Fermionic sign and effect of creating or removing one electron",
  "Creating (removing) an electron in spin-orbital i succeeds exactly when i is empty (occupied); it then changes the occupation of i and of nothing else, and the amplitude is +1 or -1 according to whether the number of occupied spin-orbitals with index lower than i is even or odd. Otherwise the amplitude is 0. This holds in each of the five representations, for every index, occupation and number of spin-orbitals.",
  ["inputs"], "every product state, every spin-orbital index, every number of spin-orbitals, all five representations",
  "The tests use one 7-orbital system and four or five hand-picked occupations; the sign must be right for 2^n states and any n (real runs have 26 to 316 spin-orbitals).",
  [CRE, REM], [("utuple/uint/ustr/ubitarray/ubytes", CRE), ("utuple/uint/ustr/ubitarray/ubytes", REM)],
  ["return value and mutated bit array of the create/remove functions"])

P("C02", "All product-state representations describe the same occupation",
  "Converting a product state between tuple, string, integer, bit array and bytes keeps exactly the same set of occupied spin-orbitals, for every occupation and every number of spin-orbitals. Spin-orbital 0 is the leftmost character, the first bit and the most significant bit; strings and bit arrays have exactly one position per spin-orbital, including leading empty ones and never byte padding; tuples list indices in ascending order.",
  ["inputs"], "every product state, every number of spin-orbitals, all conversions",
  "Each conversion is tested on a single 7-orbital state; padding, width and order errors appear only for other sizes or occupations.",
  [PSR], [("twenty conversion functions", PSR)], ["return values of the conversion functions"])

P("C03", "Calculations leave their inputs untouched",
  "No calculation changes a state, operator, basis, energy list, restriction table or parameter object that its caller passed in, except the documented in/out arguments (operator-result caches, the accumulation target, the gathered total, the bit array that is edited). A state returned to the caller never shares storage with an input or with a cached operator result, so later normalising or pruning it cannot corrupt either, and no call leaves state behind in default arguments or module variables.",
  ["histories", "inputs"], "every call sequence on shared state, operator and cache objects",
  "Tests call each function once on fresh objects; corruption shows only when the same object is used again by a later step of a simulation.",
  [FIN, SPE, AVG, CRE, REM, PSR, MPI], [("copies and fresh dictionaries before in-place edits", FIN), ("copies before in-place edits", SPE)],
  ["arguments after a call returns", "cache contents after a call returns"])

P("C04", "Reusing cached operator results never changes an answer",
  "A cache entry for a product state holds the complete action of one operator (under one set of occupation limits) on that product state with unit amplitude, whatever state was being processed when it was stored (up to the documented weight cutoff). A cached entry is used by scaling it with the amplitude of the state at hand, and two different operators never share a cache, so a calculation gives the same result with a warm cache, a cold cache or none.",
  ["histories", "inputs"], "every order in which states, eigenstates, photon energies and transition operators are processed",
  "One test uses a cache, for one state and one operator; the spectrum loops share caches over eigenstates, polarizations and photon energies.",
  [FIN, SPE], [("applyOp operator-result argument", FIN), ("expand_basis Hamiltonian dictionary", FIN), ("getSpectra / getRIXSmap caches", SPE)],
  ["returned states and spectra with and without cache"], [("opResult / h_dict", "product state -> operator acting on it", FIN), ("tIn_big, tOut_big, t_big, h_dict_excited, h_dict_ground", "per-operator caches", SPE)])

P("C05", "An operator acts as the sum of its processes, rightmost step first",
  "Applying an operator to a state returns, for every product state reached, the sum over all product states of the input and all processes of the operator of (input amplitude) x (process strength) x (product of the signs of its steps), where the steps of a process are carried out from the last to the first, creation steps create and removal steps remove, and a process stops contributing when one of its steps gives amplitude zero. Only final amplitudes whose squared modulus is below the cutoff are dropped. This is the same with or without a cache and with or without occupation limits.",
  ["inputs"], "every operator, state, cutoff, cache and restriction argument",
  "The tests apply one- and two-step operators to single product states; multi-state inputs, cancellations, three/four-step processes and the combination of cache and limits are never exercised.",
  [FIN], [("applyOp, four branches", FIN), ("addToFirst, inner, a, c, add, norm2", FIN)], ["returned state of applyOp and the elementary state operations"])

P("C06", "Occupation limits hold for every generated product state",
  "When occupation limits are given, no operator application, basis expansion, spectrum calculation or cached operator result ever introduces a product state whose occupation of any restricted orbital set lies below its lower or above its upper limit; both limits are inclusive and every limit is checked. The limits supplied to a spectrum calculation reach every operator application inside it.",
  ["inputs", "configurations"], "every restriction table, operator and starting state",
  "One test checks one upper limit on a vacuum state without a cache; lower limits, several limits, caches and the full pipeline are not tested.",
  [FIN, SPE, GS, CF], [("occupation check in applyOp", FIN), ("restrictions argument passed down", SPE), ("restrictions table built in main", GS)],
  ["product states in returned states, caches and expanded bases"])

P("C07", "The Hamiltonian is Hermitian and verified before it is used",
  "The adjoint of an operator reverses each process, swaps creation with removal and complex-conjugates the strength. Spin-orbit, field, crystal-field, hybridisation and bath terms are produced together with their adjoint with exactly conjugate strengths, for all parameter values; every Hamiltonian handed to the solver has been checked to equal its own adjoint, on every path, and no valid crystal-field parameter set is rejected by that check.",
  ["inputs", "configurations"], "every parameter set of the interaction, spin-orbit, field and crystal-field terms",
  "Tests check the adjoint only on the shipped non-interacting files; assembled Hamiltonians are never checked and a single non-conjugate term makes the eigen-solver silently wrong.",
  [FIN, GS, CF], [("daggerOp, assert_hermitian", FIN), ("get_hamiltonian_operator", GS), ("get_hamiltonian_operator_using_CF, get_CF_hamiltonian", CF), ("getSOCop, gethHfieldop", FIN)],
  ["the Hamiltonian operator returned by both front ends"])

P("C08", "Every operator term obeys its conservation laws",
  "Every term of every Hamiltonian contribution removes as many electrons as it creates. Coulomb terms conserve total spin projection and total orbital projection and never create or remove twice in the same spin-orbital; spin-orbit terms conserve m plus spin projection, the magnetic field acts on spin only, crystal-field, hybridisation, dipole and scattering operators conserve spin, dipole operators change m by at most one and l as selected, and photoemission operators remove (inverse photoemission create) exactly one electron in each spin-orbital of the shell.",
  ["inputs", "configurations"], "every term emitted for any angular momenta and parameters",
  "No test builds any of these operators; violations change level degeneracies without any crash.",
  [FIN, SPE, CF], [("getUop, getNoSpinUop, getU, get2p3dSlaterCondonUop", FIN), ("getSOCop, gethHfieldop", FIN), ("getDipoleOperator, getNIXSOperator, photoemission operators", SPE), ("get_CF_hamiltonian", CF)],
  ["keys of the returned operator dictionaries"])

P("C09", "Spin-orbital numbering is one-to-one and the same everywhere",
  "The map from (angular momentum, spin, m) and (angular momentum, bath index) to an integer index is one-to-one onto 0..n-1, with impurity spin-orbitals first and bath states after, in the order of the shells, and the inverse map undoes it, for every set of shells and bath sizes (including bath states shared by several shells). Every count of spin-orbitals in the package equals 2(2l+1) plus the number of bath states summed over shells, and an unknown coordinate or index is an error.",
  ["configurations", "inputs"], "every shell list, bath size, coordinate and index",
  "No test calls either map; the shipped data only ever uses two shells with baths on the last.",
  [FIN, SPE, GS, CF], [("c2i, i2c", FIN), ("n_spin_orbitals", FIN)], ["return values of the two maps", "number of spin-orbitals passed to every state operation"])

P("C10", "The Hamiltonian matrix is the operator in the given basis, in every mode",
  "Entry (row, column) of every Hamiltonian matrix is the amplitude of basis state `row` in the operator applied to basis state `column`; every column of the basis is filled exactly once, contributions outside the basis are ignored or impossible, and the dense, sparse, serial and distributed constructions give the same matrix, the distributed parts adding up to the whole.",
  ["inputs", "configurations", "schedules"], "every operator, basis, construction mode and number of ranks",
  "No test builds a Hamiltonian matrix; a transposed complex matrix has the same eigenvalues but conjugated states, and only one mode runs in any simulation.",
  [FIN], [("get_hamiltonian_matrix", FIN), ("get_hamiltonian_matrix_from_h_dict", FIN), ("expand_basis_and_hamiltonian", FIN)], ["matrix and basis index returned"])

P("C11", "Basis expansion is complete, duplicate-free and equally ordered on all ranks",
  "Expanding a basis keeps the starting product states first and continues until the operator acting on any basis state reaches no product state outside the basis, each product state appearing once. The resulting order does not depend on hash order or on the rank, in serial and in distributed mode, and afterwards the operator's action on every basis state is stored in the dictionary of (in distributed mode exactly one) rank.",
  ["inputs", "schedules", "configurations"], "every operator, starting basis, dictionary contents, number of ranks and hash seed",
  "No test expands a basis; tests run one process with a fixed hash seed, so order and completeness faults cannot show.",
  [FIN], [("expand_basis", FIN)], ["returned basis tuple and updated dictionary on each rank"], [("h_dict", "product state -> operator result, rank-local part in distributed mode", FIN)])

P("C12", "The ground-state basis has a fixed electron number and the requested windows",
  "Every product state of the ground-state basis has, for each shell, the nominal impurity occupation plus the number of valence bath states as its electron number; the valence bath holds at most the allowed number of holes, the conduction bath at most the allowed number of electrons, the impurity occupation deviates by at most the tolerance, and every combination within these windows appears exactly once. Impurity, valence and conduction electrons are placed in disjoint sets of spin-orbitals that together are all spin-orbitals of the shell.",
  ["configurations", "inputs"], "every shell list, bath size, nominal occupation and tolerance",
  "No test builds a basis; a lost or doubled configuration only shifts energies slightly.",
  [FIN], [("get_basis", FIN)], ["returned basis"])

P("C13", "Every rank takes part in the same sequence of communications",
  "For every number of ranks and every parallelization mode, all ranks execute the same sequence of collective communications with the same root, whatever data each rank holds, and every point-to-point send has its matching receive; hence no rank waits forever, also when one rank detects an error that makes it stop. No collective is executed inside a loop or branch whose trip count or outcome differs between ranks.",
  ["schedules", "configurations", "fault_sequences"], "every number of ranks, parallelization mode, data distribution and input",
  "The tests run in a single process, where every collective completes trivially.",
  [FIN, SPE, MPI, GS, CF], [("bcast / Reduce / send / recv call sites", FIN), ("bcast call sites", SPE), ("allgather_dict", MPI)], ["sequence of MPI calls on each rank"])

P("C14", "Distributed work covers every task once and all partial results are combined",
  "For any number of ranks and tasks, every task is given to exactly one rank. Every rank's partial result (Hamiltonian parts, new basis states, Green's functions, gathered dictionaries) is collected from all ranks, exactly once each, before it is used as a complete result, so results do not depend on the number of ranks or on the chunk size of a transfer.",
  ["schedules", "configurations", "inputs"], "every number of ranks, number of tasks (also fewer tasks than ranks), chunk size",
  "With one rank the distribution is trivial; remainders, empty task lists and multi-chunk transfers never occur in tests.",
  [FIN, SPE, MPI], [("get_job_tasks", FIN), ("gather loops over all ranks", FIN), ("gather loops over all ranks", SPE), ("allgather_dict, dict_chunks_from_one_MPI_rank", MPI)], ["task tuples per rank", "combined results on each rank"])

P("C15", "Only rank 0 writes files, and what it writes is the complete result",
  "In a parallel run, files are created and written by rank 0 only, the file handle is used only where it exists, and each dataset or text file written contains data that is complete on rank 0. Errors aside, each output file is closed when the spectra are finished.",
  ["schedules", "configurations"], "every number of ranks",
  "Tests never run the simulation drivers and never with more than one rank.",
  [SPE, GS, CF], [("rank-0 guards around output", SPE), ("rank-0 guards around output", GS), ("rank-0 guards around output", CF)], ["files written by each rank"])

P("C16", "Spectral intensities are never negative",
  "For positive broadening, every spectrum returned or written (photoemission, inverse photoemission, core photoemission, x-ray absorption, inelastic scattering, resonant inelastic scattering, per eigenstate and thermally averaged) is a sum of non-negative intensities: minus the imaginary part of a resolvent with the energy argument above the real axis for addition-type spectra, and the doubly sign-reversed resolvent for removal-type spectra.",
  ["inputs", "configurations"], "every Hamiltonian, state, energy mesh, temperature and positive broadening",
  "Only the excluded reference comparison computes a spectrum, for one material; sign errors in a rarely used mode or spectrum type are not reached.",
  [SPE, FIN, AVG], [("getGreen continued fraction", SPE), ("getSpectra, getRIXSmap", SPE), ("simulate_spectra signs", SPE), ("get_tridiagonal_krylov_vectors", FIN), ("thermal_average", AVG)], ["datasets and text files of each spectrum"])

P("C17", "Each user setting reaches the calculation it is documented for",
  "Every simulation parameter (shells, baths, occupations, Slater integrals, spin-orbit strengths, field components, double counting correction, temperature, energy cut, the three broadenings, file names, print limits) is used, in both front ends, by exactly the calculation its documentation names: the core-level broadening for photoemission, absorption and the intermediate state of resonant scattering, the loss broadenings for their own spectra, incoming and loss energy meshes and in/out polarizations in their own places, and the temperature in every thermal average.",
  ["configurations"], "every value of every parameter, both front ends",
  "Positional hand-over of more than twenty arguments is exercised only with default values by the excluded reference test; swapped or ignored parameters give plausible output.",
  [GS, CF, SPE, FIN], [("main", GS), ("main", CF), ("simulate_spectra", SPE), ("printThermalExpValues", FIN)], ["effect of each command-line option on printed values and spectra"])

P("C18", "Results do not depend on the zero of energy and are dimensionally consistent",
  "Shifting all energies of a system by a constant changes no thermal average, eigenstate selection or spectrum: total energies enter only through differences, and Boltzmann factors are exponentials of an energy difference divided by k_B T, taken relative to the lowest energy so that they never overflow. In every formula energies, inverse energies, temperatures and dimensionless numbers are combined consistently.",
  ["inputs"], "every energy offset, temperature and spectrum",
  "Needs all offsets and temperatures; the formulas are not tested at all.",
  [AVG, FIN, SPE, GS, CF], [("thermal_average", AVG), ("printThermalExpValues, printExpValues", FIN), ("getGreen, getSpectra, getRIXSmap", SPE), ("energy_cut and eigenstate selection", GS)], ["thermal averages, selected eigenstates, spectra"])

P("C19", "Eigenvalues stay paired with eigenvectors; thermal weights are normalised",
  "Eigen-energies are returned in ascending order with each eigenstate at the position of its own energy, in every diagonalization mode; every later selection by energy keeps the same positions of energies and states. Thermal averages weight each observable with the Boltzmann factor of its own energy and divide by the sum of the weights, so averaging a constant returns that constant, and mismatched lengths are rejected.",
  ["inputs", "configurations"], "every spectrum of eigenvalues, number of states, mode, temperature",
  "No test diagonalizes or averages anything.",
  [FIN, AVG, GS, CF], [("eigensystem", FIN), ("printThermalExpValues", FIN), ("thermal_average", AVG), ("low-energy selection in main", GS)], ["es and psis returned and passed on", "thermal averages"])

P("C20", "All evaluation paths of the Green's function compute the same resolvent",
  "For a normalised start vector every evaluation path (dictionary, sparse, dense; serial or distributed Hamiltonian) builds the same three-term recurrence: each diagonal coefficient is the real expectation value of the Hamiltonian in the current vector, each off-diagonal coefficient the norm of the remainder after removing the current and previous vectors, and the function value is the continued fraction of these coefficients from the last to the first at energy omega + i delta + E. Transition amplitudes enter through the squared norm of the excited state, once.",
  ["inputs", "configurations"], "every Hamiltonian, start state, mesh, Krylov size, mode",
  "No test evaluates a Green's function; only one of the paths is used by default.",
  [FIN, SPE], [("get_tridiagonal_krylov_vectors", FIN), ("getGreen", SPE), ("getSpectra, getRIXSmap normalization", SPE)], ["returned Green's functions in each mode"])

P("C21", "Readers find in output files exactly what writers put there",
  "Every dataset the plotting tools read from the spectra file is written by the simulation under the same name, holding the quantity of that name, with the axis order the reader assumes; the parameter archive holds, under the name of each setting, the value of that setting used in the run; the text files have the energy mesh first, the sum second and the individual spectra after; the binary resonant-scattering map stores, in 32-bit floats, the number of columns, the incoming mesh in the first row, the loss mesh in the first column and the intensities indexed (loss, incoming), which is how it is read back.",
  ["inputs", "configurations"], "every mesh size and number of spectra",
  "No test writes or reads any output file.",
  [SPE, GS, CF, PL1, PL2], [("simulate_spectra output", SPE), ("main output", GS), ("main output", CF), ("plot_spectra_in_file", PL1), ("plotRIXS main", PL2)], ["spectra.h5, *.dat, RIXS.bin"])

P("C22", "Command lines are complete, validated alike and documented calls are accepted",
  "Every command-line option of the two simulation programs is handed to the simulation parameter of the same name; both programs offer the same options with the same types, defaults and sanity checks (the crystal-field program adding its own), and reject inconsistent list lengths, more valence than bath states and impossible occupations. Every program invocation in the shipped scripts and the documentation uses existing programs and options and is accepted by the argument parser.",
  ["configurations"], "every option combination; every shipped or documented invocation",
  "No test calls the programs' argument handling.",
  [GS, CF, PL1, PL2, "scripts", "README.md"], [("__main__ blocks", GS), ("__main__ blocks", CF), ("argument parser", PL1)], ["accepted and rejected command lines, values received by the simulation"])

P("C23", "Unsupported selector values are rejected, never silently ignored",
  "A mode, parallelization, basis-choice or diagonalization selector, an operator step type or a double-counting argument set that is not one of the supported values leads to an error; it never yields a result that looks valid (such as zeros, a default branch, or a stale value). Every value documented as supported is handled.",
  ["inputs", "configurations"], "every selector value of every public function",
  "Tests only pass supported values, mostly defaults.",
  [FIN, SPE, CF], [("mode dispatch chains", FIN), ("mode dispatch chains", SPE), ("bath_state_basis dispatch", CF)], ["exception or result for each selector value"])

P("C24", "Spin and orbital angular momentum operators obey their algebra",
  "Spin index 0 means spin down (-1/2) and 1 means spin up (+1/2) in every operator, expectation value and printed quantity. Raising and lowering operators connect neighbouring m (or opposite spins) with the matrix elements sqrt((l-m)(l+m+1)) and are each other's adjoint, S^2 and L^2 are their z part squared plus half the sum of the two ladder norms, the spin-orbit term is xi times L.S and the field term is h.S, with all m of the shell covered.",
  ["inputs"], "every shell l, state, spin-orbit strength and field vector",
  "No test evaluates any angular momentum quantity.",
  [FIN], [("applySz3d..applyLminus3d, getSz3d, getLz3d, getSsqr3d, getLsqr3d", FIN), ("getSOCop, gethHfieldop", FIN)], ["expectation values and operator dictionaries"])

P("C25", "Cubic and spherical harmonics are related by one unitary matrix everywhere",
  "The transformation between spherical and cubic harmonics is unitary (for p and d shells, with and without spin, spin blocks not mixed); the first two cubic d orbitals are the eg pair and the last three the t2g triple in the crystal-field Hamiltonian, its hybridisation and bath energies, and in the reported eg/t2g occupations and density matrices; crystal-field splitting keeps the average orbital energy.",
  ["inputs", "configurations"], "every crystal-field parameter set, state and supported l",
  "No test uses the matrix, the crystal-field Hamiltonian or the occupations.",
  [FIN, CF], [("get_spherical_2_cubic_matrix", FIN), ("getEgT2gOccupation, getDensityMatrixCubic, getDensityMatrix", FIN), ("get_CF_hamiltonian", CF)], ["matrix, occupations, Hamiltonian terms"])

P("C26", "Direction vectors act with all their components and signs",
  "Polarization vectors enter the dipole operator through all three components linearly (the emission operators being the adjoint of the absorption operators), and momentum-transfer vectors enter the scattering operator through their length and the full polar and azimuthal direction: reversing the sign of any single component acts as that reflection, for every non-zero vector, including those along a coordinate axis, for which all strengths are finite.",
  ["inputs"], "every polarization and momentum-transfer vector",
  "No test builds these operators; the shipped runs only use vectors along (1,1,1).",
  [SPE], [("getDipoleOperator, getDaggeredDipoleOperators", SPE), ("getNIXSOperator", SPE)], ["strengths of the returned operators"])

P("C27", "Every name and library function used exists in the supported environment",
  "On every execution path of every shipped module, each variable is bound before it is read, each function of the package is called with arguments its signature accepts, and each attribute taken from the package's own modules or from its pinned numerical libraries exists there, so no supported input ends in an undefined-name or missing-attribute failure.",
  ["inputs", "configurations"], "every path through every shipped function, with the pinned library versions",
  "Tests reach roughly a fifth of the functions; parallel, plotting and rarely used branches never run.",
  [FIN, SPE, GS, CF, MPI, AVG, CRE, REM, PSR, PL1, PL2], [("imports and attribute uses", MPI), ("all modules", FIN)], ["NameError / AttributeError / TypeError at run time"])

P("C28", "Double counting and Coulomb interaction follow their defining formulas",
  "The double-counting energies are U_dd n_d + U_pd n_p - c for the d shell and U_pd (n_d + 1) - c for the p shell with the shell-averaged U_dd and U_pd of the given Slater integrals; non-integer occupations are rejected. The interaction operator is one half of the sum over all four orbital indices of the Slater-weighted Gaunt products, every shell combination (dd, pp, direct and exchange pd in both orders) entering exactly once with its own integrals, sums of operators add the strengths of equal processes, and the double counting enters the Hamiltonian with a minus sign on every spin-orbital of its own shell.",
  ["inputs", "configurations"], "every set of Slater integrals, occupations and corrections",
  "No test computes any of these values.",
  [FIN, GS, CF], [("dc_MLFT", FIN), ("getU, getUop, get2p3dSlaterCondonUop, addOps", FIN), ("eDCOperator assembly", GS), ("eDCOperator assembly", CF)], ["returned energies and operator strengths"])

# ---- properties this family of technique cannot decide here (listed under not_applicable)
P("C40", "Calculated eigenvalues and spectra are numerically accurate",
  "The lowest eigenvalues agree with exact diagonalization within the requested tolerance, and spectra agree with exact resolvents (and the shipped reference calculation) within the stated tolerances.",
  ["inputs"], "every Hamiltonian and basis within reach",
  "The reference comparison covers one material and is excluded because its reference file is missing.",
  [FIN, SPE], [("eigensystem", FIN), ("getGreen", SPE)], ["es, spectra"])
P("C41", "The linear solve of resonant scattering converges or is reported",
  "For each incoming photon energy the intermediate state satisfies its linear equation within the solver tolerance, or a non-convergence message is printed.",
  ["inputs"], "every Hamiltonian, photon energy and broadening",
  "No test runs a resonant scattering calculation.",
  [SPE], [("bicgstab call", SPE)], ["printed messages, residual"])
P("C42", "Gaunt coefficients have their tabulated values",
  "The angular integrals entering Coulomb, dipole and scattering operators equal the analytic Gaunt coefficients within floating-point accuracy for all angular momenta.",
  ["inputs"], "all l, m, k",
  "No test evaluates a Gaunt coefficient.",
  [FIN], [("gauntC", FIN)], ["gauntC return value"])
P("C43", "Distributed runs use less memory per rank and scale with ranks",
  "With more ranks each rank stores a smaller share of the Hamiltonian dictionary and sparse matrix, and wall time decreases accordingly.",
  ["schedules", "configurations"], "all rank counts and basis sizes",
  "Tests run on one rank.",
  [FIN, SPE], [("h_dict distribution", FIN)], ["memory use and time per rank"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps(p) + "\n")
print(len(PROPS), "properties")
