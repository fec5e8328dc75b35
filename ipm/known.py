"""Functions present when the rules were confirmed; anything else is a helper and is analysed inline."""
KNOWN = frozenset(
    """
average.thermal_average
create.binary_search_bigger
create.ubitarray
create.ubytes
create.uint
create.ustr
create.utuple
finite.a
finite.add
finite.addOps
finite.addToFirst
finite.applyLminus3d
finite.applyLplus3d
finite.applyLz3d
finite.applyOp
finite.applySminus3d
finite.applySplus3d
finite.applySz3d
finite.assert_hermitian
finite.c
finite.c2i
finite.daggerOp
finite.dc_MLFT
finite.eigensystem
finite.expand_basis
finite.expand_basis_and_hamiltonian
finite.gauntC
finite.get2p3dSlaterCondonUop
finite.getDensityMatrix
finite.getDensityMatrixCubic
finite.getEgT2gOccupation
finite.getLsqr3d
finite.getLz3d
finite.getNoSpinUop
finite.getSOCop
finite.getSsqr3d
finite.getSz3d
finite.getTraceDensityMatrix
finite.getU
finite.getUop
finite.get_basis
finite.get_hamiltonian_matrix
finite.get_hamiltonian_matrix_from_h_dict
finite.get_job_tasks
finite.get_spherical_2_cubic_matrix
finite.get_tridiagonal_krylov_vectors
finite.gethHfieldop
finite.i2c
finite.inner
finite.norm2
finite.printExpValues
finite.printGaunt
finite.printThermalExpValues
get_spectra.get_hamiltonian_operator
get_spectra.main
get_spectra.read_pickled_file
get_spectra_using_CF.get_CF_hamiltonian
get_spectra_using_CF.get_hamiltonian_operator_using_CF
get_spectra_using_CF.main
get_spectra_using_CF.read_h0_CF_file
mpi_comm.allgather_dict
mpi_comm.dict_chunks_from_one_MPI_rank
plotRIXS.main
plotSpectra.plot_spectra_in_file
product_state_representation.bitarray2bytes
product_state_representation.bitarray2int
product_state_representation.bitarray2str
product_state_representation.bitarray2tuple
product_state_representation.bytes2bitarray
product_state_representation.bytes2int
product_state_representation.bytes2str
product_state_representation.bytes2tuple
product_state_representation.int2bitarray
product_state_representation.int2bytes
product_state_representation.int2str
product_state_representation.int2tuple
product_state_representation.str2bitarray
product_state_representation.str2bytes
product_state_representation.str2int
product_state_representation.str2tuple
product_state_representation.tuple2bitarray
product_state_representation.tuple2bytes
product_state_representation.tuple2int
product_state_representation.tuple2str
remove.binary_search
remove.ubitarray
remove.ubytes
remove.uint
remove.ustr
remove.utuple
spectra.getDaggeredDipoleOperators
spectra.getDipoleOperator
spectra.getDipoleOperators
spectra.getGreen
spectra.getInversePhotoEmissionOperators
spectra.getNIXSOperator
spectra.getNIXSOperators
spectra.getPhotoEmissionOperators
spectra.getRIXSmap
spectra.getSpectra
spectra.simulate_spectra
""".split()
)

# documented in/out arguments: the only parameters a call may change
MODS = {
    "create.ubitarray": ("state",),
    "remove.ubitarray": ("state",),
    "finite.addToFirst": ("psi1",),
    "finite.applyOp": ("opResult",),
    "finite.expand_basis": ("h_dict",),
    "finite.expand_basis_and_hamiltonian": ("h_dict",),
    "mpi_comm.allgather_dict": ("total",),
    "spectra.getGreen": ("h_dict",),
    "spectra.getRIXSmap": ("h_dict_ground",),
}
