"""Specification of impurityModel.ed.get_spectra."""
import argparse
import pickle

from impurityModel.ed.frontend_spec import operator, options, run, sane, start


def main(h0_filename, radial_filename, ls, nBaths, nValBaths, n0imps, dnTols, dnValBaths, dnConBaths, Fdd, Fpp, Fpd,
         Gpd, xi_2p, xi_3d, chargeTransferCorrection, hField, nPsiMax, nPrintSlaterWeights, tolPrintOccupation, T,
         energy_cut, delta, deltaRIXS, deltaNIXS):
    """[C17 C06 C15:file|dataset|open|close C19 C18 C21:file|dataset|open C12:get_basis C28:dc_MLFT|chargeTransferCorrection C07:assert_hermitian|raise C09:n_spin_orbitals|sum|nBaths|c2i C25:getDensityMatrixCubic] every setting in its place"""
    run(get_hamiltonian_operator, "h0_filename", h0_filename, radial_filename, ls, nBaths, nValBaths, n0imps, dnTols,
        dnValBaths, dnConBaths, Fdd, Fpp, Fpd, Gpd, xi_2p, xi_3d, chargeTransferCorrection, hField, nPsiMax,
        nPrintSlaterWeights, tolPrintOccupation, T, energy_cut, delta, deltaRIXS, deltaNIXS)


def get_hamiltonian_operator(nBaths, nValBaths, slaterCondon, SOCs, DCinfo, hField, h0_filename):
    """[C07 C17 C28 C08 C09] the relativistic Hamiltonian with the non-relativistic part from file"""
    return operator(nBaths, slaterCondon, SOCs, DCinfo, hField, read_pickled_file(h0_filename))


def read_pickled_file(filename):
    """[C17] content of the file"""
    with open(filename, "rb") as handle:
        return pickle.load(handle)


def __main__():
    """[C22 C17] every option checked and handed to the parameter of its name"""
    parser = argparse.ArgumentParser()
    options(parser, "h0_filename")
    args = parser.parse_args()
    sane(args)
    start(main, args, args.h0_filename)
