"""Specification of impurityModel.ed.get_spectra_using_CF."""
import argparse
import json

import numpy as np

from impurityModel.ed import finite
from impurityModel.ed.frontend_spec import operator, options, run, sane, start


def main(h0_CF_filename, radial_filename, ls, nBaths, nValBaths, n0imps, dnTols, dnValBaths, dnConBaths, Fdd, Fpp, Fpd,
         Gpd, xi_2p, xi_3d, chargeTransferCorrection, hField, nPsiMax, nPrintSlaterWeights, tolPrintOccupation, T,
         energy_cut, delta, deltaRIXS, deltaNIXS):
    """[C17 C06 C15:file|dataset|open|close C19 C18 C21:file|dataset|open C12:get_basis C28:dc_MLFT|chargeTransferCorrection C07:assert_hermitian|raise C09:n_spin_orbitals|sum|nBaths|c2i C25:getDensityMatrixCubic] every setting in its place"""
    run(get_hamiltonian_operator_using_CF, "h0_CF_filename", h0_CF_filename, radial_filename, ls, nBaths, nValBaths, n0imps, dnTols,
        dnValBaths, dnConBaths, Fdd, Fpp, Fpd, Gpd, xi_2p, xi_3d, chargeTransferCorrection, hField, nPsiMax,
        nPrintSlaterWeights, tolPrintOccupation, T, energy_cut, delta, deltaRIXS, deltaNIXS)


def get_hamiltonian_operator_using_CF(nBaths, nValBaths, slaterCondon, SOCs, DCinfo, hField, h0_CF_filename,
                                      bath_state_basis="spherical"):
    """[C07 C17 C28 C08 C09 C25] the relativistic Hamiltonian with crystal-field parameters from file"""
    return operator(nBaths, slaterCondon, SOCs, DCinfo, hField,
                    get_CF_hamiltonian(nBaths, nValBaths, h0_CF_filename, bath_state_basis))


def cubic(eg, t2g):
    """diagonal in the cubic harmonics: the eg pair, then the t2g triple"""
    a = np.zeros((5, 5))
    np.fill_diagonal(a, (eg, eg, t2g, t2g, t2g))
    return a


def hermitian(a):
    return (a + np.conj(a.T)) / 2


def rotate(left, a, right):
    return np.dot(left, np.dot(a, np.conj(right.T)))


def get_CF_hamiltonian(nBaths, nValBaths, h0_CF_filename, bath_state_basis="spherical"):
    """[C07 C08 C17 C23 C25 C09] crystal field, hybridisation and bath energies of the 3d shell"""
    (e_imp, split, e_val_eg, e_val_t2g, e_con_eg, e_con_t2g, v_val_eg, v_val_t2g, v_con_eg,
     v_con_t2g) = read_h0_CF_file(h0_CF_filename)
    u = finite.get_spherical_2_cubic_matrix(spinpol=False, l=2)
    imp = hermitian(rotate(u, cubic(e_imp + 3 / 5 * split, e_imp - 2 / 5 * split), u))
    h_imp = {}
    for i in range(5):
        for j in range(5):
            if imp[i, j] != 0:
                for s in range(2):
                    h_imp[(((2, s, i - 2), "c"), ((2, s, j - 2), "a"))] = imp[i, j]
    if bath_state_basis == "spherical":
        u_bath = u
    elif bath_state_basis == "cubic":
        u_bath = np.eye(np.shape(u)[0])
    else:
        raise Exception("unknown basis")
    v_val = rotate(u_bath, cubic(v_val_eg, v_val_t2g), u)
    v_con = rotate(u_bath, cubic(v_con_eg, v_con_t2g), u)
    e_val = hermitian(rotate(u_bath, cubic(e_val_eg, e_val_t2g), u_bath))
    e_con = hermitian(rotate(u_bath, cubic(e_con_eg, e_con_t2g), u_bath))
    hopping = {}
    bath = {}
    for s in range(2):
        for i in range(5):
            val_i = s * 5 + i
            con_i = 10 + s * 5 + i
            for j in range(5):
                val_j = s * 5 + j
                con_j = 10 + s * 5 + j
                imp_j = (2, s, j - 2)
                if v_val[i, j] != 0:
                    hopping[(((2, val_i), "c"), (imp_j, "a"))] = v_val[i, j]
                    hopping[((imp_j, "c"), ((2, val_i), "a"))] = np.conj(v_val[i, j])
                if e_val[i, j] != 0:
                    bath[(((2, val_i), "c"), ((2, val_j), "a"))] = e_val[i, j]
                if nBaths[2] - nValBaths[2] == 10:
                    if v_con[i, j] != 0:
                        hopping[(((2, con_i), "c"), (imp_j, "a"))] = v_con[i, j]
                        hopping[((imp_j, "c"), ((2, con_i), "a"))] = np.conj(v_con[i, j])
                    if e_con[i, j] != 0:
                        bath[(((2, con_i), "c"), ((2, con_j), "a"))] = e_con[i, j]
    return finite.addOps([h_imp, hopping, bath])


def read_h0_CF_file(h0_CF_filename):
    """[C17] each parameter under its own name"""
    with open(h0_CF_filename, "r") as handle:
        p = json.loads(handle.read())
    return (p.get("e_imp", -1.31796), p.get("e_deltaO_imp", 0.60422), p.get("e_val_eg", -4.4), p.get("e_val_t2g", -6.5),
            p.get("e_con_eg", 3), p.get("e_con_t2g", 2), p.get("v_val_eg", 1.883), p.get("v_val_t2g", 1.395),
            p.get("v_con_eg", 0.6), p.get("v_con_t2g", 0.4))


def __main__():
    """[C22 C17] every option checked and handed to the parameter of its name, two shells with 10 valence states"""
    parser = argparse.ArgumentParser()
    options(parser, "h0_CF_filename")
    args = parser.parse_args()
    sane(args)
    assert args.ls[0] == 1
    assert args.ls[1] == 2
    assert args.nBaths[1] in (10, 20)
    assert args.nValBaths[1] == 10
    start(main, args, args.h0_CF_filename)
