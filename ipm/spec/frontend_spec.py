"""What both simulation programs do with their parameters."""
import argparse
from collections import OrderedDict

import h5py
import numpy as np
from mpi4py import MPI

from impurityModel.ed import finite, spectra
from impurityModel.ed.average import k_B
from impurityModel.ed.finite import assert_hermitian, c2i

comm = MPI.COMM_WORLD
rank = comm.rank


def limits(nBaths, nValBaths, n0imps, dnTols, dnValBaths, dnConBaths):
    """occupation limits of the 3d impurity orbitals, the valence and the conduction bath"""
    shell = frozenset([c2i(nBaths, (2, s, m)) for s in range(2) for m in range(-2, 3)])
    valence = frozenset([c2i(nBaths, (2, b)) for b in range(nValBaths[2])])
    conduction = frozenset([c2i(nBaths, (2, b)) for b in range(nValBaths[2], nBaths[2])])
    r = {}
    r[shell] = (n0imps[2] - 1, n0imps[2] + dnTols[2] + 1)
    r[valence] = (nValBaths[2] - dnValBaths[2], nValBaths[2])
    r[conduction] = (0, dnConBaths[2])
    return r


def operator(nBaths, slaterCondon, SOCs, DCinfo, hField, h0):
    """sum of all contributions, numbered, and found to be its own adjoint"""
    Fdd, Fpp, Fpd, Gpd = slaterCondon
    xi_2p, xi_3d = SOCs
    n0imps, chargeTransferCorrection = DCinfo
    hx, hy, hz = hField
    dc = finite.dc_MLFT(n3d_i=n0imps[2], c=chargeTransferCorrection, Fdd=Fdd, n2p_i=n0imps[1], Fpd=Fpd, Gpd=Gpd)
    counting = {}
    for i, l in ((0, 2), (1, 1)):
        for s in range(2):
            for m in range(-l, l + 1):
                counting[(((l, s, m), "c"), ((l, s, m), "a"))] = -dc[i]
    total = finite.addOps([
        finite.get2p3dSlaterCondonUop(Fdd=Fdd, Fpp=Fpp, Fpd=Fpd, Gpd=Gpd),
        finite.gethHfieldop(hx, hy, hz, l=2),
        finite.getSOCop(xi_2p, l=1),
        finite.getSOCop(xi_3d, l=2),
        counting,
        h0,
    ])
    numbered = {}
    for process, strength in total.items():
        numbered[tuple([(c2i(nBaths, spin_orbital), kind) for spin_orbital, kind in process])] = strength
    assert_hermitian(numbered)
    return numbered


def run(make_operator, h0_name, h0_filename, radial_filename, ls, nBaths, nValBaths, n0imps, dnTols, dnValBaths, dnConBaths, Fdd, Fpp,
        Fpd, Gpd, xi_2p, xi_3d, chargeTransferCorrection, hField, nPsiMax, nPrintSlaterWeights, tolPrintOccupation, T,
        energy_cut, delta, deltaRIXS, deltaNIXS):
    nBaths = OrderedDict(zip(ls, nBaths))
    nValBaths = OrderedDict(zip(ls, nValBaths))
    n0imps = OrderedDict(zip(ls, n0imps))
    dnTols = OrderedDict(zip(ls, dnTols))
    dnValBaths = OrderedDict(zip(ls, dnValBaths))
    dnConBaths = OrderedDict(zip(ls, dnConBaths))
    energy_cut = energy_cut * k_B * T
    w = np.linspace(-25, 25, 3000)
    wIn = np.linspace(-10, 20, 50)
    wLoss = np.linspace(-2, 12, 4000)
    epsilons = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    epsilonsRIXSin = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    epsilonsRIXSout = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    qsNIXS = [2 * np.array([1, 1, 1]) / np.sqrt(3), 7 * np.array([1, 1, 1]) / np.sqrt(3)]
    restrictions = limits(nBaths, nValBaths, n0imps, dnTols, dnValBaths, dnConBaths)
    radialMesh, RiNIXS = np.loadtxt(radial_filename).T
    RjNIXS = np.copy(RiNIXS)
    n_spin_orbitals = sum([2 * (2 * l + 1) + n for l, n in nBaths.items()])
    hOp = make_operator(nBaths, nValBaths, [Fdd, Fpp, Fpd, Gpd], [xi_2p, xi_3d], [n0imps, chargeTransferCorrection],
                        hField, h0_filename)
    basis = finite.get_basis(nBaths, nValBaths, dnValBaths, dnConBaths, dnTols, n0imps)
    es, psis = finite.eigensystem(n_spin_orbitals, hOp, basis, nPsiMax)
    finite.printThermalExpValues(nBaths, es, psis, T=T)
    finite.printExpValues(nBaths, es, psis)
    if rank == 0:
        for psi in psis:
            print("Consists of {} product states.".format(len(psi)))
            ws = np.array([abs(a) ** 2 for a in psi.values()])
            s = np.array(list(psi.keys()))
            j = np.argsort(ws)
            ws = ws[j[-1::-1]]
            s = s[j[-1::-1]]
            if nPrintSlaterWeights > 0:
                print("Highest (product state) weights:")
                print(ws[:nPrintSlaterWeights])
                print("Corresponding product states:")
                print(s[:nPrintSlaterWeights])
        for psi in psis:
            n = finite.getDensityMatrixCubic(nBaths, psi)
            print("#density matrix elements: {}".format(len(n)))
            for e, ne in n.items():
                if abs(ne) > tolPrintOccupation:
                    if e[0] == e[1]:
                        print("Diagonal: (i,s) =", e[0], ", occupation = {}".format(ne))
                    else:
                        print("Off-diagonal: (i,si), (j,sj) =", e, ", {}".format(ne))
    if rank == 0:
        np.savez_compressed(
            "data", ls=ls, nBaths=nBaths, nValBaths=nValBaths, n0imps=n0imps, dnTols=dnTols, dnValBaths=dnValBaths,
            dnConBaths=dnConBaths, Fdd=Fdd, Fpp=Fpp, Fpd=Fpd, Gpd=Gpd, xi_2p=xi_2p, xi_3d=xi_3d,
            chargeTransferCorrection=chargeTransferCorrection, hField=hField, nPsiMax=nPsiMax, T=T,
            energy_cut=energy_cut, delta=delta, restrictions=restrictions, epsilons=epsilons,
            epsilonsRIXSin=epsilonsRIXSin, epsilonsRIXSout=epsilonsRIXSout, deltaRIXS=deltaRIXS, deltaNIXS=deltaNIXS,
            n_spin_orbitals=n_spin_orbitals, hOp=hOp, **{h0_name: h0_filename})
        h5f = h5py.File("spectra.h5", "w")
        h5f.create_dataset("E", data=es)
        h5f.create_dataset("w", data=w)
        h5f.create_dataset("wIn", data=wIn)
        h5f.create_dataset("wLoss", data=wLoss)
        h5f.create_dataset("qsNIXS", data=qsNIXS)
        h5f.create_dataset("r", data=radialMesh)
        h5f.create_dataset("RiNIXS", data=RiNIXS)
        h5f.create_dataset("RjNIXS", data=RjNIXS)
    else:
        h5f = None
    es = tuple([e for e in es if e - es[0] < energy_cut])
    psis = tuple([psis[i] for i in range(len(es))])
    spectra.simulate_spectra(es, psis, hOp, T, w, delta, epsilons, wLoss, deltaNIXS, qsNIXS, 2, 2, RiNIXS, RjNIXS,
                             radialMesh, wIn, deltaRIXS, epsilonsRIXSin, epsilonsRIXSout, restrictions, h5f, nBaths)


def options(parser, h0):
    """the options of both simulation programs"""
    parser.add_argument(h0, type=str)
    parser.add_argument("radial_filename", type=str)
    parser.add_argument("--ls", type=int, nargs="+", default=[1, 2])
    parser.add_argument("--nBaths", type=int, nargs="+", default=[0, 10])
    parser.add_argument("--nValBaths", type=int, nargs="+", default=[0, 10])
    parser.add_argument("--n0imps", type=int, nargs="+", default=[6, 8])
    parser.add_argument("--dnTols", type=int, nargs="+", default=[0, 2])
    parser.add_argument("--dnValBaths", type=int, nargs="+", default=[0, 2])
    parser.add_argument("--dnConBaths", type=int, nargs="+", default=[0, 0])
    parser.add_argument("--Fdd", type=float, nargs="+", default=[7.5, 0, 9.9, 0, 6.6])
    parser.add_argument("--Fpp", type=float, nargs="+", default=[0, 0, 0])
    parser.add_argument("--Fpd", type=float, nargs="+", default=[8.9, 0, 6.8])
    parser.add_argument("--Gpd", type=float, nargs="+", default=[0, 5, 0, 2.8])
    parser.add_argument("--xi_2p", type=float, default=11.629)
    parser.add_argument("--xi_3d", type=float, default=0.096)
    parser.add_argument("--chargeTransferCorrection", type=float, default=1.5)
    parser.add_argument("--hField", type=float, nargs="+", default=[0, 0, 0.0001])
    parser.add_argument("--nPsiMax", type=int, default=5)
    parser.add_argument("--nPrintSlaterWeights", type=int, default=3)
    parser.add_argument("--tolPrintOccupation", type=float, default=0.5)
    parser.add_argument("--T", type=float, default=300)
    parser.add_argument("--energy_cut", type=float, default=10)
    parser.add_argument("--delta", type=float, default=0.2)
    parser.add_argument("--deltaRIXS", type=float, default=0.05)
    parser.add_argument("--deltaNIXS", type=float, default=0.1)


def sane(args):
    """lists of one length per shell, not more valence than bath states, possible occupations, complete integrals"""
    for x in (args.nBaths, args.nValBaths, args.n0imps, args.dnTols, args.dnValBaths, args.dnConBaths):
        assert len(args.ls) == len(x)
    for n, v in zip(args.nBaths, args.nValBaths):
        assert v <= n
    for l, n in zip(args.ls, args.n0imps):
        assert n <= 2 * (2 * l + 1)
        assert n >= 0
    assert len(args.Fdd) == 5
    assert len(args.Fpp) == 3
    assert len(args.Fpd) == 3
    assert len(args.Gpd) == 4
    assert len(args.hField) == 3


def start(main, args, h0):
    main(h0, args.radial_filename, tuple(args.ls), tuple(args.nBaths), tuple(args.nValBaths), tuple(args.n0imps),
         tuple(args.dnTols), tuple(args.dnValBaths), tuple(args.dnConBaths), tuple(args.Fdd), tuple(args.Fpp),
         tuple(args.Fpd), tuple(args.Gpd), args.xi_2p, args.xi_3d, args.chargeTransferCorrection, tuple(args.hField),
         args.nPsiMax, args.nPrintSlaterWeights, args.tolPrintOccupation, args.T, args.energy_cut, args.delta,
         args.deltaRIXS, args.deltaNIXS)
