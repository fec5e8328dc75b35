"""Specification of impurityModel.ed.spectra."""
from math import sqrt

import numpy as np
import scipy.sparse
import scipy.sparse.linalg
from mpi4py import MPI
from scipy.special import sph_harm, spherical_jn

from impurityModel.ed.average import k_B, thermal_average
from impurityModel.ed.finite import (
    add, applyOp, c2i, daggerOp, expand_basis_and_hamiltonian, gauntC, get_job_tasks, get_tridiagonal_krylov_vectors,
    inner, norm2,
)

comm = MPI.COMM_WORLD
rank = comm.rank
ranks = comm.size


def getDipoleOperators(nBaths, ns):
    """[C17 C26] one operator per polarization, in order"""
    return [getDipoleOperator(nBaths, n) for n in ns]


def getDaggeredDipoleOperators(nBaths, ns):
    """[C17 C26] the adjoint of the dipole operator of each polarization, in order"""
    return [daggerOp(getDipoleOperator(nBaths, n)) for n in ns]


def getDipoleOperator(nBaths, n):
    """[C08 C26 C09] n.r between the two shells, linear in all components of n, spin conserved"""
    component = {-1: (n[0] + 1j * n[1]) / sqrt(2), 0: n[2], 1: (-n[0] + 1j * n[1]) / sqrt(2)}
    l1, l2 = nBaths.keys()
    op = {}
    for m in range(-l2, l2 + 1):
        for mp in range(-l1, l1 + 1):
            if abs(m - mp) <= 1:
                t = gauntC(k=1, l=l2, m=m, lp=l1, mp=mp, prec=16) * component[m - mp]
                for s in range(2):
                    if t != 0:
                        op[((c2i(nBaths, (l2, s, m)), "c"), (c2i(nBaths, (l1, s, mp)), "a"))] = t
    return op


def getNIXSOperators(nBaths, qs, li, lj, Ri, Rj, r, kmin=1):
    """[C17 C26] one operator per momentum transfer, in order"""
    return [getNIXSOperator(nBaths, q, li, lj, Ri, Rj, r, kmin) for q in qs]


def getNIXSOperator(nBaths, q, li, lj, Ri, Rj, r, kmin=1):
    """[C08 C26 C09] multipole expansion of exp(i q.r) between two orbitals, spin conserved"""
    q = np.array(q)
    length = np.linalg.norm(q)
    polar = np.arccos(q[2] / length)
    azimuth = np.arctan2(q[1], q[0])
    op = {}
    for k in range(kmin, abs(li + lj) + 1):
        if (li + lj + k) % 2 == 0:
            radial = np.trapz(np.conj(Ri) * spherical_jn(k, length * r) * Rj * r**2, r)
            for mi in range(-li, li + 1):
                for mj in range(-lj, lj + 1):
                    m = mi - mj
                    if abs(m) <= k:
                        t = radial * 1j**k * sqrt(2 * k + 1) * np.conj(sph_harm(m, k, azimuth, polar)) * gauntC(
                            k, li, mi, lj, mj, prec=16)
                        if t != 0:
                            for s in range(2):
                                p = ((c2i(nBaths, (li, s, mi)), "c"), (c2i(nBaths, (lj, s, mj)), "a"))
                                if p in op:
                                    op[p] += t
                                else:
                                    op[p] = t
    return op


def getInversePhotoEmissionOperators(nBaths, l=2):
    """[C08 C09 C16] create one electron in each spin-orbital of the shell"""
    return [{((c2i(nBaths, (l, s, m)), "c"),): 1} for s in range(2) for m in range(-l, l + 1)]


def getPhotoEmissionOperators(nBaths, l=2):
    """[C08 C09 C16] remove one electron from each spin-orbital of the shell"""
    return [{((c2i(nBaths, (l, s, m)), "a"),): 1} for s in range(2) for m in range(-l, l + 1)]


def vector(psi, index):
    y = np.zeros(len(index), dtype=complex)
    for state, amp in psi.items():
        y[index[state]] = amp
    return y


def getGreen(n_spin_orbitals, e, psi, hOp, omega, delta, krylovSize, slaterWeightMin, restrictions=None, h_dict=None,
             mode="sparse", parallelization_mode="serial"):
    """[C20 C23 C14 C06 C17 C18 C16 C04:input|cache|h_dict] {h_dict} continued fraction at omega + i delta + E"""
    g = np.zeros(len(omega), dtype=complex)
    if len(psi) == 0:
        return g
    if h_dict is None:
        h_dict = {}
    if mode == "dict":
        if parallelization_mode != "serial":
            raise Exception("serial only")
        v = list(np.zeros(krylovSize))
        w = list(np.zeros(krylovSize))
        wp = list(np.zeros(krylovSize))
        alpha = np.zeros(krylovSize, dtype=float)
        beta = np.zeros(krylovSize - 1, dtype=float)
        v[0] = psi
        wp[0] = applyOp(n_spin_orbitals, hOp, v[0], slaterWeightMin, restrictions, h_dict)
        alpha[0] = inner(wp[0], v[0]).real
        w[0] = add(wp[0], v[0], -alpha[0])
        for j in range(1, krylovSize):
            beta[j - 1] = sqrt(norm2(w[j - 1]))
            if beta[j - 1] == 0:
                raise ValueError("invariant subspace")
            v[j] = {s: 1.0 / beta[j - 1] * a for s, a in w[j - 1].items()}
            wp[j] = applyOp(n_spin_orbitals, hOp, v[j], slaterWeightMin, restrictions, h_dict)
            alpha[j] = inner(wp[j], v[j]).real
            w[j] = add(add(wp[j], v[j], -alpha[j]), v[j - 1], -beta[j - 1])
    elif mode == "sparse" or mode == "dense":
        local = parallelization_mode == "H_build"
        h, index = expand_basis_and_hamiltonian(n_spin_orbitals, h_dict, hOp, psi.keys(), restrictions,
                                                parallelization_mode, local)
        krylovSize = min(krylovSize, len(index))
        alpha, beta = get_tridiagonal_krylov_vectors(h, vector(psi, index), krylovSize, local, mode)
    else:
        raise Exception("unknown mode")
    z = omega + 1j * delta + e
    for i in reversed(range(krylovSize)):
        if i == krylovSize - 1:
            g = 1.0 / (z - alpha[i])
        else:
            g = 1.0 / (z - alpha[i] - beta[i] ** 2 * g)
    return g


def normalise(psi):
    norm = sqrt(norm2(psi))
    for state in psi.keys():
        psi[state] /= norm
    return norm


def getSpectra(n_spin_orbitals, hOp, tOps, psis, es, w, delta, restrictions=None, krylovSize=150, slaterWeightMin=1e-7,
               parallelization_mode="H_build"):
    """[C04 C06 C14 C16 C17 C18 C20 C23] squared norm of the excited state times its resolvent"""
    n = len(es)
    gs = np.zeros((n, len(tOps), len(w)), dtype=complex)
    h = {}
    if parallelization_mode == "eigen_states":
        mine = {}
        for i in get_job_tasks(rank, ranks, range(n)):
            mine[i] = np.zeros((len(tOps), len(w)), dtype=complex)
            for t, op in enumerate(tOps):
                psi = applyOp(n_spin_orbitals, op, psis[i], slaterWeightMin, restrictions)
                norm = normalise(psi)
                mine[i][t, :] = norm**2 * getGreen(n_spin_orbitals, es[i], psi, hOp, w, delta, krylovSize,
                                                   slaterWeightMin, restrictions, h, parallelization_mode="serial")
        for r in range(ranks):
            for i, g in comm.bcast(mine, root=r).items():
                gs[i, :, :] = g
    elif parallelization_mode == "H_build":
        for t, op in enumerate(tOps):
            cache = {}
            for i in range(n):
                psi = applyOp(n_spin_orbitals, op, psis[i], slaterWeightMin, restrictions, cache)
                norm = normalise(psi)
                gs[i, t, :] = norm**2 * getGreen(n_spin_orbitals, es[i], psi, hOp, w, delta, krylovSize,
                                                 slaterWeightMin, restrictions, h,
                                                 parallelization_mode=parallelization_mode)
    else:
        raise Exception("unknown mode")
    return gs


def intermediate(h, index, psi, energy):
    """(energy - h)^-1 psi"""
    n = len(index)
    states = {i: state for state, i in index.items()}
    y = vector(psi, index)
    a = scipy.sparse.csr_matrix(([energy] * n, (range(n), range(n))), shape=(n, n))
    a -= h
    x, info = scipy.sparse.linalg.bicgstab(a, y)
    out = {}
    for i, amp in enumerate(x):
        if amp != 0:
            out[states[i]] = amp
    return out


def emission(n_spin_orbitals, op, psi, slaterWeightMin, restrictions, cache):
    out = applyOp(n_spin_orbitals, op, psi, slaterWeightMin, restrictions, cache)
    norm = normalise(out)
    for state, amp in list(out.items()):
        if abs(amp) ** 2 < slaterWeightMin:
            out.pop(state)
    return out, norm


def getRIXSmap(n_spin_orbitals, hOp, tOpsIn, tOpsOut, psis, es, wIns, wLoss, delta1, delta2, restrictions=None,
               krylovSize=150, slaterWeightMin=1e-7, h_dict_ground=None, parallelization_mode="H_build_wIn"):
    """[C04 C06 C14 C16 C17 C18 C20 C23] {h_dict_ground} resolvent of the emitted intermediate state"""
    if h_dict_ground is None:
        h_dict_ground = {}
    gs = np.zeros((len(es), len(tOpsIn), len(tOpsOut), len(wIns), len(wLoss)), dtype=complex)
    excited = {}
    out_caches = [{} for _ in tOpsOut]
    if parallelization_mode == "serial" or parallelization_mode == "H_build":
        for tin, op_in in enumerate(tOpsIn):
            in_cache = {}
            for i in range(len(es)):
                psi1 = applyOp(n_spin_orbitals, op_in, psis[i], slaterWeightMin, restrictions, in_cache)
                h, index = expand_basis_and_hamiltonian(n_spin_orbitals, excited, hOp, psi1.keys(), restrictions,
                                                        parallelization_mode, return_h_local=False)
                for iw, win in enumerate(wIns):
                    psi2 = intermediate(h, index, psi1, win + 1j * delta1 + es[i])
                    for tout, op_out in enumerate(tOpsOut):
                        psi3, norm = emission(n_spin_orbitals, op_out, psi2, slaterWeightMin, restrictions,
                                              out_caches[tout])
                        gs[i, tin, tout, iw, :] = norm**2 * getGreen(
                            n_spin_orbitals, es[i], psi3, hOp, wLoss, delta2, krylovSize, slaterWeightMin, restrictions,
                            h_dict_ground, parallelization_mode=parallelization_mode)
    elif parallelization_mode == "wIn" or parallelization_mode == "H_build_wIn":
        for tin, op_in in enumerate(tOpsIn):
            in_cache = {}
            for i in range(len(es)):
                psi1 = applyOp(n_spin_orbitals, op_in, psis[i], slaterWeightMin, restrictions, in_cache)
                if parallelization_mode == "wIn":
                    h, index = expand_basis_and_hamiltonian(n_spin_orbitals, excited, hOp, psi1.keys(), restrictions,
                                                            parallelization_mode="serial", return_h_local=False)
                else:
                    h, index = expand_basis_and_hamiltonian(n_spin_orbitals, excited, hOp, psi1.keys(), restrictions,
                                                            parallelization_mode="H_build", return_h_local=False)
                mine = {}
                for iw in get_job_tasks(rank, ranks, range(len(wIns))):
                    mine[iw] = np.zeros((len(tOpsOut), len(wLoss)), dtype=complex)
                    psi2 = intermediate(h, index, psi1, wIns[iw] + 1j * delta1 + es[i])
                    for tout, op_out in enumerate(tOpsOut):
                        psi3, norm = emission(n_spin_orbitals, op_out, psi2, slaterWeightMin, restrictions,
                                              out_caches[tout])
                        mine[iw][tout, :] = norm**2 * getGreen(
                            n_spin_orbitals, es[i], psi3, hOp, wLoss, delta2, krylovSize, slaterWeightMin, restrictions,
                            h_dict_ground, parallelization_mode="serial")
                for r in range(ranks):
                    for iw, g in comm.bcast(mine, root=r).items():
                        gs[i, tin, :, iw, :] = g
    else:
        raise Exception("unknown mode")
    return gs


def report(h5f, name, mesh, gs, es, T):
    """intensities per state and their thermal average"""
    a = thermal_average(es[:np.shape(gs)[0]], -gs.imag, T=T)
    if rank == 0:
        h5f.create_dataset(name, data=-gs.imag)
        h5f.create_dataset(name + "thermal", data=a)
    return a


def table(name, mesh, a):
    """energies, sum over all operators, one column per operator"""
    total = np.sum(a, axis=0)
    if rank == 0:
        columns = [mesh, total]
        for i in range(np.shape(a)[0]):
            columns.append(a[i, :])
        np.savetxt(name + ".dat", np.array(columns).T)


def simulate_spectra(es, psis, hOp, T, w, delta, epsilons, wLoss, deltaNIXS, qsNIXS, liNIXS, ljNIXS, RiNIXS, RjNIXS,
                     radialMesh, wIn, deltaRIXS, epsilonsRIXSin, epsilonsRIXSout, restrictions, h5f, nBaths):
    """[C06 C15:file|dataset|open|close C16 C17 C18 C21:file|dataset|open C26 C19 C14 C04:h_dict|snap|call|cache] every spectrum with its own operators, meshes and broadenings"""
    n = sum([2 * (2 * l + 1) + k for l, k in nBaths.items()])
    add = getSpectra(n, hOp, getInversePhotoEmissionOperators(nBaths, l=2), psis, es, w, delta, restrictions)
    take = getSpectra(n, hOp, getPhotoEmissionOperators(nBaths, l=2), psis, es, -w, -delta, restrictions)
    table("PS", w, report(h5f, "PS", w, add - take, es, T))
    take = getSpectra(n, hOp, getPhotoEmissionOperators(nBaths, l=1), psis, es, -w, -delta, restrictions)
    table("XPS", w, report(h5f, "XPS", w, -take, es, T))
    ops = getNIXSOperators(nBaths, qsNIXS, liNIXS, ljNIXS, RiNIXS, RjNIXS, radialMesh)
    gs = getSpectra(n, hOp, ops, psis, es, wLoss, deltaNIXS, restrictions)
    table("NIXS", wLoss, report(h5f, "NIXS", wLoss, gs, es, T))
    gs = getSpectra(n, hOp, getDipoleOperators(nBaths, epsilons), psis, es, w, delta, restrictions)
    table("XAS", w, report(h5f, "XAS", w, gs, es, T))
    gs = getRIXSmap(n, hOp, getDipoleOperators(nBaths, epsilonsRIXSin),
                    getDaggeredDipoleOperators(nBaths, epsilonsRIXSout), psis, es, wIn, wLoss, delta, deltaRIXS,
                    restrictions)
    a = report(h5f, "RIXS", wLoss, gs, es, T)
    total = np.sum(a, axis=(0, 1))
    if rank == 0:
        image = np.zeros((len(wLoss) + 1, len(wIn) + 1), dtype=np.float32)
        image[0, 0] = len(wIn)
        image[0, 1:] = wIn
        image[1:, 0] = wLoss
        image[1:, 1:] = total.T
        image.tofile("RIXS.bin")
        h5f.close()
