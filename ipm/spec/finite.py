"""Specification of impurityModel.ed.finite."""
import itertools
from collections import OrderedDict
from math import pi, sqrt

import numpy as np
import scipy.sparse
from sympy.physics.wigner import gaunt
from impurityModel.ed import product_state_representation as psr
from impurityModel.ed import create
from impurityModel.ed import remove
from impurityModel.ed.average import k_B, thermal_average
from mpi4py import MPI

comm = MPI.COMM_WORLD
rank = comm.rank
ranks = comm.size


def occupation_allowed(bits, restrictions):
    """every limit holds, both limits inclusive"""
    occupied = psr.bitarray2tuple(bits)
    for orbitals, limits in restrictions.items():
        n = len(orbitals.intersection(occupied))
        if n < limits[0] or limits[1] < n:
            return False
    return True


def add_to(total, state, amp):
    if state in total:
        total[state] += amp
    else:
        total[state] = amp


def images(op, state, n_spin_orbitals):
    """bit array, bytes and strength of every process that does not annihilate the state"""
    start = psr.bytes2bitarray(state, n_spin_orbitals)
    for process, strength in op.items():
        bits = start.copy()
        sign = 1
        for i, kind in reversed(process):
            if kind == "a":
                s = remove.ubitarray(i, bits)
            elif kind == "c":
                s = create.ubitarray(i, bits)
            else:
                raise Exception("unknown kind of step")
            if s == 0:
                break
            sign *= s
        else:
            yield bits, psr.bitarray2bytes(bits), strength * sign


def prune(total, cutoff):
    for state, amp in list(total.items()):
        if abs(amp) ** 2 < cutoff:
            total.pop(state)


def applyOp(n_spin_orbitals, op, psi, slaterWeightMin=1e-12, restrictions=None, opResult=None):
    """[C03 C04 C05 C06 C23:raise] {opResult, restrictions} an operator acts as the sum of its processes"""
    total = {}
    for state, amp in psi.items():
        if opResult is not None and state in opResult:
            for k, v in opResult[state].items():
                add_to(total, k, amp * v)
            continue
        if opResult is not None:
            opResult[state] = {}
        for bits, out, strength in images(op, state, n_spin_orbitals):
            if restrictions is None:
                add_to(total, out, amp * strength)
                if opResult is not None:
                    add_to(opResult[state], out, strength)
            elif out in total:
                total[out] += amp * strength
                if opResult is not None:
                    add_to(opResult[state], out, strength)
            elif occupation_allowed(bits, restrictions):
                total[out] = amp * strength
                if opResult is not None:
                    opResult[state][out] = strength
        if opResult is not None:
            prune(opResult[state], slaterWeightMin)
    prune(total, slaterWeightMin)
    return total


def get_job_tasks(rank, ranks, tasks_tot):
    """[C14] contiguous equal shares, the remaining tasks one each to the first ranks"""
    share = len(tasks_tot) // ranks
    mine = [tasks_tot[rank * share + i] for i in range(share)]
    left = len(tasks_tot) % ranks
    if rank < left:
        mine.append(tasks_tot[len(tasks_tot) - left + rank])
    return tuple(mine)


def eigensystem(n_spin_orbitals, hOp, basis, nPsiMax, groundDiagMode="Lanczos", eigenValueTol=1e-9,
                slaterWeightMin=1e-7):
    """[C19 C23 C10 C17 C18] ascending energies, each state at the position of its energy"""
    h = get_hamiltonian_matrix(n_spin_orbitals, hOp, basis)
    if groundDiagMode == "full":
        es, vecs = np.linalg.eigh(h.todense())
        es = es[:nPsiMax]
        vecs = vecs[:, :nPsiMax]
    elif groundDiagMode == "Lanczos":
        es, vecs = scipy.sparse.linalg.eigsh(h, k=nPsiMax, which="SA", tol=eigenValueTol)
        order = np.argsort(es)
        es = np.array([es[i] for i in order])
        vecs = np.array([vecs[:, i] for i in order]).T
    else:
        raise Exception("unknown mode")
    psis = []
    for vi in range(len(es)):
        psis.append({basis[i]: vecs[i, vi] for i in range(len(basis)) if slaterWeightMin <= abs(vecs[i, vi]) ** 2})
    return es, psis


def dc_MLFT(n3d_i, c, Fdd, n2p_i=None, Fpd=None, Gpd=None):
    """[C28 C23 C18] multiplet ligand-field theory double counting"""
    if int(n3d_i) != n3d_i:
        raise ValueError
    if n2p_i is not None and int(n2p_i) != n2p_i:
        raise ValueError
    Udd = Fdd[0] - 14.0 / 441 * (Fdd[2] + Fdd[4])
    if n2p_i is None and Fpd is None and Gpd is None:
        return Udd * n3d_i - c
    if n2p_i == 6 and Fpd is not None and Gpd is not None:
        Upd = Fpd[0] - 1 / 15.0 * Gpd[1] - 3 / 70.0 * Gpd[3]
        return [Udd * n3d_i + Upd * n2p_i - c, Upd * (n3d_i + 1) - c]
    raise ValueError


def get_spherical_2_cubic_matrix(spinpol=False, l=2):
    """[C25 C23] columns are the cubic harmonics in terms of the spherical ones"""
    r = 1 / np.sqrt(2)
    if l == 1:
        u = np.zeros((3, 3), dtype=complex)
        u[0, 0] = 1j * r
        u[2, 0] = 1j * r
        u[0, 1] = r
        u[2, 1] = -r
        u[1, 2] = 1
    elif l == 2:
        u = np.zeros((5, 5), dtype=complex)
        # eg: z2, x2-y2
        u[2, 0] = 1
        u[[0, -1], 1] = r
        # t2g
        u[1, 2] = -1j * r
        u[-2, 2] = -1j * r
        u[1, 3] = r
        u[-2, 3] = -r
        u[0, 4] = 1j * r
        u[-1, 4] = -1j * r
    else:
        raise ValueError
    if spinpol:
        n, m = np.shape(u)
        U = np.zeros((2 * n, 2 * m), dtype=complex)
        U[0:n, 0:m] = u
        U[n:, m:] = u
        u = U
    return u


def daggerOp(op):
    """[C05 C07 C26 C23:raise] reversed steps, creation and removal exchanged, conjugate strength"""
    adjoint = {}
    for process, value in op.items():
        steps = []
        for i, kind in reversed(process):
            if kind == "a":
                steps.append((i, "c"))
            elif kind == "c":
                steps.append((i, "a"))
            else:
                raise Exception
        adjoint[tuple(steps)] = value.conjugate()
    return adjoint


def assert_hermitian(op):
    """[C07]"""
    assert daggerOp(op) == op


def get_basis(nBaths, valBaths, dnValBaths, dnConBaths, dnTol, n0imp):
    """[C12 C09] all configurations within the occupation windows"""
    for l in nBaths.keys():
        assert valBaths[l] <= nBaths[l]
    shells = {}
    for l in nBaths.keys():
        shells[l] = []
        for holes in range(dnValBaths[l] + 1):
            for electrons in range(dnConBaths[l] + 1):
                if abs(holes - electrons) <= dnTol[l]:
                    nImp = n0imp[l] + holes - electrons
                    nVal = valBaths[l] - holes
                    nCon = electrons
                    assert nVal <= valBaths[l]
                    assert nCon <= nBaths[l] - valBaths[l]
                    assert nImp <= 2 * (2 * l + 1)
                    imp = [c2i(nBaths, (l, s, m)) for s in range(2) for m in range(-l, l + 1)]
                    imps = tuple(itertools.combinations(imp, nImp))
                    if valBaths[l] == 0:
                        vals = ((),)
                    else:
                        val = [c2i(nBaths, (l, b)) for b in range(valBaths[l])]
                        vals = tuple(itertools.combinations(val, nVal))
                    if nBaths[l] - valBaths[l] == 0:
                        cons = ((),)
                    else:
                        con = [c2i(nBaths, (l, b)) for b in range(valBaths[l], nBaths[l])]
                        cons = tuple(itertools.combinations(con, nCon))
                    for bImp in imps:
                        for bVal in vals:
                            for bCon in cons:
                                shells[l].append(bImp + bVal + bCon)
    n_spin_orbitals = sum(2 * (2 * l + 1) + n for l, n in nBaths.items())
    basis = []
    for configuration in itertools.product(*shells.values()):
        basis.append(psr.tuple2bytes(tuple(sorted(itertools.chain.from_iterable(configuration))), n_spin_orbitals))
    return tuple(basis)


def inner(a, b):
    """[C05 C16 C20] <a|b>"""
    total = 0
    for state, amp in b.items():
        if state in a:
            total += np.conj(a[state]) * amp
    return total


def addToFirst(psi1, psi2, mul=1):
    """[C05 C03 C20] psi1 + mul*psi2, stored in psi1"""
    for state, amp in psi2.items():
        add_to(psi1, state, amp * mul)


def a(n_spin_orbitals, i, psi):
    """[C05 C01 C24 C25] remove an electron in spin-orbital i"""
    ret = {}
    for state, amp in psi.items():
        new, sign = remove.ubytes(n_spin_orbitals, i, state)
        if sign != 0:
            ret[new] = amp * sign
    return ret


def c(n_spin_orbitals, i, psi):
    """[C05 C01 C24 C25] create an electron in spin-orbital i"""
    ret = {}
    for state, amp in psi.items():
        new, sign = create.ubytes(n_spin_orbitals, i, state)
        if sign != 0:
            ret[new] = amp * sign
    return ret


def gauntC(k, l, m, lp, mp, prec=16):
    """[C28 C08 C26] Gaunt coefficient c^k(l m, l' m')"""
    return float(sqrt(4 * pi / (2 * k + 1)) * (-1) ** m * gaunt(l, k, lp, -m, m - mp, mp, prec=prec))


def getU(l1, m1, l2, m2, l3, m3, l4, m4, R):
    """[C28 C08] Slater-weighted product of Gaunt coefficients, conserving the orbital projection"""
    u = 0
    if m1 + m2 == m3 + m4:
        for k, Rk in enumerate(R):
            u += Rk * gauntC(k, l1, m1, l4, m4) * gauntC(k, l3, m3, l2, m2)
    return u


def orbital_quadruples(l1, l2, l3, l4, R):
    for m1 in range(-l1, l1 + 1):
        for m2 in range(-l2, l2 + 1):
            for m3 in range(-l3, l3 + 1):
                for m4 in range(-l4, l4 + 1):
                    u = getU(l1, m1, l2, m2, l3, m3, l4, m4, R)
                    if u != 0:
                        yield m1, m2, m3, m4, u / 2.0


def getNoSpinUop(l1, l2, l3, l4, R):
    """[C28 C08] orbital part of the interaction"""
    uDict = {}
    for m1, m2, m3, m4, u in orbital_quadruples(l1, l2, l3, l4, R):
        uDict[((l1, m1), (l2, m2), (l3, m3), (l4, m4))] = u
    return uDict


def getUop(l1, l2, l3, l4, R):
    """[C28 C08] the interaction: 1 and 4 share a spin, 2 and 3 share a spin"""
    uDict = {}
    for m1, m2, m3, m4, u in orbital_quadruples(l1, l2, l3, l4, R):
        for s in range(2):
            for sp in range(2):
                if s == sp and ((l1, m1) == (l2, m2) or (l3, m3) == (l4, m4)):
                    continue
                uDict[(((l1, s, m1), "c"), ((l2, sp, m2), "c"), ((l3, sp, m3), "a"), ((l4, s, m4), "a"))] = u
    return uDict


def addOps(ops):
    """[C28 C05 C07] sum of operators: strengths of equal processes are added"""
    total = {}
    for op in ops:
        for process, value in op.items():
            if value != 0:
                add_to(total, process, value)
    return total


def get2p3dSlaterCondonUop(Fdd=(9, 0, 8, 0, 6), Fpp=(20, 0, 8), Fpd=(10, 0, 8), Gpd=(0, 3, 0, 2)):
    """[C28 C08] dd, pp, direct pd and exchange pd, each once"""
    return addOps([
        getUop(2, 2, 2, 2, Fdd),
        getUop(1, 1, 1, 1, Fpp),
        addOps([getUop(1, 2, 2, 1, Fpd), getUop(2, 1, 1, 2, Fpd)]),
        addOps([getUop(1, 2, 1, 2, Gpd), getUop(2, 1, 2, 1, Gpd)]),
    ])


def getSOCop(xi, l=2):
    """[C24 C08 C07] xi * L.S"""
    op = {}
    for m in range(-l, l + 1):
        op[(((l, 0, m), "c"), ((l, 0, m), "a"))] = -xi * m / 2
        op[(((l, 1, m), "c"), ((l, 1, m), "a"))] = xi * m / 2
    for m in range(-l, l):
        ladder = xi / 2.0 * sqrt((l - m) * (l + m + 1))
        op[(((l, 1, m), "c"), ((l, 0, m + 1), "a"))] = ladder
        op[(((l, 0, m + 1), "c"), ((l, 1, m), "a"))] = ladder
    return op


def gethHfieldop(hx, hy, hz, l=2):
    """[C24 C08 C07] h.S"""
    op = {}
    for m in range(-l, l + 1):
        op[(((l, 1, m), "c"), ((l, 0, m), "a"))] = hx / 2 - 1j * hy / 2
        op[(((l, 0, m), "c"), ((l, 1, m), "a"))] = hx / 2 + 1j * hy / 2
        op[(((l, 0, m), "c"), ((l, 0, m), "a"))] = -hz / 2
        op[(((l, 1, m), "c"), ((l, 1, m), "a"))] = hz / 2
    return op


def c2i(nBaths, spinOrb):
    """[C09] impurity spin-orbitals first, then bath states, in the order of the shells"""
    i = 0
    for lp in nBaths:
        if isinstance(lp, int):
            for sp in range(2):
                for mp in range(-lp, lp + 1):
                    if (lp, sp, mp) == spinOrb:
                        return i
                    i += 1
        elif isinstance(lp, tuple):
            for lp_int in lp:
                for sp in range(2):
                    for mp in range(-lp_int, lp_int + 1):
                        if (lp_int, sp, mp) == spinOrb:
                            return i
                        i += 1
    for lp, nBath in nBaths.items():
        for b in range(nBath):
            if (lp, b) == spinOrb:
                return i
            i += 1
    raise Exception


def i2c(nBaths, i):
    """[C09] inverse of c2i"""
    k = 0
    for lp in nBaths:
        if isinstance(lp, int):
            if i - k < 2 * (2 * lp + 1):
                for sp in range(2):
                    for mp in range(-lp, lp + 1):
                        if k == i:
                            return lp, sp, mp
                        k += 1
            k += 2 * (2 * lp + 1)
        elif isinstance(lp, tuple):
            for lp_int in lp:
                if i - k < 2 * (2 * lp_int + 1):
                    for sp in range(2):
                        for mp in range(-lp_int, lp_int + 1):
                            if k == i:
                                return lp_int, sp, mp
                            k += 1
                k += 2 * (2 * lp_int + 1)
    for lp, nBath in nBaths.items():
        b = i - k
        if 0 <= b < nBath:
            return lp, b
        k += nBath
    raise Exception


def count_spin_orbitals(nBaths):
    return sum(2 * (2 * l + 1) + n for l, n in nBaths.items())


def getLz3d(nBaths, psi):
    """[C24 C09] expectation value of m over the d shell"""
    n = count_spin_orbitals(nBaths)
    Lz = 0
    for state, amp in psi.items():
        m = 0
        for i in psr.bytes2tuple(state, n):
            so = i2c(nBaths, i)
            if len(so) == 3 and so[0] == 2:
                m += so[2]
        Lz += m * abs(amp) ** 2
    return Lz


def getSz3d(nBaths, psi):
    """[C24 C09] expectation value of the spin projection over the d shell"""
    n = count_spin_orbitals(nBaths)
    Sz = 0
    for state, amp in psi.items():
        s = 0
        for i in psr.bytes2tuple(state, n):
            so = i2c(nBaths, i)
            if len(so) == 3 and so[0] == 2:
                s += 1 / 2 if so[1] != 0 else -1 / 2
        Sz += s * abs(amp) ** 2
    return Sz


def getSsqr3d(nBaths, psi, tol=1e-8):
    """[C24] Sz^2 + (S+S- + S-S+)/2"""
    return (norm2(applySz3d(nBaths, psi)) + (norm2(applySplus3d(nBaths, psi)) + norm2(applySminus3d(nBaths, psi))) / 2).real


def getLsqr3d(nBaths, psi, tol=1e-8):
    """[C24] Lz^2 + (L+L- + L-L+)/2"""
    return (norm2(applyLz3d(nBaths, psi)) + (norm2(applyLplus3d(nBaths, psi)) + norm2(applyLminus3d(nBaths, psi))) / 2).real


def getTraceDensityMatrix(nBaths, psi, l=2):
    """[C25 C24 C09] number of electrons in the shell"""
    n_spin_orbitals = count_spin_orbitals(nBaths)
    n = 0
    for state, amp in psi.items():
        s = psr.bytes2str(state, n_spin_orbitals)
        k = 0
        for spin in range(2):
            for m in range(-l, l + 1):
                if s[c2i(nBaths, (l, spin, m))] == "1":
                    k += 1
        n += k * abs(amp) ** 2
    return n


def one_body(nBaths, i, j, psi):
    """<psi| c_j^+ c_i |psi>"""
    n = count_spin_orbitals(nBaths)
    return inner(psi, c(n, j, a(n, i, psi)))


def getDensityMatrix(nBaths, psi, l=2):
    """[C25 C24 C09] element (i, j) is <c_j^+ c_i>"""
    rho = OrderedDict()
    for si in range(2):
        for sj in range(2):
            for mi in range(-l, l + 1):
                for mj in range(-l, l + 1):
                    v = one_body(nBaths, c2i(nBaths, (l, si, mi)), c2i(nBaths, (l, sj, mj)), psi)
                    if v != 0:
                        rho[((l, si, mi), (l, sj, mj))] = v
    return rho


def getDensityMatrixCubic(nBaths, psi):
    """[C25] the density matrix in cubic harmonics"""
    sph = getDensityMatrix(nBaths, psi)
    u = get_spherical_2_cubic_matrix()
    cub = OrderedDict()
    for i in range(5):
        for j in range(5):
            for si in range(2):
                for sj in range(2):
                    for k, mk in enumerate(range(-2, 3)):
                        for m, mm in enumerate(range(-2, 3)):
                            e = ((2, si, mm), (2, sj, mk))
                            if e in sph:
                                v = np.conj(u[m, i]) * sph[e] * u[k, j]
                                if v != 0:
                                    add_to(cub, ((i, si), (j, sj)), v)
    return cub


def getEgT2gOccupation(nBaths, psi):
    """[C25 C24 C09] occupations of eg (first two) and t2g (last three) orbitals, spin down before spin up"""
    n = count_spin_orbitals(nBaths)
    u = get_spherical_2_cubic_matrix()
    eg_dn, eg_up, t2g_dn, t2g_up = 0, 0, 0, 0
    for i in range(5):
        for j, mj in enumerate(range(-2, 3)):
            for k, mk in enumerate(range(-2, 3)):
                for s in range(2):
                    v = u[j, i] * np.conj(u[k, i]) * one_body(nBaths, c2i(nBaths, (2, s, mk)), c2i(nBaths, (2, s, mj)), psi)
                    if i < 2 and s == 0:
                        eg_dn += v
                    elif i < 2:
                        eg_up += v
                    elif s == 0:
                        t2g_dn += v
                    else:
                        t2g_up += v
    occs = [eg_dn, eg_up, t2g_dn, t2g_up]
    for i in range(len(occs)):
        if abs(occs[i].imag) < 1e-12:
            occs[i] = occs[i].real
    return occs


def applySz3d(nBaths, psi):
    """[C24 C05 C09] Sz of the d shell"""
    n = count_spin_orbitals(nBaths)
    out = {}
    for s in range(2):
        for m in range(-2, 3):
            i = c2i(nBaths, (2, s, m))
            addToFirst(out, c(n, i, a(n, i, psi)), 1 / 2 if s == 1 else -1 / 2)
    return out


def applyLz3d(nBaths, psi):
    """[C24 C05 C09] Lz of the d shell"""
    n = count_spin_orbitals(nBaths)
    out = {}
    for s in range(2):
        for m in range(-2, 3):
            i = c2i(nBaths, (2, s, m))
            addToFirst(out, c(n, i, a(n, i, psi)), m)
    return out


def applySplus3d(nBaths, psi):
    """[C24 C05 C09] S+ of the d shell"""
    n = count_spin_orbitals(nBaths)
    out = {}
    for m in range(-2, 3):
        addToFirst(out, c(n, c2i(nBaths, (2, 1, m)), a(n, c2i(nBaths, (2, 0, m)), psi)))
    return out


def applySminus3d(nBaths, psi):
    """[C24 C05 C09] S- of the d shell"""
    n = count_spin_orbitals(nBaths)
    out = {}
    for m in range(-2, 3):
        addToFirst(out, c(n, c2i(nBaths, (2, 0, m)), a(n, c2i(nBaths, (2, 1, m)), psi)))
    return out


def applyLplus3d(nBaths, psi):
    """[C24 C05 C09] L+ of the d shell"""
    n = count_spin_orbitals(nBaths)
    out = {}
    for s in range(2):
        for m in range(-2, 2):
            addToFirst(out, c(n, c2i(nBaths, (2, s, m + 1)), a(n, c2i(nBaths, (2, s, m)), psi)), sqrt((2 - m) * (2 + m + 1)))
    return out


def applyLminus3d(nBaths, psi):
    """[C24 C05 C09] L- of the d shell"""
    n = count_spin_orbitals(nBaths)
    out = {}
    for s in range(2):
        for m in range(-1, 3):
            addToFirst(out, c(n, c2i(nBaths, (2, s, m - 1)), a(n, c2i(nBaths, (2, s, m)), psi)), sqrt((2 + m) * (2 - m + 1)))
    return out


def add(psi1, psi2, mul=1):
    """[C05 C03 C20] psi1 + mul*psi2 as a new state"""
    psi = psi1.copy()
    for s, amp in psi2.items():
        add_to(psi, s, mul * amp)
    return psi


def norm2(psi):
    """[C05 C20 C24 C16] squared norm"""
    return sum(abs(amp) ** 2 for amp in psi.values())


def column(n_spin_orbitals, hOp, basis, index, j):
    """position and value of every basis state the operator reaches from basis state j"""
    return [(index[k], v) for k, v in applyOp(n_spin_orbitals, hOp, {basis[j]: 1}).items() if k in index]


def sparse(data, row, col, n):
    return scipy.sparse.csr_matrix((data, (row, col)), shape=(n, n))


def get_hamiltonian_matrix(n_spin_orbitals, hOp, basis, mode="sparse_MPI"):
    """[C10 C14 C23] entry (row, column) is the amplitude of row in the operator applied to column"""
    n = len(basis)
    index = {state: i for i, state in enumerate(basis)}
    if mode == "dense_serial":
        h = np.zeros((n, n), dtype=complex)
        for j in range(n):
            for i, v in column(n_spin_orbitals, hOp, basis, index, j):
                h[i, j] = v
    elif mode == "dense_MPI":
        mine = {}
        for j in get_job_tasks(rank, ranks, range(n)):
            mine[j] = {}
            for i, v in column(n_spin_orbitals, hOp, basis, index, j):
                mine[j][i] = v
        h = np.zeros((n, n), dtype=complex)
        for r in range(ranks):
            for j, part in comm.bcast(mine, root=r).items():
                for i, v in part.items():
                    h[i, j] = v
    elif mode == "sparse_serial":
        data, row, col = [], [], []
        for j in range(n):
            for i, v in column(n_spin_orbitals, hOp, basis, index, j):
                data.append(v)
                row.append(i)
                col.append(j)
        h = sparse(data, row, col, n)
    elif mode == "sparse_MPI":
        data, row, col = [], [], []
        for j in get_job_tasks(rank, ranks, range(n)):
            for i, v in column(n_spin_orbitals, hOp, basis, index, j):
                data.append(v)
                row.append(i)
                col.append(j)
        mine = sparse(data, row, col, n)
        h = sparse([], [], [], n)
        for r in range(ranks):
            h += comm.bcast(mine, root=r)
    else:
        raise Exception("unknown mode")
    return h


def get_hamiltonian_matrix_from_h_dict(h_dict, basis, parallelization_mode="serial", return_h_local=False,
                                       mode="sparse"):
    """[C10 C14 C23] entry (row, column) is the stored amplitude of row in the result for column"""
    if parallelization_mode == "serial" and return_h_local is not False:
        raise Exception("there is no local part")
    n = len(basis)
    index = {state: i for i, state in enumerate(basis)}
    if parallelization_mode == "serial" and mode == "dense":
        h = np.zeros((n, n), dtype=complex)
        for j in range(n):
            for state, v in h_dict[basis[j]].items():
                h[index[state], j] = v
    elif parallelization_mode == "serial" and mode == "sparse":
        data, row, col = [], [], []
        for j in range(n):
            for state, v in h_dict[basis[j]].items():
                data.append(v)
                row.append(index[state])
                col.append(j)
        h = sparse(data, row, col, n)
    elif parallelization_mode == "H_build" and mode == "sparse":
        data, row, col = [], [], []
        for source in set(basis).intersection(h_dict.keys()):
            for state, v in h_dict[source].items():
                data.append(v)
                row.append(index[state])
                col.append(index[source])
        mine = sparse(data, row, col, n)
        if return_h_local:
            h = mine
        else:
            h = sparse([], [], [], n)
            for r in range(ranks):
                h += comm.bcast(mine, root=r)
    else:
        raise Exception("unknown mode")
    return h, index


def expand_basis(n_spin_orbitals, h_dict, hOp, basis0, restrictions, parallelization_mode="serial"):
    """[C11 C06 C14 C23 C04] the starting states first, then shell after shell in sorted order"""
    basis = list(basis0)
    done = 0
    n = len(basis)
    if parallelization_mode == "serial":
        while done < n:
            known = frozenset(basis)
            new = set()
            for state in basis[done:n]:
                if state in h_dict:
                    res = h_dict[state]
                else:
                    res = applyOp(n_spin_orbitals, hOp, {state: 1}, restrictions=restrictions)
                    h_dict[state] = res
                new.update(set(res.keys()).difference(known))
            done = n
            basis += sorted(new)
            n = len(basis)
    elif parallelization_mode == "H_build":
        mine = {}
        while done < n:
            known = frozenset(basis)
            new_here = set()
            stored = set(basis[done:n]).intersection(h_dict.keys())
            for state in stored:
                new_here.update(set(h_dict[state].keys()).difference(known))
            if rank == 0:
                missing = set(basis[done:n]) - stored
                for r in range(1, ranks):
                    missing.difference_update(comm.recv(source=r, tag=0))
                todo = tuple(missing)
            else:
                comm.send(stored, dest=0, tag=0)
                todo = None
            todo = comm.bcast(todo, root=0)
            for k in get_job_tasks(rank, ranks, range(len(todo))):
                res = applyOp(n_spin_orbitals, hOp, {todo[k]: 1}, restrictions=restrictions)
                mine[todo[k]] = res
                new_here.update(set(res.keys()).difference(known))
            new = set()
            for r in range(ranks):
                new.update(comm.bcast(new_here, root=r))
            basis += sorted(new)
            done = n
            n = len(basis)
        h_dict.update(mine)
    else:
        raise Exception("unknown mode")
    return tuple(basis)


def expand_basis_and_hamiltonian(n_spin_orbitals, h_dict, hOp, basis0, restrictions, parallelization_mode="serial",
                                 return_h_local=False):
    """[C10 C11 C06 C14 C04 C23] expansion with the given limits, then the matrix in the expanded basis"""
    basis = expand_basis(n_spin_orbitals, h_dict, hOp, basis0, restrictions, parallelization_mode)
    h, index = get_hamiltonian_matrix_from_h_dict(h_dict, basis, parallelization_mode, return_h_local)
    if parallelization_mode == "H_build":
        comm.reduce(len(h_dict))
    return h, index


def get_tridiagonal_krylov_vectors(h, psi0, krylovSize, h_local=False, mode="sparse"):
    """[C20 C14 C23] {h_local:bool} three-term recurrence"""
    if mode == "dense":
        h = h.toarray()
    elif mode != "sparse":
        raise Exception("unknown mode")
    n = len(psi0)
    krylovSize = min(krylovSize, n)
    alpha = np.zeros(krylovSize, dtype=float)
    beta = np.zeros(krylovSize - 1, dtype=float)
    v = np.zeros((2, n), dtype=complex)
    v[0, :] = psi0
    if h_local:
        part = h.dot(v[0, :])
        wp = np.zeros_like(part)
        comm.Reduce(part, wp)
        if rank == 0:
            alpha[0] = np.dot(np.conj(wp), v[0, :]).real
            w = wp - alpha[0] * v[0, :]
        for j in range(1, krylovSize):
            if rank == 0:
                beta[j - 1] = sqrt(np.sum(np.abs(w) ** 2))
            beta[j - 1] = comm.bcast(beta[j - 1], root=0)
            if beta[j - 1] == 0:
                raise ValueError("invariant subspace")
            if rank == 0:
                v[1, :] = w / beta[j - 1]
            comm.Bcast(v[1, :], root=0)
            part = h.dot(v[1, :])
            wp = np.zeros_like(part)
            comm.Reduce(part, wp)
            if rank == 0:
                alpha[j] = np.dot(np.conj(wp), v[1, :]).real
                w = wp - alpha[j] * v[1, :] - beta[j - 1] * v[0, :]
                v[0, :] = v[1, :]
        comm.Bcast(alpha, root=0)
    else:
        wp = h.dot(v[0, :])
        alpha[0] = np.dot(np.conj(wp), v[0, :]).real
        w = wp - alpha[0] * v[0, :]
        for j in range(1, krylovSize):
            beta[j - 1] = sqrt(np.sum(np.abs(w) ** 2))
            if beta[j - 1] == 0:
                raise ValueError("invariant subspace")
            v[1, :] = w / beta[j - 1]
            wp = h.dot(v[1, :])
            alpha[j] = np.dot(np.conj(wp), v[1, :]).real
            w = wp - alpha[j] * v[1, :] - beta[j - 1] * v[0, :]
            v[0, :] = v[1, :]
    return alpha, beta


def printExpValues(nBaths, es, psis, n=None):
    """[C24 C19 C25 C18 C17] {n} one row per eigenstate with its own energy relative to the lowest one"""
    n = len(es) if n is None else n
    if rank == 0:
        print("E0 = {}".format(es[0]))
        print("  i  E-E0  N(3d) N(egDn) N(egUp) N(t2gDn) N(t2gUp) Lz(3d) Sz(3d) L^2(3d) S^2(3d)")
        for i, (e, psi) in enumerate(zip(es[:n] - es[0], psis[:n])):
            oc = getEgT2gOccupation(nBaths, psi)
            print("{} {} {} {} {} {} {} {} {} {} {}".format(
                i, e, getTraceDensityMatrix(nBaths, psi), oc[0], oc[1], oc[2], oc[3],
                getLz3d(nBaths, psi), getSz3d(nBaths, psi), getLsqr3d(nBaths, psi), getSsqr3d(nBaths, psi)))


def printThermalExpValues(nBaths, es, psis, T=300, cutOff=10):
    """[C24 C19 C25 C18 C17] averages over the eigenstates close to the lowest energy, at the temperature asked for"""
    e = es - es[0]
    near = e < cutOff * k_B * T
    e = e[near]
    psis = np.array(psis)[near]
    occs = thermal_average(e, np.array([getEgT2gOccupation(nBaths, psi) for psi in psis]), T=T)
    if rank == 0:
        print("<E-E0> = {}".format(thermal_average(e, e, T=T)))
        print("<N(3d)> = {}".format(thermal_average(e, [getTraceDensityMatrix(nBaths, psi) for psi in psis], T=T)))
        print("<N(egDn)> = {}".format(occs[0]))
        print("<N(egUp)> = {}".format(occs[1]))
        print("<N(t2gDn)> = {}".format(occs[2]))
        print("<N(t2gUp)> = {}".format(occs[3]))
        print("<Lz(3d)> = {}".format(thermal_average(e, [getLz3d(nBaths, psi) for psi in psis], T=T)))
        print("<Sz(3d)> = {}".format(thermal_average(e, [getSz3d(nBaths, psi) for psi in psis], T=T)))
        print("<L^2(3d)> = {}".format(thermal_average(e, [getLsqr3d(nBaths, psi) for psi in psis], T=T)))
        print("<S^2(3d)> = {}".format(thermal_average(e, [getSsqr3d(nBaths, psi) for psi in psis], T=T)))
