"""More behaviour-preserving edits: whole functions rewritten.  usage as refactorings.py"""
import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import refactorings as r
from refactorings import A, C, F, G, GC, M, P, RM, S, add

r.R.clear()


def fn(name, f, func, new, *more):
    s = open(os.path.join("/repo/impurityModel", f)).read()
    m = re.search(r"^def " + func + r"\(.*?(?=^(?:def |if __name__|@|[A-Za-z_]+ = )|\Z)", s, re.S | re.M)
    if not m:
        raise SystemExit("no function " + func)
    add(name, (f, m.group(0).rstrip("\n") + "\n", new.strip("\n") + "\n"), *more)


fn("jobs-comprehension", F, "get_job_tasks", '''
def get_job_tasks(rank, ranks, tasks_tot):
    """Return the tasks of this rank."""
    n_tot = len(tasks_tot)
    n_per_rank = n_tot // ranks
    n_rest = n_tot - n_per_rank * ranks
    start = n_per_rank * rank
    own = tuple(tasks_tot[i] for i in range(start, start + n_per_rank))
    if rank >= n_rest:
        return own
    return own + (tasks_tot[n_per_rank * ranks + rank],)
''')
fn("eigensystem-full-first", F, "eigensystem", '''
def eigensystem(n_spin_orbitals, hOp, basis, nPsiMax, groundDiagMode="Lanczos", eigenValueTol=1e-9, slaterWeightMin=1e-7):
    """Return eigen-energies and eigenstates."""
    verbose = rank == 0
    if verbose:
        print("Create Hamiltonian matrix...")
    h = get_hamiltonian_matrix(n_spin_orbitals, hOp, basis)
    if verbose:
        print("<#Hamiltonian elements/column> = {:d}".format(int(len(np.nonzero(h)[0]) / len(basis))))
        print("Diagonalize the Hamiltonian...")
    if groundDiagMode not in ("full", "Lanczos"):
        raise Exception("Wrong diagonalization mode")
    if groundDiagMode == "full":
        es, vecs = np.linalg.eigh(h.todense())
        es, vecs = es[:nPsiMax], vecs[:, :nPsiMax]
    else:
        es, vecs = scipy.sparse.linalg.eigsh(h, k=nPsiMax, which="SA", tol=eigenValueTol)
        order = np.argsort(es)
        es = es[order]
        vecs = vecs[:, order]
    if verbose:
        print("Proceed with {:d} eigenstates.\\n".format(len(es)))
    psis = []
    for vi in range(len(es)):
        psi = {}
        for i, state in enumerate(basis):
            amp = vecs[i, vi]
            if abs(amp) ** 2 >= slaterWeightMin:
                psi[state] = amp
        psis.append(psi)
    return es, psis
''')
fn("eigensystem-comp-range", F, "eigensystem", '''
def _dominant_part(basis, amplitudes, slaterWeightMin):
    """Return the product states with a weight of at least slaterWeightMin."""
    return {state: amp for state, amp in zip(basis, amplitudes) if abs(amp) ** 2 >= slaterWeightMin}


def eigensystem(n_spin_orbitals, hOp, basis, nPsiMax, groundDiagMode="Lanczos", eigenValueTol=1e-9, slaterWeightMin=1e-7):
    """Return eigen-energies and eigenstates."""
    if rank == 0:
        print("Create Hamiltonian matrix...")
    h = get_hamiltonian_matrix(n_spin_orbitals, hOp, basis)
    if rank == 0:
        print("<#Hamiltonian elements/column> = {:d}".format(int(len(np.nonzero(h)[0]) / len(basis))))
    if rank == 0:
        print("Diagonalize the Hamiltonian...")
    if groundDiagMode == "full":
        es, vecs = np.linalg.eigh(h.todense())
        es = es[:nPsiMax]
        vecs = vecs[:, :nPsiMax]
    elif groundDiagMode == "Lanczos":
        es, vecs = scipy.sparse.linalg.eigsh(h, k=nPsiMax, which="SA", tol=eigenValueTol)
        indices = np.argsort(es)
        es = np.array([es[i] for i in indices])
        vecs = np.array([vecs[:, i] for i in indices]).T
    else:
        raise Exception("Wrong diagonalization mode")
    if rank == 0:
        print("Proceed with {:d} eigenstates.\\n".format(len(es)))
    return es, [_dominant_part(basis, vecs[:, vi], slaterWeightMin) for vi in range(len(es))]
''')
fn("thermal-list", F, "printThermalExpValues", '''
def printThermalExpValues(nBaths, es, psis, T=300, cutOff=10):
    """Print thermally averaged expectation values."""
    e_max = cutOff * k_B * T
    excitation = es - es[0]
    selected = excitation < e_max
    e = excitation[selected]
    psis = np.array(psis)[selected]

    def average(quantity):
        return thermal_average(e, [quantity(nBaths, psi) for psi in psis], T=T)

    occs = thermal_average(e, np.array([getEgT2gOccupation(nBaths, psi) for psi in psis]), T=T)
    if rank == 0:
        print("<E-E0> = {:4.3f}".format(thermal_average(e, e, T=T)))
        print("<N(3d)> = {:4.3f}".format(average(getTraceDensityMatrix)))
        for label, occ in zip(("egDn", "egUp", "t2gDn", "t2gUp"), occs):
            print("<N({:s})> = {:4.3f}".format(label, occ))
        print("<Lz(3d)> = {:4.3f}".format(average(getLz3d)))
        print("<Sz(3d)> = {:4.3f}".format(average(getSz3d)))
        print("<L^2(3d)> = {:4.3f}".format(average(getLsqr3d)))
        print("<S^2(3d)> = {:4.3f}".format(average(getSsqr3d)))
''')
fn("dc-nested", F, "dc_MLFT", '''
def dc_MLFT(n3d_i, c, Fdd, n2p_i=None, Fpd=None, Gpd=None):
    """Return double counting (DC) in multiplet ligand field theory."""
    if int(n3d_i) != n3d_i:
        raise ValueError("3d occupation should be an integer")
    if n2p_i is not None:
        if int(n2p_i) != n2p_i:
            raise ValueError("2p occupation should be an integer")
    Udd = Fdd[0] - (Fdd[2] + Fdd[4]) * 14.0 / 441
    only_d = n2p_i is None and Fpd is None and Gpd is None
    if only_d:
        return n3d_i * Udd - c
    if n2p_i != 6 or Fpd is None or Gpd is None:
        raise ValueError("double counting input wrong.")
    Upd = Fpd[0] - Gpd[1] / 15.0 - 3 * Gpd[3] / 70.0
    dc_d = Udd * n3d_i + Upd * n2p_i - c
    dc_p = Upd * (n3d_i + 1) - c
    return [dc_d, dc_p]
''')
fn("dagger-dict", F, "daggerOp", '''
def daggerOp(op):
    """Return op^dagger."""
    conjugated = {"a": "c", "c": "a"}
    opDagger = {}
    for process, value in op.items():
        for _, action in process:
            if action not in conjugated:
                raise Exception("Operator type unknown: {}".format(action))
        opDagger[tuple((orb, conjugated[action]) for orb, action in reversed(process))] = value.conjugate()
    return opDagger
''')
fn("dagger-insert", F, "daggerOp", '''
def daggerOp(op):
    """Return op^dagger."""
    opDagger = {}
    for process in op:
        processNew = ()
        for orb, action in process:
            if action == "a":
                new = "c"
            elif action == "c":
                new = "a"
            else:
                raise Exception("Operator type unknown: {}".format(action))
            processNew = ((orb, new),) + processNew
        opDagger[processNew] = op[process].conjugate()
    return opDagger
''')
fn("inner-sum", F, "inner", '''
def inner(a, b):
    """Return <a|b>."""
    return sum(np.conj(a[state]) * amp for state, amp in b.items() if state in a)
''')
fn("inner-get", F, "inner", '''
def inner(a, b):
    """Return <a|b>."""
    acc = 0
    for state in b:
        if state not in a:
            continue
        bra, ket = a[state], b[state]
        acc = acc + np.conj(bra) * ket
    return acc
''')
fn("addToFirst-factor", F, "addToFirst", '''
def addToFirst(psi1, psi2, mul=1):
    """Adds psi2 to psi1."""
    for state in psi2:
        term = mul * psi2[state]
        if state not in psi1:
            psi1[state] = term
        else:
            psi1[state] = psi1[state] + term
''')
fn("a-comprehension-none", F, "a", '''
def a(n_spin_orbitals, i, psi):
    """Return |psi'> = c_i |psi>."""
    ret = {}
    for state in psi:
        result = remove.ubytes(n_spin_orbitals, i, state)
        sign = result[1]
        if not sign == 0:
            ret[result[0]] = sign * psi[state]
    return ret
''')
fn("getU-sum", F, "getU", '''
def getU(l1, m1, l2, m2, l3, m3, l4, m4, R):
    """Slater-Condon integral."""
    if m1 + m2 != m3 + m4:
        return 0
    return sum(Rk * gauntC(k, l1, m1, l4, m4) * gauntC(k, l3, m3, l2, m2) for k, Rk in enumerate(R))
''')
fn("getUop-continue", F, "getUop", '''
def getUop(l1, l2, l3, l4, R):
    """Return U operator."""
    spins = range(2)
    uDict = {}
    for m1 in range(-l1, l1 + 1):
        for m2 in range(-l2, l2 + 1):
            for m3 in range(-l3, l3 + 1):
                for m4 in range(-l4, l4 + 1):
                    u = getU(l1, m1, l2, m2, l3, m3, l4, m4, R)
                    if u == 0:
                        continue
                    pauli = (l1, m1) == (l2, m2) or (l3, m3) == (l4, m4)
                    for s in spins:
                        for sp in spins:
                            if s == sp and pauli:
                                continue
                            create1, create2 = ((l1, s, m1), "c"), ((l2, sp, m2), "c")
                            annihilate1, annihilate2 = ((l3, sp, m3), "a"), ((l4, s, m4), "a")
                            uDict[(create1, create2, annihilate1, annihilate2)] = 0.5 * u
    return uDict
''')
fn("addOps-continue", F, "addOps", '''
def addOps(ops):
    """Return one operator, represented as a dictonary."""
    total = {}
    for op in ops:
        for process in op:
            value = op[process]
            if value == 0:
                continue
            if process not in total:
                total[process] = value
                continue
            total[process] += value
    return total
''')
fn("slater-sumlist", F, "get2p3dSlaterCondonUop", '''
def get2p3dSlaterCondonUop(Fdd=(9, 0, 8, 0, 6), Fpp=(20, 0, 8), Fpd=(10, 0, 8), Gpd=(0, 3, 0, 2)):
    """Return the Slater-Condon operator."""
    p, d = 1, 2
    dd = getUop(d, d, d, d, Fdd)
    pp = getUop(p, p, p, p, Fpp)
    direct = addOps([getUop(p, d, d, p, Fpd), getUop(d, p, p, d, Fpd)])
    exchange = addOps([getUop(p, d, p, d, Gpd), getUop(d, p, d, p, Gpd)])
    return addOps([dd, pp, direct, exchange])
''')
fn("soc-spin-value", F, "getSOCop", '''
def getSOCop(xi, l=2):
    """Return SOC operator."""
    opDict = {}
    for m in range(-l, l + 1):
        diagonal = 0.5 * xi * m
        up = (l, 1, m)
        dn = (l, 0, m)
        opDict[((up, "c"), (up, "a"))] = diagonal
        opDict[((dn, "c"), (dn, "a"))] = -diagonal
    for m in range(-l, l):
        ladder = sqrt((l - m) * (l + m + 1)) * xi / 2
        up = (l, 1, m)
        dn = (l, 0, m + 1)
        opDict[((up, "c"), (dn, "a"))] = ladder
        opDict[((dn, "c"), (up, "a"))] = ladder
    return opDict
''')
fn("field-complex", F, "gethHfieldop", '''
def gethHfieldop(hx, hy, hz, l=2):
    """Return magnetic field operator."""
    raising = hx / 2 - 1j * hy / 2
    lowering = hx / 2 + 1j * hy / 2
    op = {}
    for m in range(-l, l + 1):
        up, dn = (l, 1, m), (l, 0, m)
        op[((up, "c"), (dn, "a"))] = raising
        op[((dn, "c"), (up, "a"))] = lowering
        op[((dn, "c"), (dn, "a"))] = -hz / 2
        op[((up, "c"), (up, "a"))] = hz / 2
    return op
''')
fn("c2i-offsets", F, "c2i", '''
def _correlated_shells(nBaths):
    """Yield the angular momenta of the correlated orbitals, one by one."""
    for lp in nBaths.keys():
        if isinstance(lp, int):
            yield lp
        elif isinstance(lp, tuple):
            for lp_int in lp:
                yield lp_int


def c2i(nBaths, spinOrb):
    """Return an index, representing a spin-orbital or a bath state."""
    i = 0
    for lp in _correlated_shells(nBaths):
        for sp in range(2):
            for mp in range(-lp, lp + 1):
                if (lp, sp, mp) == spinOrb:
                    return i
                i += 1
    for lp, nBath in nBaths.items():
        for b in range(nBath):
            if (lp, b) == spinOrb:
                return i
            i += 1
    print(spinOrb)
    raise Exception("Can not find index corresponding to spin-orbital state")
''')
fn("i2c-size", F, "i2c", '''
def i2c(nBaths, i):
    """Return an coordinate tuple, representing a spin-orbital."""
    k = 0
    for lp in nBaths.keys():
        if isinstance(lp, int):
            size = 2 * (2 * lp + 1)
            if i < k + size:
                for sp in range(2):
                    for mp in range(-lp, lp + 1):
                        if i == k:
                            return lp, sp, mp
                        k += 1
            k += size
        elif isinstance(lp, tuple):
            for lp_int in lp:
                size = 2 * (2 * lp_int + 1)
                if i < k + size:
                    for sp in range(2):
                        for mp in range(-lp_int, lp_int + 1):
                            if i == k:
                                return lp_int, sp, mp
                            k += 1
                k += size
    for lp, nBath in nBaths.items():
        if k <= i < k + nBath:
            return lp, i - k
        k += nBath
    print(i)
    raise Exception("Can not find spin-orbital state corresponding to index.")
''')
fn("lz-generator", F, "getLz3d", '''
def getLz3d(nBaths, psi):
    """Return expectation value of Lz."""
    n_spin_orbitals = sum(2 * (2 * ang + 1) + nBath for ang, nBath in nBaths.items())
    Lz = 0
    for state, amp in psi.items():
        orbitals = [i2c(nBaths, i) for i in psr.bytes2tuple(state, n_spin_orbitals)]
        Lz += abs(amp) ** 2 * sum(orb[2] for orb in orbitals if len(orb) == 3 and orb[0] == 2)
    return Lz
''')
fn("sz-half", F, "getSz3d", '''
def getSz3d(nBaths, psi):
    """Return expectation value of Sz."""
    n_spin_orbitals = sum(2 * (2 * ang + 1) + nBath for ang, nBath in nBaths.items())
    Sz = 0
    for state, amp in psi.items():
        weight = abs(amp) ** 2
        for i in psr.bytes2tuple(state, n_spin_orbitals):
            spinOrb = i2c(nBaths, i)
            if len(spinOrb) != 3 or spinOrb[0] != 2:
                continue
            if spinOrb[1] == 0:
                Sz -= 0.5 * weight
            else:
                Sz += 0.5 * weight
    return Sz
''')
fn("trace-indices", F, "getTraceDensityMatrix", '''
def getTraceDensityMatrix(nBaths, psi, l=2):
    """Return number of electrons."""
    n_spin_orbitals = sum(2 * (2 * ang + 1) + nBath for ang, nBath in nBaths.items())
    indices = [c2i(nBaths, (l, spin, m)) for spin in range(2) for m in range(-l, l + 1)]
    n = 0
    for state, amp in psi.items():
        s = psr.bytes2str(state, n_spin_orbitals)
        n += abs(amp) ** 2 * sum(1 for i in indices if s[i] == "1")
    return n
''')
fn("density-spinorbs", F, "getDensityMatrix", '''
def getDensityMatrix(nBaths, psi, l=2):
    """Return density matrix in spherical harmonics basis."""
    n_spin_orbitals = sum(2 * (2 * ang + 1) + nBath for ang, nBath in nBaths.items())
    densityMatrix = OrderedDict()
    for si in range(2):
        for sj in range(2):
            for mi in range(-l, l + 1):
                orb_i = (l, si, mi)
                removed = a(n_spin_orbitals, c2i(nBaths, orb_i), psi)
                for mj in range(-l, l + 1):
                    orb_j = (l, sj, mj)
                    value = inner(psi, c(n_spin_orbitals, c2i(nBaths, orb_j), removed))
                    if value != 0:
                        densityMatrix[(orb_i, orb_j)] = value
    return densityMatrix
''')
fn("density-cubic-defaultorder", F, "getDensityMatrixCubic", '''
def getDensityMatrixCubic(nBaths, psi):
    """Return density matrix in cubic harmonics basis."""
    nSph = getDensityMatrix(nBaths, psi)
    l = 2
    ms = range(-l, l + 1)
    u = get_spherical_2_cubic_matrix()
    nCub = OrderedDict()
    for i in range(2 * l + 1):
        for j in range(2 * l + 1):
            for si in range(2):
                for sj in range(2):
                    eCub = ((i, si), (j, sj))
                    for k, mk in enumerate(ms):
                        for m, mm in enumerate(ms):
                            eSph = ((l, si, mm), (l, sj, mk))
                            if eSph not in nSph:
                                continue
                            contribution = np.conj(u[m, i]) * nSph[eSph] * u[k, j]
                            if contribution == 0:
                                continue
                            nCub[eCub] = nCub.get(eCub, 0) + contribution
    return nCub
''')
fn("egt2g-dict", F, "getEgT2gOccupation", '''
def getEgT2gOccupation(nBaths, psi):
    """Return occupations."""
    n_spin_orbitals = sum(2 * (2 * ang + 1) + nBath for ang, nBath in nBaths.items())
    l = 2
    u = get_spherical_2_cubic_matrix()
    occs = [0, 0, 0, 0]
    for i in range(2 * l + 1):
        for j, mj in enumerate(range(-l, l + 1)):
            for k, mk in enumerate(range(-l, l + 1)):
                for s in range(2):
                    psi_new = a(n_spin_orbitals, c2i(nBaths, (l, s, mk)), psi)
                    psi_new = c(n_spin_orbitals, c2i(nBaths, (l, s, mj)), psi_new)
                    v = u[j, i] * np.conj(u[k, i]) * inner(psi, psi_new)
                    offset = 0 if i < 2 else 2
                    occs[offset + s] += v
    for n, occ in enumerate(occs):
        if abs(occ.imag) < 1e-12:
            occs[n] = occ.real
        else:
            print("Warning: Complex occupation")
    return occs
''')
fn("lz-apply-unpack", F, "applyLz3d", '''
def applyLz3d(nBaths, psi):
    """Return Lz |psi>."""
    n_spin_orbitals = sum(2 * (2 * ang + 1) + nBath for ang, nBath in nBaths.items())
    l = 2
    psiNew = {}
    for s in range(2):
        for m in range(-l, l + 1):
            orbital = c2i(nBaths, (l, s, m))
            lowered = a(n_spin_orbitals, orbital, psi)
            addToFirst(psiNew, c(n_spin_orbitals, orbital, lowered), m)
    return psiNew
''')
fn("lminus-reindex", F, "applyLminus3d", '''
def applyLminus3d(nBaths, psi):
    """Return L- |psi>."""
    n_spin_orbitals = sum(2 * (2 * ang + 1) + nBath for ang, nBath in nBaths.items())
    l = 2
    psiNew = {}
    for s in range(2):
        for m_new in range(-l, l):
            m = m_new + 1
            i = c2i(nBaths, (l, s, m_new))
            j = c2i(nBaths, (l, s, m))
            coefficient = sqrt(l * (l + 1) - m * m_new)
            addToFirst(psiNew, c(n_spin_orbitals, i, a(n_spin_orbitals, j, psi)), coefficient)
    return psiNew
''')
fn("add-dict", F, "add", '''
def add(psi1, psi2, mul=1):
    """Return psi1 + mul*psi2."""
    psi = dict(psi1)
    for state, amp in psi2.items():
        psi[state] = psi.get(state, 0) + mul * amp
    return psi
''')
fn("norm2-loop", F, "norm2", '''
def norm2(psi):
    """Return <psi|psi>."""
    total = 0
    for amp in psi.values():
        total += abs(amp) ** 2
    return total
''')
fn("norm2-sqr", F, "norm2", '''
def norm2(psi):
    """Return <psi|psi>."""
    return sum([abs(psi[state]) ** 2 for state in psi])
''')
fn("h-dict-helper", F, "get_hamiltonian_matrix_from_h_dict", '''
def _triplets(h_dict, states, basis_index):
    """Return the matrix elements and their positions."""
    data, row, col = [], [], []
    for ps in states:
        j = basis_index[ps]
        for k, v in h_dict[ps].items():
            data.append(v)
            row.append(basis_index[k])
            col.append(j)
    return data, row, col


def get_hamiltonian_matrix_from_h_dict(
    h_dict, basis, parallelization_mode="serial", return_h_local=False, mode="sparse"
):
    """Return Hamiltonian matrix and the index of each basis state."""
    if parallelization_mode == "serial":
        assert return_h_local is False
    n = len(basis)
    basis_index = {basis[i]: i for i in range(n)}
    if mode == "dense" and parallelization_mode == "serial":
        h = np.zeros((n, n), dtype=complex)
        for j in range(n):
            for k, v in h_dict[basis[j]].items():
                h[basis_index[k], j] = v
    elif mode == "sparse" and parallelization_mode == "serial":
        data, row, col = _triplets(h_dict, basis, basis_index)
        h = scipy.sparse.csr_matrix((data, (row, col)), shape=(n, n))
    elif mode == "sparse" and parallelization_mode == "H_build":
        data, row, col = _triplets(h_dict, set(basis).intersection(h_dict.keys()), basis_index)
        h_local = scipy.sparse.csr_matrix((data, (row, col)), shape=(n, n))
        if return_h_local:
            return h_local, basis_index
        h = scipy.sparse.csr_matrix(([], ([], [])), shape=(n, n))
        for r in range(ranks):
            h += comm.bcast(h_local, root=r)
    else:
        raise Exception("Wrong input parameters")
    return h, basis_index
''')
fn("basis-index-enumerate", F, "get_hamiltonian_matrix_from_h_dict", '''
def get_hamiltonian_matrix_from_h_dict(
    h_dict, basis, parallelization_mode="serial", return_h_local=False, mode="sparse"
):
    """Return Hamiltonian matrix and the index of each basis state."""
    serial = parallelization_mode == "serial"
    if serial:
        assert return_h_local is False
    basis_index = {ps: i for i, ps in enumerate(basis)}
    n = len(basis)
    if serial and mode == "dense":
        h = np.zeros((n, n), dtype=complex)
        for j, ps in enumerate(basis):
            for k, v in h_dict[ps].items():
                i = basis_index[k]
                h[i, j] = v
        return h, basis_index
    if mode != "sparse" or parallelization_mode not in ("serial", "H_build"):
        raise Exception("Wrong input parameters")
    data, row, col = [], [], []
    if serial:
        for j, ps in enumerate(basis):
            for k, v in h_dict[ps].items():
                data.append(v)
                col.append(j)
                row.append(basis_index[k])
        return scipy.sparse.csr_matrix((data, (row, col)), shape=(n, n)), basis_index
    for ps in set(basis).intersection(h_dict.keys()):
        for k, v in h_dict[ps].items():
            data.append(v)
            col.append(basis_index[ps])
            row.append(basis_index[k])
    h_local = scipy.sparse.csr_matrix((data, (row, col)), shape=(n, n))
    if return_h_local:
        return h_local, basis_index
    h = scipy.sparse.csr_matrix(([], ([], [])), shape=(n, n))
    for r in range(ranks):
        h += comm.bcast(h_local, root=r)
    return h, basis_index
''')
add("basis-window-upper", (F, "            for dnCon in range(dnConBaths[l] + 1):", "            for dnCon in range(min(dnConBaths[l], dnVal + dnTol[l]) + 1):"))
add("krylov-helper", (F, "def get_tridiagonal_krylov_vectors(", '''def _apply_distributed(h, vector):
    """Return h * vector, on rank 0, when each rank has a part of h."""
    wp_local = h.dot(vector)
    wp = np.zeros_like(wp_local)
    comm.Reduce(wp_local, wp)
    return wp


def get_tridiagonal_krylov_vectors('''), (F, ('ALL', '''        wp_local = h.dot(v[0, :])
        # Reduce vector wp_local to the vector wp at rank 0.
        wp = np.zeros_like(wp_local)
        comm.Reduce(wp_local, wp)
'''), '''        wp = _apply_distributed(h, v[0, :])
'''), (F, ('ALL', '''            wp_local = h.dot(v[1, :])
            # Reduce vector wp_local to the vector wp at rank 0.
            wp = np.zeros_like(wp_local)
            comm.Reduce(wp_local, wp)
'''), '''            wp = _apply_distributed(h, v[1, :])
'''))
fn("chunks-ceil", M, "dict_chunks_from_one_MPI_rank", '''
def dict_chunks_from_one_MPI_rank(data: dict, chunk_maxsize: int = 1 * 10**6, root: int = 0):
    """Split up a dictionary into chunks."""
    n_chunks = None
    if rank == root:
        n_chunks = math.ceil(len(data) / chunk_maxsize)
        it = iter(data)
    n_chunks = comm.bcast(n_chunks, root=root)
    for _ in range(n_chunks):
        chunk = None
        if rank == root:
            chunk = {key: data[key] for key in islice(it, chunk_maxsize)}
        yield chunk
''')
fn("allgather-once", M, "allgather_dict", '''
def allgather_dict(data: dict, total: dict, chunk_maxsize: int = 1 * 10**6):
    """Collect the dictionaries of all ranks."""
    t0 = time.time()
    n_max = 0
    for r in range(ranks):
        n_max = max(n_max, comm.bcast(len(data), root=r))
    in_chunks = n_max > chunk_maxsize
    if rank == 0:
        print("Allgather chunks..." if in_chunks else "Allgather everything at once...")
    for r in range(ranks):
        if in_chunks:
            for chunk in dict_chunks_from_one_MPI_rank(data, chunk_maxsize, r):
                total.update(comm.bcast(chunk, root=r))
        else:
            total.update(comm.bcast(data, root=r))
    if rank == 0:
        print("time(Allgather H_dict) = {:.5f} seconds.".format(time.time() - t0))
''')
fn("average-zip", A, "thermal_average", '''
def thermal_average(energies, observable, T=300):
    """Return thermally averaged observable."""
    if np.shape(observable)[0] != len(energies):
        raise ValueError("Passed array is not of the right shape")
    kT = k_B * T
    lowest = np.min(energies)
    z, o_average = 0, 0
    for i in range(len(energies)):
        boltzmann = np.exp((lowest - energies[i]) / kT)
        z = z + boltzmann
        o_average = o_average + observable[i] * boltzmann
    return o_average / z
''')
fn("dipole-spin-outer", S, "getDipoleOperator", '''
def getDipoleOperator(nBaths, n):
    """Return dipole transition operator \\\\hat{T}."""
    x, y, z = n[0], n[1], n[2]
    nDict = {-1: (x + 1j * y) / sqrt(2), 0: z, 1: (1j * y - x) / sqrt(2)}
    l1, l2 = nBaths.keys()
    tOp = {}
    for m in range(-l2, l2 + 1):
        for mp in range(-l1, l1 + 1):
            q = m - mp
            if abs(q) > 1:
                continue
            tij = gauntC(k=1, l=l2, m=m, lp=l1, mp=mp, prec=16) * nDict[q]
            if tij == 0:
                continue
            for s in range(2):
                final = c2i(nBaths, (l2, s, m))
                initial = c2i(nBaths, (l1, s, mp))
                tOp[((final, "c"), (initial, "a"))] = tij
    return tOp
''')
fn("nixs-prefactor", S, "getNIXSOperator", '''
def getNIXSOperator(nBaths, q, li, lj, Ri, Rj, r, kmin=1):
    """Return NIXS transition operator."""
    q = np.array(q)
    qNorm = np.linalg.norm(q)
    theta = np.arccos(q[2] / qNorm)
    phi = np.arctan2(q[1], q[0])
    tOp = {}
    for k in range(kmin, abs(li + lj) + 1):
        if (li + lj + k) % 2 != 0:
            continue
        Rintegral = np.trapz(np.conj(Ri) * spherical_jn(k, qNorm * r) * Rj * r**2, r)
        if rank == 0:
            print("Rintegral(k=", k, ") =", Rintegral)
        prefactor = Rintegral * 1j**k * sqrt(2 * k + 1)
        for mi in range(-li, li + 1):
            for mj in range(-lj, lj + 1):
                m = mi - mj
                if abs(m) > k:
                    continue
                tij = prefactor * np.conj(sph_harm(m, k, phi, theta)) * gauntC(k, li, mi, lj, mj, prec=16)
                if tij == 0:
                    continue
                for s in range(2):
                    process = ((c2i(nBaths, (li, s, mi)), "c"), (c2i(nBaths, (lj, s, mj)), "a"))
                    tOp[process] = tOp.get(process, 0) + tij
    return tOp
''')
fn("ips-append", S, "getInversePhotoEmissionOperators", '''
def getInversePhotoEmissionOperators(nBaths, l=2):
    """Return inverse photo emission operators."""
    orbitals = [(l, s, m) for s in range(2) for m in range(-l, l + 1)]
    return [{((c2i(nBaths, orbital), "c"),): 1} for orbital in orbitals]
''')
add("green-loop", (S, '''    for i in range(krylovSize - 1, -1, -1):
        g = 1.0 / (omegaP - alpha[i]) if i == krylovSize - 1 else 1.0 / (omegaP - alpha[i] - beta[i] ** 2 * g)
''', '''    g = 1.0 / (omegaP - alpha[krylovSize - 1])
    for i in reversed(range(krylovSize - 1)):
        g = 1.0 / (omegaP - alpha[i] - beta[i] ** 2 * g)
'''))
add("spectra-items-norm", (S, ('ALL', '''                for state in psiR.keys():
                    psiR[state] /= normalization
'''), '''                psiR = {state: amp / normalization for state, amp in psiR.items()}
'''))
add("rixs-psi2-comprehension", (S, ('ALL', '''                    psi2 = {}
                    for i, amp in enumerate(x):
                        if amp != 0:
                            psi2[basis_state[i]] = amp
'''), '''                    psi2 = {basis_state[i]: amp for i, amp in enumerate(x) if amp != 0}
'''))
fn("ustr-count", C, "ustr", '''
def ustr(i, state):
    """Create electron at orbital i in state."""
    occupation = state[i]
    if occupation not in ("0", "1"):
        raise Exception("String representation of state is wrong.")
    if occupation == "1":
        return "", 0
    left, right = state[:i], state[i + 1 :]
    amp = -1 if left.count("1") % 2 else 1
    return left + "1" + right, amp
''')
fn("utuple-join", C, "utuple", '''
def utuple(i, state):
    """Create electron at orbital i in state."""
    j = binary_search_bigger(state, i)
    if j == -1:
        return (), 0
    head, tail = state[:j], state[j:]
    return head + (i,) + tail, (-1) ** j
''')
fn("int2str-zfill", P, "int2str", '''
def int2str(i, n):
    """Return string representation."""
    return bin(i)[2:].zfill(n)
''')
fn("tuple2str-comprehension", P, "tuple2str", '''
def tuple2str(t, n):
    """Return string representation."""
    occupied = set(t)
    return "".join("1" if i in occupied else "0" for i in range(n))
''')
fn("bytes2bitarray-copy", P, "bytes2bitarray", '''
def bytes2bitarray(bytestr, n):
    """Return bitarray representation."""
    padded = bitarray()
    padded.frombytes(bytestr)
    return padded[0:n]
''')
fn("cf-read-tuple", GC, "read_h0_CF_file", '''
def read_h0_CF_file(h0_CF_filename):
    """Reads parameters from a file."""
    with open(h0_CF_filename, "r") as file_handle:
        parameters = json.load(file_handle)
    defaults = (
        ("e_imp", -1.31796),
        ("e_deltaO_imp", 0.60422),
        ("e_val_eg", -4.4),
        ("e_val_t2g", -6.5),
        ("e_con_eg", 3),
        ("e_con_t2g", 2),
        ("v_val_eg", 1.883),
        ("v_val_t2g", 1.395),
        ("v_con_eg", 0.6),
        ("v_con_t2g", 0.4),
    )
    return tuple(parameters.get(name, default) for name, default in defaults)
''')
add("cf-hopping-pair", (GC, ('ALL', '''                if vHopp != 0:
                    h_hopp_operator[(((l, bi_val), "c"), ((l, s, mj), "a"))] = vHopp
                    h_hopp_operator[(((l, s, mj), "c"), ((l, bi_val), "a"))] = vHopp.conjugate()
'''), '''                if vHopp != 0:
                    impurity, bath = (l, s, mj), (l, bi_val)
                    h_hopp_operator[((impurity, "c"), (bath, "a"))] = vHopp.conjugate()
                    h_hopp_operator[((bath, "c"), (impurity, "a"))] = vHopp
'''))
add("hop-comprehension", (G, '''    hOp = {}
    for process, value in hOperator.items():
        hOp[tuple((c2i(nBaths, spinOrb), action) for spinOrb, action in process)] = value
''', '''    def to_index(process):
        return tuple((c2i(nBaths, spinOrb), action) for spinOrb, action in process)

    hOp = {to_index(process): value for process, value in hOperator.items()}
'''))
add("dc-op-zip", (G, '''    for il, l in enumerate([2, 1]):
        for s in range(2):
            for m in range(-l, l + 1):
                eDCOperator[(((l, s, m), "c"), ((l, s, m), "a"))] = -dc[il]
''', '''    for l, correction in zip((2, 1), dc):
        for s in range(2):
            for m in range(-l, l + 1):
                spinOrb = (l, s, m)
                eDCOperator[((spinOrb, "c"), (spinOrb, "a"))] = -correction
'''))

if __name__ == "__main__":
    r.main()
