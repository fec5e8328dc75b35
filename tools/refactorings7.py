"""Seventh set of behaviour-preserving edits, written without looking at the machinery.  usage as refactorings.py"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import refactorings as r
from refactorings import A, C, F, G, GC, M, P, RM, S
from refactorings3 import ed as edit

r.R.clear()
PROBLEMS = []


def ed(*x, **k):
    try:
        edit(*x, **k)
    except SystemExit as e:
        PROBLEMS.append(str(e))


ed("jobs-ceil", F, "get_job_tasks", ("    if rank < rest:\n", "    if rest - rank > 0:\n"), ("range(nj * rank, nj * rank + nj)", "range(rank * nj, (rank + 1) * nj)"))
ed("jobs-ge", F, "get_job_tasks", ("    if rank < rest:\n        tasks.append(tasks_tot[n_tot - rest + rank])\n    return tuple(tasks)", "    if rank >= rest:\n        return tuple(tasks)\n    tasks.append(tasks_tot[ranks * nj + rank])\n    return tuple(tasks)"))
ed("jobs-star", F, "get_job_tasks", ("        tasks.append(tasks_tot[n_tot - rest + rank])\n    return tuple(tasks)", "        tasks += [tasks_tot[rank - rest]]\n    return tuple(tasks)"))
ed("eig-order2", F, "eigensystem", ("        es = np.array([es[i] for i in indices])\n        vecs = np.array([vecs[:, i] for i in indices]).T\n", "        vecs = vecs[:, indices]\n        es = es[indices]\n"))
ed("eig-stack", F, "eigensystem", ("np.array([vecs[:, i] for i in indices]).T", "np.column_stack([vecs[:, i] for i in indices])"))
ed("eig-psi-zip", F, "eigensystem",
   ("[{basis[i]: vecs[i, vi] for i in range(len(basis)) if slaterWeightMin <= abs(vecs[i, vi]) ** 2} for vi in range(len(es))]", "[{ps: x for ps, x in zip(basis, vec) if not abs(x) ** 2 < slaterWeightMin} for vec in vecs.T]"))
ed("eig-psi-helper", F, "eigensystem",
   ("[{basis[i]: vecs[i, vi] for i in range(len(basis)) if slaterWeightMin <= abs(vecs[i, vi]) ** 2} for vi in range(len(es))]", "[_state(basis, vecs[:, vi], slaterWeightMin) for vi in range(len(es))]"),
   before="def _state(basis, amplitudes, cut):\n    state = {}\n    for i, ps in enumerate(basis):\n        x = amplitudes[i]\n        if abs(x) ** 2 >= cut:\n            state[ps] = x\n    return state\n\n\n")
ed("eig-mode", F, "eigensystem", ("    if groundDiagMode == 'full':\n", "    if groundDiagMode not in {'full', 'Lanczos'}:\n        raise Exception('Wrong diagonalization mode')\n    if groundDiagMode == 'full':\n"), ("    elif groundDiagMode == 'Lanczos':\n", "    else:\n"), ("    else:\n        raise Exception('Wrong diagonalization mode')\n    if rank == 0:\n        print('Proceed", "    if rank == 0:\n        print('Proceed"))
ed("addops-default", F, "addOps", ("            if value != 0:\n                if sOp in opSum:\n                    opSum[sOp] += value\n                else:\n                    opSum[sOp] = value\n", "            if value != 0:\n                opSum[sOp] = opSum.get(sOp, 0) + value\n"))
ed("addops-chain", F, "addOps", ("    for op in ops:\n        for sOp, value in op.items():\n", "    if True:\n        for sOp, value in ((p, v) for op in ops for p, v in op.items()):\n"))
ed("ssqr-sum", F, "getSsqr3d", ("    S2 = norm2(psi1) + 1 / 2 * (norm2(psi2) + norm2(psi3))\n", "    S2 = norm2(psi1)\n    for transverse in (psi2, psi3):\n        S2 += norm2(transverse) / 2\n"))
ed("lsqr-comp", F, "getLsqr3d", ("    L2 = norm2(psi1) + 1 / 2 * (norm2(psi2) + norm2(psi3))\n", "    L2 = sum(f * norm2(p) for f, p in ((1, psi1), (0.5, psi2), (0.5, psi3)))\n"))
ed("lsqr-inline", F, "getLsqr3d", ("    psi2 = applyLplus3d(nBaths, psi)\n    psi3 = applyLminus3d(nBaths, psi)\n    L2 = norm2(psi1) + 1 / 2 * (norm2(psi2) + norm2(psi3))\n", "    ladders = norm2(applyLplus3d(nBaths, psi)) + norm2(applyLminus3d(nBaths, psi))\n    L2 = ladders / 2 + norm2(psi1)\n"))
ed("cubic-product", F, "getDensityMatrixCubic",
   ("                                    eCub = ((i, si), (j, sj))\n                                    if eCub in nCub:\n                                        nCub[eCub] += tmp\n                                    else:\n                                        nCub[eCub] = tmp\n", "                                    eCub = ((i, si), (j, sj))\n                                    nCub[eCub] = tmp + nCub.get(eCub, 0)\n"))
ed("cubic-index", F, "getDensityMatrixCubic", ("                    for k, mk in enumerate(range(-l, l + 1)):\n                        for m, mm in enumerate(range(-l, l + 1)):\n                            eSph = ((l, si, mm), (l, sj, mk))\n", "                    for k in range(2 * l + 1):\n                        for m in range(2 * l + 1):\n                            eSph = ((l, si, m - l), (l, sj, k - l))\n"))
ed("cubic-conj", F, "getDensityMatrixCubic", ("    u = get_spherical_2_cubic_matrix()\n", "    u = get_spherical_2_cubic_matrix()\n    u_conj = u.conj()\n"), ("np.conj(u[m, i]) * nSph[eSph] * u[k, j]", "nSph[eSph] * u_conj[m, i] * u[k, j]"))
ed("cubic-keys", F, "getDensityMatrixCubic", ("                            if eSph in nSph:\n", "                            if not eSph in nSph:\n                                continue\n                            if True:\n"))
ed("egt2g-list", F, "getEgT2gOccupation",
   ("                    if i < 2:\n                        if s == 0:\n                            eg_dn += v\n                        else:\n                            eg_up += v\n                    elif s == 0:\n                        t2g_dn += v\n                    else:\n                        t2g_up += v\n    occs = [eg_dn, eg_up, t2g_dn, t2g_up]\n",
    "                    occs[s if i < 2 else s + 2] += v\n"), ("    eg_dn, eg_up, t2g_dn, t2g_up = (0, 0, 0, 0)\n", "    occs = [0, 0, 0, 0]\n"))
ed("egt2g-flat", F, "getEgT2gOccupation",
   ("                    if i < 2:\n                        if s == 0:\n                            eg_dn += v\n                        else:\n                            eg_up += v\n                    elif s == 0:\n                        t2g_dn += v\n                    else:\n                        t2g_up += v\n",
    "                    if i < 2 and s == 0:\n                        eg_dn += v\n                    elif i < 2:\n                        eg_up += v\n                    elif s == 1:\n                        t2g_up += v\n                    else:\n                        t2g_dn += v\n"))
ed("egt2g-real", F, "getEgT2gOccupation", ("    for i in range(len(occs)):\n        if abs(occs[i].imag) < 1e-12:\n            occs[i] = occs[i].real\n        else:\n            print('Warning: Complex occupation')\n    return occs", "    for i, occ in enumerate(occs):\n        if abs(occ.imag) >= 1e-12:\n            print('Warning: Complex occupation')\n        else:\n            occs[i] = occ.real\n    return occs"))
ed("egt2g-hoist", F, "getEgT2gOccupation", ("                    v = u[j, i] * np.conj(u[k, i]) * inner(psi, psi_new)\n", "                    factor = u[j, i] * u[k, i].conjugate()\n                    v = factor * inner(psi, psi_new)\n"))
ed("lz-skip", F, "applyLz3d", ("            i = c2i(nBaths, (l, s, m))\n", "            if m == 0:\n                continue\n            i = c2i(nBaths, (l, s, m))\n")) if False else None
ed("lz-vars", F, "applyLz3d", ("            i = c2i(nBaths, (l, s, m))\n            psiP = c(n_spin_orbitals, i, a(n_spin_orbitals, i, psi))\n            addToFirst(psiNew, psiP, m)\n", "            i = c2i(nBaths, (l, s, m))\n            without = a(n_spin_orbitals, i, psi)\n            addToFirst(psiNew, c(n_spin_orbitals, i, without), mul=m)\n"))
ed("c2i-enum", F, "c2i", ("    for lp, nBath in nBaths.items():\n        for b in range(nBath):\n            if (lp, b) == spinOrb:\n                return i\n            i += 1\n", "    for lp, nBath in nBaths.items():\n        for b in range(nBath):\n            if spinOrb == (lp, b):\n                return i + b\n        i += nBath\n"))
# main program
ed("main-zip", G, "main", ("    nBaths = OrderedDict(zip(ls, nBaths))\n    nValBaths = OrderedDict(zip(ls, nValBaths))\n", "    nBaths, nValBaths = (OrderedDict(zip(ls, x)) for x in (nBaths, nValBaths))\n"))
ed("main-eps", G, "main", ("    epsilons = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]\n    epsilonsRIXSin = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]\n    epsilonsRIXSout = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]\n", "    epsilons = [[1 if i == j else 0 for j in range(3)] for i in range(3)]\n    epsilonsRIXSin = epsilons\n    epsilonsRIXSout = epsilons\n"))
ed("main-q", G, "main", ("[2 * np.array([1, 1, 1]) / np.sqrt(3), 7 * np.array([1, 1, 1]) / np.sqrt(3)]", "[q * np.ones(3) / np.sqrt(3) for q in (2, 7)]"))
ed("main-restr", G, "main", ("    indices = []\n    for b in range(nValBaths[l]):\n        indices.append(c2i(nBaths, (l, b)))\n    restrictions[frozenset(indices)] =", "    valence = frozenset(c2i(nBaths, (l, b)) for b in range(nValBaths[l]))\n    restrictions[valence] ="))
ed("main-restr2", G, "main", ("    restrictions = {}\n", ""), ("    restrictions[indices] = (n0imps[l] - 1, n0imps[l] + dnTols[l] + 1)\n", "    n_low, n_high = n0imps[l] - 1, n0imps[l] + 1 + dnTols[l]\n    restrictions = {indices: (n_low, n_high)}\n"))
ed("main-cut", G, "main", ("    energy_cut *= k_B * T\n", "    energy_cut = energy_cut * T * k_B\n"), ("    es = tuple((e for e in es if e - es[0] < energy_cut))\n", "    e_max = es[0] + energy_cut\n    es = tuple((e for e in es if e < e_max))\n"))
ed("main-psis", G, "main", ("    psis = tuple((psis[i] for i in range(len(es))))\n", "    psis = tuple(psis[:len(es)])\n"))
ed("main-zip2", G, "main", ("    psis = tuple((psis[i] for i in range(len(es))))\n", "    psis = tuple(psi for psi, _ in zip(psis, es))\n"))
ed("main-h5", G, "main", ("        h5f.create_dataset('E', data=es)\n        h5f.create_dataset('w', data=w)\n        h5f.create_dataset('wIn', data=wIn)\n        h5f.create_dataset('wLoss', data=wLoss)\n        h5f.create_dataset('qsNIXS', data=qsNIXS)\n        h5f.create_dataset('r', data=radialMesh)\n        h5f.create_dataset('RiNIXS', data=RiNIXS)\n        h5f.create_dataset('RjNIXS', data=RjNIXS)\n",
   "        datasets = {'E': es, 'w': w, 'wIn': wIn, 'wLoss': wLoss, 'qsNIXS': qsNIXS, 'r': radialMesh, 'RiNIXS': RiNIXS, 'RjNIXS': RjNIXS}\n        for name, data in datasets.items():\n            h5f.create_dataset(name, data=data)\n"))
ed("main-h5b", G, "main", ("        h5f.create_dataset('E', data=es)\n        h5f.create_dataset('w', data=w)\n", "        for name, data in (('E', es), ('w', w)):\n            h5f[name] = data\n"))
ed("main-none", G, "main", ("    else:\n        h5f = None\n", ""), ("    if rank == 0:\n        np.savez", "    h5f = None\n    if rank == 0:\n        np.savez"))
ed("main-weights", G, "main", ("            ws = ws[j[-1::-1]]\n            s = s[j[-1::-1]]\n", "            order = j[::-1]\n            ws, s = ws[order], s[order]\n"))
ed("main-nspin", G, "main", ("    n_spin_orbitals = sum((2 * (2 * ang + 1) + nBath for ang, nBath in nBaths.items()))\n", "    n_spin_orbitals = 0\n    for ang in nBaths:\n        n_spin_orbitals += 4 * ang + 2 + nBaths[ang]\n"))
ed("main-helper", G, "main", ("    indices = []\n    for b in range(nValBaths[l]):\n        indices.append(c2i(nBaths, (l, b)))\n    restrictions[frozenset(indices)] =", "    restrictions[_baths(nBaths, l, 0, nValBaths[l])] ="),
   ("    indices = []\n    for b in range(nValBaths[l], nBaths[l]):\n        indices.append(c2i(nBaths, (l, b)))\n    restrictions[frozenset(indices)] =", "    restrictions[_baths(nBaths, l, nValBaths[l], nBaths[l])] ="),
   before="def _baths(nBaths, l, first, end):\n    return frozenset(c2i(nBaths, (l, b)) for b in range(first, end))\n\n\n")
ed("main-dtype", G, "main", ("    radialMesh, RiNIXS = np.loadtxt(radial_filename).T\n    RjNIXS = np.copy(RiNIXS)\n", "    radialMesh, RiNIXS = np.loadtxt(radial_filename, unpack=True)\n    RjNIXS = RiNIXS.copy()\n"))
ed("ham-update", G, "get_hamiltonian_operator", ("    for il, l in enumerate([2, 1]):\n        for s in range(2):\n            for m in range(-l, l + 1):\n                eDCOperator[((l, s, m), 'c'), ((l, s, m), 'a')] = -dc[il]\n", "    for l, shift in zip((2, 1), dc):\n        for s in range(2):\n            for m in range(-l, l + 1):\n                orbital = (l, s, m)\n                eDCOperator[(orbital, 'c'), (orbital, 'a')] = -shift\n"))
ed("ham-comp", G, "get_hamiltonian_operator", ("    hOp = {}\n    for process, value in hOperator.items():\n        hOp[tuple(((c2i(nBaths, spinOrb), action) for spinOrb, action in process))] = value\n", "    hOp = {tuple((c2i(nBaths, step[0]), step[1]) for step in process): value for process, value in hOperator.items()}\n"))
ed("ham-list", G, "get_hamiltonian_operator", ("    hOperator = finite.addOps([uOperator, hHfieldOperator, SOC2pOperator, SOC3dOperator, eDCOperator, h0_operator])\n", "    terms = [uOperator, hHfieldOperator]\n    terms += [SOC2pOperator, SOC3dOperator]\n    terms.append(eDCOperator)\n    terms.append(h0_operator)\n    hOperator = finite.addOps(terms)\n"))

if __name__ == "__main__":
    for p in PROBLEMS:
        print("!!", p)
    r.main()
