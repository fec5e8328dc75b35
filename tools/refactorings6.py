"""Sixth set of behaviour-preserving edits, written without looking at the machinery.  usage as refactorings.py"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import refactorings as r
from refactorings import A, C, F, G, GC, M, P, RM, S
from refactorings3 import ed as edit

r.R.clear()
PROBLEMS = []


def ed(*x, **k):
    try:
        edit(*x, **k)
    except SystemExit as e:
        PROBLEMS.append(str(e))


# finite.py
ed("exp-index", F, "printExpValues",
   ("        for i, (e, psi) in enumerate(zip(es[:n] - es[0], psis[:n])):\n", "        for i in range(min(n, len(es), len(psis))):\n            e = es[i] - es[0]\n            psi = psis[i]\n"))
ed("exp-star", F, "printExpValues", ("oc[0], oc[1], oc[2], oc[3]", "*oc"))
ed("exp-return", F, "printExpValues", ("    if n is None:\n        n = len(es)\n", "    n = len(es) if n is None else n\n"))
ed("thermal-mask", F, "printThermalExpValues", ("    mask = e < cutOff * k_B * T\n", "    limit = cutOff * (T * k_B)\n    mask = limit > e\n"))
ed("thermal-helper", F, "printThermalExpValues",
   ("thermal_average(e, [getLz3d(nBaths, psi) for psi in psis], T=T)", "mean(getLz3d)"), ("thermal_average(e, [getSz3d(nBaths, psi) for psi in psis], T=T)", "mean(getSz3d)"),
   ("thermal_average(e, [getLsqr3d(nBaths, psi) for psi in psis], T=T)", "mean(getLsqr3d)"), ("thermal_average(e, [getSsqr3d(nBaths, psi) for psi in psis], T=T)", "mean(getSsqr3d)"),
   ("    if rank == 0:\n", "\n    def mean(f):\n        return thermal_average(e, [f(nBaths, psi) for psi in psis], T=T)\n    if rank == 0:\n"))
ed("thermal-unpack", F, "printThermalExpValues",
   ("    occs = thermal_average", "    egDn, egUp, t2gDn, t2gUp = thermal_average"), ("occs[0]", "egDn"), ("occs[1]", "egUp"), ("occs[2]", "t2gDn"), ("occs[3]", "t2gUp"))
ed("dc-fraction", F, "dc_MLFT", ("14.0 / 441 * (Fdd[2] + Fdd[4])", "2 / 63 * (Fdd[4] + Fdd[2])"))
ed("dc-order", F, "dc_MLFT",
   ("    if n2p_i == 6 and Fpd is not None and (Gpd is not None):\n        Upd = Fpd[0] - 1 / 15.0 * Gpd[1] - 3 / 70.0 * Gpd[3]\n        return [Udd * n3d_i + Upd * n2p_i - c, Upd * (n3d_i + 1) - c]\n    else:\n        raise ValueError('double counting input wrong.')",
    "    if n2p_i != 6 or Fpd is None or Gpd is None:\n        raise ValueError('double counting input wrong.')\n    Upd = Fpd[0] - (Gpd[1] / 15 + 3 * Gpd[3] / 70)\n    return [Udd * n3d_i + 6 * Upd - c, Upd + Upd * n3d_i - c]"))
ed("dc-mod", F, "dc_MLFT", ("    if not int(n3d_i) == n3d_i:\n", "    if n3d_i % 1 != 0:\n"))
ed("dc-isinteger", F, "dc_MLFT", ("    if n2p_i is not None and int(n2p_i) != n2p_i:\n        raise ValueError('2p occupation should be an integer')\n", "    if n2p_i is not None:\n        if not int(n2p_i) == n2p_i:\n            raise ValueError('2p occupation should be an integer')\n"))
ed("cubic-factor", F, "get_spherical_2_cubic_matrix", ("    if l == 1:\n", "    f = 1 / np.sqrt(2)\n    if l == 1:\n"), ("ALL", " 1j / np.sqrt(2)", " 1j * f"), ("ALL", "= -1j / np.sqrt(2)", "= -1j * f"), ("ALL", " 1 / np.sqrt(2)\n        u", " f\n        u")) if False else None
ed("cubic-kron", F, "get_spherical_2_cubic_matrix",
   ("        n, m = np.shape(u)\n        U = np.zeros((2 * n, 2 * m), dtype=complex)\n        U[0:n, 0:m] = u\n        U[n:, m:] = u\n        u = U\n", "        n = 2 * l + 1\n        U = np.zeros((2 * n, 2 * n), dtype=complex)\n        for s in range(2):\n            U[s * n:(s + 1) * n, s * n:(s + 1) * n] = u\n        u = U\n"))
ed("cubic-indices", F, "get_spherical_2_cubic_matrix", ("        u[[0, -1], 1] = 1 / np.sqrt(2)\n", "        u[0, 1] = u[4, 1] = 1 / np.sqrt(2)\n"), ("        u[-2, 2] = -1j", "        u[3, 2] = -1j"), ("        u[-2, 3] = -1 /", "        u[3, 3] = -1 /"), ("        u[-1, 4] =", "        u[4, 4] ="))
ed("dagger-comp", F, "daggerOp",
   ("        processNew = []\n        for e in process[::-1]:\n            if e[1] == 'a':\n                processNew.append((e[0], 'c'))\n            elif e[1] == 'c':\n                processNew.append((e[0], 'a'))\n            else:\n                raise Exception('Operator type unknown: {}'.format(e[1]))\n        processNew = tuple(processNew)\n",
    "        for _, action in process:\n            if action not in ('a', 'c'):\n                raise Exception('Operator type unknown: {}'.format(action))\n        processNew = tuple((i, 'c' if action == 'a' else 'a') for i, action in reversed(process))\n"))
ed("dagger-conj", F, "daggerOp", ("value.conjugate()", "np.conj(value)"))
ed("basis-flat", F, "get_basis",
   ("                    for bImp in basisImp:\n                        for bVal in basisVal:\n                            for bCon in basisCon:\n                                basisL[l].append(bImp + bVal + bCon)\n",
    "                    basisL[l].extend(bImp + bVal + bCon for bImp, bVal, bCon in itertools.product(basisImp, basisVal, basisCon))\n"))
ed("basis-continue", F, "get_basis", ("                if abs(deltaNimp) <= dnTol[l]:\n", "                if not -dnTol[l] <= deltaNimp <= dnTol[l]:\n                    continue\n                if True:\n"))
ed("basis-empty", F, "get_basis",
   ("                    if nBaths[l] - valBaths[l] == 0:\n                        basisCon = ((),)\n                    else:\n", "                    if nBaths[l] == valBaths[l]:\n                        basisCon = ((),)\n                    else:\n"))
ed("basis-comp", F, "get_basis",
   ("    basis = []\n    for configuration in itertools.product(*basisL.values()):\n        basis.append(psr.tuple2bytes(tuple(sorted(itertools.chain.from_iterable(configuration))), n_spin_orbitals))\n    return tuple(basis)",
    "    return tuple(psr.tuple2bytes(tuple(sorted(sum(configuration, ()))), n_spin_orbitals) for configuration in itertools.product(*basisL.values()))"))
ed("basis-assert", F, "get_basis", ("assert nCon <= nBaths[l] - valBaths[l]", "assert nCon + valBaths[l] <= nBaths[l]"), ("assert valBaths[l] <= nBaths[l]", "assert nBaths[l] >= valBaths[l]"))
ed("soc-spin", F, "getSOCop",
   ("            value = xi * m * (1 / 2.0 if s == 1 else -1 / 2.0)\n", "            value = xi * m * (s - 0.5)\n"))
ed("soc-shift", F, "getSOCop",
   ("    for m in range(-l, l):\n        value = xi / 2.0 * sqrt((l - m) * (l + m + 1))\n        opDict[((l, 1, m), 'c'), ((l, 0, m + 1), 'a')] = value\n        opDict[((l, 0, m + 1), 'c'), ((l, 1, m), 'a')] = value\n",
    "    for m in range(-l + 1, l + 1):\n        value = 0.5 * xi * sqrt(l * (l + 1) - m * (m - 1))\n        up, dn = (l, 1, m - 1), (l, 0, m)\n        for i, j in ((up, dn), (dn, up)):\n            opDict[(i, 'c'), (j, 'a')] = value\n"))
ed("field-complex", F, "gethHfieldop",
   ("        hHfieldOperator[((l, 1, m), 'c'), ((l, 0, m), 'a')] = hx / 2\n        hHfieldOperator[((l, 0, m), 'c'), ((l, 1, m), 'a')] = hx / 2\n        hHfieldOperator[((l, 1, m), 'c'), ((l, 0, m), 'a')] += -hy * 1j / 2\n        hHfieldOperator[((l, 0, m), 'c'), ((l, 1, m), 'a')] += hy * 1j / 2\n",
    "        hHfieldOperator[((l, 1, m), 'c'), ((l, 0, m), 'a')] = (hx - 1j * hy) / 2\n        hHfieldOperator[((l, 0, m), 'c'), ((l, 1, m), 'a')] = (hx + 1j * hy) / 2\n"))
ed("sz-half", F, "getSz3d", ("                tmp += -1 / 2 if spinOrb[1] == 0 else 1 / 2\n        Sz += tmp * abs(amp) ** 2\n", "                tmp += 1 if spinOrb[1] else -1\n        Sz += abs(amp) ** 2 * tmp / 2\n"))
ed("sz-arith", F, "getSz3d", ("tmp += -1 / 2 if spinOrb[1] == 0 else 1 / 2", "tmp += spinOrb[1] - 0.5"))
ed("dm-hoist", F, "getDensityMatrix",
   ("                    i = c2i(nBaths, (l, si, mi))\n                    j = c2i(nBaths, (l, sj, mj))\n                    psi_new = a(n_spin_orbitals, i, psi)\n                    psi_new = c(n_spin_orbitals, j, psi_new)\n                    tmp = inner(psi, psi_new)\n",
    "                    removed = a(n_spin_orbitals, c2i(nBaths, (l, si, mi)), psi)\n                    tmp = inner(psi, c(n_spin_orbitals, c2i(nBaths, (l, sj, mj)), removed))\n"))
ed("dm-product", F, "getDensityMatrix",
   ("    for si in range(2):\n        for sj in range(2):\n            for mi in range(-l, l + 1):\n                for mj in range(-l, l + 1):\n", "    orbitals = range(-l, l + 1)\n    if True:\n        if True:\n            if True:\n                for si, sj, mi, mj in itertools.product((0, 1), (0, 1), orbitals, orbitals):\n"))
ed("krylov-norm", F, "get_tridiagonal_krylov_vectors", ("ALL", "sqrt(np.sum(np.abs(w) ** 2))", "np.linalg.norm(w)"))
ed("krylov-mode", F, "get_tridiagonal_krylov_vectors",
   ("    if mode == 'dense':\n        h = h.toarray()\n    elif mode != 'sparse':\n        raise Exception('Incorrect value of variable mode.')\n", "    if mode not in ('dense', 'sparse'):\n        raise Exception('Incorrect value of variable mode.')\n    if mode == 'dense':\n        h = h.toarray()\n"))
ed("krylov-beta", F, "get_tridiagonal_krylov_vectors",
   ("            if beta[j - 1] != 0:\n                v[1, :] = w / beta[j - 1]\n            else:\n                raise ValueError('Warning: beta==0, implementation absent!')\n", "            if beta[j - 1] == 0:\n                raise ValueError('Warning: beta==0, implementation absent!')\n            v[1, :] = w / beta[j - 1]\n"))
ed("krylov-min", F, "get_tridiagonal_krylov_vectors", ("    krylovSize = min(krylovSize, n)\n", "    if krylovSize > n:\n        krylovSize = n\n"))
ed("krylov-index", F, "get_tridiagonal_krylov_vectors", ("ALL", "v[0, :]", "v[0]"), ("ALL", "v[1, :]", "v[1]"))
ed("krylov-loop", F, "get_tridiagonal_krylov_vectors",
   ("            wp = h.dot(v[1, :])\n            alpha[j] = np.dot(np.conj(wp), v[1, :]).real\n", "            wp = h @ v[1, :]\n            alpha[j] = np.real(np.dot(v[1, :], wp.conj()))\n"))
# spectra.py
ed("dipole-comp", S, "getDipoleOperators", ("    tOps = []\n    for n in ns:\n        tOps.append(getDipoleOperator(nBaths, n))\n    return tOps", "    return [getDipoleOperator(nBaths, n) for n in ns]"))
ed("dipole-map", S, "getDaggeredDipoleOperators", ("    tDaggerOps = []\n    for n in ns:\n        tDaggerOps.append(daggerOp(getDipoleOperator(nBaths, n)))\n    return tDaggerOps", "    return list(map(daggerOp, getDipoleOperators(nBaths, ns)))"))
ed("dipole-range", S, "getDipoleOperator",
   ("                if abs(m - mp) <= 1:\n", "                if m - mp in nDict:\n"))
ed("dipole-sel", S, "getDipoleOperator",
   ("        for mp in range(-l1, l1 + 1):\n", "        for mp in range(max(-l1, m - 1), min(l1, m + 1) + 1):\n"), ("                if abs(m - mp) <= 1:\n", "                if True:\n"))
ed("dipole-once", S, "getDipoleOperator",
   ("            for s in range(2):\n                if abs(m - mp) <= 1:\n                    tij = gauntC(k=1, l=l2, m=m, lp=l1, mp=mp, prec=16)\n                    tij *= nDict[m - mp]\n                    if tij != 0:\n                        i",
    "            if abs(m - mp) > 1:\n                continue\n            tij = gauntC(k=1, l=l2, m=m, lp=l1, mp=mp, prec=16) * nDict[m - mp]\n            if tij == 0:\n                continue\n            for s in range(2):\n                if True:\n                    if True:\n                        i"))
ed("nixs-dims", S, "getNIXSOperator",
   ("            for mi in range(-li, li + 1):\n                for mj in range(-lj, lj + 1):\n                    m = mi - mj\n                    if abs(m) <= k:\n                        tij = Rintegral\n                        tij *= 1j ** k * sqrt(2 * k + 1)\n",
    "            prefactor = sqrt(2 * k + 1) * 1j ** k * Rintegral\n            for mi in range(-li, li + 1):\n                for mj in range(-lj, lj + 1):\n                    m = mi - mj\n                    if -k <= m <= k:\n                        tij = prefactor\n"))
ed("nixs-step", S, "getNIXSOperator", ("        if (li + lj + k) % 2 == 0:\n", "        if not (li + lj - k) % 2:\n"))
ed("nixs-get", S, "getNIXSOperator",
   ("                                if process in tOp:\n                                    tOp[(i, 'c'), (j, 'a')] += tij\n                                else:\n                                    tOp[(i, 'c'), (j, 'a')] = tij\n", "                                tOp[process] = tOp.get(process, 0) + tij\n"))
ed("nixs-setdefault", S, "getNIXSOperator",
   ("                                if process in tOp:\n                                    tOp[(i, 'c'), (j, 'a')] += tij\n                                else:\n                                    tOp[(i, 'c'), (j, 'a')] = tij\n", "                                if process not in tOp:\n                                    tOp[process] = 0\n                                tOp[process] += tij\n"))
ed("nixs-q", S, "getNIXSOperator", ("    qNorm = np.linalg.norm(q)\n", "    qNorm = np.sqrt(np.sum(q ** 2))\n"))
ed("nixs-int", S, "getNIXSOperator", ("np.conj(Ri) * spherical_jn(k, qNorm * r) * Rj * r ** 2, r", "r ** 2 * np.conj(Ri) * Rj * spherical_jn(k, r * qNorm), x=r"))
ed("ips-comp", S, "getInversePhotoEmissionOperators", ("    tOpsIPS = []\n    for s in range(2):\n        for m in range(-l, l + 1):\n            tOpsIPS.append({((c2i(nBaths, (l, s, m)), 'c'),): 1})\n    return tOpsIPS", "    indices = [c2i(nBaths, (l, s, m)) for s in range(2) for m in range(-l, l + 1)]\n    return [{((i, 'c'),): 1} for i in indices]"))
ed("ps-helper", S, "getPhotoEmissionOperators", ("    tOpsPS = []\n    for s in range(2):\n        for m in range(-l, l + 1):\n            tOpsPS.append({((c2i(nBaths, (l, s, m)), 'a'),): 1})\n    return tOpsPS", "    return _single_steps(nBaths, l, 'a')"),
   before="def _single_steps(nBaths, l, action):\n    steps = []\n    for s, m in ((s, m) for s in range(2) for m in range(-l, l + 1)):\n        step = (c2i(nBaths, (l, s, m)), action)\n        steps.append({(step,): 1})\n    return steps\n\n\n")
# states
ed("c-utuple", C, "utuple", ("    if j != -1:\n        amp = 1 if j % 2 == 0 else -1\n        cstate = state[:j] + (i,) + state[j:]\n        return (cstate, amp)\n    else:\n        return ((), 0)", "    if j == -1:\n        return ((), 0)\n    return (state[:j] + (i,) + state[j:], (-1) ** j)"))
ed("c-uint", C, "uint", ("    if state & 1 << i_right:\n        return (-1, 0)\n    else:\n", "    if (state >> i_right) & 1:\n        return (-1, 0)\n    else:\n"))
ed("c-ustr", C, "ustr", ("amp = 1 if state[:i].count('1') % 2 == 0 else -1", "amp = (-1) ** state.count('1', 0, i)"))
ed("c-ustr-list", C, "ustr", ("        state_new = state[:i] + '1' + state[i + 1:]\n", "        symbols = list(state)\n        symbols[i] = '1'\n        state_new = ''.join(symbols)\n"))
ed("c-bits", C, "ubitarray", ("        return 1 if state[:i].count() % 2 == 0 else -1", "        n_left = state[:i].count(True)\n        return -1 if n_left % 2 else 1"))
ed("c-bits2", C, "ubitarray", ("        state[i] = True\n        return 1 if state[:i].count() % 2 == 0 else -1", "        sign = 1 - 2 * (state.count(1, 0, i) & 1)\n        state[i] = 1\n        return sign"))
ed("r-utuple", RM, "utuple", ("state[:j] + state[j + 1:]", "tuple(k for k in state if k != i)"))
ed("r-uint", RM, "uint", ("state & ~(1 << i_right)", "state ^ (1 << i_right)"))
ed("r-uint2", RM, "uint", ("state & ~(1 << i_right)", "state - (1 << i_right)"), ("1 if tmp.bit_count() % 2 == 0 else -1", "-1 if bin(tmp).count('1') % 2 else 1"))
ed("r-bits", RM, "ubitarray", ("    if state[i]:\n        state[i] = False\n        return 1 if state[:i].count() % 2 == 0 else -1\n    else:\n        return 0", "    if not state[i]:\n        return 0\n    state[i] = 0\n    return (-1) ** state[:i].count()"))
ed("p-bytes", P, "bytes2bitarray", ("    bits = bitarray(0)\n", "    bits = bitarray()\n"))
ed("p-int", P, "int2tuple", ("str2tuple(int2str(i, n))", "tuple(k for k in range(n) if (i >> (n - 1 - k)) & 1)"))
ed("p-tuple", P, "tuple2int", ("str2int(tuple2str(t, n))", "sum(1 << (n - 1 - k) for k in t)"))

if __name__ == "__main__":
    for p in PROBLEMS:
        print("!!", p)
    r.main()
