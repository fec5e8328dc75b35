"""Third set of behaviour-preserving edits, written without looking at the machinery.  usage as refactorings.py"""
import ast
import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import refactorings as r
from refactorings import A, C, F, G, GC, M, P, RM, S, add

r.R.clear()


def source(f, func):
    """The text of a function in the file and its text without docstring and comments"""
    s = open(os.path.join("/repo/impurityModel", f)).read()
    m = re.search(r"^def " + func + r"\(.*?(?=^(?:def |if __name__|@|[A-Za-z_]+ = )|\Z)", s, re.S | re.M)
    if not m:
        raise SystemExit("no function " + func)
    t = ast.parse(m.group(0)).body[0]
    if isinstance(t.body[0], ast.Expr) and isinstance(t.body[0].value, ast.Constant):
        t.body = t.body[1:]
    return m.group(0).rstrip("\n") + "\n", ast.unparse(t) + "\n"


def ed(name, f, func, *edits, before="", more=()):
    """Textual edits on the plain text of a function; a count may come first in an edit"""
    old, new = source(f, func)
    for e in edits:
        if e[0] == "ALL":
            e = e[1:]
            if e[0] not in new:
                raise SystemExit(name + ": no match: " + e[0][:60])
        elif new.count(e[0]) != 1:
            raise SystemExit("%s: %d matches: %s" % (name, new.count(e[0]), e[0][:60]))
        new = new.replace(*e)
    add(name, (f, old, before + new), *more)


# ---------------------------------------------------------------- finite.py
ed("jobs-slice", F, "get_job_tasks",
   ("    tasks = [tasks_tot[i] for i in range(nj * rank, nj * rank + nj)]\n",
    "    first = nj * rank\n    tasks = list(tasks_tot[first:first + nj])\n"))
ed("jobs-divmod", F, "get_job_tasks",
   ("    nj = n_tot // ranks\n    rest = n_tot % ranks\n", "    nj, rest = divmod(n_tot, ranks)\n"),
   ("range(nj * rank, nj * rank + nj)", "range(nj * rank, nj * (rank + 1))"))
ed("eig-sort", F, "eigensystem",
   ("        es = np.array([es[i] for i in indices])\n        vecs = np.array([vecs[:, i] for i in indices]).T\n",
    "        es, vecs = es[indices], vecs[:, indices]\n"))
ed("eig-weight-helper", F, "eigensystem",
   ("    psis = [{basis[i]: vecs[i, vi] for i in range(len(basis)) if slaterWeightMin <= abs(vecs[i, vi]) ** 2} for vi in range(len(es))]\n",
    "    psis = [vector_to_psi(vecs[:, vi], basis, slaterWeightMin) for vi in range(len(es))]\n"),
   before='''def vector_to_psi(vector, basis, slaterWeightMin):
    """Return many-body state as a dictionary, without small weights."""
    return {ps: amp for ps, amp in zip(basis, vector) if abs(amp) ** 2 >= slaterWeightMin}


''')
ed("eig-print-once", F, "eigensystem",
   ("    if rank == 0:\n        print('<#Hamiltonian elements/column> = {:d}'.format(int(len(np.nonzero(h)[0]) / len(basis))))\n    if rank == 0:\n        print('Diagonalize the Hamiltonian...')\n",
    "    if rank == 0:\n        n_nonzero = len(np.nonzero(h)[0])\n        print(f'<#Hamiltonian elements/column> = {int(n_nonzero / len(basis)):d}')\n        print('Diagonalize the Hamiltonian...')\n"))
ed("expvalues-guard", F, "printExpValues",
   ("    if n is None:\n        n = len(es)\n", "    if rank != 0:\n        return\n    n = len(es) if n is None else n\n"),
   ("    if rank == 0:\n        print('E0 = {:7.4f}'.format(es[0]))\n        print(", "    print('E0 = {:7.4f}'.format(es[0]))\n    print("),
   ("    if rank == 0:\n        for i, (e, psi) in enumerate(zip(es[:n] - es[0], psis[:n])):\n            oc =", "    excitation_energies = es[:n] - es[0]\n    for i, (e, psi) in enumerate(zip(excitation_energies, psis[:n])):\n        oc ="),
   ("            print('{:3d}", "        print('{:3d}"), ("        print('\\n')\n", "    print('\\n')\n"))
ed("expvalues-unpack", F, "printExpValues",
   ("            oc = getEgT2gOccupation(nBaths, psi)\n", "            eg_dn, eg_up, t2g_dn, t2g_up = getEgT2gOccupation(nBaths, psi)\n            n3d = getTraceDensityMatrix(nBaths, psi)\n"),
   ("getTraceDensityMatrix(nBaths, psi), oc[0], oc[1], oc[2], oc[3]", "n3d, eg_dn, eg_up, t2g_dn, t2g_up"))
ed("expvalues-index", F, "printExpValues",
   ("        for i, (e, psi) in enumerate(zip(es[:n] - es[0], psis[:n])):\n", "        for i in range(min(n, len(es), len(psis))):\n            e = es[i] - es[0]\n            psi = psis[i]\n"))
ed("thermal-helper", F, "printThermalExpValues",
   *[("thermal_average(e, [%s(nBaths, psi) for psi in psis], T=T)" % f, "average_of(%s)" % f)
     for f in ("getTraceDensityMatrix", "getLz3d", "getSz3d", "getLsqr3d", "getSsqr3d")],
   ("    if rank == 0:\n        print('<E-E0>", "\n    def average_of(function):\n        return thermal_average(e, [function(nBaths, psi) for psi in psis], T=T)\n\n    if rank == 0:\n        print('<E-E0>"))
ed("thermal-occ-unpack", F, "printThermalExpValues",
   ("    occs = thermal_average(", "    eg_dn, eg_up, t2g_dn, t2g_up = thermal_average("),
   ("occs[0]", "eg_dn"), ("occs[1]", "eg_up"), ("occs[2]", "t2g_dn"), ("occs[3]", "t2g_up"))
ed("thermal-mask", F, "printThermalExpValues",
   ("    mask = e < cutOff * k_B * T\n    e = e[mask]\n    psis = np.array(psis)[mask]\n",
    "    energy_max = cutOff * k_B * T\n    mask = e < energy_max\n    psis = [psi for psi, keep in zip(psis, mask) if keep]\n    e = e[mask]\n"))
ed("dc-inverted", F, "dc_MLFT",
   ("    if n2p_i == 6 and Fpd is not None and (Gpd is not None):\n        Upd = Fpd[0] - 1 / 15.0 * Gpd[1] - 3 / 70.0 * Gpd[3]\n        return [Udd * n3d_i + Upd * n2p_i - c, Upd * (n3d_i + 1) - c]\n    else:\n        raise ValueError('double counting input wrong.')\n",
    "    if n2p_i != 6 or Fpd is None or Gpd is None:\n        raise ValueError('double counting input wrong.')\n    Upd = Fpd[0] - Gpd[1] / 15.0 - Gpd[3] * 3 / 70.0\n    dc_3d = Udd * n3d_i + Upd * n2p_i - c\n    dc_2p = Upd * (n3d_i + 1) - c\n    return [dc_3d, dc_2p]\n"))
ed("dc-checks", F, "dc_MLFT",
   ("    if not int(n3d_i) == n3d_i:\n        raise ValueError('3d occupation should be an integer')\n    if n2p_i is not None and int(n2p_i) != n2p_i:\n        raise ValueError('2p occupation should be an integer')\n",
    "    check_integer(n3d_i, '3d')\n    if n2p_i is not None:\n        check_integer(n2p_i, '2p')\n"),
   before='''def check_integer(n, shell):
    """Raise an error if the occupation n is not an integer."""
    if int(n) != n:
        raise ValueError(shell + " occupation should be an integer")


''')
ed("cubic-fill", F, "get_spherical_2_cubic_matrix",
   ("        u[0, 0] = 1j / np.sqrt(2)\n        u[2, 0] = 1j / np.sqrt(2)\n        u[0, 1] = 1 / np.sqrt(2)\n        u[2, 1] = -1 / np.sqrt(2)\n",
    "        u[[0, 2], 0] = 1j / np.sqrt(2)\n        u[0, 1] = 1 / np.sqrt(2)\n        u[2, 1] = -u[0, 1]\n"),
   ("        u[[0, -1], 1] = 1 / np.sqrt(2)\n        u[1, 2] = -1j / np.sqrt(2)\n        u[-2, 2] = -1j / np.sqrt(2)\n",
    "        u[0, 1] = 1 / np.sqrt(2)\n        u[-1, 1] = 1 / np.sqrt(2)\n        u[1, 2] = -1j / np.sqrt(2)\n        u[3, 2] = -1j / np.sqrt(2)\n"))
ed("cubic-const", F, "get_spherical_2_cubic_matrix",
   ("    if l == 1:\n", "    c = 1 / np.sqrt(2)\n    if l == 1:\n"), ("ALL", "1 / np.sqrt(2)\n", "c\n"), ("    c = c\n", "    c = 1 / np.sqrt(2)\n"),
   ("ALL", "1j / np.sqrt(2)\n", "1j * c\n"))
ed("cubic-spin-kron", F, "get_spherical_2_cubic_matrix",
   ("        n, m = np.shape(u)\n        U = np.zeros((2 * n, 2 * m), dtype=complex)\n        U[0:n, 0:m] = u\n        U[n:, m:] = u\n        u = U\n",
    "        u = np.kron(np.eye(2), u)\n"))
ed("dagger-comp", F, "daggerOp",
   ("        processNew = []\n        for e in process[::-1]:\n            if e[1] == 'a':\n                processNew.append((e[0], 'c'))\n            elif e[1] == 'c':\n                processNew.append((e[0], 'a'))\n            else:\n                raise Exception('Operator type unknown: {}'.format(e[1]))\n        processNew = tuple(processNew)\n        opDagger[processNew] = value.conjugate()\n",
    "        opDagger[tuple(dagger_ladder(index, action) for index, action in reversed(process))] = value.conjugate()\n"),
   before='''def dagger_ladder(index, action):
    """Return the adjoint of a ladder operator."""
    if action == "a":
        return (index, "c")
    if action == "c":
        return (index, "a")
    raise Exception("Operator type unknown: {}".format(action))


''')
ed("dagger-front", F, "daggerOp",
   ("        for e in process[::-1]:\n            if e[1] == 'a':\n                processNew.append((e[0], 'c'))\n            elif e[1] == 'c':\n                processNew.append((e[0], 'a'))\n",
    "        for e in process:\n            if e[1] == 'a':\n                processNew.insert(0, (e[0], 'c'))\n            elif e[1] == 'c':\n                processNew.insert(0, (e[0], 'a'))\n"))
ed("basis-helper-combos", F, "get_basis",
   ("                    if valBaths[l] == 0:\n                        basisVal = ((),)\n                    else:\n                        indices = [c2i(nBaths, (l, b)) for b in range(valBaths[l])]\n                        basisVal = tuple(itertools.combinations(indices, nVal))\n                    if nBaths[l] - valBaths[l] == 0:\n                        basisCon = ((),)\n                    else:\n                        indices = [c2i(nBaths, (l, b)) for b in range(valBaths[l], nBaths[l])]\n                        basisCon = tuple(itertools.combinations(indices, nCon))\n",
    "                    basisVal = bath_configurations(nBaths, l, range(valBaths[l]), nVal)\n                    basisCon = bath_configurations(nBaths, l, range(valBaths[l], nBaths[l]), nCon)\n"),
   before='''def bath_configurations(nBaths, l, baths, n):
    """Return all ways to put n electrons in the bath states."""
    if len(baths) == 0:
        return ((),)
    return tuple(itertools.combinations([c2i(nBaths, (l, b)) for b in baths], n))


''')
ed("basis-product", F, "get_basis",
   ("                    for bImp in basisImp:\n                        for bVal in basisVal:\n                            for bCon in basisCon:\n                                basisL[l].append(bImp + bVal + bCon)\n",
    "                    basisL[l].extend(bImp + bVal + bCon for bImp, bVal, bCon in itertools.product(basisImp, basisVal, basisCon))\n"))
ed("basis-continue", F, "get_basis",
   ("                if abs(deltaNimp) <= dnTol[l]:\n", "                if abs(deltaNimp) > dnTol[l]:\n                    continue\n                if True:\n"))
ed("basis-hoist", F, "get_basis",
   ("                    indices = [c2i(nBaths, (l, s, m)) for s in range(2) for m in range(-l, l + 1)]\n                    basisImp = tuple(itertools.combinations(indices, nImp))\n",
    "                    basisImp = tuple(itertools.combinations(impIndices, nImp))\n"),
   ("        basisL[l] = []\n", "        basisL[l] = []\n        impIndices = [c2i(nBaths, (l, s, m)) for s in range(2) for m in range(-l, l + 1)]\n"))
ed("basis-final-comp", F, "get_basis",
   ("    basis = []\n    for configuration in itertools.product(*basisL.values()):\n        basis.append(psr.tuple2bytes(tuple(sorted(itertools.chain.from_iterable(configuration))), n_spin_orbitals))\n    return tuple(basis)\n",
    "    return tuple(\n        psr.tuple2bytes(tuple(sorted(sum(configuration, ()))), n_spin_orbitals)\n        for configuration in itertools.product(*basisL.values())\n    )\n"))
ed("inner-get", F, "inner",
   ("    acc = 0\n    for state, amp in b.items():\n        if state in a:\n            acc += np.conj(a[state]) * amp\n    return acc\n",
    "    return sum(np.conj(a[state]) * amp for state, amp in b.items() if state in a)\n"))
ed("addfirst-get", F, "addToFirst",
   ("        if s in psi1:\n            psi1[s] += a * mul\n        else:\n            psi1[s] = a * mul\n",
    "        term = a * mul\n        if s not in psi1:\n            psi1[s] = term\n            continue\n        psi1[s] += term\n"))
ed("gaunt-terms", F, "gauntC",
   ("    c = sqrt(4 * pi / (2 * k + 1)) * (-1) ** m * gaunt(l, k, lp, -m, m - mp, mp, prec=prec)\n    return float(c)\n",
    "    prefactor = sqrt(4 * pi / (2 * k + 1))\n    phase = (-1) ** m\n    return float(prefactor * phase * gaunt(l, k, lp, -m, m - mp, mp, prec=prec))\n"))
ed("getu-early", F, "getU",
   ("    if m1 + m2 == m3 + m4:\n        u = 0\n        for k, Rk in enumerate(R):\n            u += Rk * gauntC(k, l1, m1, l4, m4) * gauntC(k, l3, m3, l2, m2)\n    else:\n        u = 0\n    return u\n",
    "    if m1 + m2 != m3 + m4:\n        return 0\n    return sum(Rk * gauntC(k, l1, m1, l4, m4) * gauntC(k, l3, m3, l2, m2) for k, Rk in enumerate(R))\n"))
ed("uop-product", F, "getUop",
   ("    for m1 in range(-l1, l1 + 1):\n        for m2 in range(-l2, l2 + 1):\n            for m3 in range(-l3, l3 + 1):\n                for m4 in range(-l4, l4 + 1):\n                    u = getU(l1, m1, l2, m2, l3, m3, l4, m4, R)\n                    if u != 0:\n                        for s in range(2):\n                            for sp in range(2):\n                                proccess = (((l1, s, m1), 'c'), ((l2, sp, m2), 'c'), ((l3, sp, m3), 'a'), ((l4, s, m4), 'a'))\n                                if not (s == sp and ((l1, m1) == (l2, m2) or (l3, m3) == (l4, m4))):\n                                    uDict[proccess] = u / 2.0\n",
    "    ms = [range(-l, l + 1) for l in (l1, l2, l3, l4)]\n    for m1, m2, m3, m4 in itertools.product(*ms):\n        u = getU(l1, m1, l2, m2, l3, m3, l4, m4, R)\n        if u == 0:\n            continue\n        same_orbital = (l1, m1) == (l2, m2) or (l3, m3) == (l4, m4)\n        for s, sp in itertools.product(range(2), repeat=2):\n            if s == sp and same_orbital:\n                continue\n            proccess = (((l1, s, m1), 'c'), ((l2, sp, m2), 'c'), ((l3, sp, m3), 'a'), ((l4, s, m4), 'a'))\n            uDict[proccess] = u / 2.0\n"))
ed("uop-pauli", F, "getUop",
   ("                                proccess = (((l1, s, m1), 'c'), ((l2, sp, m2), 'c'), ((l3, sp, m3), 'a'), ((l4, s, m4), 'a'))\n                                if not (s == sp and ((l1, m1) == (l2, m2) or (l3, m3) == (l4, m4))):\n                                    uDict[proccess] = u / 2.0\n",
    "                                so1, so2, so3, so4 = (l1, s, m1), (l2, sp, m2), (l3, sp, m3), (l4, s, m4)\n                                if so1 != so2 and so3 != so4:\n                                    uDict[(so1, 'c'), (so2, 'c'), (so3, 'a'), (so4, 'a')] = u / 2.0\n"))
ed("addops-get", F, "addOps",
   ("            if value != 0:\n                if sOp in opSum:\n                    opSum[sOp] += value\n                else:\n                    opSum[sOp] = value\n",
    "            if value == 0:\n                continue\n            opSum[sOp] = opSum[sOp] + value if sOp in opSum else value\n"))
ed("uop-total", F, "get2p3dSlaterCondonUop",
   ("    FpdOp = addOps([FpdOp1, FpdOp2])\n", ""), ("    GpdOp = addOps([GpdOp1, GpdOp2])\n", ""),
   ("    uOp = addOps([FddOp, FppOp, FpdOp, GpdOp])\n    return uOp\n", "    return addOps([FddOp, FppOp, addOps([FpdOp1, FpdOp2]), addOps([GpdOp1, GpdOp2])])\n"))
ed("soc-spin", F, "getSOCop",
   ("            value = xi * m * (1 / 2.0 if s == 1 else -1 / 2.0)\n", "            value = xi * m * (s - 0.5)\n"))
ed("soc-pair", F, "getSOCop",
   ("        opDict[((l, 1, m), 'c'), ((l, 0, m + 1), 'a')] = value\n        opDict[((l, 0, m + 1), 'c'), ((l, 1, m), 'a')] = value\n",
    "        up, dn = ((l, 1, m), (l, 0, m + 1))\n        for i, j in ((up, dn), (dn, up)):\n            opDict[(i, 'c'), (j, 'a')] = value\n"))
ed("hfield-direct", F, "gethHfieldop",
   ("        hHfieldOperator[((l, 1, m), 'c'), ((l, 0, m), 'a')] = hx / 2\n        hHfieldOperator[((l, 0, m), 'c'), ((l, 1, m), 'a')] = hx / 2\n        hHfieldOperator[((l, 1, m), 'c'), ((l, 0, m), 'a')] += -hy * 1j / 2\n        hHfieldOperator[((l, 0, m), 'c'), ((l, 1, m), 'a')] += hy * 1j / 2\n",
    "        up = (l, 1, m)\n        dn = (l, 0, m)\n        hHfieldOperator[(up, 'c'), (dn, 'a')] = (hx - 1j * hy) / 2\n        hHfieldOperator[(dn, 'c'), (up, 'a')] = (hx + 1j * hy) / 2\n"))
ed("c2i-gen", F, "c2i",
   ("    for lp in nBaths.keys():\n        if isinstance(lp, int):\n            for sp in range(2):\n                for mp in range(-lp, lp + 1):\n                    if (lp, sp, mp) == spinOrb:\n                        return i\n                    i += 1\n        elif isinstance(lp, tuple):\n            for lp_int in lp:\n                for sp in range(2):\n                    for mp in range(-lp_int, lp_int + 1):\n                        if (lp_int, sp, mp) == spinOrb:\n                            return i\n                        i += 1\n",
    "    for lp in nBaths:\n        shells = lp if isinstance(lp, tuple) else (lp,)\n        for lp_int in shells:\n            for sp in range(2):\n                for mp in range(-lp_int, lp_int + 1):\n                    if (lp_int, sp, mp) == spinOrb:\n                        return i\n                    i += 1\n"))
ed("i2c-bath", F, "i2c",
   ("        b = i - k\n        if 0 <= b < nBath:\n            return (lp, b)\n        k += nBath\n", "        if k <= i < k + nBath:\n            return (lp, i - k)\n        k += nBath\n"))
ed("lz-helper", F, "getLz3d",
   ("        tmp = 0\n        for i in psr.bytes2tuple(state, n_spin_orbitals):\n            spinOrb = i2c(nBaths, i)\n            if len(spinOrb) == 3 and spinOrb[0] == 2:\n                tmp += spinOrb[2]\n        Lz += tmp * abs(amp) ** 2\n",
    "        occupied = [i2c(nBaths, i) for i in psr.bytes2tuple(state, n_spin_orbitals)]\n        Lz += sum(so[2] for so in occupied if len(so) == 3 and so[0] == 2) * abs(amp) ** 2\n"))
ed("sz-weight-first", F, "getSz3d",
   ("        tmp = 0\n", "        weight = abs(amp) ** 2\n        tmp = 0\n"), ("tmp * abs(amp) ** 2", "weight * tmp"),
   ("            if len(spinOrb) == 3 and spinOrb[0] == 2:\n                tmp += -1 / 2 if spinOrb[1] == 0 else 1 / 2\n",
    "            if len(spinOrb) != 3 or spinOrb[0] != 2:\n                continue\n            if spinOrb[1] == 0:\n                tmp -= 0.5\n            else:\n                tmp += 0.5\n"))
ed("ssqr-loop", F, "getSsqr3d",
   ("    psi1 = applySz3d(nBaths, psi)\n    psi2 = applySplus3d(nBaths, psi)\n    psi3 = applySminus3d(nBaths, psi)\n    S2 = norm2(psi1) + 1 / 2 * (norm2(psi2) + norm2(psi3))\n",
    "    Sz2, Sp2, Sm2 = (norm2(apply(nBaths, psi)) for apply in (applySz3d, applySplus3d, applySminus3d))\n    S2 = Sz2 + (Sp2 + Sm2) / 2\n"))
ed("trace-precompute", F, "getTraceDensityMatrix",
   ("    n = 0\n", "    impurity = [c2i(nBaths, (l, spin, m)) for spin in range(2) for m in range(-l, l + 1)]\n    n = 0\n"),
   ("        nState = 0\n        for spin in range(2):\n            for m in range(-l, l + 1):\n                i = c2i(nBaths, (l, spin, m))\n                if s[i] == '1':\n                    nState += 1\n        nState *= abs(amp) ** 2\n        n += nState\n",
    "        n += sum(s[i] == '1' for i in impurity) * abs(amp) ** 2\n"))
ed("density-hoist", F, "getDensityMatrix",
   ("                    psi_new = a(n_spin_orbitals, i, psi)\n                    psi_new = c(n_spin_orbitals, j, psi_new)\n                    tmp = inner(psi, psi_new)\n",
    "                    tmp = inner(psi, c(n_spin_orbitals, j, a(n_spin_orbitals, i, psi)))\n"))
ed("density-orbitals", F, "getDensityMatrix",
   ("    for si in range(2):\n        for sj in range(2):\n            for mi in range(-l, l + 1):\n                for mj in range(-l, l + 1):\n                    i = c2i(nBaths, (l, si, mi))\n                    j = c2i(nBaths, (l, sj, mj))\n                    psi_new = a(n_spin_orbitals, i, psi)\n                    psi_new = c(n_spin_orbitals, j, psi_new)\n                    tmp = inner(psi, psi_new)\n                    if tmp != 0:\n                        densityMatrix[(l, si, mi), (l, sj, mj)] = tmp\n",
    "    ms = range(-l, l + 1)\n    for si, sj, mi, mj in itertools.product(range(2), range(2), ms, ms):\n        bra, ket = (l, sj, mj), (l, si, mi)\n        psi_new = c(n_spin_orbitals, c2i(nBaths, bra), a(n_spin_orbitals, c2i(nBaths, ket), psi))\n        value = inner(psi, psi_new)\n        if value != 0:\n            densityMatrix[ket, bra] = value\n"))
ed("cubicdm-items", F, "getDensityMatrixCubic",
   ("                            if eSph in nSph:\n                                tmp = np.conj(u[m, i]) * nSph[eSph] * u[k, j]\n                                if tmp != 0:\n                                    eCub = ((i, si), (j, sj))\n                                    if eCub in nCub:\n                                        nCub[eCub] += tmp\n                                    else:\n                                        nCub[eCub] = tmp\n",
    "                            if eSph not in nSph:\n                                continue\n                            tmp = np.conj(u[m, i]) * u[k, j] * nSph[eSph]\n                            if tmp == 0:\n                                continue\n                            eCub = ((i, si), (j, sj))\n                            nCub[eCub] = nCub.get(eCub, 0) + tmp\n"))
ed("egt2g-ternary", F, "getEgT2gOccupation",
   ("                    if i < 2:\n                        if s == 0:\n                            eg_dn += v\n                        else:\n                            eg_up += v\n                    elif s == 0:\n                        t2g_dn += v\n                    else:\n                        t2g_up += v\n",
    "                    if i < 2 and s == 0:\n                        eg_dn += v\n                    elif i < 2:\n                        eg_up += v\n                    elif s == 0:\n                        t2g_dn += v\n                    else:\n                        t2g_up += v\n"))
ed("egt2g-array", F, "getEgT2gOccupation",
   ("    eg_dn, eg_up, t2g_dn, t2g_up = (0, 0, 0, 0)\n", "    occs = [0, 0, 0, 0]\n"),
   ("                    if i < 2:\n                        if s == 0:\n                            eg_dn += v\n                        else:\n                            eg_up += v\n                    elif s == 0:\n                        t2g_dn += v\n                    else:\n                        t2g_up += v\n",
    "                    shell = 0 if i < 2 else 2\n                    occs[shell + s] += v\n"),
   ("    occs = [eg_dn, eg_up, t2g_dn, t2g_up]\n", ""))
ed("apply-s-helper", F, "applySplus3d",
   ("        i = c2i(nBaths, (l, 1, m))\n        j = c2i(nBaths, (l, 0, m))\n        psiP = c(n_spin_orbitals, i, a(n_spin_orbitals, j, psi))\n        addToFirst(psiNew, psiP)\n",
    "        up, dn = (c2i(nBaths, (l, s, m)) for s in (1, 0))\n        addToFirst(psiNew, c(n_spin_orbitals, up, a(n_spin_orbitals, dn, psi)))\n"))
ed("apply-lplus-new", F, "applyLplus3d",
   ("        for m in range(-l, l):\n            i = c2i(nBaths, (l, s, m + 1))\n            j = c2i(nBaths, (l, s, m))\n            psiP = c(n_spin_orbitals, i, a(n_spin_orbitals, j, psi))\n            addToFirst(psiNew, psiP, sqrt((l - m) * (l + m + 1)))\n",
    "        for m_new in range(-l + 1, l + 1):\n            m = m_new - 1\n            i = c2i(nBaths, (l, s, m_new))\n            j = c2i(nBaths, (l, s, m))\n            psiP = c(n_spin_orbitals, i, a(n_spin_orbitals, j, psi))\n            addToFirst(psiNew, psiP, sqrt((l - m) * (l + m_new)))\n"))
LADDER = "                signTot = 1\n                for i, action in process[-1::-1]:\n                    if action == 'a':\n                        sign = remove.ubitarray(i, state_new)\n                    elif action == 'c':\n                        sign = create.ubitarray(i, state_new)\n                    else:\n                        raise Exception('Operator type unknown: {}'.format(action))\n                    if sign == 0:\n                        break\n                    signTot *= sign\n                else:\n"
LADDER2 = LADDER.replace("\n    ", "\n        ")[0:0] + "".join("    " + x for x in LADDER.splitlines(True))
HELP = '''def apply_ladders(process, bits):
    """Apply the ladder operators to bits (in place) and return the total sign, zero if annihilated."""
    sign_tot = 1
    for i, action in reversed(process):
        if action == "a":
            sign = remove.ubitarray(i, bits)
        elif action == "c":
            sign = create.ubitarray(i, bits)
        else:
            raise Exception("Operator type unknown: {}".format(action))
        if sign == 0:
            return 0
        sign_tot *= sign
    return sign_tot


'''
ed("applyop-ladder-helper", F, "applyOp",
   ("ALL", LADDER2, "                    signTot = apply_ladders(process, state_new)\n                    if signTot != 0:\n"),
   ("ALL", LADDER, "                signTot = apply_ladders(process, state_new)\n                if signTot != 0:\n"), before=HELP)
RESTR = "                        for restriction, occupations in restrictions.items():\n                            n = len(restriction.intersection(stateB_tuple))\n                            if n < occupations[0] or occupations[1] < n:\n                                break\n                        else:\n                            psiNew[stateB] = amp * h * signTot\n"
ed("applyop-restr-all", F, "applyOp",
   (RESTR, "                        if all(occ[0] <= len(restr.intersection(stateB_tuple)) <= occ[1] for restr, occ in restrictions.items()):\n                            psiNew[stateB] = amp * h * signTot\n"))
ed("applyop-restr-helper", F, "applyOp",
   (RESTR, "                        if is_allowed(stateB_tuple, restrictions):\n                            psiNew[stateB] = amp * h * signTot\n"),
   ("                            for restriction, occupations in restrictions.items():\n                                n = len(restriction.intersection(stateB_tuple))\n                                if n < occupations[0] or occupations[1] < n:\n                                    break\n                            else:\n                                psiNew",
    "                            if is_allowed(stateB_tuple, restrictions):\n                                psiNew"),
   before='''def is_allowed(occupied, restrictions):
    """Return True if the product state fulfills the occupation restrictions."""
    for orbitals, (n_min, n_max) in restrictions.items():
        n = len(orbitals.intersection(occupied))
        if not n_min <= n <= n_max:
            return False
    return True


''')
ed("applyop-prune-comp", F, "applyOp",
   ("    for state, amp in list(psiNew.items()):\n        if abs(amp) ** 2 < slaterWeightMin:\n            psiNew.pop(state)\n    return psiNew\n",
    "    small = [state for state, amp in psiNew.items() if abs(amp) ** 2 < slaterWeightMin]\n    for state in small:\n        del psiNew[state]\n    return psiNew\n"))
ed("applyop-prune-new", F, "applyOp",
   ("    for state, amp in list(psiNew.items()):\n        if abs(amp) ** 2 < slaterWeightMin:\n            psiNew.pop(state)\n    return psiNew\n",
    "    return {state: amp for state, amp in psiNew.items() if abs(amp) ** 2 >= slaterWeightMin}\n"))
ed("applyop-res-local", F, "applyOp",
   ("ALL", "                opResult[state] = {}\n", "                res = {}\n                opResult[state] = res\n"),
   ("ALL", "opResult[state][stateB]", "res[stateB]"), ("ALL", "stateB in opResult[state]", "stateB in res"),
   ("ALL", "list(opResult[state].items())", "list(res.items())"), ("ALL", "opResult[state].pop(ps)", "res.pop(ps)"))
ed("ham-dense-filter", F, "get_hamiltonian_matrix",
   ("            for k, v in res.items():\n                if k in basis_index:\n                    h[basis_index[k], j] = v\n",
    "            for k, v in res.items():\n                i = basis_index.get(k)\n                if i is not None:\n                    h[i, j] = v\n"))
ed("ham-progress-helper", F, "get_hamiltonian_matrix",
   ("ALL", "            if rank == 0 and progress + 10 <= int(j * 100.0 / n):\n                progress = int(j * 100.0 / n)\n                print('{:d}% done'.format(progress))\n",
    "            percent = int(j * 100.0 / n)\n            if rank == 0 and percent >= progress + 10:\n                progress = percent\n                print('{:d}% done'.format(progress))\n"))
ed("ham-column", F, "get_hamiltonian_matrix",
   ("ALL", "            res = applyOp(n_spin_orbitals, hOp, {basis[j]: 1})\n", "            res = column(n_spin_orbitals, hOp, basis[j])\n"),
   ("            res = applyOp(n_spin_orbitals, hOp, {basis[job]: 1})\n", "            res = column(n_spin_orbitals, hOp, basis[job])\n"),
   before='''def column(n_spin_orbitals, hOp, state):
    """Return the Hamiltonian acting on a product state."""
    return applyOp(n_spin_orbitals, hOp, {state: 1})


''')
ed("ham-triplets", F, "get_hamiltonian_matrix",
   ("                    data.append(v)\n                    col.append(job)\n                    row.append(basis_index[k])\n            if rank", "                    row.append(basis_index[k])\n                    col.append(job)\n                    data.append(v)\n            if rank"),
   ("        h = scipy.sparse.csr_matrix(([], ([], [])), shape=(n, n))\n        data = []\n        row = []\n        col = []\n        jobs", "        data, row, col = [], [], []\n        jobs"),
   ("        for r in range(ranks):\n            h += comm.bcast(hSparse, root=r)\n", "        h = scipy.sparse.csr_matrix((n, n))\n        for r in range(ranks):\n            h = h + comm.bcast(hSparse, root=r)\n"))
ed("ham-index-enumerate", F, "get_hamiltonian_matrix",
   ("    basis_index = {basis[i]: i for i in range(n)}\n", "    basis_index = {state: i for i, state in enumerate(basis)}\n"))
ed("hdict-helper", F, "get_hamiltonian_matrix_from_h_dict",
   ("        data = []\n        row = []\n        col = []\n        for ps in set(basis).intersection(h_dict.keys()):\n            for k, v in h_dict[ps].items():\n                data.append(v)\n                col.append(basis_index[ps])\n                row.append(basis_index[k])\n        h_local = scipy.sparse.csr_matrix((data, (row, col)), shape=(n, n))\n",
    "        states = [ps for ps in set(basis) if ps in h_dict]\n        h_local = fill_sparse(h_dict, states, basis_index)\n"),
   ("        data = []\n        row = []\n        col = []\n        for j in range(n):\n            res = h_dict[basis[j]]\n            for k, v in res.items():\n                data.append(v)\n                col.append(j)\n                row.append(basis_index[k])\n        h = scipy.sparse.csr_matrix((data, (row, col)), shape=(n, n))\n",
    "        h = fill_sparse(h_dict, basis, basis_index)\n"),
   before='''def fill_sparse(h_dict, states, basis_index):
    """Return sparse matrix with the columns of the states filled."""
    n = len(basis_index)
    data = []
    row = []
    col = []
    for state in states:
        j = basis_index[state]
        for k, v in h_dict[state].items():
            data.append(v)
            row.append(basis_index[k])
            col.append(j)
    return scipy.sparse.csr_matrix((data, (row, col)), shape=(n, n))


''')
ed("hdict-flat", F, "get_hamiltonian_matrix_from_h_dict",
   ("        for ps in set(basis).intersection(h_dict.keys()):\n", "        for ps in set(h_dict.keys()) & set(basis):\n"),
   ("        if return_h_local:\n            h = h_local\n        else:\n            h = scipy.sparse.csr_matrix(([], ([], [])), shape=(n, n))\n            for r in range(ranks):\n                h += comm.bcast(h_local, root=r)\n",
    "        if return_h_local:\n            return h_local, basis_index\n        h = scipy.sparse.csr_matrix(([], ([], [])), shape=(n, n))\n        for r in range(ranks):\n            h += comm.bcast(h_local, root=r)\n"))
ed("expand-serial-new", F, "expand_basis",
   ("            for b in basis[i:n]:\n                if b in h_dict:\n                    res = h_dict[b]\n                else:\n                    res = applyOp(n_spin_orbitals, hOp, {b: 1}, restrictions=restrictions)\n                    h_dict[b] = res\n                basis_new.update(set(res.keys()).difference(basis_set))\n",
    "            for b in basis[i:]:\n                if b not in h_dict:\n                    h_dict[b] = applyOp(n_spin_orbitals, hOp, {b: 1}, restrictions=restrictions)\n                basis_new.update(ps for ps in h_dict[b] if ps not in basis_set)\n"))
ed("expand-serial-diff", F, "expand_basis",
   ("                basis_new.update(set(res.keys()).difference(basis_set))\n            i = n\n            basis += sorted(basis_new)\n            n = len(basis)\n    elif", "                basis_new |= set(res) - basis_set\n            basis.extend(sorted(basis_new))\n            i, n = (n, len(basis))\n    elif"))
ed("expand-frontier", F, "expand_basis",
   ("            states_setA_local = set(basis[i:n]).intersection(h_dict.keys())\n", "            frontier = set(basis[i:n])\n            states_setA_local = frontier.intersection(h_dict.keys())\n"),
   ("                states_setB = set(basis[i:n]) - states_setA_local\n", "                states_setB = frontier - states_setA_local\n"))
ed("expand-local-names", F, "expand_basis",
   ("            for ps_indexB in get_job_tasks(rank, ranks, range(len(states_tupleB))):\n                ps = states_tupleB[ps_indexB]\n", "            for ps in get_job_tasks(rank, ranks, states_tupleB):\n"),
   ("            basis_new = set()\n            for r in range(ranks):\n                basis_new.update(comm.bcast(basis_new_local, root=r))\n", "            basis_new = set().union(*[comm.bcast(basis_new_local, root=r) for r in range(ranks)])\n"))
ed("expandham-kw", F, "expand_basis_and_hamiltonian",
   ("    basis = expand_basis(n_spin_orbitals, h_dict, hOp, basis0, restrictions, parallelization_mode)\n", "    basis = expand_basis(\n        n_spin_orbitals, h_dict, hOp, basis0, restrictions=restrictions, parallelization_mode=parallelization_mode\n    )\n"),
   ("    h, basis_index = get_hamiltonian_matrix_from_h_dict(h_dict, basis, parallelization_mode, return_h_local)\n", "    h, basis_index = get_hamiltonian_matrix_from_h_dict(\n        h_dict, basis, parallelization_mode=parallelization_mode, return_h_local=return_h_local\n    )\n"))
ed("krylov-vectors", F, "get_tridiagonal_krylov_vectors",
   ("        wp = h.dot(v[0, :])\n        alpha[0] = np.dot(np.conj(wp), v[0, :]).real\n        w = wp - alpha[0] * v[0, :]\n        for j in range(1, krylovSize):\n            beta[j - 1] = sqrt(np.sum(np.abs(w) ** 2))\n            if beta[j - 1] != 0:\n                v[1, :] = w / beta[j - 1]\n            else:\n                raise ValueError('Warning: beta==0, implementation absent!')\n            wp = h.dot(v[1, :])\n            alpha[j] = np.dot(np.conj(wp), v[1, :]).real\n            w = wp - alpha[j] * v[1, :] - beta[j - 1] * v[0, :]\n            v[0, :] = v[1, :]\n",
    "        v_old = v[0, :]\n        wp = h.dot(v_old)\n        alpha[0] = np.vdot(wp, v_old).real\n        w = wp - alpha[0] * v_old\n        for j in range(1, krylovSize):\n            norm = sqrt(np.sum(np.abs(w) ** 2))\n            if norm == 0:\n                raise ValueError('Warning: beta==0, implementation absent!')\n            beta[j - 1] = norm\n            v_new = w / norm\n            wp = h.dot(v_new)\n            alpha[j] = np.vdot(wp, v_new).real\n            w = wp - alpha[j] * v_new - norm * v_old\n            v_old = v_new\n"))
ed("krylov-rank-merge", F, "get_tridiagonal_krylov_vectors",
   ("            if rank == 0:\n                alpha[j] = np.dot(np.conj(wp), v[1, :]).real\n                w = wp - alpha[j] * v[1, :] - beta[j - 1] * v[0, :]\n                v[0, :] = v[1, :]\n        comm",
    "            if rank == 0:\n                alpha[j] = np.dot(wp.conj(), v[1, :]).real\n                w = wp - beta[j - 1] * v[0, :] - alpha[j] * v[1, :]\n                v[0, :] = v[1, :]\n        comm"))
ed("add-dict", F, "add",
   ("    psi = psi1.copy()\n    for s, a in psi2.items():\n        if s in psi:\n            psi[s] += mul * a\n        else:\n            psi[s] = mul * a\n    return psi\n",
    "    psi = dict(psi1)\n    addToFirst(psi, psi2, mul)\n    return psi\n"))
ed("norm2-abs", F, "norm2", ("    return sum((abs(a) ** 2 for a in psi.values()))\n", "    total = 0\n    for amp in psi.values():\n        total += abs(amp) ** 2\n    return total\n"))

# ---------------------------------------------------------------- spectra.py
ed("dipole-loop-cond", S, "getDipoleOperator",
   ("        for mp in range(-l1, l1 + 1):\n            for s in range(2):\n                if abs(m - mp) <= 1:\n                    tij = gauntC(k=1, l=l2, m=m, lp=l1, mp=mp, prec=16)\n                    tij *= nDict[m - mp]\n                    if tij != 0:\n                        i = c2i(nBaths, (l2, s, m))\n                        j = c2i(nBaths, (l1, s, mp))\n                        tOp[(i, 'c'), (j, 'a')] = tij\n",
    "        for mp in range(-l1, l1 + 1):\n            if m - mp not in nDict:\n                continue\n            tij = gauntC(k=1, l=l2, m=m, lp=l1, mp=mp, prec=16) * nDict[m - mp]\n            if tij == 0:\n                continue\n            for s in range(2):\n                i = c2i(nBaths, (l2, s, m))\n                j = c2i(nBaths, (l1, s, mp))\n                tOp[(i, 'c'), (j, 'a')] = tij\n"))
ed("dipole-components", S, "getDipoleOperator",
   ("    nDict = {-1: (n[0] + 1j * n[1]) / sqrt(2), 0: n[2], 1: (-n[0] + 1j * n[1]) / sqrt(2)}\n",
    "    nx, ny, nz = n\n    nDict = {-1: (nx + 1j * ny) / sqrt(2), 0: nz, 1: (1j * ny - nx) / sqrt(2)}\n"))
ed("nixs-amp", S, "getNIXSOperator",
   ("                        tij = Rintegral\n                        tij *= 1j ** k * sqrt(2 * k + 1)\n                        tij *= np.conj(sph_harm(m, k, phi, theta))\n                        tij *= gauntC(k, li, mi, lj, mj, prec=16)\n",
    "                        angular = np.conj(sph_harm(m, k, phi, theta)) * gauntC(k, li, mi, lj, mj, prec=16)\n                        tij = Rintegral * 1j ** k * sqrt(2 * k + 1) * angular\n"),
   ("                                if process in tOp:\n                                    tOp[(i, 'c'), (j, 'a')] += tij\n                                else:\n                                    tOp[(i, 'c'), (j, 'a')] = tij\n",
    "                                tOp[process] = tOp.get(process, 0) + tij\n"))
ed("nixs-continue", S, "getNIXSOperator",
   ("        if (li + lj + k) % 2 == 0:\n            Rintegral", "        if (li + lj + k) % 2 != 0:\n            continue\n        else:\n            Rintegral"))
ed("nixs-radial-helper", S, "getNIXSOperator",
   ("np.trapz(np.conj(Ri) * spherical_jn(k, qNorm * r) * Rj * r ** 2, r)", "radial_integral(k, qNorm, Ri, Rj, r)"),
   before='''def radial_integral(k, q, Ri, Rj, r):
    """Return radial integral of the k:th spherical Bessel function."""
    integrand = np.conj(Ri) * spherical_jn(k, q * r) * Rj * r**2
    return np.trapz(integrand, r)


''')
ed("ips-comp", S, "getInversePhotoEmissionOperators",
   ("    tOpsIPS = []\n    for s in range(2):\n        for m in range(-l, l + 1):\n            tOpsIPS.append({((c2i(nBaths, (l, s, m)), 'c'),): 1})\n    return tOpsIPS\n",
    "    return [{((c2i(nBaths, (l, s, m)), 'c'),): 1} for s in range(2) for m in range(-l, l + 1)]\n"))
ed("dagger-dipole-comp", S, "getDaggeredDipoleOperators",
   ("    tDaggerOps = []\n    for n in ns:\n        tDaggerOps.append(daggerOp(getDipoleOperator(nBaths, n)))\n    return tDaggerOps\n",
    "    return [daggerOp(tOp) for tOp in getDipoleOperators(nBaths, ns)]\n"))
ed("green-frac", S, "getGreen",
   ("    for i in range(krylovSize - 1, -1, -1):\n        g = 1.0 / (omegaP - alpha[i]) if i == krylovSize - 1 else 1.0 / (omegaP - alpha[i] - beta[i] ** 2 * g)\n    return g\n",
    "    g = 1.0 / (omegaP - alpha[krylovSize - 1])\n    for i in range(krylovSize - 2, -1, -1):\n        g = 1.0 / (omegaP - alpha[i] - beta[i] ** 2 * g)\n    return g\n"))
ed("green-early", S, "getGreen",
   ("    g = np.zeros(len(omega), dtype=complex)\n    if len(psi) == 0:\n        return g\n", "    if not psi:\n        return np.zeros(len(omega), dtype=complex)\n"),
   ("    for i in range(krylovSize - 1, -1, -1):\n        g = 1.0 / (omegaP - alpha[i]) if i == krylovSize - 1 else 1.0 / (omegaP - alpha[i] - beta[i] ** 2 * g)\n    return g\n",
    "    g = 0\n    for i in reversed(range(krylovSize)):\n        if i == krylovSize - 1:\n            g = 1.0 / (omegaP - alpha[i])\n        else:\n            g = 1.0 / (omegaP - alpha[i] - beta[i] ** 2 * g)\n    return g\n"))
ed("green-vector", S, "getGreen",
   ("        n = len(basis_index)\n        psi0 = np.zeros(n, dtype=complex)\n        for ps, amp in psi.items():\n            psi0[basis_index[ps]] = amp\n        krylovSize = min(krylovSize, n)\n",
    "        psi0 = psi_to_vector(psi, basis_index)\n        krylovSize = min(krylovSize, len(basis_index))\n"),
   before='''def psi_to_vector(psi, basis_index):
    """Return the many-body state as a vector."""
    vector = np.zeros(len(basis_index), dtype=complex)
    for ps, amp in psi.items():
        vector[basis_index[ps]] = amp
    return vector


''')
ed("green-dict-scalars", S, "getGreen",
   ("            beta[j - 1] = sqrt(norm2(w[j - 1]))\n            if beta[j - 1] != 0:\n                v[j] = {s: 1.0 / beta[j - 1] * a for s, a in w[j - 1].items()}\n            else:\n                raise ValueError('Warning: beta==0, implementation missing!')\n",
    "            norm = sqrt(norm2(w[j - 1]))\n            if norm == 0:\n                raise ValueError('Warning: beta==0, implementation missing!')\n            beta[j - 1] = norm\n            v[j] = {s: a / norm for s, a in w[j - 1].items()}\n"))
ed("spectra-normalise-helper", S, "getSpectra",
   ("ALL", "                normalization = sqrt(norm2(psiR))\n                for state in psiR.keys():\n                    psiR[state] /= normalization\n", "                normalization = normalize(psiR)\n"),
   before='''def normalize(psi):
    """Normalize psi in place and return the norm it had."""
    norm = sqrt(norm2(psi))
    for state in psi:
        psi[state] /= norm
    return norm


''')
ed("spectra-zip", S, "getSpectra",
   ("            for i in range(n):\n                psi = psis[i]\n                e = es[i]\n", "            for i, e in enumerate(es):\n                psi = psis[i]\n"))
ed("spectra-weight", S, "getSpectra",
   ("                normalization = sqrt(norm2(psiR))\n                for state in psiR.keys():\n                    psiR[state] /= normalization\n                gs[i, t, :] = normalization ** 2 *", "                weight = norm2(psiR)\n                normalization = sqrt(weight)\n                psiR = {state: amp / normalization for state, amp in psiR.items()}\n                gs[i, t] = weight *"))
ed("rixs-solve-helper", S, "getRIXSmap",
   ("ALL", "                    psi2 = {}\n                    for i, amp in enumerate(x):\n                        if amp != 0:\n                            psi2[basis_state[i]] = amp\n", "                    psi2 = vector_to_psi(x, basis_state)\n"),
   before='''def vector_to_psi(x, basis_state):
    """Return the vector as a dictionary, without zeros."""
    return {basis_state[i]: amp for i, amp in enumerate(x) if amp != 0}


''')
ed("rixs-mode-once", S, "getRIXSmap",
   ("                if parallelization_mode == 'wIn':\n                    h, basis_index = expand_basis_and_hamiltonian(n_spin_orbitals, h_dict_excited, hOp, psi1.keys(), restrictions, parallelization_mode='serial', return_h_local=False)\n                elif parallelization_mode == 'H_build_wIn':\n                    h, basis_index = expand_basis_and_hamiltonian(n_spin_orbitals, h_dict_excited, hOp, psi1.keys(), restrictions, parallelization_mode='H_build', return_h_local=False)\n",
    "                build_mode = 'serial' if parallelization_mode == 'wIn' else 'H_build'\n                h, basis_index = expand_basis_and_hamiltonian(n_spin_orbitals, h_dict_excited, hOp, psi1.keys(), restrictions, parallelization_mode=build_mode)\n"))
ed("rixs-zip-states", S, "getRIXSmap",
   ("ALL", "            for iE in range(nE):\n                psi = psis[iE]\n                e = es[iE]\n", "            for iE, (e, psi) in enumerate(zip(es, psis)):\n"))
ed("rixs-matrix", S, "getRIXSmap",
   ("ALL", "                    a = scipy.sparse.csr_matrix(([wIn + 1j * delta1 + e] * n, (range(n), range(n))), shape=(n, n))\n                    a -= h\n",
    "                    z = wIn + e + 1j * delta1\n                    a = scipy.sparse.csr_matrix(([z] * n, (range(n), range(n))), shape=(n, n)) - h\n"))
ed("simulate-save-helper", S, "simulate_spectra",
   *[x for tag, ax in (("PS", "w"), ("XPS", "w"), ("NIXS", "wLoss"), ("XAS", "w")) for x in [
     ("        tmp = [%s, aSum]\n        for i in range(np.shape(a)[0]):\n            tmp.append(a[i, :])\n        print('Save spectra to disk...\\n')\n        np.savetxt('%s.dat', np.array(tmp).T, fmt='%%8.4f', header='E  sum  T1  T2  T3 ...')\n" % (ax, tag),
      "        save_columns('%s.dat', %s, aSum, a)\n" % (tag, ax))]],
   before='''def save_columns(filename, mesh, total, spectra):
    """Save the mesh, the sum and each spectrum as columns in a file."""
    columns = [mesh, total]
    for i in range(np.shape(spectra)[0]):
        columns.append(spectra[i, :])
    print("Save spectra to disk...\\n")
    np.savetxt(filename, np.array(columns).T, fmt="%8.4f", header="E  sum  T1  T2  T3 ...")


''')
ed("simulate-intensity", S, "simulate_spectra",
   ("    a = thermal_average(es[:np.shape(gs)[0]], -gs.imag, T=T)\n    if rank == 0:\n        h5f.create_dataset('XAS', data=-gs.imag)\n",
    "    intensity = -gs.imag\n    a = thermal_average(es[:np.shape(gs)[0]], intensity, T=T)\n    if rank == 0:\n        h5f.create_dataset('XAS', data=intensity)\n"))
ed("simulate-vstack", S, "simulate_spectra",
   ("        tmp = [wLoss, aSum]\n        for i in range(np.shape(a)[0]):\n            tmp.append(a[i, :])\n        print(", "        tmp = [wLoss, aSum] + [a[i, :] for i in range(np.shape(a)[0])]\n        print("))
ed("simulate-ips-order", S, "simulate_spectra",
   ("    gsPS *= -1\n    gs = gsPS + gsIPS\n", "    gs = gsIPS - gsPS\n"))

# ---------------------------------------------------------------- others
ed("uint-amp", C, "uint",
   ("        tmp = state >> i_right + 1\n        amp = 1 if tmp.bit_count() % 2 == 0 else -1\n        return (state_new, amp)\n", "        n_left = (state >> i_right + 1).bit_count()\n        return (state_new, -1 if n_left % 2 else 1)\n"))
ed("ustr-list", C, "ustr",
   ("        state_new = state[:i] + '1' + state[i + 1:]\n        amp = 1 if state[:i].count('1') % 2 == 0 else -1\n", "        left, right = state[:i], state[i + 1:]\n        state_new = left + '1' + right\n        amp = (-1) ** left.count('1')\n"))
ed("ubytes-inline", RM, "ubytes",
   ("    amp = ubitarray(i, bits)\n    state_new = psr.bitarray2bytes(bits)\n    return (state_new, amp)\n", "    sign = ubitarray(i, bits)\n    return psr.bitarray2bytes(bits), sign\n"))
ed("allgather-counts", M, "allgather_dict",
   ("    n_ps_new = np.zeros(ranks, dtype=int)\n    for r in range(ranks):\n        n_ps_new[r] = comm.bcast(len(data), root=r)\n    if max(n_ps_new) <= chunk_maxsize:\n",
    "    n_max = max([comm.bcast(len(data), root=r) for r in range(ranks)])\n    if n_max <= chunk_maxsize:\n"))
ed("chunks-none", M, "dict_chunks_from_one_MPI_rank",
   ("        if rank == root:\n            yield {k: data[k] for k in islice(it, chunk_maxsize)}\n        else:\n            yield None\n", "        chunk = None\n        if rank == root:\n            chunk = {key: data[key] for key in islice(it, chunk_maxsize)}\n        yield chunk\n"))
ed("main-restr-helper", G, "main",
   ("    indices = []\n    for b in range(nValBaths[l]):\n        indices.append(c2i(nBaths, (l, b)))\n    restrictions[frozenset(indices)] = (nValBaths[l] - dnValBaths[l], nValBaths[l])\n    indices = []\n    for b in range(nValBaths[l], nBaths[l]):\n        indices.append(c2i(nBaths, (l, b)))\n    restrictions[frozenset(indices)] = (0, dnConBaths[l])\n",
    "    valence = frozenset(c2i(nBaths, (l, b)) for b in range(nValBaths[l]))\n    conduction = frozenset(c2i(nBaths, (l, b)) for b in range(nValBaths[l], nBaths[l]))\n    restrictions[valence] = (nValBaths[l] - dnValBaths[l], nValBaths[l])\n    restrictions[conduction] = (0, dnConBaths[l])\n"))
ed("main-zip-helper", G, "main",
   ("    nBaths = OrderedDict(zip(ls, nBaths))\n    nValBaths = OrderedDict(zip(ls, nValBaths))\n    n0imps = OrderedDict(zip(ls, n0imps))\n    dnTols = OrderedDict(zip(ls, dnTols))\n    dnValBaths = OrderedDict(zip(ls, dnValBaths))\n    dnConBaths = OrderedDict(zip(ls, dnConBaths))\n",
    "    nBaths, nValBaths, n0imps, dnTols, dnValBaths, dnConBaths = (OrderedDict(zip(ls, values)) for values in (nBaths, nValBaths, n0imps, dnTols, dnValBaths, dnConBaths))\n"))
ed("main-cut", G, "main",
   ("    es = tuple((e for e in es if e - es[0] < energy_cut))\n    psis = tuple((psis[i] for i in range(len(es))))\n",
    "    n_low = sum(e - es[0] < energy_cut for e in es)\n    es = tuple(es[:n_low])\n    psis = tuple(psis[:n_low])\n"))
ed("main-weights", GC, "main",
   ("            ws = ws[j[-1::-1]]\n            s = s[j[-1::-1]]\n", "            order = j[::-1]\n            ws, s = ws[order], s[order]\n"))
ed("ham-op-keys", GC, "get_hamiltonian_operator_using_CF",
   ("    for process, value in hOperator.items():\n        hOp[tuple(((c2i(nBaths, spinOrb), action) for spinOrb, action in process))] = value\n",
    "    for process, value in hOperator.items():\n        key = []\n        for spinOrb, action in process:\n            key.append((c2i(nBaths, spinOrb), action))\n        hOp[tuple(key)] = value\n"))
ed("cf-diag-helper", GC, "get_CF_hamiltonian",
   ("    vVal3d = np.zeros((2 * l + 1, 2 * l + 1))\n    vCon3d = np.zeros((2 * l + 1, 2 * l + 1))\n    eBathVal3d = np.zeros((2 * l + 1, 2 * l + 1))\n    eBathCon3d = np.zeros((2 * l + 1, 2 * l + 1))\n    np.fill_diagonal(vVal3d, (v_val_eg, v_val_eg, v_val_t2g, v_val_t2g, v_val_t2g))\n    np.fill_diagonal(vCon3d, (v_con_eg, v_con_eg, v_con_t2g, v_con_t2g, v_con_t2g))\n    np.fill_diagonal(eBathVal3d, (e_val_eg, e_val_eg, e_val_t2g, e_val_t2g, e_val_t2g))\n    np.fill_diagonal(eBathCon3d, (e_con_eg, e_con_eg, e_con_t2g, e_con_t2g, e_con_t2g))\n",
    "    vVal3d = cubic_diagonal(v_val_eg, v_val_t2g)\n    vCon3d = cubic_diagonal(v_con_eg, v_con_t2g)\n    eBathVal3d = cubic_diagonal(e_val_eg, e_val_t2g)\n    eBathCon3d = cubic_diagonal(e_con_eg, e_con_t2g)\n"),
   before='''def cubic_diagonal(eg, t2g):
    """Return diagonal matrix in the cubic harmonics basis."""
    return np.diag([eg, eg, t2g, t2g, t2g])


''')
ed("cf-dot-helper", GC, "get_CF_hamiltonian",
   ("    vVal3d = np.dot(u_bath, np.dot(vVal3d, np.conj(u.T)))\n    vCon3d = np.dot(u_bath, np.dot(vCon3d, np.conj(u.T)))\n    eBathVal3d = np.dot(u_bath, np.dot(eBathVal3d, np.conj(u_bath.T)))\n    eBathCon3d = np.dot(u_bath, np.dot(eBathCon3d, np.conj(u_bath.T)))\n",
    "    uDagger = np.conj(u).T\n    uBathDagger = np.conj(u_bath).T\n    vVal3d = u_bath.dot(vVal3d).dot(uDagger)\n    vCon3d = u_bath @ vCon3d @ uDagger\n    eBathVal3d = u_bath @ (eBathVal3d @ uBathDagger)\n    eBathCon3d = u_bath @ eBathCon3d @ uBathDagger\n"))
ed("cf-hopp-helper", GC, "get_CF_hamiltonian",
   ("                if vHopp != 0:\n                    h_hopp_operator[((l, bi_val), 'c'), ((l, s, mj), 'a')] = vHopp\n                    h_hopp_operator[((l, s, mj), 'c'), ((l, bi_val), 'a')] = vHopp.conjugate()\n                if eBath",
    "                if vHopp != 0:\n                    add_hopping(h_hopp_operator, (l, bi_val), (l, s, mj), vHopp)\n                if eBath"),
   ("                    if vHopp != 0:\n                        h_hopp_operator[((l, bi_con), 'c'), ((l, s, mj), 'a')] = vHopp\n                        h_hopp_operator[((l, s, mj), 'c'), ((l, bi_con), 'a')] = vHopp.conjugate()\n",
    "                    if vHopp != 0:\n                        add_hopping(h_hopp_operator, (l, bi_con), (l, s, mj), vHopp)\n"),
   before='''def add_hopping(operator, bath, impurity, v):
    """Add hopping between a bath state and an impurity state."""
    operator[(bath, "c"), (impurity, "a")] = v
    operator[(impurity, "c"), (bath, "a")] = v.conjugate()


''')
ed("cf-read-dict", GC, "read_h0_CF_file",
   ("        parameters = json.loads(file_handle.read())\n", "        parameters = json.load(file_handle)\n"))

if __name__ == "__main__":
    r.main()
