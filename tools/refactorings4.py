"""Fourth set of behaviour-preserving edits, written without looking at the machinery.  usage as refactorings.py"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import refactorings as r
from refactorings import A, C, F, G, GC, M, P, RM, S
from refactorings3 import ed

r.R.clear()

ed("jobs-slice", F, "get_job_tasks",
   ("    tasks = [tasks_tot[i] for i in range(nj * rank, nj * rank + nj)]\n    if rank < rest:\n        tasks.append(tasks_tot[n_tot - rest + rank])\n    return tuple(tasks)",
    "    own = tuple(tasks_tot[nj * rank + i] for i in range(nj))\n    extra = (tasks_tot[nj * ranks + rank],) if rank < rest else ()\n    return own + extra"))
ed("jobs-divmod", F, "get_job_tasks",
   ("    nj = n_tot // ranks\n    rest = n_tot % ranks\n", "    nj, rest = divmod(n_tot, ranks)\n"),
   ("range(nj * rank, nj * rank + nj)", "range(nj * rank, nj * (rank + 1))"))
ed("thermal-two-steps", F, "printThermalExpValues",
   ("    e = es - es[0]\n    mask = e < cutOff * k_B * T\n    e = e[mask]\n    psis = np.array(psis)[mask]\n",
    "    e_all = es - es[0]\n    low = [i for i, value in enumerate(e_all) if value < cutOff * k_B * T]\n    e = e_all[low]\n    psis = [psis[i] for i in low]\n"))
ed("lz-sum", F, "getLz3d",
   ("        tmp = 0\n        for i in psr.bytes2tuple(state, n_spin_orbitals):\n            spinOrb = i2c(nBaths, i)\n            if len(spinOrb) == 3 and spinOrb[0] == 2:\n                tmp += spinOrb[2]\n        Lz += tmp * abs(amp) ** 2\n",
    "        occupied = [i2c(nBaths, i) for i in psr.bytes2tuple(state, n_spin_orbitals)]\n        weight = abs(amp) ** 2\n        for spinOrb in reversed(occupied):\n            if spinOrb[0] == 2 and len(spinOrb) == 3:\n                Lz += spinOrb[2] * weight\n"))
ed("trace-sum", F, "getTraceDensityMatrix",
   ("        nState = 0\n        for spin in range(2):\n            for m in range(-l, l + 1):\n                i = c2i(nBaths, (l, spin, m))\n                if s[i] == '1':\n                    nState += 1\n        nState *= abs(amp) ** 2\n        n += nState\n",
    "        nState = sum(1 for m in range(-l, l + 1) for spin in range(2) if s[c2i(nBaths, (l, spin, m))] == '1')\n        n += abs(amp) ** 2 * nState\n"))
ed("trace-indices", F, "getTraceDensityMatrix",
   ("    n = 0\n", "    indices = [c2i(nBaths, (l, spin, m)) for spin in (0, 1) for m in range(-l, l + 1)]\n    n = 0\n"),
   ("        for spin in range(2):\n            for m in range(-l, l + 1):\n                i = c2i(nBaths, (l, spin, m))\n                if s[i] == '1':\n                    nState += 1\n",
    "        for i in indices:\n            if s[i] != '0':\n                nState += 1\n"))
ed("uop-product", F, "getUop",
   ("        for m2 in range(-l2, l2 + 1):\n            for m3 in range(-l3, l3 + 1):\n                for m4 in range(-l4, l4 + 1):\n                    u = getU(l1, m1, l2, m2, l3, m3, l4, m4, R)\n                    if u != 0:\n                        for s in range(2):\n                            for sp in range(2):\n                                proccess = (((l1, s, m1), 'c'), ((l2, sp, m2), 'c'), ((l3, sp, m3), 'a'), ((l4, s, m4), 'a'))\n                                if not (s == sp and ((l1, m1) == (l2, m2) or (l3, m3) == (l4, m4))):\n                                    uDict[proccess] = u / 2.0\n",
    "        for m2 in range(-l2, l2 + 1):\n            for m3 in range(-l3, l3 + 1):\n                for m4 in range(-l4, l4 + 1):\n                    u = getU(l1, m1, l2, m2, l3, m3, l4, m4, R)\n                    if u == 0:\n                        continue\n                    for s in range(2):\n                        for sp in range(2):\n                            first, second = ((l1, s, m1), (l2, sp, m2)), ((l3, sp, m3), (l4, s, m4))\n                            if first[0] == first[1] or second[0] == second[1]:\n                                continue\n                            uDict[(first[0], 'c'), (first[1], 'c'), (second[0], 'a'), (second[1], 'a')] = 0.5 * u\n"))
ed("nospin-m4", F, "getNoSpinUop",
   ("                    if u != 0:\n                        uDict[(l1, m1), (l2, m2), (l3, m3), (l4, m4)] = u / 2.0\n",
    "                    orbitals = tuple(zip((l1, l2, l3, l4), (m1, m2, m3, m4)))\n                    if u != 0:\n                        uDict[orbitals] = u / 2\n"))
ed("addops-get", F, "addOps",
   ("            if value != 0:\n                if sOp in opSum:\n                    opSum[sOp] += value\n                else:\n                    opSum[sOp] = value\n",
    "            if value == 0:\n                continue\n            opSum[sOp] = opSum[sOp] + value if sOp in opSum else value\n"))
ed("c2i-helper", F, "c2i",
   ("    for lp in nBaths.keys():\n        if isinstance(lp, int):\n            for sp in range(2):\n                for mp in range(-lp, lp + 1):\n                    if (lp, sp, mp) == spinOrb:\n                        return i\n                    i += 1\n        elif isinstance(lp, tuple):\n            for lp_int in lp:\n                for sp in range(2):\n                    for mp in range(-lp_int, lp_int + 1):\n                        if (lp_int, sp, mp) == spinOrb:\n                            return i\n                        i += 1\n",
    "    for lp in nBaths:\n        if isinstance(lp, int):\n            shells = (lp,)\n        elif isinstance(lp, tuple):\n            shells = lp\n        else:\n            shells = ()\n        for lp_int in shells:\n            for sp in range(2):\n                for mp in range(-lp_int, lp_int + 1):\n                    if spinOrb == (lp_int, sp, mp):\n                        return i\n                    i += 1\n"))
ed("i2c-bath", F, "i2c",
   ("        b = i - k\n        if 0 <= b < nBath:\n            return (lp, b)\n        k += nBath\n", "        if k <= i and i < k + nBath:\n            return (lp, i - k)\n        k = k + nBath\n"))
ed("eig-order", F, "eigensystem",
   ("        indices = np.argsort(es)\n        es = np.array([es[i] for i in indices])\n        vecs = np.array([vecs[:, i] for i in indices]).T\n",
    "        order = np.argsort(es)\n        es, vecs = es[order], vecs[:, order]\n"))
ed("eig-psis", F, "eigensystem",
   ("    psis = [{basis[i]: vecs[i, vi] for i in range(len(basis)) if slaterWeightMin <= abs(vecs[i, vi]) ** 2} for vi in range(len(es))]\n",
    "    psis = []\n    for vi in range(len(es)):\n        vec = vecs[:, vi]\n        psi = {}\n        for ps, amp in zip(basis, vec):\n            if abs(amp) ** 2 >= slaterWeightMin:\n                psi[ps] = amp\n        psis.append(psi)\n"))
ed("getu-early", F, "getU",
   ("    if m1 + m2 == m3 + m4:\n        u = 0\n        for k, Rk in enumerate(R):\n            u += Rk * gauntC(k, l1, m1, l4, m4) * gauntC(k, l3, m3, l2, m2)\n    else:\n        u = 0\n    return u",
    "    if m1 + m2 - m3 - m4 != 0:\n        return 0\n    u = 0\n    for k in range(len(R)):\n        c1, c2 = gauntC(k, l1, m1, l4, m4), gauntC(k, l3, m3, l2, m2)\n        u += R[k] * (c1 * c2)\n    return u"))
ed("slater-one-list", F, "get2p3dSlaterCondonUop",
   ("    FpdOp = addOps([FpdOp1, FpdOp2])\n", ""), ("    GpdOp = addOps([GpdOp1, GpdOp2])\n", ""),
   ("addOps([FddOp, FppOp, FpdOp, GpdOp])", "addOps([FddOp, FppOp, FpdOp1, FpdOp2, GpdOp1, GpdOp2])"))
ed("average-vector", A, "thermal_average",
   ("    weights /= z\n", ""), ("    e_average /= z\n", ""), ("        e_average += weight * e\n", ""), ("    e_average = 0\n", ""),
   ("    o_average /= z\n    return o_average", "    return o_average / z"))
ed("average-kt", A, "thermal_average",
   ("    shift = np.min(energies)\n", "    kT = k_B * T\n    shift = min(energies)\n"), ("np.exp(-(e - shift) / (k_B * T))", "np.exp((shift - e) / kT)"))
ed("allgather-max", M, "allgather_dict",
   ("    if max(n_ps_new) <= chunk_maxsize:\n", "    too_many = any(n > chunk_maxsize for n in n_ps_new)\n    if not too_many:\n"))
ed("lplus-shift", F, "applyLplus3d",
   ("        for m in range(-l, l):\n            i = c2i(nBaths, (l, s, m + 1))\n            j = c2i(nBaths, (l, s, m))\n            psiP = c(n_spin_orbitals, i, a(n_spin_orbitals, j, psi))\n            addToFirst(psiNew, psiP, sqrt((l - m) * (l + m + 1)))\n",
    "        for m in range(-l + 1, l + 1):\n            target, source = c2i(nBaths, (l, s, m)), c2i(nBaths, (l, s, m - 1))\n            psiP = a(n_spin_orbitals, source, psi)\n            psiP = c(n_spin_orbitals, target, psiP)\n            addToFirst(psiNew, psiP, sqrt((l + m) * (l - m + 1)))\n"))
ed("krylov-vdot", F, "get_tridiagonal_krylov_vectors",
   ("        wp = h.dot(v[0, :])\n        alpha[0] = np.dot(np.conj(wp), v[0, :]).real\n        w = wp - alpha[0] * v[0, :]\n", "        wp = h.dot(v[0])\n        alpha[0] = np.vdot(wp, v[0]).real\n        w = wp - v[0] * alpha[0]\n"))
ed("krylov-roll", F, "get_tridiagonal_krylov_vectors",
   ("            w = wp - alpha[j] * v[1, :] - beta[j - 1] * v[0, :]\n            v[0, :] = v[1, :]\n    if rank == 0:\n        print('time",
    "            overlap = alpha[j] * v[1, :] + beta[j - 1] * v[0, :]\n            w = wp - overlap\n            v[0, :] = v[1, :]\n    if rank == 0:\n        print('time"))
ed("bsearch-if", C, "binary_search_bigger",
   ("    return i if i == len(a) or a[i] != x else -1", "    if i < len(a) and a[i] == x:\n        return -1\n    return i"))
ed("uint-mask", C, "uint",
   ("    if state & 1 << i_right:\n        return (-1, 0)\n    else:\n        state_new = state | 1 << i_right\n        tmp = state >> i_right + 1\n        amp = 1 if tmp.bit_count() % 2 == 0 else -1\n        return (state_new, amp)",
    "    mask = 1 << i_right\n    if state & mask != 0:\n        return (-1, 0)\n    amp = -1 if (state >> i_right + 1).bit_count() & 1 else 1\n    return (state + mask, amp)"))
ed("ubit-count", C, "ubitarray",
   ("    if state[i]:\n        return 0\n    else:\n        state[i] = True\n        return 1 if state[:i].count() % 2 == 0 else -1",
    "    if state[i]:\n        return 0\n    sign = -1 if state[:i].count() % 2 else 1\n    state[i] = 1\n    return sign"))
ed("tuple2str-list", P, "tuple2str",
   ("    s = ''\n    for i in range(n):\n        if i in t:\n            s += '1'\n        else:\n            s += '0'\n    return s", "    chars = ['0'] * n\n    for i in t:\n        chars[i] = '1'\n    return ''.join(chars)"))
ed("int2str-zfill", P, "int2str", ("    s = bin(i)[2:]\n    s = '0' * (n - len(s)) + s\n    return s", "    return format(i, 'b').zfill(n)"))
ed("dagger-dict", F, "daggerOp",
   ("        processNew = []\n        for e in process[::-1]:\n            if e[1] == 'a':\n                processNew.append((e[0], 'c'))\n            elif e[1] == 'c':\n                processNew.append((e[0], 'a'))\n            else:\n                raise Exception('Operator type unknown: {}'.format(e[1]))\n        processNew = tuple(processNew)\n        opDagger[processNew] = value.conjugate()\n",
    "        steps = []\n        for orbital, action in reversed(process):\n            if action not in ('a', 'c'):\n                raise Exception('Operator type unknown: {}'.format(action))\n            steps.append((orbital, 'c' if action == 'a' else 'a'))\n        opDagger[tuple(steps)] = np.conj(value)\n"))
ed("inner-keys", F, "inner",
   ("    acc = 0\n    for state, amp in b.items():\n        if state in a:\n            acc += np.conj(a[state]) * amp\n    return acc", "    common = [state for state in b if state in a]\n    return sum(np.conj(a[state]) * b[state] for state in common)"))
ed("addfirst-get", F, "addToFirst",
   ("        if s in psi1:\n            psi1[s] += a * mul\n        else:\n            psi1[s] = a * mul\n", "        psi1[s] = psi1.get(s, 0) + mul * a\n"))
ed("add-first", F, "add",
   ("    for s, a in psi2.items():\n        if s in psi:\n            psi[s] += mul * a\n        else:\n            psi[s] = mul * a\n", "    addToFirst(psi, psi2, mul)\n"))
ed("a-continue", F, "a",
   ("        if sign != 0:\n            ret[state_new] = amp * sign\n", "        if sign == 0:\n            continue\n        ret[state_new] = sign * amp\n"))
ed("spectra-normalise", S, "getSpectra",
   ("ALL", "                for state in psiR.keys():\n                    psiR[state] /= normalization\n", "                psiR = {state: amp / normalization for state, amp in psiR.items()}\n"))
ed("spectra-norm2", S, "getSpectra",
   ("                normalization = sqrt(norm2(psiR))\n                for state in psiR.keys():\n                    psiR[state] /= normalization\n                gs[i, t, :] = normalization ** 2 * getGreen(",
    "                weight = norm2(psiR)\n                normalization = sqrt(weight)\n                for state in list(psiR):\n                    psiR[state] = psiR[state] / normalization\n                gs[i, t, :] = weight * getGreen("))
ed("spectra-enumerate", S, "getSpectra",
   ("            for i in range(n):\n                psi = psis[i]\n                e = es[i]\n", "            for i, e in enumerate(es):\n                psi = psis[i]\n"))
ed("spectra-bcast", S, "getSpectra",
   ("            gTmp = comm.bcast(g, root=r)\n            for i, gValue in gTmp.items():\n                gs[i, :, :] = gValue\n", "            received = comm.bcast(g, root=r)\n            for i in sorted(received):\n                gs[i] = received[i]\n"))

if __name__ == "__main__":
    r.main()
