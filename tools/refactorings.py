"""Hand-written edits that keep the behaviour; every check has to stay quiet on each of them.
usage: refactorings.py [NAME...]   (compares every specified function, then runs the rules)"""
import os, shutil, subprocess, sys, tempfile

R = []


def add(name, *edits):
    R.append((name, edits))


F, S, C, P, G, GC, M, A, RM = ("ed/finite.py", "ed/spectra.py", "ed/create.py", "ed/product_state_representation.py",
                               "ed/get_spectra.py", "ed/get_spectra_using_CF.py", "ed/mpi_comm.py", "ed/average.py", "ed/remove.py")

# ---------------------------------------------------------------- average
add("average-vectorised", (A, '''    z = 0
    e_average = 0
    o_average = 0
    weights = np.zeros(np.shape(energies), dtype=float)
    shift = np.min(energies)
    for j, (e, o) in enumerate(zip(energies, observable)):
        weight = np.exp(-(e - shift) / (k_B * T))
        z += weight
        weights[j] = weight
        e_average += weight * e
        o_average += weight * o
    e_average /= z
    o_average /= z
    weights /= z
    return o_average
''', '''    shift = np.min(energies)
    z = 0
    o_average = 0
    for e, o in zip(energies, observable):
        weight = np.exp(-(e - shift) / (k_B * T))
        z += weight
        o_average += weight * o
    return o_average / z
'''))
add("average-helper", (A, "def thermal_average(", '''def boltzmann_weight(energy, ground, T):
    """Return the (not normalized) Boltzmann weight."""
    return np.exp(-(energy - ground) / (k_B * T))


def thermal_average('''), (A, "        weight = np.exp(-(e - shift) / (k_B * T))\n", "        weight = boltzmann_weight(e, shift, T)\n"))
add("average-beta", (A, "    shift = np.min(energies)\n", "    beta = 1 / (k_B * T)\n    e_min = min(energies)\n"),
    (A, "        weight = np.exp(-(e - shift) / (k_B * T))\n", "        weight = np.exp(-beta * (e - e_min))\n"))
add("average-lists", (A, '''    z = 0
    e_average = 0
    o_average = 0
    weights = np.zeros(np.shape(energies), dtype=float)
    shift = np.min(energies)
    for j, (e, o) in enumerate(zip(energies, observable)):
        weight = np.exp(-(e - shift) / (k_B * T))
        z += weight
        weights[j] = weight
        e_average += weight * e
        o_average += weight * o
    e_average /= z
    o_average /= z
    weights /= z
    return o_average
''', '''    ground = np.min(energies)
    weights = [np.exp(-(e - ground) / (k_B * T)) for e in energies]
    z = sum(weights)
    return sum(weight * o for weight, o in zip(weights, observable)) / z
'''))
# ---------------------------------------------------------------- create / remove / representation
add("uint-mask", (C, '''    i_right = n_spin_orbitals - 1 - i
    if state & (1 << i_right):
        # Spin-orbital is already occupied.
        # Can't add one more electron in that spin-orbital
        return -1, 0
    else:
        # Create electron with OR-operator
        state_new = state | (1 << i_right)
''', '''    i_right = n_spin_orbitals - 1 - i
    mask = 1 << i_right
    if state & mask != 0:
        # Spin-orbital is already occupied.
        return -1, 0
    else:
        # Create electron with OR-operator
        state_new = state | mask
'''))
add("sign-helper", (C, "def utuple(i, state):", '''def parity_sign(n):
    """Return 1 for an even and -1 for an odd number."""
    return 1 if n % 2 == 0 else -1


def utuple(i, state):'''), (C, "        amp = 1 if j % 2 == 0 else -1\n", "        amp = parity_sign(j)\n"),
    (C, '        amp = 1 if state[:i].count("1") % 2 == 0 else -1\n', '        amp = parity_sign(state[:i].count("1"))\n'),
    (C, "        return 1 if state[:i].count() % 2 == 0 else -1\n", "        return parity_sign(state[:i].count())\n"))
add("ubitarray-early-return", (C, '''    if state[i]:
        return 0
    else:
        # Modify the product state by adding an electron
        state[i] = True
        # Amplitude
        return 1 if state[:i].count() % 2 == 0 else -1
''', '''    if state[i]:
        return 0
    n_left = state[:i].count()
    state[i] = True
    if n_left % 2:
        return -1
    return 1
'''))
add("utuple-insert", (C, '''    j = binary_search_bigger(state, i)
    if j != -1:
        amp = 1 if j % 2 == 0 else -1
        cstate = state[:j] + (i,) + state[j:]
        return cstate, amp
    else:
        return (), 0
''', '''    j = binary_search_bigger(state, i)
    if j == -1:
        return (), 0
    sign = -1 if j % 2 else 1
    return (*state[:j], i, *state[j:]), sign
'''))
add("tuple2str-join", (P, '''    s = ""
    for i in range(n):
        if i in t:
            s += "1"
        else:
            s += "0"
    return s
''', '''    return "".join("1" if i in t else "0" for i in range(n))
'''))
add("int2str-format", (P, '''    s = bin(i)[2:]
    s = "0" * (n - len(s)) + s
    return s
''', '''    s = bin(i)[2:]
    return s.zfill(n)
'''))
add("int2str-fstring", (P, '''    s = bin(i)[2:]
    s = "0" * (n - len(s)) + s
    return s
''', '''    return f"{i:b}".rjust(n, "0")
'''))
add("str2tuple-list", (P, '''    return tuple(pos for pos, char in enumerate(s) if char == "1")
''', '''    occupied = []
    for position, character in enumerate(s):
        if character == "1":
            occupied.append(position)
    return tuple(occupied)
'''))
# ---------------------------------------------------------------- finite: small
add("jobs-divmod", (F, '''    n_tot = len(tasks_tot)
    nj = n_tot // ranks
    rest = n_tot % ranks
    tasks = [tasks_tot[i] for i in range(nj * rank, nj * rank + nj)]
    if rank < rest:
        tasks.append(tasks_tot[n_tot - rest + rank])
    return tuple(tasks)
''', '''    n_tot = len(tasks_tot)
    per_rank, rest = divmod(n_tot, ranks)
    first = per_rank * rank
    tasks = [tasks_tot[i] for i in range(first, first + per_rank)]
    if rank < rest:
        tasks.append(tasks_tot[n_tot - rest + rank])
    return tuple(tasks)
'''))
add("jobs-slice", (F, "    tasks = [tasks_tot[i] for i in range(nj * rank, nj * rank + nj)]\n", "    start = nj * rank\n    tasks = list(tasks_tot[start : start + nj])\n"))
add("eigensystem-helper", (F, "def eigensystem(\n", '''def _vector_to_state(basis, vec, cutoff):
    """Return the dictionary form of a vector."""
    return {ps: amp for ps, amp in zip(basis, vec) if cutoff <= abs(amp) ** 2}


def eigensystem(
'''), (F, '''    psis = [
        ({basis[i]: vecs[i, vi] for i in range(len(basis)) if slaterWeightMin <= abs(vecs[i, vi]) ** 2})
        for vi in range(len(es))
    ]
''', '''    psis = [_vector_to_state(basis, vecs[:, vi], slaterWeightMin) for vi in range(len(es))]
'''))
add("eigensystem-fancy-index", (F, '''        indices = np.argsort(es)
        es = np.array([es[i] for i in indices])
        vecs = np.array([vecs[:, i] for i in indices]).T
''', '''        order = np.argsort(es)
        es = es[order]
        vecs = vecs[:, order]
'''))
add("eigensystem-loop", (F, '''    psis = [
        ({basis[i]: vecs[i, vi] for i in range(len(basis)) if slaterWeightMin <= abs(vecs[i, vi]) ** 2})
        for vi in range(len(es))
    ]
''', '''    psis = []
    for vi in range(len(es)):
        psi = {}
        for i, ps in enumerate(basis):
            amp = vecs[i, vi]
            if abs(amp) ** 2 >= slaterWeightMin:
                psi[ps] = amp
        psis.append(psi)
'''))
add("expvalues-helper", (F, "def printThermalExpValues(", '''def _print_average(label, energies, values, T):
    print("<{}> = {:4.3f}".format(label, thermal_average(energies, values, T=T)))


def printThermalExpValues('''), (F, '        print("<Lz(3d)> = {:4.3f}".format(thermal_average(e, [getLz3d(nBaths, psi) for psi in psis], T=T)))\n',
'        _print_average("Lz(3d)", e, [getLz3d(nBaths, psi) for psi in psis], T)\n'))
add("dc-udd", (F, '''    Udd = Fdd[0] - 14.0 / 441 * (Fdd[2] + Fdd[4])
    if n2p_i is None and Fpd is None and Gpd is None:
        return Udd * n3d_i - c
    if n2p_i == 6 and Fpd is not None and Gpd is not None:
        Upd = Fpd[0] - (1 / 15.0) * Gpd[1] - (3 / 70.0) * Gpd[3]
        return [Udd * n3d_i + Upd * n2p_i - c, Upd * (n3d_i + 1) - c]
    else:
        raise ValueError("double counting input wrong.")
''', '''    u_dd = Fdd[0] - (Fdd[2] + Fdd[4]) * 14 / 441
    only_d = n2p_i is None and Fpd is None and Gpd is None
    if only_d:
        return n3d_i * u_dd - c
    if n2p_i != 6 or Fpd is None or Gpd is None:
        raise ValueError("double counting input wrong.")
    u_pd = Fpd[0] - Gpd[1] / 15 - 3 * Gpd[3] / 70
    e_d = u_dd * n3d_i + u_pd * n2p_i - c
    e_p = u_pd * (n3d_i + 1) - c
    return [e_d, e_p]
'''))
add("cubic-dict", (F, '''        u = np.zeros((3, 3), dtype=complex)
        u[0, 0] = 1j / np.sqrt(2)
        u[2, 0] = 1j / np.sqrt(2)
        u[0, 1] = 1 / np.sqrt(2)
        u[2, 1] = -1 / np.sqrt(2)
        u[1, 2] = 1
''', '''        r = 1 / np.sqrt(2)
        u = np.array([[1j * r, r, 0], [0, 0, 1], [1j * r, -r, 0]], dtype=complex)
'''))
add("cubic-block", (F, '''        n, m = np.shape(u)
        U = np.zeros((2 * n, 2 * m), dtype=complex)
        U[0:n, 0:m] = u
        U[n:, m:] = u
        u = U
''', '''        u = np.kron(np.eye(2), u)
'''))
add("cubic-sqrt2", (F, '''        u = np.zeros((5, 5), dtype=complex)
        u[2, 0] = 1
        u[[0, -1], 1] = 1 / np.sqrt(2)
        u[1, 2] = -1j / np.sqrt(2)
        u[-2, 2] = -1j / np.sqrt(2)
        u[1, 3] = 1 / np.sqrt(2)
        u[-2, 3] = -1 / np.sqrt(2)
        u[0, 4] = 1j / np.sqrt(2)
        u[-1, 4] = -1j / np.sqrt(2)
''', '''        s = np.sqrt(2)
        u = np.zeros((5, 5), dtype=complex)
        u[2, 0] = 1
        u[0, 1] = 1 / s
        u[4, 1] = 1 / s
        u[1, 2] = -1j / s
        u[3, 2] = -1j / s
        u[1, 3] = 1 / s
        u[3, 3] = -1 / s
        u[0, 4] = 1j / s
        u[4, 4] = -1j / s
'''))
add("dagger-map", (F, '''        processNew = []
        for e in process[::-1]:
            if e[1] == "a":
                processNew.append((e[0], "c"))
            elif e[1] == "c":
                processNew.append((e[0], "a"))
            else:
                raise Exception("Operator type unknown: {}".format(e[1]))
        processNew = tuple(processNew)
        opDagger[processNew] = value.conjugate()
''', '''        steps = []
        for orbital, action in reversed(process):
            if action == "a":
                opposite = "c"
            elif action == "c":
                opposite = "a"
            else:
                raise Exception("Operator type unknown: {}".format(action))
            steps.append((orbital, opposite))
        opDagger[tuple(steps)] = value.conjugate()
'''))
add("inner-comprehension", (F, '''    acc = 0
    for state, amp in b.items():
        if state in a:
            acc += np.conj(a[state]) * amp
    return acc
''', '''    return sum(np.conj(a[state]) * amp for state, amp in b.items() if state in a)
'''))
add("inner-keys", (F, '''    acc = 0
    for state, amp in b.items():
        if state in a:
            acc += np.conj(a[state]) * amp
    return acc
''', '''    acc = 0
    for state in b.keys() & a.keys():
        acc += b[state] * np.conj(a[state])
    return acc
'''))
add("addToFirst-get", (F, '''    for s, a in psi2.items():
        if s in psi1:
            psi1[s] += a * mul
        else:
            psi1[s] = a * mul
''', '''    for s, a in psi2.items():
        psi1[s] = psi1.get(s, 0) + a * mul
'''))
add("add-uses-addToFirst", (F, '''    psi = psi1.copy()
    for s, a in psi2.items():
        if s in psi:
            psi[s] += mul * a
        else:
            psi[s] = mul * a
    return psi
''', '''    psi = dict(psi1)
    addToFirst(psi, psi2, mul)
    return psi
'''))
add("a-continue", (F, '''    ret = {}
    for state, amp in psi.items():
        state_new, sign = remove.ubytes(n_spin_orbitals, i, state)
        if sign != 0:
            ret[state_new] = amp * sign
    return ret
''', '''    ret = {}
    for state, amp in psi.items():
        state_new, sign = remove.ubytes(n_spin_orbitals, i, state)
        if sign == 0:
            continue
        ret[state_new] = sign * amp
    return ret
'''))
add("getU-early", (F, '''    if m1 + m2 == m3 + m4:
        u = 0
        for k, Rk in enumerate(R):
            u += Rk * gauntC(k, l1, m1, l4, m4) * gauntC(k, l3, m3, l2, m2)
    else:
        u = 0
    return u
''', '''    if m1 + m2 != m3 + m4:
        return 0
    u = 0
    for k in range(len(R)):
        u += R[k] * gauntC(k, l1, m1, l4, m4) * gauntC(k, l3, m3, l2, m2)
    return u
'''))
add("getUop-product", (F, '''                    u = getU(l1, m1, l2, m2, l3, m3, l4, m4, R)
                    if u != 0:
                        for s in range(2):
                            for sp in range(2):
                                proccess = (
                                    ((l1, s, m1), "c"),
                                    ((l2, sp, m2), "c"),
                                    ((l3, sp, m3), "a"),
                                    ((l4, s, m4), "a"),
                                )
                                # Pauli exclusion principle
                                if not (s == sp and ((l1, m1) == (l2, m2) or (l3, m3) == (l4, m4))):
                                    uDict[proccess] = u / 2.0
''', '''                    u = getU(l1, m1, l2, m2, l3, m3, l4, m4, R)
                    if u == 0:
                        continue
                    for s, sp in itertools.product(range(2), repeat=2):
                        # Pauli exclusion principle
                        if s == sp and (l1, m1) == (l2, m2):
                            continue
                        if s == sp and (l3, m3) == (l4, m4):
                            continue
                        process = (((l1, s, m1), "c"), ((l2, sp, m2), "c"), ((l3, sp, m3), "a"), ((l4, s, m4), "a"))
                        uDict[process] = u / 2.0
'''))
add("getUop-equal-spinorbitals", (F, '''                                proccess = (
                                    ((l1, s, m1), "c"),
                                    ((l2, sp, m2), "c"),
                                    ((l3, sp, m3), "a"),
                                    ((l4, s, m4), "a"),
                                )
                                # Pauli exclusion principle
                                if not (s == sp and ((l1, m1) == (l2, m2) or (l3, m3) == (l4, m4))):
                                    uDict[proccess] = u / 2.0
''', '''                                so1, so2, so3, so4 = (l1, s, m1), (l2, sp, m2), (l3, sp, m3), (l4, s, m4)
                                # Pauli exclusion principle
                                if so1 != so2 and so3 != so4:
                                    uDict[((so1, "c"), (so2, "c"), (so3, "a"), (so4, "a"))] = u / 2.0
'''))
add("addOps-get", (F, '''            if value != 0:
                if sOp in opSum:
                    opSum[sOp] += value
                else:
                    opSum[sOp] = value
    return opSum
''', '''            if value == 0:
                continue
            opSum[sOp] = opSum.get(sOp, 0) + value
    return opSum
'''))
add("slater-condon-flat", (F, '''    FpdOp = addOps([FpdOp1, FpdOp2])
''', ""), (F, '''    GpdOp = addOps([GpdOp1, GpdOp2])
    # Add operators
    uOp = addOps([FddOp, FppOp, FpdOp, GpdOp])
    return uOp
''', '''    # Add operators
    return addOps([FddOp, FppOp, FpdOp1, FpdOp2, GpdOp1, GpdOp2])
'''))
add("soc-sz", (F, '''    for m in range(-l, l + 1):
        for s in range(2):
            value = xi * m * (1 / 2.0 if s == 1 else -1 / 2.0)
            opDict[(((l, s, m), "c"), ((l, s, m), "a"))] = value
''', '''    for s, sz in enumerate((-1 / 2, 1 / 2)):
        for m in range(-l, l + 1):
            so = (l, s, m)
            opDict[((so, "c"), (so, "a"))] = xi * m * sz
'''))
add("field-flat", (F, '''        hHfieldOperator[(((l, 1, m), "c"), ((l, 0, m), "a"))] = hx / 2
        hHfieldOperator[(((l, 0, m), "c"), ((l, 1, m), "a"))] = hx / 2
        hHfieldOperator[(((l, 1, m), "c"), ((l, 0, m), "a"))] += -hy * 1j / 2
        hHfieldOperator[(((l, 0, m), "c"), ((l, 1, m), "a"))] += hy * 1j / 2
        for s in range(2):
            hHfieldOperator[(((l, s, m), "c"), ((l, s, m), "a"))] = hz / 2 if s == 1 else -hz / 2
''', '''        down, up = (l, 0, m), (l, 1, m)
        hHfieldOperator[((up, "c"), (down, "a"))] = (hx - 1j * hy) / 2
        hHfieldOperator[((down, "c"), (up, "a"))] = (hx + 1j * hy) / 2
        hHfieldOperator[((down, "c"), (down, "a"))] = -hz / 2
        hHfieldOperator[((up, "c"), (up, "a"))] = hz / 2
'''))
add("c2i-shells", (F, '''    for lp in nBaths.keys():
        if isinstance(lp, int):
            for sp in range(2):
                for mp in range(-lp, lp + 1):
                    if (lp, sp, mp) == spinOrb:
                        return i
                    i += 1
        elif isinstance(lp, tuple):
            # Loop over all different angular momenta in lp.
            for lp_int in lp:
                for sp in range(2):
                    for mp in range(-lp_int, lp_int + 1):
                        if (lp_int, sp, mp) == spinOrb:
                            return i
                        i += 1
''', '''    for lp in nBaths:
        if isinstance(lp, int):
            for sp, mp in itertools.product(range(2), range(-lp, lp + 1)):
                if spinOrb == (lp, sp, mp):
                    return i
                i += 1
        elif isinstance(lp, tuple):
            # Loop over all different angular momenta in lp.
            for lp_int in lp:
                for sp, mp in itertools.product(range(2), range(-lp_int, lp_int + 1)):
                    if spinOrb == (lp_int, sp, mp):
                        return i
                    i += 1
'''))
add("nso-helper", (F, "def getLz3d(nBaths, psi):", '''def n_spin_orbitals_total(nBaths):
    """Return the total number of spin-orbitals in the system."""
    return sum(2 * (2 * ang + 1) + nBath for ang, nBath in nBaths.items())


def getLz3d(nBaths, psi):'''), (F, ("ALL", "    n_spin_orbitals = sum(2 * (2 * ang + 1) + nBath for ang, nBath in nBaths.items())\n"), "    n_spin_orbitals = n_spin_orbitals_total(nBaths)\n"))
add("lz-sum", (F, '''    Lz = 0
    for state, amp in psi.items():
        tmp = 0
        for i in psr.bytes2tuple(state, n_spin_orbitals):
            spinOrb = i2c(nBaths, i)
            # Look for spin-orbitals of the shape: spinOrb = (l, s, ml), with l=2.
            if len(spinOrb) == 3 and spinOrb[0] == 2:
                tmp += spinOrb[2]
        Lz += tmp * abs(amp) ** 2
    return Lz
''', '''    Lz = 0
    for state, amp in psi.items():
        weight = abs(amp) ** 2
        spin_orbitals = [i2c(nBaths, i) for i in psr.bytes2tuple(state, n_spin_orbitals)]
        Lz += weight * sum(so[2] for so in spin_orbitals if len(so) == 3 and so[0] == 2)
    return Lz
'''))
add("ssqr-inline", (F, '''    psi1 = applySz3d(nBaths, psi)
    psi2 = applySplus3d(nBaths, psi)
    psi3 = applySminus3d(nBaths, psi)
    S2 = norm2(psi1) + 1 / 2 * (norm2(psi2) + norm2(psi3))
''', '''    z_part = norm2(applySz3d(nBaths, psi))
    ladder_part = norm2(applySplus3d(nBaths, psi)) + norm2(applySminus3d(nBaths, psi))
    S2 = z_part + ladder_part / 2
'''))
add("trace-count", (F, '''        s = psr.bytes2str(state, n_spin_orbitals)
        nState = 0
        for spin in range(2):
            for m in range(-l, l + 1):
                i = c2i(nBaths, (l, spin, m))
                if s[i] == "1":
                    nState += 1
        nState *= abs(amp) ** 2
        n += nState
    return n
''', '''        s = psr.bytes2str(state, n_spin_orbitals)
        occupied = 0
        for spin in range(2):
            for m in range(-l, l + 1):
                if s[c2i(nBaths, (l, spin, m))] == "1":
                    occupied += 1
        n += occupied * abs(amp) ** 2
    return n
'''))
add("trace-hoisted", (F, '''    n = 0
    for state, amp in psi.items():
        s = psr.bytes2str(state, n_spin_orbitals)
        nState = 0
        for spin in range(2):
            for m in range(-l, l + 1):
                i = c2i(nBaths, (l, spin, m))
                if s[i] == "1":
                    nState += 1
        nState *= abs(amp) ** 2
        n += nState
    return n
''', '''    indices = [c2i(nBaths, (l, spin, m)) for spin in range(2) for m in range(-l, l + 1)]
    n = 0
    for state, amp in psi.items():
        s = psr.bytes2str(state, n_spin_orbitals)
        n += sum(1 for i in indices if s[i] == "1") * abs(amp) ** 2
    return n
'''))
add("density-loops", (F, '''                    i = c2i(nBaths, (l, si, mi))
                    j = c2i(nBaths, (l, sj, mj))
                    psi_new = a(n_spin_orbitals, i, psi)
                    psi_new = c(n_spin_orbitals, j, psi_new)
                    tmp = inner(psi, psi_new)
                    if tmp != 0:
                        densityMatrix[((l, si, mi), (l, sj, mj))] = tmp
''', '''                    so_i = (l, si, mi)
                    so_j = (l, sj, mj)
                    removed = a(n_spin_orbitals, c2i(nBaths, so_i), psi)
                    value = inner(psi, c(n_spin_orbitals, c2i(nBaths, so_j), removed))
                    if value == 0:
                        continue
                    densityMatrix[(so_i, so_j)] = value
'''))
add("density-cubic-get", (F, '''                                if tmp != 0:
                                    eCub = ((i, si), (j, sj))
                                    if eCub in nCub:
                                        nCub[eCub] += tmp
                                    else:
                                        nCub[eCub] = tmp
''', '''                                if tmp == 0:
                                    continue
                                eCub = ((i, si), (j, sj))
                                nCub[eCub] = nCub.get(eCub, 0) + tmp
'''))
add("egt2g-occs", (F, '''                    v = u[j, i] * np.conj(u[k, i]) * inner(psi, psi_new)
                    if i < 2:
                        if s == 0:
                            eg_dn += v
                        else:
                            eg_up += v
                    else:
                        if s == 0:
                            t2g_dn += v
                        else:
                            t2g_up += v
''', '''                    v = u[j, i] * np.conj(u[k, i]) * inner(psi, psi_new)
                    is_eg = i in (0, 1)
                    if is_eg and s == 0:
                        eg_dn += v
                    elif is_eg:
                        eg_up += v
                    elif s == 0:
                        t2g_dn += v
                    else:
                        t2g_up += v
'''))
add("egt2g-list", (F, '''                    v = u[j, i] * np.conj(u[k, i]) * inner(psi, psi_new)
                    if i < 2:
                        if s == 0:
                            eg_dn += v
                        else:
                            eg_up += v
                    else:
                        if s == 0:
                            t2g_dn += v
                        else:
                            t2g_up += v
    occs = [eg_dn, eg_up, t2g_dn, t2g_up]
''', '''                    v = u[j, i] * np.conj(u[k, i]) * inner(psi, psi_new)
                    occs[s if i < 2 else 2 + s] += v
'''), (F, "    eg_dn, eg_up, t2g_dn, t2g_up = 0, 0, 0, 0\n", "    # eg_dn, eg_up, t2g_dn, t2g_up\n    occs = [0, 0, 0, 0]\n"))
add("ladder-helper", (F, "def applySplus3d(nBaths, psi):", '''def _transfer(nBaths, psi, new, old):
    """Return c_new^dagger c_old psi."""
    n_spin_orbitals = sum(2 * (2 * ang + 1) + nBath for ang, nBath in nBaths.items())
    return c(n_spin_orbitals, c2i(nBaths, new), a(n_spin_orbitals, c2i(nBaths, old), psi))


def applySplus3d(nBaths, psi):'''), (F, '''        i = c2i(nBaths, (l, 1, m))
        j = c2i(nBaths, (l, 0, m))
        psiP = c(n_spin_orbitals, i, a(n_spin_orbitals, j, psi))
''', '''        psiP = _transfer(nBaths, psi, (l, 1, m), (l, 0, m))
'''))
add("lminus-shift", (F, '''        for m in range(-l + 1, l + 1):
            i = c2i(nBaths, (l, s, m - 1))
            j = c2i(nBaths, (l, s, m))
            psiP = c(n_spin_orbitals, i, a(n_spin_orbitals, j, psi))
            addToFirst(psiNew, psiP, sqrt((l + m) * (l - m + 1)))
''', '''        for m in range(-l, l):
            i = c2i(nBaths, (l, s, m))
            j = c2i(nBaths, (l, s, m + 1))
            psiP = c(n_spin_orbitals, i, a(n_spin_orbitals, j, psi))
            addToFirst(psiNew, psiP, sqrt((l + m + 1) * (l - m)))
'''))
add("norm2-generator", (F, "    return sum(abs(a) ** 2 for a in psi.values())", "    total = 0\n    for amplitude in psi.values():\n        total += abs(amplitude) ** 2\n    return total"))
# ---------------------------------------------------------------- finite: basis
add("basis-windows", (F, '''                deltaNimp = dnVal - dnCon
                if abs(deltaNimp) <= dnTol[l]:
                    nImp = n0imp[l] + deltaNimp
''', '''                deltaNimp = dnVal - dnCon
                if -dnTol[l] <= deltaNimp <= dnTol[l]:
                    nImp = n0imp[l] + deltaNimp
'''))
add("basis-extend", (F, '''                    for bImp in basisImp:
                        for bVal in basisVal:
                            for bCon in basisCon:
                                basisL[l].append(bImp + bVal + bCon)
''', '''                    for bImp, bVal, bCon in itertools.product(basisImp, basisVal, basisCon):
                        basisL[l].append(bImp + bVal + bCon)
'''))
add("basis-comprehension", (F, '''    basis = []
    for configuration in itertools.product(*basisL.values()):
        # Convert product state representation from a tuple to a object
        # of the class bytes. Then add this product state to the basis.
        basis.append(
            psr.tuple2bytes(
                tuple(sorted(itertools.chain.from_iterable(configuration))),
                n_spin_orbitals,
            )
        )
    return tuple(basis)
''', '''    return tuple(
        psr.tuple2bytes(tuple(sorted(itertools.chain.from_iterable(parts))), n_spin_orbitals)
        for parts in itertools.product(*basisL.values())
    )
'''))
# ---------------------------------------------------------------- finite: applyOp, matrices, expansion
STEP = '''                state_new = bits.copy()
                signTot = 1
                for i, action in process[-1::-1]:
                    if action == "a":
                        sign = remove.ubitarray(i, state_new)
                    elif action == "c":
                        sign = create.ubitarray(i, state_new)
                    else:
                        raise Exception("Operator type unknown: {}".format(action))
                    if sign == 0:
                        break
                    signTot *= sign
                else:
'''
add("applyOp-step-helper", (F, "def applyOp(n_spin_orbitals, op,", '''def _apply_process(process, bits):
    """Return the sign of the process and the product state it leads to."""
    state_new = bits.copy()
    total = 1
    for i, action in reversed(process):
        if action == "a":
            sign = remove.ubitarray(i, state_new)
        elif action == "c":
            sign = create.ubitarray(i, state_new)
        else:
            raise Exception("Operator type unknown: {}".format(action))
        if sign == 0:
            return 0, state_new
        total *= sign
    return total, state_new


def applyOp(n_spin_orbitals, op,'''), (F, ("ALL", STEP), '''                signTot, state_new = _apply_process(process, bits)
                if signTot != 0:
'''), (F, ("ALL", STEP.replace("\n", "\n    ").replace("                state_new = bits", "                    state_new = bits", 1)[:-4]), '''                    signTot, state_new = _apply_process(process, bits)
                    if signTot != 0:
'''))
add("applyOp-prune-helper", (F, "def applyOp(n_spin_orbitals, op,", '''def _prune(psi, slaterWeightMin):
    """Remove product states with small weight."""
    for ps in [ps for ps, amp in psi.items() if abs(amp) ** 2 < slaterWeightMin]:
        del psi[ps]


def applyOp(n_spin_orbitals, op,'''), (F, '''    # Remove product states with small weight
    for state, amp in list(psiNew.items()):
        if abs(amp) ** 2 < slaterWeightMin:
            psiNew.pop(state)
    return psiNew
''', '''    _prune(psiNew, slaterWeightMin)
    return psiNew
'''))
add("applyOp-filter-return", (F, '''    # Remove product states with small weight
    for state, amp in list(psiNew.items()):
        if abs(amp) ** 2 < slaterWeightMin:
            psiNew.pop(state)
    return psiNew
''', '''    # Keep only product states with sufficient weight
    return {state: amp for state, amp in psiNew.items() if abs(amp) ** 2 >= slaterWeightMin}
'''))
add("applyOp-restriction-helper", (F, "def applyOp(n_spin_orbitals, op,", '''def _is_allowed(occupied, restrictions):
    """Return whether all occupation restrictions are fulfilled."""
    return all(low <= len(orbitals.intersection(occupied)) <= high for orbitals, (low, high) in restrictions.items())


def applyOp(n_spin_orbitals, op,'''), (F, '''                        stateB_tuple = psr.bitarray2tuple(state_new)
                        # Check that product state sB fulfills
                        # occupation restrictions.
                        for restriction, occupations in restrictions.items():
                            n = len(restriction.intersection(stateB_tuple))
                            if n < occupations[0] or occupations[1] < n:
                                break
                        else:
                            # Occupations ok, so add contributions
                            psiNew[stateB] = amp * h * signTot
''', '''                        if _is_allowed(psr.bitarray2tuple(state_new), restrictions):
                            # Occupations ok, so add contributions
                            psiNew[stateB] = amp * h * signTot
'''))
add("matrix-enumerate", (F, "    basis_index = {basis[i]: i for i in range(n)}\n    if rank == 0:\n        print(\"Filling", "    basis_index = {ps: i for i, ps in enumerate(basis)}\n    if rank == 0:\n        print(\"Filling"))
add("matrix-column-helper", (F, "def get_hamiltonian_matrix(n_spin_orbitals, hOp", '''def _column(n_spin_orbitals, hOp, ps, basis_index):
    """Return row indices and values of one matrix column."""
    res = applyOp(n_spin_orbitals, hOp, {ps: 1})
    return [(basis_index[k], v) for k, v in res.items() if k in basis_index]


def get_hamiltonian_matrix(n_spin_orbitals, hOp'''), (F, '''            res = applyOp(n_spin_orbitals, hOp, {basis[job]: 1})
            for k, v in res.items():
                if k in basis_index:
                    data.append(v)
                    col.append(job)
                    row.append(basis_index[k])
''', '''            for i, v in _column(n_spin_orbitals, hOp, basis[job], basis_index):
                data.append(v)
                col.append(job)
                row.append(i)
'''))
add("matrix-dict-items", (F, '''        for ps in set(basis).intersection(h_dict.keys()):
            for k, v in h_dict[ps].items():
                data.append(v)
                col.append(basis_index[ps])
                row.append(basis_index[k])
''', '''        for ps in basis:
            if ps not in h_dict:
                continue
            j = basis_index[ps]
            for k, v in h_dict[ps].items():
                data.append(v)
                row.append(basis_index[k])
                col.append(j)
'''))
add("expand-serial-get", (F, '''            for b in basis[i:n]:
                if b in h_dict:
                    res = h_dict[b]
                else:
                    res = applyOp(n_spin_orbitals, hOp, {b: 1}, restrictions=restrictions)
                    h_dict[b] = res
                basis_new.update(set(res.keys()).difference(basis_set))
''', '''            for b in basis[i:n]:
                if b not in h_dict:
                    h_dict[b] = applyOp(n_spin_orbitals, hOp, {b: 1}, restrictions=restrictions)
                basis_new.update(ps for ps in h_dict[b] if ps not in basis_set)
'''))
add("expand-serial-set", (F, '''            basis_set = frozenset(basis)
            basis_new = set()
            for b in basis[i:n]:
                if b in h_dict:''', '''            basis_set = set(basis)
            basis_new = set()
            for b in basis[i:n]:
                if b in h_dict:'''), (F, '''                basis_new.update(set(res.keys()).difference(basis_set))
            i = n
            # Add basis_new to basis.
            basis += sorted(basis_new)
            n = len(basis)
    elif''', '''                basis_new |= set(res) - basis_set
            i = n
            # Add basis_new to basis.
            basis.extend(sorted(basis_new))
            n = len(basis)
    elif'''))
add("krylov-alias", (F, '''        wp = h.dot(v[0, :])
        alpha[0] = np.dot(np.conj(wp), v[0, :]).real
        w = wp - alpha[0] * v[0, :]
        # Construct Krylov states,
        # and more importantly the vectors alpha and beta
        for j in range(1, krylovSize):
            beta[j - 1] = sqrt(np.sum(np.abs(w) ** 2))
            if beta[j - 1] != 0:
                v[1, :] = w / beta[j - 1]
            else:
                # Pick normalized state v[j],
                # orthogonal to v[0],v[1],v[2],...,v[j-1]
                raise ValueError("Warning: beta==0, implementation absent!")
''', '''        wp = h.dot(v[0, :])
        alpha[0] = np.vdot(wp, v[0, :]).real
        w = wp - alpha[0] * v[0, :]
        # Construct Krylov states,
        # and more importantly the vectors alpha and beta
        for j in range(1, krylovSize):
            beta[j - 1] = np.linalg.norm(w)
            if beta[j - 1] == 0:
                raise ValueError("Warning: beta==0, implementation absent!")
            v[1, :] = w / beta[j - 1]
'''))
# ---------------------------------------------------------------- mpi
add("chunks-list", (M, '''    for _ in range(n_chunks):
        if rank == root:
            yield {k: data[k] for k in islice(it, chunk_maxsize)}
        else:
            yield None
''', '''    for _ in range(n_chunks):
        chunk = {k: data[k] for k in islice(it, chunk_maxsize)} if rank == root else None
        yield chunk
'''))
add("allgather-sizes", (M, '''    n_ps_new = np.zeros(ranks, dtype=int)
    for r in range(ranks):
        n_ps_new[r] = comm.bcast(len(data), root=r)
''', '''    n_ps_new = [comm.bcast(len(data), root=r) for r in range(ranks)]
'''))
# ---------------------------------------------------------------- spectra
add("dipole-comprehension", (S, '''    tOps = []
    for n in ns:
        tOps.append(getDipoleOperator(nBaths, n))
    return tOps
''', '''    return [getDipoleOperator(nBaths, n) for n in ns]
'''))
add("dipole-dagger-reuse", (S, '''    tDaggerOps = []
    for n in ns:
        tDaggerOps.append(daggerOp(getDipoleOperator(nBaths, n)))
    return tDaggerOps
''', '''    return [daggerOp(tOp) for tOp in getDipoleOperators(nBaths, ns)]
'''))
add("dipole-unpack", (S, '''    nDict = {
        -1: (n[0] + 1j * n[1]) / sqrt(2),
        0: n[2],
        1: (-n[0] + 1j * n[1]) / sqrt(2),
    }
''', '''    nx, ny, nz = n
    nDict = {-1: (nx + 1j * ny) / sqrt(2), 0: nz, 1: -(nx - 1j * ny) / sqrt(2)}
'''))
add("dipole-skip", (S, '''                if abs(m - mp) <= 1:
''', '''                if m - mp in nDict:
'''))
add("nixs-spin-loop", (S, '''                            for s in range(2):
                                i = c2i(nBaths, (li, s, mi))
                                j = c2i(nBaths, (lj, s, mj))
                                process = ((i, "c"), (j, "a"))
                                if process in tOp:
                                    tOp[((i, "c"), (j, "a"))] += tij
                                else:
                                    tOp[((i, "c"), (j, "a"))] = tij
''', '''                            for s in range(2):
                                process = ((c2i(nBaths, (li, s, mi)), "c"), (c2i(nBaths, (lj, s, mj)), "a"))
                                tOp[process] = tOp.get(process, 0) + tij
'''))
add("nixs-continue", (S, '''        if (li + lj + k) % 2 == 0:
            Rintegral =''', '''        parity_even = (li + lj + k) % 2 == 0
        if parity_even:
            Rintegral ='''), (S, '''                        tij = Rintegral
                        tij *= 1j ** (k) * sqrt(2 * k + 1)
                        tij *= np.conj(sph_harm(m, k, phi, theta))
                        tij *= gauntC(k, li, mi, lj, mj, prec=16)
''', '''                        angular = np.conj(sph_harm(m, k, phi, theta)) * gauntC(k, li, mi, lj, mj, prec=16)
                        tij = 1j**k * sqrt(2 * k + 1) * Rintegral * angular
'''))
add("pes-comprehension", (S, '''    tOpsPS = []
    for s in range(2):
        for m in range(-l, l + 1):
            tOpsPS.append({((c2i(nBaths, (l, s, m)), "a"),): 1})
    return tOpsPS
''', '''    return [{((c2i(nBaths, (l, s, m)), "a"),): 1} for s in range(2) for m in range(-l, l + 1)]
'''))
add("green-fraction", (S, '''    for i in range(krylovSize - 1, -1, -1):
        g = 1.0 / (omegaP - alpha[i]) if i == krylovSize - 1 else 1.0 / (omegaP - alpha[i] - beta[i] ** 2 * g)
    return g
''', '''    g = 1.0 / (omegaP - alpha[krylovSize - 1])
    for i in reversed(range(krylovSize - 1)):
        g = 1.0 / (omegaP - alpha[i] - beta[i] ** 2 * g)
    return g
'''))
add("green-if", (S, '''        g = 1.0 / (omegaP - alpha[i]) if i == krylovSize - 1 else 1.0 / (omegaP - alpha[i] - beta[i] ** 2 * g)
''', '''        if i == krylovSize - 1:
            g = 1.0 / (omegaP - alpha[i])
        else:
            g = 1.0 / (omegaP - alpha[i] - beta[i] ** 2 * g)
'''))
add("spectra-normalise-helper", (S, "def getSpectra(\n", '''def _normalize(psi):
    """Normalize the state and return its norm."""
    normalization = sqrt(norm2(psi))
    for state in psi.keys():
        psi[state] /= normalization
    return normalization


def getSpectra(
'''), (S, ("ALL", '''                normalization = sqrt(norm2(psiR))
                for state in psiR.keys():
                    psiR[state] /= normalization
'''), '''                normalization = _normalize(psiR)
'''))
add("spectra-normalise-new", (S, ("ALL", '''                for state in psiR.keys():
                    psiR[state] /= normalization
'''), '''                psiR = {state: amp / normalization for state, amp in psiR.items()}
'''))
add("spectra-zip", (S, '''            for i in range(n):
                psi = psis[i]
                e = es[i]
                psiR = applyOp(''', '''            for i, (psi, e) in enumerate(zip(psis, es)):
                psiR = applyOp('''))
add("rixs-shift-matrix", (S, ("ALL", '''                    a = scipy.sparse.csr_matrix(
                        ([wIn + 1j * delta1 + e] * n, (range(n), range(n))),
                        shape=(n, n),
                    )
                    a -= h
'''), '''                    z = wIn + 1j * delta1 + e
                    a = scipy.sparse.csr_matrix(([z] * n, (range(n), range(n))), shape=(n, n)) - h
'''))
add("rixs-psi2", (S, ("ALL", '''                    psi2 = {}
                    for i, amp in enumerate(x):
                        if amp != 0:
                            psi2[basis_state[i]] = amp
'''), '''                    psi2 = {basis_state[i]: amp for i, amp in enumerate(x) if amp != 0}
'''))
add("rixs-mode-variable", (S, '''                if parallelization_mode == "wIn":
                    h, basis_index = expand_basis_and_hamiltonian(
                        n_spin_orbitals,
                        h_dict_excited,
                        hOp,
                        psi1.keys(),
                        restrictions,
                        parallelization_mode="serial",
                        return_h_local=False,
                    )
                elif parallelization_mode == "H_build_wIn":
                    h, basis_index = expand_basis_and_hamiltonian(
                        n_spin_orbitals,
                        h_dict_excited,
                        hOp,
                        psi1.keys(),
                        restrictions,
                        parallelization_mode="H_build",
                        return_h_local=False,
                    )
''', '''                build_mode = "serial" if parallelization_mode == "wIn" else "H_build"
                h, basis_index = expand_basis_and_hamiltonian(
                    n_spin_orbitals,
                    h_dict_excited,
                    hOp,
                    psi1.keys(),
                    restrictions,
                    parallelization_mode=build_mode,
                    return_h_local=False,
                )
'''))
add("simulate-text-helper", (S, "def getDipoleOperators(nBaths, ns):", '''def _save_text(filename, mesh, total, parts):
    """Save the mesh, the sum and the individual spectra."""
    columns = [mesh, total]
    for i in range(np.shape(parts)[0]):
        columns.append(parts[i, :])
    print("Save spectra to disk...\\n")
    np.savetxt(filename, np.array(columns).T, fmt="%8.4f", header="E  sum  T1  T2  T3 ...")


def getDipoleOperators(nBaths, ns):'''), (S, '''        tmp = [w, aSum]
        # Each transition operator seperatly
        for i in range(np.shape(a)[0]):
            tmp.append(a[i, :])
        print("Save spectra to disk...\\n")
        np.savetxt("XPS.dat", np.array(tmp).T, fmt="%8.4f", header="E  sum  T1  T2  T3 ...")
''', '''        _save_text("XPS.dat", w, aSum, a)
'''))
add("simulate-column-stack", (S, '''        tmp = [wLoss, aSum]
        # Each q-point seperatly
        for i in range(np.shape(a)[0]):
            tmp.append(a[i, :])
        print("Save spectra to disk...\\n")
        np.savetxt("NIXS.dat", np.array(tmp).T, fmt''', '''        print("Save spectra to disk...\\n")
        np.savetxt("NIXS.dat", np.array([wLoss, aSum] + [a[i, :] for i in range(np.shape(a)[0])]).T, fmt'''))
add("simulate-intensity", (S, '''    a = thermal_average(es[: np.shape(gs)[0]], -gs.imag, T=T)
    if rank == 0:
        h5f.create_dataset("XAS", data=-gs.imag)
''', '''    intensity = -gs.imag
    a = thermal_average(es[: np.shape(gs)[0]], intensity, T=T)
    if rank == 0:
        h5f.create_dataset("XAS", data=intensity)
'''))
add("simulate-ps-negated", (S, '''    gsPS = getSpectra(n_spin_orbitals, hOp, tOpsPS, psis, es, -w, -delta, restrictions)
    gsPS *= -1
    gs = gsPS + gsIPS
''', '''    gsPS = getSpectra(n_spin_orbitals, hOp, tOpsPS, psis, es, -w, -delta, restrictions)
    gs = gsIPS - gsPS
'''))
# ---------------------------------------------------------------- programs
add("main-restrictions-comprehension", (G, '''    indices = []
    for b in range(nValBaths[l]):
        indices.append(c2i(nBaths, (l, b)))
    restrictions[frozenset(indices)] = (nValBaths[l] - dnValBaths[l], nValBaths[l])
''', '''    valence = frozenset(c2i(nBaths, (l, b)) for b in range(nValBaths[l]))
    restrictions[valence] = (nValBaths[l] - dnValBaths[l], nValBaths[l])
'''))
add("main-restrictions-helper", (GC, "def get_hamiltonian_operator_using_CF(\n", '''def _bath_indices(nBaths, l, first, last):
    """Return the indices of some of the bath states."""
    return frozenset(c2i(nBaths, (l, b)) for b in range(first, last))


def get_hamiltonian_operator_using_CF(
'''), (GC, '''    indices = []
    for b in range(nValBaths[l]):
        indices.append(c2i(nBaths, (l, b)))
    restrictions[frozenset(indices)] = (nValBaths[l] - dnValBaths[l], nValBaths[l])
''', '''    restrictions[_bath_indices(nBaths, l, 0, nValBaths[l])] = (nValBaths[l] - dnValBaths[l], nValBaths[l])
'''))
add("main-ordered-loop", (G, '''    nBaths = OrderedDict(zip(ls, nBaths))
    nValBaths = OrderedDict(zip(ls, nValBaths))
''', '''    nBaths, nValBaths = (OrderedDict(zip(ls, values)) for values in (nBaths, nValBaths))
'''))
add("main-energy-window", (G, '''    es = tuple(e for e in es if e - es[0] < energy_cut)
    psis = tuple(psis[i] for i in range(len(es)))
''', '''    n_low = sum(1 for e in es if e - es[0] < energy_cut)
    es = tuple(es[:n_low])
    psis = tuple(psis[:n_low])
'''))
add("main-relevant-list", (G, '''    es = tuple(e for e in es if e - es[0] < energy_cut)
    psis = tuple(psis[i] for i in range(len(es)))
''', '''    relevant = [e for e in es if e - es[0] < energy_cut]
    psis = tuple(psis[: len(relevant)])
    es = tuple(relevant)
'''))
add("main-dc-helper", (G, "def read_pickled_file(", '''def double_counting_operator(dc_d, dc_p):
    """Return the double counting operator."""
    op = {}
    for l, value in ((2, dc_d), (1, dc_p)):
        for s in range(2):
            for m in range(-l, l + 1):
                op[(((l, s, m), "c"), ((l, s, m), "a"))] = -value
    return op


def read_pickled_file('''), (G, '''    eDCOperator = {}
    for il, l in enumerate([2, 1]):
        for s in range(2):
            for m in range(-l, l + 1):
                eDCOperator[(((l, s, m), "c"), ((l, s, m), "a"))] = -dc[il]
''', '''    eDCOperator = double_counting_operator(*dc)
'''))
add("main-index-comprehension", (GC, '''    hOp = {}
    for process, value in hOperator.items():
        hOp[tuple((c2i(nBaths, spinOrb), action) for spinOrb, action in process)] = value
''', '''    hOp = {
        tuple((c2i(nBaths, spinOrb), action) for spinOrb, action in process): value
        for process, value in hOperator.items()
    }
'''))
add("main-args-helper", (G, '''    # Sanity checks
    assert len(args.ls) == len(args.nBaths)
    assert len(args.ls) == len(args.nValBaths)
    assert len(args.ls) == len(args.n0imps)
    assert len(args.ls) == len(args.dnTols)
    assert len(args.ls) == len(args.dnValBaths)
    assert len(args.ls) == len(args.dnConBaths)
''', '''    # Sanity checks
    n_shells = len(args.ls)
    for values in (args.nBaths, args.nValBaths, args.n0imps, args.dnTols, args.dnValBaths, args.dnConBaths):
        assert len(values) == n_shells
'''))
add("main-checks-chained", (G, '''        assert n0imp <= 2 * (2 * ang + 1)  # Full occupation
        assert n0imp >= 0
''', '''        assert 0 <= n0imp <= 2 * (2 * ang + 1)
'''))
add("cf-diag", (GC, '''    h_imp_3d = np.zeros((2 * l + 1, 2 * l + 1))
    np.fill_diagonal(h_imp_3d, (e_imp_eg, e_imp_eg, e_imp_t2g, e_imp_t2g, e_imp_t2g))
''', '''    h_imp_3d = np.diag([e_imp_eg, e_imp_eg, e_imp_t2g, e_imp_t2g, e_imp_t2g])
'''))
add("cf-matmul", (GC, "    h_imp_3d = np.dot(u, np.dot(h_imp_3d, np.conj(u.T)))\n", "    h_imp_3d = u @ h_imp_3d @ u.conj().T\n"))
add("cf-rotate-helper", (GC, "def get_CF_hamiltonian(", '''def _rotate(left, matrix, right):
    """Return left * matrix * right^dagger."""
    return np.dot(left, np.dot(matrix, np.conj(right.T)))


def get_CF_hamiltonian('''), (GC, "    vVal3d = np.dot(u_bath, np.dot(vVal3d, np.conj(u.T)))\n    vCon3d = np.dot(u_bath, np.dot(vCon3d, np.conj(u.T)))\n", "    vVal3d = _rotate(u_bath, vVal3d, u)\n    vCon3d = _rotate(u_bath, vCon3d, u)\n"))


def apply(root, edits):
    for f, old, new in edits:
        p = os.path.join(root, "impurityModel", f)
        s = open(p).read()
        if isinstance(old, tuple):
            old = old[1]
            if old not in s:
                raise SystemExit(f"nothing to replace in {f}: {old[:80]!r}")
            s = s.replace(old, new)
        else:
            if s.count(old) != 1:
                raise SystemExit(f"{s.count(old)} places in {f}: {old[:80]!r}")
            s = s.replace(old, new)
        open(p, "w").write(s)


def one(job):
    name, edits, names, rules, tests = job
    from ipm.check import Checker
    out = []
    worst = None
    tmp = tempfile.mkdtemp()
    try:
        root = tmp + "/r"
        shutil.copytree("/repo", root, ignore=shutil.ignore_patterns("__pycache__", ".git"))
        try:
            apply(root, edits)
        except SystemExit as e:
            return None, f"EDIT {name} {e}"
        subprocess.run([sys.executable, "-m", "compileall", "-q", root + "/impurityModel"], check=True)
        if tests:
            t = subprocess.run("OMPI_MCA_ess_singleton_isolated=1 OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 "
                               "/opt/venv/bin/python -m pytest -q -p no:cacheprovider 2>&1 | tail -1", shell=True, cwd=root,
                               env=dict(os.environ, PYTHONPATH=root), capture_output=True, text=True).stdout
            if "31 passed" not in t:
                out.append(f"TEST {name} {t}")
        bad = []
        try:
            ck = Checker(root)
            for q in sorted(ck.specs):
                try:
                    for item, (st, leaves) in ck.compare(q).items():
                        if st != "same":
                            bad.append((q, item, st, leaves))
                except Exception as e:
                    bad.append((q, "crash", "unknown", [repr(e)]))
        except Exception as e:
            bad.append(("checker", "crash", "diff", [repr(e)]))
        worst = "diff" if any(b[2] == "diff" for b in bad) else "unknown" if bad else "same"
        if bad:
            out.append(f"{worst.upper()} {name}")
            for q, item, st, leaves in bad if (names or worst == "diff") else bad[:3]:
                out.append(f"     {q} {item} {st}")
                for l in leaves[:8 if names else 2]:
                    out.append(f"          {getattr(l, 'definite', '')} {str(l)[:600 if names else 260]}")
        if rules:
            r = subprocess.run([sys.executable, "-m", "ipm", "--no-evidence"], cwd="/verif",
                               env=dict(os.environ, IPM_REPO=root), capture_output=True, text=True)
            v = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
            if r.returncode or v:
                out.append(f"ALARM {name} {r.returncode} {v} " + r.stdout[-600:] + r.stderr[-300:] if names else f"ALARM {name} {r.returncode} {v}")
    finally:
        shutil.rmtree(tmp)
    return worst, "\n".join(out)


def main():
    from multiprocessing import Pool
    names = [a for a in sys.argv[1:] if not a.startswith("-")]
    jobs = [(n, e, names, "-r" in sys.argv, "-t" in sys.argv) for n, e in R if not names or n in names]
    n = {"same": 0, "unknown": 0, "diff": 0, None: 0}
    with Pool(min(8, len(jobs)), maxtasksperchild=1) as pool:
        for worst, text in pool.imap(one, jobs, 1):
            n[worst] += 1
            if text:
                print(text, flush=True)
    print(n)


sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.setrecursionlimit(60000)
if __name__ == "__main__":
    main()
