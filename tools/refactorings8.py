"""Eighth set of behaviour-preserving edits, written without looking at the machinery.  usage as refactorings.py"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import refactorings as r
from refactorings import A, C, F, G, GC, M, P, RM, S
from refactorings3 import ed as edit

r.R.clear()
PROBLEMS = []


def ed(*x, **k):
    try:
        edit(*x, **k)
    except SystemExit as e:
        PROBLEMS.append(str(e))


# crystal field
Q = "get_CF_hamiltonian"
ed("cf-eye", GC, Q, ("np.eye(np.shape(u)[0])", "np.identity(2 * l + 1)"))
ed("cf-helper", GC, Q,
   ("    np.fill_diagonal(vVal3d, (v_val_eg, v_val_eg, v_val_t2g, v_val_t2g, v_val_t2g))\n", "    np.fill_diagonal(vVal3d, _levels(v_val_eg, v_val_t2g))\n"),
   ("    np.fill_diagonal(eBathCon3d, (e_con_eg, e_con_eg, e_con_t2g, e_con_t2g, e_con_t2g))\n", "    np.fill_diagonal(eBathCon3d, _levels(e_con_eg, e_con_t2g))\n"),
   before="def _levels(eg, t2g):\n    return (eg,) * 2 + (t2g,) * 3\n\n\n")
ed("cf-diag", GC, Q,
   ("    h_imp_3d = np.zeros((2 * l + 1, 2 * l + 1))\n    np.fill_diagonal(h_imp_3d, (e_imp_eg, e_imp_eg, e_imp_t2g, e_imp_t2g, e_imp_t2g))\n", "    h_imp_3d = np.diag([e_imp_eg, e_imp_eg, e_imp_t2g, e_imp_t2g, e_imp_t2g])\n"))
ed("cf-at", GC, Q, ("np.dot(u, np.dot(h_imp_3d, np.conj(u.T)))", "u @ h_imp_3d @ u.conj().T"))
ed("cf-dagger", GC, Q, ("    h_imp_3d = np.dot(u, np.dot(h_imp_3d, np.conj(u.T)))\n", "    u_dagger = np.conj(u.T)\n    h_imp_3d = np.dot(np.dot(u, h_imp_3d), u_dagger)\n"),
   ("    vVal3d = np.dot(u_bath, np.dot(vVal3d, np.conj(u.T)))\n", "    vVal3d = np.dot(u_bath, np.dot(vVal3d, u_dagger))\n"))
ed("cf-energies", GC, Q, ("e_imp + 3 / 5 * e_deltaO_imp", "e_imp + 0.6 * e_deltaO_imp"), ("e_imp - 2 / 5 * e_deltaO_imp", "e_imp - e_deltaO_imp * 0.4"))
ed("cf-half", GC, Q, ("(h_imp_3d + np.conj(h_imp_3d.T)) / 2", "0.5 * (np.conj(h_imp_3d).T + h_imp_3d)"))
ed("cf-counter", GC, Q, ("            bi_val = s * (2 * l + 1) + i\n            bi_con = 2 * (2 * l + 1) + bi_val\n", "            n_orb = 2 * l + 1\n            bi_val = n_orb * s + i\n            bi_con = bi_val + 2 * n_orb\n"))
ed("cf-cond", GC, Q, ("                if nBaths[l] - nValBaths[l] == 10:\n", "                has_conduction = nBaths[l] == nValBaths[l] + 10\n                if has_conduction:\n"))
ed("cf-two-loops", GC, Q, ("                vHopp = vVal3d[i, j]\n                eBath = eBathVal3d[i, j]\n                if vHopp != 0:\n                    h_hopp_operator[((l, bi_val), 'c'), ((l, s, mj), 'a')] = vHopp\n                    h_hopp_operator[((l, s, mj), 'c'), ((l, bi_val), 'a')] = vHopp.conjugate()\n                if eBath != 0:\n                    e_bath_3d_operator[((l, bi_val), 'c'), ((l, bj_val), 'a')] = eBath\n",
   "                eBath = eBathVal3d[i, j]\n                if eBath != 0:\n                    e_bath_3d_operator[((l, bi_val), 'c'), ((l, bj_val), 'a')] = eBath\n                vHopp = vVal3d[i, j]\n                if vHopp != 0:\n                    bath, imp = (l, bi_val), (l, s, mj)\n                    h_hopp_operator[(bath, 'c'), (imp, 'a')] = vHopp\n                    h_hopp_operator[(imp, 'c'), (bath, 'a')] = np.conj(vHopp)\n"))
ed("cf-basis", GC, Q, ("    if bath_state_basis == 'spherical':\n        u_bath = u\n    elif bath_state_basis == 'cubic':\n        u_bath = np.eye(np.shape(u)[0])\n    else:\n        raise Exception('Design of this basis is not (yet) implemented.')\n",
   "    if bath_state_basis not in ('spherical', 'cubic'):\n        raise Exception('Design of this basis is not (yet) implemented.')\n    u_bath = u if bath_state_basis == 'spherical' else np.eye(len(u))\n"))
ed("cf-zip", GC, Q, ("    for i, mi in enumerate(range(-l, l + 1)):\n        for j, mj in enumerate(range(-l, l + 1)):\n            if h_imp_3d[i, j] != 0:\n                for s in range(2):\n                    h_imp_3d_operator[((l, s, mi), 'c'), ((l, s, mj), 'a')] = h_imp_3d[i, j]\n",
   "    for i in range(2 * l + 1):\n        for j in range(2 * l + 1):\n            value = h_imp_3d[i, j]\n            if value == 0:\n                continue\n            for s in range(2):\n                h_imp_3d_operator[((l, s, i - l), 'c'), ((l, s, j - l), 'a')] = value\n"))
ed("cf-return", GC, Q, ("    h0_operator = finite.addOps([h_imp_3d_operator, h_hopp_operator, e_bath_3d_operator])\n    return h0_operator", "    return finite.addOps((h_imp_3d_operator, h_hopp_operator, e_bath_3d_operator))"))
Q = "read_h0_CF_file"
ed("cf-load", GC, Q, ("json.loads(file_handle.read())", "json.load(file_handle)"))
ed("cf-defaults", GC, Q, ("    e_imp = parameters.get('e_imp', -1.31796)\n", "    e_imp = parameters['e_imp'] if 'e_imp' in parameters else -1.31796\n"))
ed("cf-mode", GC, Q, ("open(h0_CF_filename, 'r')", "open(h0_CF_filename)"))
Q = "get_hamiltonian_operator_using_CF"
ed("cf-ham-dc", GC, Q, ("    for il, l in enumerate([2, 1]):\n", "    for l, il in ((2, 0), (1, 1)):\n"))
ed("cf-ham-unpack", GC, Q, ("    hx, hy, hz = hField\n", ""), ("finite.gethHfieldop(hx, hy, hz, l=2)", "finite.gethHfieldop(*hField, l=2)"))
ed("cf-ham-comp", GC, Q, ("    hOp = {}\n    for process, value in hOperator.items():\n        hOp[tuple(((c2i(nBaths, spinOrb), action) for spinOrb, action in process))] = value\n", "    hOp = {}\n    for process in hOperator:\n        indexed = []\n        for spinOrb, action in process:\n            indexed.append((c2i(nBaths, spinOrb), action))\n        hOp[tuple(indexed)] = hOperator[process]\n"))
# resonant scattering
Q = "getRIXSmap"
ed("rixs-mode", S, Q,
   ("                if parallelization_mode == 'wIn':\n                    h, basis_index = expand_basis_and_hamiltonian(n_spin_orbitals, h_dict_excited, hOp, psi1.keys(), restrictions, parallelization_mode='serial', return_h_local=False)\n                elif parallelization_mode == 'H_build_wIn':\n                    h, basis_index = expand_basis_and_hamiltonian(n_spin_orbitals, h_dict_excited, hOp, psi1.keys(), restrictions, parallelization_mode='H_build', return_h_local=False)\n",
    "                build_mode = 'serial' if parallelization_mode == 'wIn' else 'H_build'\n                h, basis_index = expand_basis_and_hamiltonian(n_spin_orbitals, h_dict_excited, hOp, psi1.keys(), restrictions, build_mode, False)\n"))
ed("rixs-mode2", S, Q,
   ("    elif parallelization_mode in ('wIn', 'H_build_wIn'):\n", "    elif parallelization_mode == 'wIn' or parallelization_mode == 'H_build_wIn':\n"))
ed("rixs-eye", S, Q, ("ALL", "scipy.sparse.csr_matrix(([wIn + 1j * delta1 + e] * n, (range(n), range(n))), shape=(n, n))", "scipy.sparse.identity(n, dtype=complex, format='csr') * (wIn + 1j * delta1 + e)"))
ed("rixs-sub", S, Q, ("ALL", "a -= h\n", "a = a - h\n"))
ed("rixs-g", S, Q, ("                    g[iwIn] = np.zeros((len(tOpsOut), len(wLoss)), dtype=complex)\n", "                    g_wIn = np.zeros((len(tOpsOut), len(wLoss)), dtype=complex)\n                    g[iwIn] = g_wIn\n"),
   ("                        g[iwIn][tOut, :] = normalization ** 2 *", "                        g_wIn[tOut] = normalization ** 2 *"))
ed("rixs-zip", S, Q, ("            for iE in range(nE):\n                psi = psis[iE]\n                e = es[iE]\n                psi1 = applyOp(n_spin_orbitals, tOpIn, psi, slaterWeightMin, restrictions, tIn_big)\n                n_tmp = len(h_dict_excited)\n                if rank == 0:\n                    print('Construct H for core-hole excited system.')\n                if para",
   "            for iE, e in enumerate(es):\n                psi = psis[iE]\n                psi1 = applyOp(n_spin_orbitals, tOpIn, psi, slaterWeightMin, restrictions, tIn_big)\n                n_tmp = len(h_dict_excited)\n                if rank == 0:\n                    print('Construct H for core-hole excited system.')\n                if para"))
ed("rixs-inv", S, Q, ("ALL", "                basis_state = {index: ps for ps, index in basis_index.items()}\n", "                basis_state = {}\n                for ps in basis_index:\n                    basis_state[basis_index[ps]] = ps\n"))
ed("rixs-y", S, Q, ("ALL", "                for ps, amp in psi1.items():\n                    y[basis_index[ps]] = amp\n", "                for ps in psi1:\n                    y[basis_index[ps]] = psi1[ps]\n"))
ed("rixs-psi2", S, Q, ("ALL", "                    psi2 = {}\n                    for i, amp in enumerate(x):\n                        if amp != 0:\n                            psi2[basis_state[i]] = amp\n", "                    psi2 = {basis_state[i]: amp for i, amp in enumerate(x) if amp != 0}\n"))
ed("rixs-norm", S, Q, ("ALL", "                        normalization = sqrt(norm2(psi3))\n                        for state in psi3.keys():\n                            psi3[state] /= normalization\n", "                        weight = norm2(psi3)\n                        normalization = sqrt(weight)\n                        for state in psi3:\n                            psi3[state] = psi3[state] / normalization\n"), ("ALL", "normalization ** 2 * getGreen", "weight * getGreen"))
ed("rixs-ground", S, Q, ("    if h_dict_ground is None:\n        h_dict_ground = {}\n", "    h_dict_ground = {} if h_dict_ground is None else h_dict_ground\n"))
ed("rixs-first-check", S, Q, ("    nE = len(es)\n", "    known = ('serial', 'H_build', 'wIn', 'H_build_wIn')\n    if parallelization_mode not in known:\n        raise Exception('Incorrect value of variable parallelization_mode.')\n    nE = len(es)\n"))
ed("rixs-bcast", S, Q, ("                    for iwIn, gValue in gTmp.items():\n                        gs[iE, tIn, :, iwIn, :] = gValue\n", "                    for iwIn in gTmp:\n                        gs[iE, tIn, :, iwIn] = gTmp[iwIn]\n"))
# representations
ed("p-join", P, "tuple2str", ("    s = ''\n    for i in range(n):\n        if i in t:\n            s += '1'\n        else:\n            s += '0'\n    return s", "    return ''.join('1' if i in t else '0' for i in range(n))"))
ed("p-joinset", P, "tuple2str", ("    s = ''\n    for i in range(n):\n        if i in t:\n            s += '1'\n        else:\n            s += '0'\n    return s", "    occupied = set(t)\n    s = ''\n    for i in range(n):\n        s += str(int(i in occupied))\n    return s"))
ed("p-format", P, "int2str", ("    s = bin(i)[2:]\n    s = '0' * (n - len(s)) + s\n    return s", "    return format(i, '0{}b'.format(n))"))
ed("p-fstring", P, "int2str", ("    s = bin(i)[2:]\n    s = '0' * (n - len(s)) + s\n    return s", "    return f'{i:0{n}b}'"))
ed("p-rjust", P, "int2str", ("    s = '0' * (n - len(s)) + s\n", "    s = s.rjust(n, '0')\n"))
ed("p-str2tuple", P, "str2tuple", ("tuple((pos for pos, char in enumerate(s) if char == '1'))", "tuple(i for i in range(len(s)) if s[i] == '1')"))
ed("p-str2tuple-not0", P, "str2tuple", ("char == '1'", "char != '0'"))
ed("p-ba2int", P, "bitarray2int", ("int(bits.to01(), 2)", "str2int(bitarray2str(bits))"))
ed("p-direct", P, "bytes2tuple", ("bitarray2tuple(bytes2bitarray(bytestr, n))", "str2tuple(bytes2str(bytestr, n))"))
ed("p-tb", P, "tuple2bytes", ("tuple2bitarray(t, n).tobytes()", "str2bytes(tuple2str(t, n))"))
ed("p-tba", P, "tuple2bitarray", ("bitarray(tuple2str(t, n))", "bitarray(['1' if i in t else '0' for i in range(n)])")) if False else None
ed("p-tba2", P, "tuple2bitarray", ("    return bitarray(tuple2str(t, n))", "    bits = bitarray(n)\n    bits.setall(False)\n    for i in t:\n        bits[i] = True\n    return bits"))
ed("p-slice", P, "bytes2bitarray", ("    return bits[:n]", "    del bits[n:]\n    return bits"))

if __name__ == "__main__":
    for p in PROBLEMS:
        print("!!", p)
    r.main()
