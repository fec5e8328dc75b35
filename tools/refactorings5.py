"""Fifth set of behaviour-preserving edits: conditions put differently, loops turned round, helpers.  usage as refactorings.py"""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import refactorings as r
from refactorings import A, C, F, G, GC, M, P, RM, S
from refactorings3 import ed

r.R.clear()

ed("spectra-early", S, "getSpectra",
   ("    if parallelization_mode == 'eigen_states':\n", "    if parallelization_mode not in ('eigen_states', 'H_build'):\n        raise Exception('Incorrect value of variable parallelization_mode.')\n    if parallelization_mode == 'eigen_states':\n"),
   ("    elif parallelization_mode == 'H_build':\n        for t, tOp", "    else:\n        for t, tOp"),
   ("    else:\n        raise Exception('Incorrect value of variable parallelization_mode.')\n", ""))
ed("spectra-helper", S, "getSpectra",
   ("ALL", "                normalization = sqrt(norm2(psiR))\n                for state in psiR.keys():\n                    psiR[state] /= normalization\n", "                normalization = _normalise(psiR)\n"),
   before="def _normalise(psi):\n    length = sqrt(norm2(psi))\n    for state in psi:\n        psi[state] = psi[state] / length\n    return length\n\n\n")
ed("expand-helper", F, "expand_basis",
   ("ALL", "set(res.keys()).difference(basis_set)", "_unknown(res, basis_set)"),
   before="def _unknown(states, known):\n    return {ps for ps in states if ps not in known}\n\n\n")
ed("expand-keys", F, "expand_basis",
   ("ALL", "set(res.keys()).difference(basis_set)", "res.keys() - basis_set"))
ed("expand-get", F, "expand_basis",
   ("                if b in h_dict:\n                    res = h_dict[b]\n                else:\n                    res = applyOp(n_spin_orbitals, hOp, {b: 1}, restrictions=restrictions)\n                    h_dict[b] = res\n",
    "                if b not in h_dict:\n                    h_dict[b] = applyOp(n_spin_orbitals, hOp, {b: 1}, restrictions=restrictions)\n                res = h_dict[b]\n"))
ed("inner-comp", F, "inner", ("    acc = 0\n", "    common = [state for state in b if state in a]\n    acc = 0\n"),
   ("    for state, amp in b.items():\n        if state in a:\n            acc += np.conj(a[state]) * amp\n", "    for state in common:\n        acc += b[state] * np.conj(a[state])\n"))
ed("add-get", F, "add", ("        if s in psi:\n            psi[s] += mul * a\n        else:\n            psi[s] = mul * a\n", "        psi[s] = psi.get(s, 0) + mul * a\n"))
ed("addfirst-neg", F, "addToFirst", ("        if s in psi1:\n            psi1[s] += a * mul\n        else:\n            psi1[s] = a * mul\n", "        change = mul * a\n        if s not in psi1:\n            psi1[s] = change\n        else:\n            psi1[s] = change + psi1[s]\n"))
ed("matrix-csc", F, "get_hamiltonian_matrix_from_h_dict",
   ("    basis_index = {basis[i]: i for i in range(n)}\n", "    basis_index = {ps: i for i, ps in enumerate(basis)}\n"),
   ("        for ps in set(basis).intersection(h_dict.keys()):\n", "        for ps in (b for b in basis if b in h_dict):\n"))
ed("matrix-chain", F, "get_hamiltonian_matrix_from_h_dict",
   ("        for j in range(n):\n            res = h_dict[basis[j]]\n            for k, v in res.items():\n                h[basis_index[k], j] = v\n",
    "        for ps, j in basis_index.items():\n            for k in h_dict[ps]:\n                h[basis_index[k], j] = h_dict[ps][k]\n"))
ed("matrix-helper", F, "get_hamiltonian_matrix_from_h_dict",
   ("ALL", "scipy.sparse.csr_matrix((data, (row, col)), shape=(n, n))", "_assemble(data, row, col, n)"),
   before="def _assemble(values, rows, columns, size):\n    entries = (values, (rows, columns))\n    return scipy.sparse.csr_matrix(entries, shape=(size, size))\n\n\n")
ed("apply-restr-helper", F, "applyOp",
   ("ALL", "n < occupations[0] or occupations[1] < n", "not (occupations[0] <= n <= occupations[1])"))
ed("apply-minmax", F, "applyOp",
   ("ALL", "n < occupations[0] or occupations[1] < n", "n > occupations[1] or n - occupations[0] < 0"))
ed("apply-reversed", F, "applyOp", ("ALL", "process[-1::-1]", "reversed(process)"))
ed("apply-none-first", F, "applyOp",
   ("    if opResult is None and restrictions is not None:\n", "    no_cache = opResult is None\n    if no_cache and restrictions is not None:\n"),
   ("    elif opResult is None and restrictions is None:\n", "    elif no_cache and restrictions is None:\n"),
   ("    elif opResult is not None and restrictions is not None:\n", "    elif not no_cache and restrictions is not None:\n"))
ed("apply-else", F, "applyOp",
   ("    elif opResult is not None and restrictions is None:\n", "    else:\n"), ("    else:\n        raise Exception('Method not implemented.')\n", ""))
ed("apply-filter", F, "applyOp",
   ("    for state, amp in list(psiNew.items()):\n        if abs(amp) ** 2 < slaterWeightMin:\n            psiNew.pop(state)\n    return psiNew",
    "    small = [state for state, amp in psiNew.items() if abs(amp) ** 2 < slaterWeightMin]\n    for state in small:\n        del psiNew[state]\n    return psiNew"))
ed("apply-filter2", F, "applyOp",
   ("    for state, amp in list(psiNew.items()):\n        if abs(amp) ** 2 < slaterWeightMin:\n            psiNew.pop(state)\n    return psiNew",
    "    return {state: amp for state, amp in psiNew.items() if not abs(amp) ** 2 < slaterWeightMin}"))
ed("chunk-ceil", M, "dict_chunks_from_one_MPI_rank", ("math.ceil(len(data) / chunk_maxsize)", "-(-len(data) // chunk_maxsize)"))
ed("chunk-cond", M, "dict_chunks_from_one_MPI_rank",
   ("            yield {k: data[k] for k in islice(it, chunk_maxsize)}\n        else:\n            yield None\n",
    "            chunk = {}\n            for k in islice(it, chunk_maxsize):\n                chunk[k] = data[k]\n        else:\n            chunk = None\n        yield chunk\n"))
ed("allgather-list", M, "allgather_dict",
   ("    n_ps_new = np.zeros(ranks, dtype=int)\n    for r in range(ranks):\n        n_ps_new[r] = comm.bcast(len(data), root=r)\n", "    n_ps_new = [comm.bcast(len(data), root=r) for r in range(ranks)]\n"))
ed("allgather-not", M, "allgather_dict", ("    if max(n_ps_new) <= chunk_maxsize:\n", "    largest = max(n_ps_new)\n    if not largest > chunk_maxsize:\n"))
ed("average-weights", A, "thermal_average", ("-(e - shift) / (k_B * T)", "(shift - e) / k_B / T"))
ed("average-any", A, "thermal_average",
   ("    if len(energies) != np.shape(observable)[0]:\n        raise ValueError('Passed array is not of the right shape')\n",
    "    n_states = len(energies)\n    if not n_states == len(observable):\n        raise ValueError('Passed array is not of the right shape')\n"))
ed("state-rank", S, "getSpectra", ("range(n)):\n            psi = psis[i]\n            e = es[i]\n", "tuple(range(len(es)))):\n            psi, e = psis[i], es[i]\n"))
ed("rixs-weight", S, "getRIXSmap",
   ("ALL", "                        for state, amp in list(psi3.items()):\n                            if abs(amp) ** 2 < slaterWeightMin:\n                                psi3.pop(state)\n",
    "                        psi3 = {state: amp for state, amp in psi3.items() if abs(amp) ** 2 >= slaterWeightMin}\n"))
ed("rixs-diag", S, "getRIXSmap", ("ALL", "wIn + 1j * delta1 + e", "complex(wIn + e, delta1)"))
ed("rixs-basis", S, "getRIXSmap", ("ALL", "basis_state = {index: ps for ps, index in basis_index.items()}", "basis_state = dict(zip(basis_index.values(), basis_index.keys()))"))
ed("rixs-zero", S, "getRIXSmap", ("ALL", "                        if amp != 0:\n                            psi2[basis_state[i]] = amp\n", "                        if amp == 0:\n                            continue\n                        psi2[basis_state[i]] = amp\n"))
ed("sim-files", S, "simulate_spectra", ("ALL", "tmp = [w, aSum]\n        for i in range(np.shape(a)[0]):\n            tmp.append(a[i, :])\n", "tmp = [w, aSum] + [row for row in a]\n"))
ed("sim-files2", S, "simulate_spectra", ("ALL", "tmp = [w, aSum]\n        for i in range(np.shape(a)[0]):\n            tmp.append(a[i, :])\n", "tmp = [w, aSum]\n        tmp.extend(a)\n"))
ed("sim-neg", S, "simulate_spectra", ("ALL", "    gsPS *= -1\n    gs = gsPS + gsIPS\n", "    gs = gsIPS - gsPS\n"))
ed("sim-imag", S, "simulate_spectra", ("ALL", "thermal_average(es[:np.shape(gs)[0]], -gs.imag, T=T)", "thermal_average(es[: len(gs)], -np.imag(gs), T)"))

if __name__ == "__main__":
    r.main()
