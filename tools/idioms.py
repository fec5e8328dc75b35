"""Behaviour-preserving edits of single places: one idiom exchanged for another.

usage: python3 tools/idioms.py [-v] [IDIOM…] [@FUNCTION…]     (names starting with _ are wildcards)
"""
import ast
import copy
import os
import shutil
import sys
import tempfile

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.setrecursionlimit(60000)

I = []


def idiom(old, *news, when=None):
    for k, new in enumerate(news):
        I.append((old, new, when))


NUMPY = {"gs", "v", "h", "a", "g", "vecs", "gs[iE]"}
ARRAYS = ("gs", "v", "g[i]", "g[iwIn]")


def isarray(b):
    return ast.unparse(b["_x"]) in ARRAYS


def isname(k):
    return lambda b: isinstance(b[k], ast.Name)


idiom("_x[_i, :]", "_x[_i]", "_x[_i, ...]", when=isarray)
idiom("_x[_i, _j, :]", "_x[_i, _j]", "_x[_i][_j]", "_x[_i, _j, ...]", when=isarray)
idiom("abs(_x) ** 2", "abs(_x) * abs(_x)", "(_x * _x.conjugate()).real", "np.abs(_x) ** 2", "abs(_x * _x)", "_x.real ** 2 + _x.imag ** 2", "pow(abs(_x), 2)")
idiom("np.abs(_x) ** 2", "(_x * np.conj(_x)).real", "abs(_x) ** 2", "np.square(np.abs(_x))", "_x.real ** 2 + _x.imag ** 2")
idiom("sqrt(_x)", "(_x) ** 0.5", "np.sqrt(_x)", "pow(_x, 0.5)")
idiom("np.sqrt(_x)", "(_x) ** 0.5", "sqrt(_x)" )
idiom("np.conj(_x)", "_x.conjugate()", "np.conjugate(_x)")
idiom("_x.conjugate()", "np.conj(_x)")
idiom("len(_x) == 0", "not len(_x)", "not _x", "len(_x) < 1")
idiom("1.0 / _x", "1 / _x", "_x ** -1", "(_x) ** (-1)", "np.reciprocal(_x)")
idiom("_x / _y", "_x * (1 / _y)", "1 / _y * _x")
idiom("1j * _x", "_x * 1j", "complex(0, 1) * _x", "complex(0, _x)")
idiom("1j", "complex(0, 1)", "(0 + 1j)")
idiom("_x[::-1]", "_x[-1::-1]", "tuple(reversed(_x))")
idiom("_x[-1::-1]", "_x[::-1]", "tuple(reversed(_x))", when=lambda b: ast.unparse(b["_x"]) == "process")
idiom("_x[j[-1::-1]]", "_x[j][::-1]", "_x[j[::-1]]", "_x[np.flip(j)]")
idiom("_x.append(_y)", "_x += [_y]", "_x.extend([_y])", "_x.extend((_y,))", "_x = _x + [_y]", when=isname("_x"))
idiom("np.zeros(_x, dtype=complex)", "np.zeros(_x, complex)", "np.zeros(_x, dtype=np.complex128)", "np.full(_x, 0, dtype=complex)", "0j * np.zeros(_x)", "np.zeros(_x) + 0j", "np.zeros(shape=_x, dtype='complex')")
idiom("np.zeros(_x, dtype=float)", "np.zeros(_x)", "np.zeros(shape=_x, dtype=float)", "np.empty(_x) * 0 if False else np.zeros(_x)")
idiom("np.zeros_like(_x)", "np.zeros(np.shape(_x), dtype=complex)", "0 * _x", "np.zeros(len(_x), dtype=complex)")
idiom("_x.keys()", "_x", "list(_x)", "list(_x.keys())", when=isname("_x"))
idiom("_k in _x", "_k in _x.keys()", "_x.__contains__(_k)", when=lambda b: ast.unparse(b["_x"]) in ("psi", "psi1", "opSum", "a", "psiNew", "opResult", "opResult[state]", "nSph", "nCub", "h_dict", "basis_index", "tOp"))
idiom("_k not in _x", "not _k in _x")
idiom("_x == _y", "_y == _x", "not _x != _y", "_x in (_y,)")
idiom("_x != 0", "0 != _x", "not _x == 0", "bool(_x)", "abs(_x) > 0")
idiom("_x == 0", "0 == _x", "not _x != 0", "not _x")
idiom("_x % 2 == 0", "not _x % 2", "_x & 1 == 0", "_x % 2 != 1", "_x % 2 < 1", "_x // 2 * 2 == _x", "divmod(_x, 2)[1] == 0")
idiom("1 if _c else -1", "-1 if not (_c) else 1", "(-1, 1)[_c]", "2 * int(_c) - 1", "[-1, 1][int(_c)]", "{True: 1, False: -1}[_c]")
idiom("1 if _x % 2 == 0 else -1", "(-1) ** _x", "1 - 2 * (_x % 2)", "-1 if _x % 2 else 1", "-1 if _x % 2 == 1 else 1", "-1 if _x & 1 else 1", "(1, -1)[_x % 2]", "int((-1) ** _x)")
idiom("min(_x, _y)", "_x if _x < _y else _y", "_y if _y < _x else _x", "min((_x, _y))", "sorted((_x, _y))[0]", "int(np.minimum(_x, _y))")
idiom("max(_x)", "np.max(_x)", "sorted(_x)[-1]", "_x.max()")
idiom("np.min(_x)", "min(_x)", "sorted(_x)[0]", "np.amin(_x)")
idiom("2 * (2 * _l + 1)", "4 * _l + 2", "(2 * _l + 1) * 2", "2 * len(range(-_l, _l + 1))", "(2 * _l + 1) + (2 * _l + 1)")
idiom("2 * _l + 1", "1 + 2 * _l", "_l * 2 + 1", "_l + _l + 1", "len(range(-_l, _l + 1))")
idiom("range(-_l, _l + 1)", "range(-_l, 1 + _l)", "[m for m in range(-_l, _l + 1)]", "list(range(-_l, _l + 1))", "range(-_l, _l + 1, 1)", "np.arange(-_l, _l + 1).tolist()")
idiom("range(2)", "(0, 1)", "[0, 1]", "range(0, 2)", "list(range(2))")
idiom("range(_n)", "range(0, _n)", "list(range(_n))", "range(0, _n, 1)")
idiom("-_x", "-1 * _x", "0 - _x", when=lambda b: not isinstance(b["_x"], ast.Constant))
idiom("_x - _y", "-_y + _x", "_x + (-_y)", "_x + -1 * _y", "-(_y - _x)", when=lambda b: "set" not in str([ast.unparse(v) for v in b.values()]))
idiom("_x * _y", "_y * _x", when=lambda b: "tuple" not in ast.unparse(b["_x"]) + ast.unparse(b["_y"]) and not isinstance(b["_x"], (ast.List, ast.Constant)))
idiom("_x + _y", "_x - (-_y)", when=lambda b: not any(isinstance(b[k], (ast.List, ast.Tuple, ast.JoinedStr)) or isinstance(b[k], ast.Constant) and isinstance(b[k].value, str) for k in b) and not any(t in ast.unparse(v) for v in b.values() for t in ("state", "bImp", "bVal", "bCon")))
idiom("sorted(_x)", "sorted(list(_x))", "list(sorted(_x))", "sorted(tuple(_x))")
idiom("comm.bcast(_x, root=_r)", "comm.bcast(_x, _r)")
idiom("comm.Reduce(_x, _y)", "comm.Reduce(_x, _y, root=0)", "comm.Reduce(_x, _y, op=MPI.SUM, root=0)")
idiom("comm.Bcast(_x, root=0)", "comm.Bcast(_x)", "comm.Bcast(_x, 0)")
idiom("_x.T", "np.transpose(_x)", "_x.transpose()")
idiom("np.dot(_x, _y)", "_x @ _y", "_x.dot(_y)", "np.matmul(_x, _y)")
idiom("np.dot(np.conj(_x), _y)", "np.vdot(_x, _y)", "np.sum(np.conj(_x) * _y)", "np.inner(np.conj(_x), _y)", "(np.conj(_x) * _y).sum()")
idiom("h.dot(_x)", "h @ _x", "np.asarray(h.dot(_x))")
idiom("sqrt(np.sum(np.abs(_x) ** 2))", "np.linalg.norm(_x)", "sqrt(np.vdot(_x, _x).real)", "float(np.linalg.norm(_x))", "sqrt((np.abs(_x) ** 2).sum())", "np.sqrt(np.sum(np.abs(_x) ** 2))", "sqrt(sum(abs(q) ** 2 for q in _x))")
idiom("_x is None", "_x == None", "not (_x is not None)")
idiom("_x is not None", "not (_x is None)", "not _x is None")
idiom("_x.copy()", "copy.copy(_x)", "_x[:]", when=lambda b: ast.unparse(b["_x"]) == "bits")
idiom("psi1.copy()", "dict(psi1)", "{**psi1}", "dict(psi1.items())", "{k: v for k, v in psi1.items()}", "copy.copy(psi1)", "psi1 | {}")
idiom("state[:i]", "state[0:i]", "state[slice(i)]")
idiom("list(_x.items())", "tuple(_x.items())", "[(p, q) for p, q in _x.items()]", "list(_x.copy().items())", "list(zip(_x.keys(), _x.values()))")
idiom("_x.pop(_k)", "del _x[_k]", "_x.pop(_k, None)", "_x.__delitem__(_k)")
idiom("set(_x).intersection(_y)", "set(_x) & set(_y)", "{p for p in _x if p in _y}", "set(p for p in _x if p in _y)", "set(filter(_y.__contains__, _x))")
idiom("set(_x.keys()).difference(_y)", "set(_x) - _y", "set(_x).difference(_y)", "{p for p in _x if p not in _y}", "_x.keys() - _y", "set(p for p in _x.keys() if p not in _y)", "set(_x.keys()) - _y")
idiom("basis_new.update(_x)", "basis_new |= set(_x)", "basis_new = basis_new.union(_x)", "basis_new = basis_new | set(_x)", "basis_new.update(set(_x))")
idiom("basis_new_local.update(_x)", "basis_new_local |= set(_x)", "basis_new_local = basis_new_local.union(_x)")
idiom("set(basis[i:n]) - states_setA_local", "set(basis[i:n]).difference(states_setA_local)", "{p for p in basis[i:n] if p not in states_setA_local}", "set(basis[i:n]) - set(states_setA_local)")
idiom("basis[i:n]", "basis[i:]", "basis[i:len(basis)]")
idiom("len(restriction.intersection(stateB_tuple))", "sum(p in restriction for p in stateB_tuple)", "sum(1 for p in stateB_tuple if p in restriction)", "len(restriction & set(stateB_tuple))", "len([p for p in stateB_tuple if p in restriction])", "len(set(stateB_tuple).intersection(restriction))")
idiom("_n < _o[0] or _o[1] < _n", "not (_o[0] <= _n <= _o[1])", "_n > _o[1] or _n < _o[0]", "_n < min(_o) or _n > max(_o) if False else (_n < _o[0] or _n > _o[1])", "_n not in range(_o[0], _o[1] + 1)")
idiom("frozenset(_x)", "frozenset(set(_x))", "frozenset(list(_x))", "frozenset(tuple(_x))")
idiom("tuple(_x)", "tuple(list(_x))", "(*_x,)", when=lambda b: not isinstance(b["_x"], ast.GeneratorExp))
idiom("np.shape(_x)[0]", "_x.shape[0]", "len(_x)")
idiom("np.shape(_x)[1]", "_x.shape[1]")
idiom("np.sum(_x, axis=0)", "_x.sum(axis=0)", "sum(_x)", "np.add.reduce(_x)", "np.sum(_x, 0)")
idiom("_x.real", "np.real(_x)")
idiom("_x.imag", "np.imag(_x)")
idiom("np.linalg.norm(_x)", "sqrt(np.dot(_x, _x))", "sqrt(_x[0] ** 2 + _x[1] ** 2 + _x[2] ** 2)", "np.sqrt(np.sum(_x ** 2))")
idiom("int(_x) == _x", "_x == int(_x)", "_x % 1 == 0")
idiom("itertools.chain.from_iterable(_x)", "itertools.chain(*_x)", "(p for q in _x for p in q)", "[p for q in _x for p in q]")
idiom("psr.tuple2bytes(_x, _n)", "psr.bitarray2bytes(psr.tuple2bitarray(_x, _n))")
idiom("psr.bytes2tuple(_x, _n)", "psr.bitarray2tuple(psr.bytes2bitarray(_x, _n))", "psr.str2tuple(psr.bytes2str(_x, _n))")
idiom("len(spinOrb) == 3", "not len(spinOrb) == 2 and len(spinOrb) == 3", "len(spinOrb) == 2 + 1")
idiom("np.nonzero(_x)[0]", "np.nonzero(_x)[1]" if False else "_x.nonzero()[0]")
idiom("np.argsort(_x)", "_x.argsort()", "np.array(_x).argsort()")
idiom("'...'", "'...'")
idiom("_x.format(_y)", "format(_y, _x[_x.index(':') + 1:_x.index('}')])", when=lambda b: False)
idiom("time.time() - t0", "-t0 + time.time()", "-(t0 - time.time())")
idiom("np.array([1, 1, 1]) / np.sqrt(3)", "np.ones(3) / np.sqrt(3)", "np.array([1.0, 1.0, 1.0]) / 3 ** 0.5")
idiom("-14.0 / 441", "-2.0 / 63")
idiom("14.0 / 441", "2.0 / 63", "2 / 63", "14 / 441")
idiom("1 / 15.0", "1 / 15", "2 / 30")
idiom("3 / 70.0", "3 / 70", "0.3 / 7 if False else 3.0 / 70")
idiom("(-1) ** _m", "1 if _m % 2 == 0 else -1", "-1 if _m % 2 else 1", "1 - 2 * (_m % 2)")
idiom("1 / 2", "0.5", "1.0 / 2", "2 ** -1")
idiom("_x / 2", "0.5 * _x", "_x * 0.5", "_x / 2.0")
idiom("_x / 2.0", "0.5 * _x", "_x / 2")
idiom("u == 0", "not u")
# statements
idiom("if _k in _d:\n    _d[_k] += _v\nelse:\n    _d[_k] = _v", "_d[_k] = _d.get(_k, 0) + _v", "_d.setdefault(_k, 0)\n_d[_k] += _v",
      "if _k not in _d:\n    _d[_k] = 0\n_d[_k] += _v", "try:\n    _d[_k] += _v\nexcept KeyError:\n    _d[_k] = _v", "_d[_k] = _d[_k] + _v if _k in _d else _v",
      "if _k not in _d:\n    _d[_k] = _v\nelse:\n    _d[_k] = _v + _d[_k]", "old = _d.get(_k)\nif old is None:\n    _d[_k] = _v\nelse:\n    _d[_k] = old + _v")
idiom("for _s in _p.keys():\n    _p[_s] /= _n", "for _s in _p:\n    _p[_s] = _p[_s] / _n", "for _s, amp_ in _p.items():\n    _p[_s] = amp_ / _n",
      "for _s in list(_p):\n    _p[_s] *= 1 / _n", "_p.update({_s: amp_ / _n for _s, amp_ in _p.items()})", "scale_ = 1 / _n\nfor _s in _p.keys():\n    _p[_s] *= scale_",
      "_p = {_s: amp_ / _n for _s, amp_ in _p.items()}")
idiom("for _s, _a in list(_p.items()):\n    if _c:\n        _p.pop(_s)", "for _s in [_s for _s, _a in _p.items() if _c]:\n    del _p[_s]", "for _s, _a in tuple(_p.items()):\n    if not (_c):\n        continue\n    del _p[_s]",
      "for _s in list(_p):\n    _a = _p[_s]\n    if _c:\n        _p.pop(_s)", "drop_ = set()\nfor _s, _a in _p.items():\n    if _c:\n        drop_.add(_s)\nfor _s in drop_:\n    _p.pop(_s)")
idiom("for _r in range(ranks):\n    gTmp = comm.bcast(_g, root=_r)\n    for _i, _v in gTmp.items():\n        _t = _v", "for _r in range(ranks):\n    for _i, _v in comm.bcast(_g, root=_r).items():\n        _t = _v",
      "merged_ = {}\nfor _r in range(ranks):\n    merged_.update(comm.bcast(_g, root=_r))\nfor _i, _v in merged_.items():\n    _t = _v",
      "for part_ in [comm.bcast(_g, root=_r) for _r in range(ranks)]:\n    for _i, _v in part_.items():\n        _t = _v",
      "for _r in range(ranks):\n    gTmp = comm.bcast(_g, root=_r)\n    for _i in gTmp:\n        _v = gTmp[_i]\n        _t = _v",
      "for part_ in comm.allgather(_g):\n    for _i, _v in part_.items():\n        _t = _v")
idiom("psi2 = {}", "psi2 = dict()")
idiom("for i, amp in enumerate(x):\n    if amp != 0:\n        psi2[basis_state[i]] = amp", "for i in np.nonzero(x)[0]:\n    psi2[basis_state[i]] = x[i]", "for i, amp in enumerate(x):\n    if amp == 0:\n        continue\n    psi2[basis_state[i]] = amp",
      "for i in range(n):\n    if x[i] != 0:\n        psi2[basis_state[i]] = x[i]")
idiom("for ps, amp in _p.items():\n    _y[basis_index[ps]] = amp", "for ps in _p:\n    _y[basis_index[ps]] = _p[ps]", "for ps, index in basis_index.items():\n    if ps in _p:\n        _y[index] = _p[ps]", "_y[[basis_index[ps] for ps in _p]] = list(_p.values())",
      "for ps, index in basis_index.items():\n    _y[index] = _p.get(ps, 0)")
idiom("basis_index = {basis[i]: i for i in range(n)}", "basis_index = {ps_: i for i, ps_ in enumerate(basis)}", "basis_index = dict(zip(basis, range(n)))", "basis_index = {}\nfor i in range(n):\n    basis_index[basis[i]] = i",
      "basis_index = dict((ps_, i) for i, ps_ in enumerate(basis))", "basis_index = {}\nfor ps_ in basis:\n    basis_index[ps_] = len(basis_index)")
idiom("return tuple(_x)", "return tuple(list(_x))", "result_ = tuple(_x)\nreturn result_")
idiom("if rank == 0:\n    print(_x)", "if not rank:\n    print(_x)", "if rank == 0:\n    message_ = _x\n    print(message_)", "rank == 0 and print(_x)", "if rank < 1:\n    print(_x)")
idiom("for i in range(krylovSize - 1, -1, -1):\n    _b", "for i in reversed(range(krylovSize)):\n    _b", "for i in range(krylovSize)[::-1]:\n    _b", "i = krylovSize\nwhile i > 0:\n    i -= 1\n    _b", "for i in sorted(range(krylovSize), reverse=True):\n    _b")
idiom("for _s in range(2):\n    _b", "for _s in [0, 1]:\n    _b", "for _s in (0, 1):\n    _b")
idiom("_x *= -1", "_x = -_x", "_x = -1 * _x")
idiom("_x += _y", "_x = _x + _y", "_x = _y + _x", when=lambda b: isinstance(b["_x"], ast.Name) and ast.unparse(b["_x"]) not in ("s", "basis"))
idiom("s += _y", "s = s + _y", "s = ''.join((s, _y))", "s = f'{s}{_y}'")
idiom("data.append(v)\ncol.append(_j)\nrow.append(_i)", "row.append(_i)\ncol.append(_j)\ndata.append(v)")
idiom("raise Exception(_x)", "raise Exception(_x) from None")
idiom("assert _x <= _y", "assert _y >= _x", "assert not _x > _y", "if _x > _y:\n    raise AssertionError")
idiom("assert _x == _y", "assert _y == _x", "if _x != _y:\n    raise AssertionError")
idiom("h5f.create_dataset(_n, data=_x)", "h5f[_n] = _x", "h5f.create_dataset(name=_n, data=_x)")
idiom("_x = OrderedDict(zip(ls, _y))", "_x = dict(zip(ls, _y))", "_x = OrderedDict((l_, q_) for l_, q_ in zip(ls, _y))", "_x = OrderedDict(list(zip(ls, _y)))")


# ------------------------------------------------------------------------------------------------ matching
def wild(n):
    if isinstance(n, ast.Expr):
        n = n.value
    return n.id if isinstance(n, ast.Name) and n.id.startswith("_") and len(n.id) == 2 else None


def match(p, n, b):
    w = wild(p) if isinstance(p, ast.AST) else None
    if w:
        if isinstance(p, ast.Expr):  # a whole body
            return False
        if not isinstance(n, ast.expr):
            return False
        if w in b:
            return ast.unparse(b[w]) == ast.unparse(n)
        b[w] = n
        return True
    if isinstance(p, ast.AST):
        if type(p) is not type(n):
            return False
        return all(match(getattr(p, f), getattr(n, f, None), b) for f in p._fields if f not in ("ctx", "type_comment"))
    if isinstance(p, list):
        if not isinstance(n, list):
            return False
        if len(p) == 1 and isinstance(p[0], ast.Expr) and wild(p[0]) == "_b":
            b["_b"] = n
            return True
        return len(p) == len(n) and all(match(x, y, b) for x, y in zip(p, n))
    return p == n and type(p) is type(n)


class Fill(ast.NodeTransformer):
    def __init__(self, b):
        self.b = b

    def visit_Name(self, n):
        w = wild(n)
        if w and w in self.b and not isinstance(self.b[w], list):
            x = copy.deepcopy(self.b[w])
            if isinstance(n.ctx, ast.Store):
                for y in ast.walk(x):
                    if y is x and hasattr(y, "ctx"):
                        y.ctx = ast.Store()
            return x
        return n

    def visit_Expr(self, n):
        if wild(n) == "_b":
            return copy.deepcopy(self.b["_b"])
        return self.generic_visit(n)


def sites(tree, old, when):
    """(list or parent, field, index, length, bindings)"""
    pat = ast.parse(old).body
    expr = len(pat) == 1 and isinstance(pat[0], ast.Expr) and not wild(pat[0])
    out = []
    for n in ast.walk(tree):
        for f, v in ast.iter_fields(n):
            if expr:
                for i, x in enumerate(v) if isinstance(v, list) else [(None, v)]:
                    if isinstance(x, ast.expr):
                        b = {}
                        if match(pat[0].value, x, b) and (when is None or when(b)):
                            out.append((n, f, i, 1, b, "e"))
            if isinstance(v, list) and v and isinstance(v[0], ast.stmt):
                for i in range(len(v) - len(pat) + 1):
                    b = {}
                    if match(pat, v[i:i + len(pat)], b) and (when is None or when(b)):
                        out.append((n, f, i, len(pat), b, "s"))
    return out


FILES = ["average", "create", "finite", "get_spectra", "get_spectra_using_CF", "mpi_comm", "product_state_representation", "remove", "spectra"]


def variants(names, quals):
    for f in FILES:
        src = open("/repo/impurityModel/ed/%s.py" % f).read()
        tree = ast.parse(src)
        for k, (old, new, when) in enumerate(I):
            if names and not any(x in old for x in names):
                continue
            for fn in [x for x in tree.body if isinstance(x, ast.FunctionDef)]:
                q = f + "." + fn.name
                if quals and q not in quals and fn.name not in quals:
                    continue
                for s in range(len(sites(fn, old, when))):
                    yield f, fn.name, k, s


def edit(f, fname, k, s):
    old, new, when = I[k]
    tree = ast.parse(open("/repo/impurityModel/ed/%s.py" % f).read())
    fn = next(x for x in tree.body if isinstance(x, ast.FunctionDef) and x.name == fname)
    n, fld, i, ln, b, kind = sites(fn, old, when)[s]
    body = Fill(b).visit(ast.parse(new)).body
    if kind == "e" and len(body) == 1 and isinstance(body[0], ast.Expr):
        if i is None:
            setattr(n, fld, body[0].value)
        else:
            getattr(n, fld)[i] = body[0].value
    else:
        getattr(n, fld)[i:i + ln] = body
    line = getattr(n, "lineno", 0)
    ast.fix_missing_locations(tree)
    if "copy.copy" in new and f == "finite":
        tree.body.insert(1, ast.parse("import copy").body[0])
    text = ast.unparse(tree)
    compile(text, f, "exec")
    return text, line, ast.unparse(ast.Module(body, [])) if body else ""


def one(job):
    f, fname, k, s = job
    from ipm.check import Checker
    try:
        text, line, what = edit(f, fname, k, s)
    except Exception as e:
        return job, None, "%s %s" % (type(e).__name__, e)
    root = tempfile.mkdtemp()
    try:
        shutil.copytree("/repo/impurityModel", root + "/impurityModel", ignore=shutil.ignore_patterns("test", "__pycache__"))
        for x in os.listdir("/repo"):
            if x not in ("impurityModel", ".git"):
                os.symlink("/repo/" + x, root + "/" + x)
        open(root + "/impurityModel/ed/%s.py" % f, "w").write(text)
        ck = Checker(root)
        res = {}
        q = f + "." + fname
        st, ls = "same", []
        for item, (t, leaves) in (ck.compare(q) if q in ck.specs else {}).items():
            if t != "same" and st != "diff":
                st, ls = t, [(item, leaves)] + ls
        if "-r" in sys.argv:
            from ipm.props import PROPS
            for rule in dict.fromkeys(r for p in PROPS.values() for r in p["rules"]):
                for o in rule(ck):
                    if o.status == "violated":
                        st, ls = "diff", [(str(o), [])]
        return job, st, "%s.%s:%d %s -> %s" % (f, fname, line, I[k][0].replace("\n", "; "), what.replace("\n", "; ")) + "".join(
            "\n       %s %s %s" % (item, l.definite, str(l)[:200]) for item, ll in ls[:1] for l in ll[:3]) + ("" if not ls or ls[0][1] else "\n " + ls[0][0])
    except Exception as e:
        return job, "crash", "%s %s" % (type(e).__name__, e)
    finally:
        shutil.rmtree(root)


if __name__ == "__main__":
    from multiprocessing import Pool
    args = [a for a in sys.argv[1:] if not a.startswith("-")]
    jobs = list(variants([a for a in args if a[0] != "@"], [a[1:] for a in args if a[0] == "@"]))
    tot = {}
    with Pool(8, maxtasksperchild=4) as pool:
        for job, st, text in pool.imap_unordered(one, jobs, 1):
            tot[st] = tot.get(st, 0) + 1
            if st in ("diff", "crash") or st != "same" and "-v" in sys.argv:
                print(str(st).upper(), text, flush=True)
    print(tot)
