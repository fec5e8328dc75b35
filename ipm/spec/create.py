"""Specification of impurityModel.ed.create."""
from bisect import bisect_left

from impurityModel.ed import product_state_representation as psr


def sign(n):
    if n % 2 == 0:
        return 1
    return -1


def binary_search_bigger(a, x):
    """[C01] position before which x belongs, -1 when it is present"""
    i = bisect_left(a, x)
    if i == len(a) or a[i] != x:
        return i
    return -1


def utuple(i, state):
    """[C01 C03] insert i, sign of the number of smaller indices"""
    j = binary_search_bigger(state, i)
    if j == -1:
        return (), 0
    return state[:j] + (i,) + state[j:], sign(j)


def uint(n_spin_orbitals, i, state):
    """[C01 C03] bit n-1-i is set, the higher bits count"""
    k = n_spin_orbitals - 1 - i
    if state & (1 << k):
        return -1, 0
    return state | (1 << k), sign((state >> (k + 1)).bit_count())


def ustr(i, state):
    """[C01 C03] character i becomes 1, the characters before it count"""
    if state[i] == "1":
        return "", 0
    if state[i] != "0":
        raise Exception("not a state")
    return state[:i] + "1" + state[i + 1:], sign(state[:i].count("1"))


def ubitarray(i, state):
    """[C01 C03 C05] bit i is set, the bits before it count"""
    if state[i]:
        return 0
    s = sign(state[:i].count())
    state[i] = True
    return s


def ubytes(n_spin_orbitals, i, state):
    """[C01 C03 C05] as bit array"""
    bits = psr.bytes2bitarray(state, n_spin_orbitals)
    amp = ubitarray(i, bits)
    return psr.bitarray2bytes(bits), amp
