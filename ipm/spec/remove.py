"""Specification of impurityModel.ed.remove."""
from bisect import bisect_left

from impurityModel.ed import product_state_representation as psr


def sign(n):
    if n % 2 == 0:
        return 1
    return -1


def binary_search(a, x):
    """[C01] position of x, -1 when it is absent"""
    i = bisect_left(a, x)
    if i != len(a) and a[i] == x:
        return i
    return -1


def utuple(i, state):
    """[C01 C03] drop i, sign of the number of smaller indices"""
    j = binary_search(state, i)
    if j == -1:
        return (), 0
    return state[:j] + state[j + 1:], sign(j)


def uint(n_spin_orbitals, i, state):
    """[C01 C03] bit n-1-i is cleared, the higher bits count"""
    k = n_spin_orbitals - 1 - i
    if not state & (1 << k):
        return -1, 0
    return state & ~(1 << k), sign((state >> (k + 1)).bit_count())


def ustr(i, state):
    """[C01 C03] character i becomes 0, the characters before it count"""
    if state[i] == "0":
        return "", 0
    if state[i] != "1":
        raise Exception("not a state")
    return state[:i] + "0" + state[i + 1:], sign(state[:i].count("1"))


def ubitarray(i, state):
    """[C01 C03 C05] bit i is cleared, the bits before it count"""
    if not state[i]:
        return 0
    s = sign(state[:i].count())
    state[i] = False
    return s


def ubytes(n_spin_orbitals, i, state):
    """[C01 C03 C05] as bit array"""
    bits = psr.bytes2bitarray(state, n_spin_orbitals)
    amp = ubitarray(i, bits)
    return psr.bitarray2bytes(bits), amp
