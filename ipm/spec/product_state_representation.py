"""Specification of impurityModel.ed.product_state_representation."""
from bitarray import bitarray


def str2int(s):
    """[C02] spin-orbital 0 is the most significant bit"""
    return int(s, 2)


def int2str(i, n):
    """[C02] n characters, with the leading empty positions"""
    s = bin(i)[2:]
    return "0" * (n - len(s)) + s


def str2tuple(s):
    """[C02] occupied positions, ascending"""
    return tuple([i for i in range(len(s)) if s[i] == "1"])


def tuple2str(t, n):
    """[C02] one character per spin-orbital"""
    s = ""
    for i in range(n):
        s += "1" if i in t else "0"
    return s


def tuple2int(t, n):
    """[C02]"""
    return str2int(tuple2str(t, n))


def int2tuple(i, n):
    """[C02]"""
    return str2tuple(int2str(i, n))


def bitarray2bytes(bits):
    """[C02]"""
    return bits.tobytes()


def bytes2bitarray(bytestr, n):
    """[C02] exactly n positions, the padding of the last byte removed"""
    bits = bitarray(0)
    bits.frombytes(bytestr)
    return bits[:n]


def int2bitarray(i, n):
    """[C02]"""
    return bitarray(int2str(i, n))


def bitarray2int(bits):
    """[C02]"""
    return str2int(bitarray2str(bits))


def bitarray2str(bits):
    """[C02]"""
    return bits.to01()


def str2bitarray(s):
    """[C02]"""
    return bitarray(s)


def tuple2bitarray(t, n):
    """[C02]"""
    return bitarray(tuple2str(t, n))


def bitarray2tuple(bits):
    """[C02]"""
    return str2tuple(bitarray2str(bits))


def tuple2bytes(t, n):
    """[C02]"""
    return bitarray2bytes(tuple2bitarray(t, n))


def bytes2tuple(bytestr, n):
    """[C02]"""
    return bitarray2tuple(bytes2bitarray(bytestr, n))


def str2bytes(s):
    """[C02]"""
    return bitarray2bytes(str2bitarray(s))


def bytes2str(bytestr, n):
    """[C02]"""
    return bitarray2str(bytes2bitarray(bytestr, n))


def int2bytes(i, n):
    """[C02]"""
    return bitarray2bytes(int2bitarray(i, n))


def bytes2int(bytestr, n):
    """[C02]"""
    return bitarray2int(bytes2bitarray(bytestr, n))
