"""Specification of impurityModel.ed.mpi_comm."""
import math
from itertools import islice

import numpy as np
from mpi4py import MPI

comm = MPI.COMM_WORLD
rank = comm.rank
ranks = comm.size


def dict_chunks_from_one_MPI_rank(data, chunk_maxsize=1 * 10**6, root=0):
    """[C13 C14] as many parts on every rank as the root has"""
    if rank == root:
        it = iter(data)
        n = math.ceil(len(data) / chunk_maxsize)
    else:
        n = None
    n = comm.bcast(n, root=root)
    for _ in range(n):
        if rank == root:
            part = {k: data[k] for k in islice(it, chunk_maxsize)}
        else:
            part = None
        yield part


def allgather_dict(data, total, chunk_maxsize=1 * 10**6):
    """[C13 C14 C03] the data of every rank is added to the total, once"""
    sizes = np.zeros(ranks, dtype=int)
    for r in range(ranks):
        sizes[r] = comm.bcast(len(data), root=r)
    if max(sizes) <= chunk_maxsize:
        for r in range(ranks):
            total.update(comm.bcast(data, root=r))
    else:
        for r in range(ranks):
            for part in dict_chunks_from_one_MPI_rank(data, chunk_maxsize, r):
                total.update(comm.bcast(part, root=r))
