"""Specification of impurityModel.plotScripts.plotRIXS."""
import os.path
import sys

import matplotlib.pyplot as plt
import numpy as np


def existing(filename):
    if not os.path.isfile(filename):
        sys.exit()
    return filename


def main():
    """[C21] 32-bit floats: number of columns and incoming mesh, then rows of loss energy and intensities"""
    if len(sys.argv) == 1:
        filename = existing("RIXS.bin")
    elif len(sys.argv) == 2:
        filename = existing(sys.argv[1])
    else:
        sys.exit()
    x = np.fromfile(filename, dtype=np.float32)
    n = int(x[0])
    x = x.reshape((int(len(x) / (n + 1)), n + 1))
    incoming, loss = x[0, 1:], x[1:, 0]
    dx, dy = incoming[1] - incoming[0], loss[1] - loss[0]
    extent = (incoming[0] - dx / 2, incoming[-1] + dx / 2, loss[0] - dy / 2, loss[-1] + dy / 2)
    shown = np.copy(x[1:, 1:])
    shown[shown < 1e-6] = np.nan
    plt.imshow(shown, origin="lower", extent=extent)
