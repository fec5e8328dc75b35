"""Specification of impurityModel.plotScripts.plotSpectra."""
import argparse
import os.path
from math import pi

import h5py
import matplotlib.pyplot as plt
import numpy as np


def plot_spectra_in_file(filename):
    """[C21] every spectrum against its own mesh: emission, absorption (orbital or polarization, w), scattering (q, loss)
    and resonant scattering (in, out, incoming energy, loss)"""
    f = h5py.File(filename, "r")
    if "PSthermal" in f:
        plt.plot(np.array(f["w"]), np.sum(np.array(f["PSthermal"]), axis=0))
    if "XPSthermal" in f:
        plt.plot(np.array(f["w"]), np.sum(np.array(f["XPSthermal"]), axis=0))
    if "XASthermal" in f:
        plt.plot(np.array(f["w"]), np.sum(np.array(f["XASthermal"]), axis=0))
        if "RIXSthermal" in f:
            rixs = np.array(f["RIXSthermal"])
            loss = np.array(f["wLoss"])
            step = loss[1] - loss[0]
            norm = 1 / (pi * np.shape(rixs)[0])
            plt.plot(np.array(f["wIn"]), step * np.sum(rixs, axis=(0, 1, 3)) * norm)
            plt.plot(np.array(f["wIn"]), step * np.sum(rixs[:, :, :, loss < 0.2], axis=(0, 1, 3)) * norm)
    if "NIXSthermal" in f:
        nixs = np.array(f["NIXSthermal"])
        for i in range(len(nixs)):
            plt.plot(np.array(f["wLoss"]), nixs[i, :])
    if "RIXSthermal" in f:
        rixs = np.array(f["RIXSthermal"])
        incoming, loss = np.array(f["wIn"]), np.array(f["wLoss"])
        fig, axes = plt.subplots(nrows=2, sharex=True)
        for k, (es, offset) in enumerate([(np.arange(-7, 2, 1), 1.5), (np.arange(11, 16, 1), 1)]):
            for n, e in enumerate(es[-1::-1]):
                i = np.argmin(np.abs(incoming - e))
                axes[k].plot(loss, offset * (len(es) - 1 - n) + np.sum(rixs, axis=(0, 1))[i, :])
        dx, dy = incoming[1] - incoming[0], loss[1] - loss[0]
        extent = (incoming[0] - dx / 2, incoming[-1] + dx / 2, loss[0] - dy / 2, loss[-1] + dy / 2)
        total = np.sum(rixs, axis=(0, 1)).T
        total[total < 1e-6] = np.nan
        plt.imshow(total, origin="lower", extent=extent)
        if rixs.shape[:2] != (1, 1):
            fig, axes = plt.subplots(nrows=np.shape(rixs)[0], ncols=np.shape(rixs)[1], sharex=True, sharey=True)
            for i in range(np.shape(axes)[0]):
                for j in range(np.shape(axes)[1]):
                    one = np.copy(rixs[i, j, :, :].T)
                    one[one < 1e-6] = np.nan
                    axes[i, j].imshow(one, origin="lower", extent=extent)


def __main__():
    """[C21:call|option C22:option|positional] plots the file given, spectra.h5 by default"""
    parser = argparse.ArgumentParser()
    parser.add_argument("filename", type=str, nargs="?", default="spectra.h5")
    args = parser.parse_args()
    if not os.path.isfile(args.filename):
        raise Exception()
    plot_spectra_in_file(args.filename)
