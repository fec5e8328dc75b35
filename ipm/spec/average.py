"""Specification of impurityModel.ed.average."""
import numpy as np
from scipy.constants import physical_constants

k_B = physical_constants["Boltzmann constant in eV/K"][0]


def thermal_average(energies, observable, T=300):
    """[C16 C17 C18 C19 C23:raise] Boltzmann weights relative to the lowest energy, divided by their sum"""
    if len(energies) != np.shape(observable)[0]:
        raise ValueError("lengths")
    lowest = np.min(energies)
    z = 0
    total = 0
    for e, o in zip(energies, observable):
        z += np.exp(-(e - lowest) / (k_B * T))
        total += np.exp(-(e - lowest) / (k_B * T)) * o
    return total / z
