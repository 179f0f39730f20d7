"""Independent evaluation of real-valued functions which TLA+ cannot express (transcendental)."""
import numpy as np


def eps_liebe(f_GHz, T):
    """Liebe et al. 1991, double Debye model of pure water (positive imaginary part = loss)."""
    th = 1.0 - 300.0 / T
    es = 77.66 - 103.3 * th
    e1 = 0.0671 * es
    e2 = 3.52 + 7.52 * th
    fp = 20.20 + 146.4 * th + 316.0 * th**2
    fs = 39.8 * fp
    return es - f_GHz * ((es - e1) / (f_GHz + 1j * fp) + (e1 - e2) / (f_GHz + 1j * fs))


def slab_transmission(layers, f_Hz):
    """amplitude transmission through layers [(refractive index, thickness)] in air, normal incidence"""
    k0 = 2 * np.pi * f_Hz / 299792458.0
    M = np.eye(2, dtype=complex)
    for n, d in layers:
        ph = k0 * n * d
        M = M @ np.array([[np.cos(ph), -1j * np.sin(ph) / n], [-1j * n * np.sin(ph), np.cos(ph)]])
    return 2.0 / (M[0, 0] + M[0, 1] + M[1, 0] + M[1, 1])


def waa_leijnse(R, f_Hz, T=293.0, gamma=2.06e-5, delta=0.24, n_ant=1.73 + 0.014j, l_ant=0.001):
    if R == 0:
        return 0.0
    if R != R:
        return float("nan")
    nw = np.sqrt(np.conj(eps_liebe(f_Hz * 1e-9, T)))
    if nw.imag < 0:
        nw = np.conj(nw)
    wet = slab_transmission([(nw, gamma * R**delta), (n_ant, l_ant)], f_Hz)
    dry = slab_transmission([(n_ant, l_ant)], f_Hz)
    return float(-20 * np.log10(abs(wet / dry)))


def waa_pastorek(R, A_max=14.0, zeta=0.55, d=0.1):
    return A_max * -np.expm1(-d * R**zeta)
