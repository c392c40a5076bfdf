"""Rates of hops driven by the electrons of the substrate: occupation and potential integrals."""
from contracts._common import *

HG = "dynamics.hermitian_gamma_integral"


def energy(C, k):
    return C.const("hbar") * C.const("hbar") * k * k / (2 * C.const("electron_mass"))


def fermi(C, e, mu, t):
    return 1 / (1 + C.exp((e - mu) / t))


def occupation(C, k, omega, kf, t):
    """n(E) (1 - n(E + omega))"""
    mu, e = energy(C, kf), energy(C, k)
    return fermi(C, e, mu, t) * (1 - fermi(C, e + omega, mu, t))


def coulomb(C, q):
    """e^2 / (epsilon q^2) (1 / (1 + (q / alpha)^2)^2 - 1), alpha = 2 / bohr radius, and its expansion where q is tiny"""
    ee = C.const("elementary_charge") * C.const("elementary_charge")
    alpha = ee * C.const("electron_mass") / (2 * C.pi * C.const("epsilon_0") * C.const("hbar") * C.const("hbar"))
    x = q / alpha
    r = 1 / (1 + x * x)
    full = ee / (C.const("epsilon_0") * q * q) * (r * r - 1)
    tiny = ee / (C.const("epsilon_0") * alpha * alpha) * (3 * x * x - 2)
    c = C.isclose(x, 0)
    return c * tiny + (1 - c) * full


def potential(C, phi, kf, overlap):
    q = kf * C.sin(phi / 2)
    h = 2 * C.pi * C.const("hbar")
    return 4 * C.const("electron_mass") * kf * kf * kf / (h * h * h) * C.sin(phi) * coulomb(C, q) * coulomb(C, q) * overlap(q)


def pos(C, *names):
    return [C.real(n, pos=True) for n in names]


@contract(f"{HG}:get_hermitian_gamma_occupation_integrand", ["P31"], cases=[dict(n=n) for n in (0, 1, 2)])
class goi:
    """The electron is there, and the state omega above it is free."""

    has_kwargs = True

    def inputs(C, n):
        kf, t = pos(C, "kf", "t")
        om = pos(C, "omega")[0]
        k = C.array("k", [C.size(f"n{i}") for i in range(n)], "f") if n else C.real("k", pos=True)
        return ((k,), dict(omega=om, k_f=kf, boltzmann_energy=t))

    def result(C, k, *, omega, k_f, boltzmann_energy):
        if not hasattr(k, "shape") or not len(k.shape):
            return occupation(C, k, omega, k_f, boltzmann_energy)
        f = C.at(k)
        return C.lam(list(k.shape), lambda *i: occupation(C, f(*i), omega, k_f, boltzmann_energy), "f")


@contract(f"{HG}:calculate_hermitian_gamma_occupation_integral", ["P31"])
class coi:
    """Over 20 times the thermal width on either side of the Fermi wavevector."""

    tol = 1e-5

    def inputs(C):
        return (*pos(C, "omega", "kf"), pos(C, "t")[0])

    def result(C, omega, kf, t):
        d = 2 * t * C.const("electron_mass") / (C.const("hbar") * C.const("hbar") * kf)
        return C.integral(lambda k: occupation(C, k, omega, kf, t), kf - 20 * d, kf + 20 * d)


@contract(f"{HG}:_get_coulomb_potential", ["P31"], cases=[dict(n=n, tiny=t) for n in (0, 1) for t in (0, 1)])
class gcp:
    """The potential of a screened charge."""

    def inputs(C, n, tiny):
        q = C.array("q", [C.size("n")], "f", pos=True) if n else C.real("q", pos=True)
        return (q / 10 ** 9 if tiny else q,)

    def result(C, q):
        if not hasattr(q, "shape") or not len(q.shape):
            return coulomb(C, q)
        f = C.at(q)
        return C.lam(list(q.shape), lambda i: coulomb(C, f(i)), "f")


@contract(f"{HG}:calculate_hermitian_gamma_potential_integral", ["P31"])
class cpi:
    """Over the angle between the electron before and after, for any overlap."""

    tol = 1e-5

    def inputs(C):
        return (*pos(C, "kf"), C.function("overlap"))

    def result(C, kf, overlap):
        return C.integral(lambda x: potential(C, x, kf, overlap), 0, C.pi)


@contract(f"{HG}:calculate_real_gamma_integral", ["P31"])
class crg:
    """The product of the two."""

    has_kwargs = True
    tol = 1e-5

    def inputs(C):
        om, kf, t = pos(C, "omega", "kf", "t")
        return ((), dict(omega=om, k_f=kf, boltzmann_energy=t, overlap=C.function("overlap")))

    def result(C, *, omega, k_f, boltzmann_energy, overlap):
        return cpi.result(C, k_f, overlap) * coi.result(C, omega, k_f, boltzmann_energy)
