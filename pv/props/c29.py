"""C29: Fourier helpers."""

import copy

import numpy as np
from hypothesis import strategies as st

from pv import api
from pv.engine import Part, Prop

VALUES = [0.0, 1.0, -1.0, 0.5, 3.0, -2.25, 1e-3, 1e3]


@st.composite
def cases(draw, tier):
    n_time = draw(st.one_of(st.integers(1, 12), st.integers(13, 300), st.sampled_from([1000, 1023, 1024, 4096, 4999]))) if draw(st.integers(0, 3)) == 0 else draw(st.integers(1, 40))
    k_max = (n_time - 1) // 2
    n_harm = draw(st.integers(0, min(k_max, 8)))
    harm = [[draw(st.integers(1, k_max)) if k_max else 0, draw(st.sampled_from(VALUES)), draw(st.sampled_from(VALUES))] for _ in range(n_harm)]
    return {"n_time": n_time, "dc": draw(st.sampled_from(VALUES)), "harm": harm, "n_freq": draw(st.one_of(st.none(), st.integers(1, 200))),
            "pad": draw(st.integers(1, 40)), "n_out": draw(st.one_of(st.integers(1, 40), st.integers(1, 300))),
            "f": draw(st.sampled_from([1.0, 50.0, 0.1, 1e6])), "form": draw(st.sampled_from(["array", "list", "real"]))}


def synth(coef, n_time):
    """Plain sum of cosines."""
    t = np.arange(n_time) / n_time
    out = np.full(n_time, coef[0].real)
    for k in np.flatnonzero(coef[1:]) + 1:
        out = out + coef[k].real * np.cos(2 * np.pi * k * t) - coef[k].imag * np.sin(2 * np.pi * k * t)
    return out


def check(case, ctx):
    from pypeec.utils import fourier
    n_time = case["n_time"]
    n_coef = n_time // 2 + 1
    coef = np.zeros(n_coef, dtype=complex)
    coef[0] = case["dc"]
    for (k, re, im) in case["harm"]:
        coef[k] = re + (1j * im if case["form"] != "real" else 0.0)
    scale = float(np.sum(np.abs(coef))) + 1e-300
    if not np.any(coef):
        ctx.trivial("zero signal")
    ctx.label("even" if n_time % 2 == 0 else "odd", case["form"])
    sig = synth(coef, n_time)
    arg = sig.tolist() if case["form"] == "list" else sig
    keep = copy.deepcopy(arg)
    # signal to harmonics
    got = api.must("get_fft", fourier.get_fft, arg)
    api.same("argument of get_fft", arg, keep)
    api.close("harmonics", got, coef, 1e-11, scale)
    for n_freq in (case["n_freq"], len(coef), 1, len(coef) + case["pad"]):
        if n_freq is not None:
            exp = np.concatenate((coef, np.zeros(max(0, n_freq - n_coef))))[:n_freq]
            got = api.must("get_fft", fourier.get_fft, arg, n_freq=n_freq)
            api.close("%d harmonics" % n_freq, got, exp, 1e-11, scale)
    # harmonics to signal (the highest coefficient stays strictly inside of the band)
    pad = np.concatenate((coef, np.zeros(case["pad"])))
    for (c, n) in ((coef, n_time), (pad, n_time), (pad, 2 * n_coef + case["n_out"]), (coef, 2 * n_coef + 1)):
        arg = c.tolist() if case["form"] == "list" else c.real.copy() if case["form"] == "real" else c.copy()
        keep = copy.deepcopy(arg)
        got = api.must("get_ifft", fourier.get_ifft, arg, n_time=n)
        api.same("argument of get_ifft", arg, keep)
        api.close("signal with %d samples" % n, got, synth(c, n), 1e-11, scale)
    # default length
    last = np.concatenate((coef, [0.0]))
    got = api.must("get_ifft", fourier.get_ifft, last)
    api.close("signal with the default length", got, synth(coef, 2 * n_coef), 1e-11, scale)
    # undersampling keeps the harmonics inside of the new band
    n = case["n_out"]
    low = np.array([c if 2 * k < n else 0.0 for k, c in enumerate(coef)])
    if not (n % 2 == 0 and n // 2 < n_coef and coef[n // 2] != 0):
        got = api.must("get_ifft", fourier.get_ifft, coef, n_time=n)
        api.close("undersampled signal", got, synth(low, n), 1e-11, scale)
        ctx.label("undersampled" if n < n_time else "oversampled")
    # there and back
    back = api.must("get_ifft", fourier.get_ifft, fourier.get_fft(sig), n_time=n_time)
    api.close("round trip", back, sig, 1e-11, scale)
    forth = api.must("get_fft", fourier.get_fft, fourier.get_ifft(pad, n_time=2 * len(pad)), n_freq=len(pad))
    api.close("round trip of the harmonics", forth, pad, 1e-11, scale)
    # grids
    f = case["f"]
    api.close("time", fourier.get_time(f, n_time), [k / (f * n_time) for k in range(n_time)], 1e-12, 1e-300)
    api.close("frequency", fourier.get_freq(f, case["pad"]), [k * f for k in range(case["pad"])], 1e-12, 1e-300)


PROP = Prop("C29", [
    Part("series", cases, check, quick=8000, thorough=250000),
], rule="random Fourier series (even and odd lengths, harmonics strictly inside of the band) against the plain sum of cosines; trivial "
        "with a zero signal", batch=300)
