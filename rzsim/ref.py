""" Reference models: small executable specifications used as oracles.

Nothing in here imports razorback.
"""
import math
import random
import struct

import numpy as np


# ------------------------------------------------------------------ ATS files
# further fields of the header: name, offset, format
ATS_FIELDS = [
    ('GMToffset', 0x18, 'i'), ('serial_number_ADU06', 0x20, 'H'), ('serial_number_ADC_board', 0x22, 'h'),
    ('channel_number', 0x24, 'b'), ('channel_type', 0x26, '2s'), ('sensor_type', 0x28, '6s'),
    ('sensor_serial_number', 0x2e, 'h'), ('x1', 0x30, 'f'), ('y1', 0x34, 'f'), ('z1', 0x38, 'f'),
    ('x2', 0x3c, 'f'), ('y2', 0x40, 'f'), ('z2', 0x44, 'f'), ('E_field_dipole_length', 0x48, 'f'),
    ('angle', 0x4c, 'f'), ('rho_probe', 0x50, 'f'), ('DC_offset_voltage', 0x54, 'f'),
    ('internal_gain_ampli', 0x58, 'f'), ('ADU_Lat', 0x60, 'i'), ('ADU_Long', 0x64, 'i'),
    ('ADU_Elev', 0x68, 'i'), ('Lat_Long_TYPE', 0x6c, '1s'), ('add_coordinates', 0x6d, '1s'),
    ('ref_meridian', 0x6e, 'h'), ('xcoor', 0x70, 'd'), ('ycoor', 0x78, 'd'),
    ('gps_clock_status', 0x80, '1s'), ('accuracy_GPS', 0x81, 'b'), ('offset_UTC', 0x82, 'h'),
    ('survey_header_filename', 0x90, '12s'), ('type_of_meas', 0x9c, '4s'), ('logfile', 0xa0, '12s'),
    ('result_selftest', 0xac, '2s'), ('number_of_calib_freq', 0xb0, 'h'),
    ('length_of_freq_entry', 0xb2, 'h'), ('version_calib', 0xb4, 'h'), ('start_addres', 0xb6, 'h'),
    ('cal_filename_ADU06', 0xc0, '12s'), ('datetime_calib', 0xcc, 'i'),
    ('cal_sensor_filename', 0xd0, '12s'), ('datetime_calib_sens', 0xdc, 'i'), ('powerline1', 0xe0, 'f'),
    ('powerline2', 0xe4, 'f'), ('CSAMT_Tx_freq', 0xf0, 'f'), ('CSAMT_TS_blocks', 0xf4, 'h'),
    ('CSAMT_stacks', 0xf6, 'h'), ('CSAMT_blk_length', 0xf8, 'i'), ('Client', 0x100, '16s'),
    ('Contractor', 0x110, '16s'), ('Area', 0x120, '16s'), ('SurveyID', 0x130, '16s'),
    ('Operator', 0x140, '16s'), ('Weather', 0x1c0, '64s'), ('Comments', 0x200, '512s')]


def ats_fields(seed):
    """ values of the further fields """
    g = random.Random(seed)
    out = {}
    for name, _, f in ATS_FIELDS:
        if f.endswith('s'):
            n = int(f[:-1])
            v = bytes(g.choice(b'\0\xffaZ 09') for _ in range(min(n, 20)))
            out[name] = v.ljust(n, b'\0')
        elif f in 'fd':
            out[name] = struct.unpack(f, struct.pack(f, g.uniform(-1e3, 1e3)))[0]
        else:
            bits = 8 * struct.calcsize(f)
            out[name] = g.randrange(1 << bits) - (f != 'H') * (1 << bits - 1)
    return out


def ats_bytes(samples, rate, start, lsb, header_length=1024, declared=None, fields=None):
    """ an ATS file: little endian header, then int32 samples """
    head = bytearray(header_length)
    if fields is not None:
        v = ats_fields(fields)
        for name, pos, f in ATS_FIELDS:
            struct.pack_into('<' + f, head, pos, v[name])
    struct.pack_into('<h', head, 0, header_length)
    struct.pack_into('<h', head, 2, 80)
    struct.pack_into('<i', head, 4, len(samples) if declared is None else declared)
    struct.pack_into('<f', head, 8, rate)
    struct.pack_into('<i', head, 12, start)
    struct.pack_into('<d', head, 16, lsb)
    return bytes(head) + np.asarray(samples, dtype='<i4').tobytes()


def ats_parse(data):
    """ (samples complete on disk, rate, start, lsb, declared) """
    (hl,) = struct.unpack_from('<h', data, 0)
    (n,) = struct.unpack_from('<i', data, 4)
    (rate,) = struct.unpack_from('<f', data, 8)
    (start,) = struct.unpack_from('<i', data, 12)
    (lsb,) = struct.unpack_from('<d', data, 16)
    have = max(0, len(data) - hl) // 4
    raw = np.frombuffer(data, '<i4', min(n, have), hl)
    return raw, rate, start, lsb, n


# -------------------------------------------------------------- window layout
def window_params(size, rate, freq, Nper, overlap):
    """ (Lw, shift) or None when the answer is ambiguous to rounding """
    nf = freq / rate
    q = Nper / nf
    if abs(q - round(q)) < 1e-6 and q != round(q):
        return None
    Lw = int(math.ceil(q))
    r = Lw * (1 - overlap)
    if abs(r - round(r)) < 1e-6 and r != round(r):
        return None
    return Lw, int(r)


def window_count(size, Lw, shift):
    """ windows the transform yields: starts 0, shift, 2*shift, ... while the
    window fits """
    return (size - Lw) // shift + 1 if size >= Lw else 0


def accepts(size, rate, freq, Lw, shift):
    """ the transform is defined """
    if not 0 < freq / rate <= .5:
        return False
    if shift < 1:
        return False
    return (size - Lw) // shift >= 1


def dpss(N, tau):
    """ slepian taper by its definition: dominant eigenvector of the
    concentration problem (tridiagonal form), mean one """
    from scipy.linalg import eigh_tridiagonal
    if N == 1:
        return np.ones(1)
    W = tau / N
    n = np.arange(N)
    diag = ((N - 1 - 2 * n) / 2.) ** 2 * np.cos(2 * np.pi * W)
    off = n[1:] * (N - n[1:]) / 2.
    w, v = eigh_tridiagonal(diag, off, select='i', select_range=(N - 1, N - 1))
    v = v[:, 0]
    return v / v.mean()


def slepian(N, tau, nmax=1000):
    if N <= nmax:
        return dpss(N, tau)
    a = N / nmax
    return np.interp(np.arange(N), a * np.arange(nmax), slepian(nmax, tau))


def make_window(spec, Lw):
    """ spec: None | ['slepian', tau] | ['hann'] """
    if spec is None:
        return None
    if spec[0] == 'slepian':
        return slepian(Lw, spec[1])
    if spec[0] == 'hann':
        return 1 - np.cos(2 * np.pi * np.arange(Lw) / Lw)
    raise ValueError(spec)


def dft_windows(y, rate, freq, Lw, shift, win):
    """ 2/Lw * sum_n w[n] y[k*shift+n] exp(-2 pi i f/rate n) """
    n = np.arange(Lw)
    x = np.exp(-2j * np.pi * (freq / rate) * n) * (2. / Lw)
    if win is not None:
        x = x * win
    Nw = window_count(len(y), Lw, shift)
    return np.array([np.dot(x, y[k * shift:k * shift + Lw]) for k in range(Nw)])


def fourier(channels, rate, freq, Nper, overlap, wspec, calibs=None):
    """ reference coefficients of one run, None when not defined """
    p = window_params(len(channels[0]), rate, freq, Nper, overlap)
    if p is None:
        return 'ambiguous'
    Lw, shift = p
    if not accepts(len(channels[0]), rate, freq, Lw, shift):
        return None
    if wspec and wspec[0] == 'slepian' and Lw <= 2 * wspec[1] + 1:
        return 'ambiguous'      # scipy refuses the taper
    win = make_window(wspec, Lw)
    out = [dft_windows(c, rate, freq, Lw, shift, win) for c in channels]
    if calibs is not None:
        out = [o / c(freq) for o, c in zip(out, calibs)]
    return out, (len(out[0]), Lw, shift)


# ----------------------------------------------------------- robust estimator
class Fail(Exception):
    pass


class Ambiguous(Exception):
    """ the answer hangs on rounding: the model does not decide """


def _mad(x):
    med = np.nanmedian(x)
    with np.errstate(invalid='ignore'):
        return np.nanmedian(np.abs(x - med)) / 0.44845


def _expexp(x, a):
    with np.errstate(over='ignore'):
        return np.exp(np.exp(-a ** 2) - np.exp(a * (x - a)))


class Huber:
    def __init__(self, alpha=1.5):
        self.alpha = alpha

    def fresh(self):
        return Huber(self.alpha)

    def __call__(self, it, r, e, b):
        x = np.abs(r)
        with np.errstate(invalid='ignore', divide='ignore'):
            return np.minimum(1, self.alpha * _mad(x) / x)


class Thomson:
    def __init__(self, xi=None):
        self.xi = xi

    def fresh(self):
        return Thomson(self.xi)

    def __call__(self, it, r, e, b):
        xi = self.xi if self.xi is not None else (2 * np.log(2 * len(r))) ** .5
        x = np.abs(r)
        if it == 0:
            self.scale = _mad(x)
        return _expexp(x / self.scale, xi)


class BI:
    """ one bounded-influence step """
    def __init__(self, inner, lower, khi):
        self.inner, self.lower, self.khi = inner, lower, khi

    def fresh(self):
        return BI(self.inner.fresh(), self.lower, self.khi)

    def __call__(self, it, r, e, b):
        if it == 0:
            self.bw, self.tr, self.hw = np.ones(len(b)), len(b), np.ones(len(b))
        w = self.inner(it, r, e, b)
        w = np.where(np.isnan(r), 0., w)
        A = (b.conj().T * self.bw) @ b
        if not np.all(np.isfinite(A)) or np.linalg.cond(A) > 1e8:
            raise Ambiguous
        h = self.bw * np.sum(np.linalg.solve(A, b.conj().T) * b.T, axis=0).real
        y = self.tr * h / b.shape[1]
        with np.errstate(divide='ignore'):
            hw = self.hw * _expexp(y, self.khi) * _expexp(np.log(y), np.log(self.lower))
        bw = w * hw
        self.bw, self.tr, self.hw = bw, bw.sum(), hw
        return bw


def bi_weights(reject, n_step, dim=2):
    from scipy.special import gammaincinv
    lower = gammaincinv(dim, .5 * reject) / dim
    upper = gammaincinv(dim, 1 - .5 * reject) / dim
    res = [BI(Huber(), lower * 2 ** -i, upper * 2 ** i) for i in range(n_step)]
    return [None] + res[::-1] + [BI(Thomson(), lower, upper)]


def wlse(e, b, w=None):
    bw = b.conj().T if w is None else b.conj().T * w
    A = bw @ b
    if not np.all(np.isfinite(A)):
        raise Ambiguous
    scale = np.max(np.abs(A))
    if scale == 0:
        raise Fail('singular')
    if scale < 1e-200 or np.linalg.cond(A / scale) > 1e8:
        raise Ambiguous
    return np.linalg.solve(A, bw @ e)


def m_step(e, b, z, wf, tol=1e-2, maxit=100, eps=1e-14):
    """ one M-estimation, returns (z, rejected indices) """
    if wf is None:
        return wlse(e, b), np.empty(0, int)
    wf = wf.fresh()
    r = e - b @ z
    bad = np.empty(0, int)
    prev = None
    margin = []
    for it in range(maxit):
        r = r.copy()
        r[bad] = np.nan
        w = wf(it, r, e, b)
        w = w.copy()
        w[bad] = 0.
        if np.any(np.abs(w / eps - 1) < 1e-3):
            raise Ambiguous
        (bad,) = np.nonzero(np.abs(w) <= eps)
        z = wlse(e, b, w)
        if np.count_nonzero(w > 1e-6 * np.max(w)) <= b.shape[1] + 1:
            raise Ambiguous     # nearly exact fit: the residual is rounding noise
        r = e - b @ z
        cur = abs(np.vdot(r, w * r))
        if prev is not None:
            change = abs((cur - prev) / prev)
            if abs(change / tol - 1) < 1e-5:
                raise Ambiguous
            if change < tol:
                return z, bad
        prev = cur
    raise Fail('no convergence')


def chain(e, b, weights, rejected, **opts):
    """ rejected: indices dropped before.  Returns z, all rejected indices """
    keep = np.setdiff1d(np.arange(len(e)), np.asarray(rejected, int))
    z = None
    for wf in weights:
        if len(keep) == 0:
            raise Fail('nothing left')
        z, bad = m_step(e[keep], b[keep], z, wf, **opts)
        keep_next = np.delete(keep, bad)
        last = keep
        keep = keep_next
    return z, np.setdiff1d(np.arange(len(e)), keep)


def transfer(outputs, inputs, weights, rejected=None, **opts):
    b = np.array(inputs).T
    Z, IV = [], []
    for i, line in enumerate(outputs):
        z, iv = chain(np.array(line), b, weights,
                      () if rejected is None else rejected[i], **opts)
        Z.append(z)
        IV.append(iv)
    return np.array(Z), IV


def transfer_real(outputs, inputs, weights, rejected=None, **opts):
    q, n = np.shape(inputs)
    new_in = np.empty((2 * q, 2 * n))
    new_in[0::2, 0::2] = np.real(inputs)
    new_in[0::2, 1::2] = np.imag(inputs)
    new_in[1::2, 0::2] = -np.imag(inputs)
    new_in[1::2, 1::2] = np.real(inputs)
    new_out = np.empty((len(outputs), 2 * n))
    new_out[:, 0::2] = np.real(outputs)
    new_out[:, 1::2] = np.imag(outputs)
    if rejected is not None:
        rejected = [[2 * k + h for k in np.asarray(r, int) for h in (0, 1)] for r in rejected]
    z, iv = transfer(list(new_out), new_in, weights, rejected, **opts)
    # a window is rejected when one of its parts is
    return z[:, 0::2] + 1j * z[:, 1::2], [
        np.array(sorted({k // 2 for k in r}), int) for r in iv]


def transfer_error(outputs, inputs, Z, IV):
    inputs, outputs = np.array(inputs), np.array(outputs)
    n, p = outputs.shape[1], Z.shape[1]
    r = np.sqrt(n - p) / n
    ii = np.sqrt(np.abs(np.diag(np.linalg.inv(inputs @ inputs.conj().T))))
    return np.array([np.linalg.norm(line - z @ inputs) / r / (n - len(iv)) * ii
                     for line, z, iv in zip(outputs, Z, IV)])


def impedance_one(coeffs, e_idx, b_idx, r_idx, weights, rweights=None,
                  prefilter=None, rprefilter=None, opts=None, real=False):
    """ reference single-frequency estimate; raises Fail """
    opts = opts or {}
    fit = transfer_real if real else transfer
    e = [coeffs[i] for i in e_idx]
    b = [coeffs[i] for i in b_idx]
    n = len(e[0])

    def pre(outputs, inputs, f, base):
        if f is None:
            return base
        return [np.union1d(bb, f(o, np.transpose(inputs))).astype(int)
                for o, bb in zip(outputs, base)]
    try:
        if r_idx is not None:
            br = np.array([coeffs[i] for i in r_idx])
            rej = pre(b, br, rprefilter or prefilter, [np.empty(0, int)] * len(b))
            T, ivT = fit(b, br, rweights or weights, rej, **opts)
            be = T @ br
            merged = np.unique(np.concatenate([np.asarray(v, int) for v in ivT]))
            base = [merged] * len(e)
        else:
            T = None
            be = np.array(b)
            base = [np.empty(0, int)] * len(e)
        rej = pre(e, be, prefilter, base)
        Z, IV = fit(e, be, weights, rej, **opts)
    except np.linalg.LinAlgError as ex:
        raise Fail(str(ex))
    err = transfer_error(e, be, Z, IV)
    return Z, IV, err, T


def stable(compute, channels, rtol, repeats=2):
    """ compute(channels), when its answer does not hang on rounding: the same
    calculation with the channels changed by 1e-12 must agree (raise Ambiguous
    otherwise).  compute returns (arrays to compare, lists of indices, result) """
    def attempt(chans):
        try:
            return compute(chans)
        except (Fail, np.linalg.LinAlgError):
            return None
    base = attempt(channels)
    g = np.random.Generator(np.random.PCG64(len(channels)))
    for _ in range(repeats):
        other = attempt([c * (1 + 1e-12 * g.normal(size=len(c))) for c in channels])
        if (base is None) != (other is None):
            raise Ambiguous
        if base is None:
            continue
        for a, b in zip(base[0], other[0]):
            a, b = np.asarray(a), np.asarray(b)
            if a.size and not np.max(np.abs(a - b)) <= .05 * rtol * np.max(np.abs(a)):
                raise Ambiguous
        for a, b in zip(base[1], other[1]):
            if len(a) != len(b) or np.any(np.sort(a) != np.sort(b)):
                raise Ambiguous
    if base is None:
        raise Fail
    return base[2]


def window_times(IV, runs):
    """ runs: [(Nw, Lw, shift, rate, start)] -> centre time of each window """
    out = []
    for iv in IV:
        t = []
        for k in np.sort(np.asarray(iv, int)):
            for Nw, Lw, shift, rate, start in runs:
                if k < Nw:
                    t.append(start + (k * shift + .5 * Lw) / rate)
                    break
                k -= Nw
        out.append(np.array(t))
    return out


# ------------------------------------------------------------------- interval
def grid_pieces(chans):
    """ chans: {tag: [(first, last)]} inclusive sample indices on one grid.
    Returns sorted maximal common pieces [(first, last)] (as the intersection of
    all channels' coverage) """
    cur = None
    for segs in chans.values():
        segs = sorted(segs)
        cur = segs if cur is None else [
            (max(a, c), min(b, d)) for a, b in cur for c, d in segs
            if max(a, c) <= min(b, d)]
    return sorted(cur or [])


def join_touching(pieces):
    out = []
    for a, b in sorted(pieces):
        if out and a == out[-1][1] + 1:
            out[-1] = (out[-1][0], b)
        else:
            out.append((a, b))
    return out


# ---------------------------------------------------------------- calibration
def metronix_text(on, off, extra=''):
    """ on/off: [(freq, module, phase)] """
    def rows(t):
        return '\n'.join('%.6e\t%.6e\t%.6e' % r for r in t)
    return (f'Calibration measurement with MFS{extra}\nMagnetometer: #001\n'
            'Frequency  Magnitude Phase\n\n'
            f'Chopper On\n{rows(on)}\n\nChopper Off\n{rows(off)}\n\n')


def metronix_ref(table, version, chopper):
    return metronix_cal(table, {'MFS06': 4.0, 'MFS07': 32.0}[version], chopper)


def metronix_cal(table, alpha, chopper):
    t = np.array([tuple(float('%.6e' % v) for v in r) for r in table])
    f0 = t[:, 0]
    c = f0 * t[:, 1] * np.exp(1j * np.deg2rad(t[:, 2]))

    def calib(f):
        if f < f0[0] and chopper:
            ph = math.degrees(math.atan2(alpha, f))
            return f * t[0, 1] * np.exp(1j * np.deg2rad(ph))
        if f < f0.min() or f > f0.max():
            raise Fail('outside of the table')
        o = np.argsort(f0)
        return (np.interp(f, f0[o], c.real[o]) + 1j * np.interp(f, f0[o], c.imag[o]))
    return calib


def phoenix_text(nchan, rows, serial='0123', junk=False):
    """ rows: [(freq, level, re0, im0, re1, im1, ...)] """
    out = [f'2010/01/01, {serial}, H, {nchan}']
    if junk:
        out.append('freq, level, ' + ', '.join('c%d' % i for i in range(2 * nchan)))
    for r in rows:
        out.append(', '.join(['%.9e' % r[0], '%d' % r[1]] + ['%.9e' % v for v in r[2:]]))
    return '\n'.join(out) + '\n'


def phoenix_ref(nchan, rows, level):
    t = np.array([[float('%.9e' % v) for v in r] for r in rows if r[1] == level])
    f0 = t[:, 0]

    def one(i):
        v = t[:, 2 + 2 * i] + 1j * t[:, 3 + 2 * i]
        o = np.argsort(f0)

        def calib(f):
            if f < f0.min() or f > f0.max():
                raise Fail('outside of the table')
            return np.interp(f, f0[o], v.real[o]) + 1j * np.interp(f, f0[o], v.imag[o])
        return calib
    return [one(i) for i in range(nchan)]


def cod_values(e, b, size):
    """ coefficient of determination of each block of `size` windows; the last
    block also takes the remainder """
    n = len(e)
    nb = n // size
    edges = [k * size for k in range(max(nb, 1))] + [n]
    out = np.zeros(n)
    for a, z in zip(edges, edges[1:]):
        x, y = e[a:z], b[a:z]
        s = np.linalg.solve(y.conj().T @ y, y.conj().T @ x)
        r = y @ s - x
        with np.errstate(invalid='ignore'):
            out[a:z] = np.sqrt(1 - np.sum(np.abs(r) ** 2) / np.sum(np.abs(x) ** 2))
    return out


def cod_filter(lo, hi=1., size=10):
    def f(e, b):
        c = cod_values(e, b, size)
        return np.flatnonzero((c < lo) | (c > hi))
    return f
