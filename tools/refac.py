"""Behaviour-preserving rewrites of pyOTF, on which every check must stay quiet: refac.py [name[+name...] ...] [--checks=C01,...].

Each is applied to a scratch copy; the existing tests and then all quick checks are run against it.
"""
import json
import os
import shutil
import subprocess as sp
import sys
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/refac"
R = {}


def ref(name, *edits):
    R[name] = edits


ref("otf-cache-loop",
    ("otf.py", '''            try:
                delattr(self, attr)
            except AttributeError:
                logger.debug(f"{attr} wasn't available to delete")
''', '''            if self.__dict__.pop(attr, None) is None:
                logger.debug(f"{attr} wasn't available to delete")
'''),
    ("otf.py", "return (abs(self.PSFa) ** 2).sum(axis=0)", '''amplitude = self.PSFa
        intensity = amplitude.real ** 2 + amplitude.imag ** 2
        return np.sum(intensity, axis=0)'''))

ref("otf-psf-helpers",
    ("otf.py", '''        # apply the defocus to the base_pupil
        pupil = pupil_base * self._calc_defocus()
        # calculate theta, this is possible because we know that the
        # OTF is only non-zero on a spherical shell
        theta = np.arcsin((kr < kmag) * kr / kmag)
''', '''        # calculate theta, this is possible because we know that the
        # OTF is only non-zero on a spherical shell
        theta = np.arcsin(np.where(kr < kmag, kr, 0.0) / kmag)
        cos, sin = np.cos(theta), np.sin(theta)
'''),
    ("otf.py", '''        if self.condition != "none":
            if self.condition == "sine":
                a = 1.0 / np.sqrt(np.cos(theta))
            elif self.condition == "herschel":
                a = 1.0 / np.cos(theta)
            else:
                raise RuntimeError("You should never see this")
            pupil *= a
''', '''        pupil = pupil_base * self._condition_weight(cos) * self._calc_defocus()
'''),
    ("otf.py", '''                plist.append(np.sin(theta) * np.cos(phi))  # Pzx
                plist.append(np.sin(theta) * np.sin(phi))  # Pzy
''', '''                plist.extend((sin * np.cos(phi), sin * np.sin(phi)))
'''),
    ("otf.py", '''                plist.append((np.cos(theta) - 1) * np.sin(phi) * np.cos(phi))  # Pyx
                plist.append(np.cos(theta) * np.sin(phi) ** 2 + np.cos(phi) ** 2)  # Pyy
''', '''                plist.append((cos - 1) * np.sin(2 * phi) / 2)  # Pyx
                plist.append(1 + (cos - 1) * np.sin(phi) ** 2)  # Pyy
'''),
    ("otf.py", '''    def apply_pupil(self, pupil):
        """Apply a pupil function to the model."""
        self._attribute_changed()
        self.PSFa = self._gen_psf(pupil)
''', '''    def _condition_weight(self, cos):
        """Weight of the imaging condition."""
        weights = {"none": lambda c: 1.0, "sine": lambda c: c ** -0.5, "herschel": lambda c: 1.0 / c}
        return weights[self.condition](cos)

    def apply_pupil(self, pupil):
        """Apply a pupil function to the model."""
        psf = self._gen_psf(pupil)
        self.PSFa = psf
'''))

ref("otf-coords",
    ("otf.py", '''        k = self._k = fftfreq(self.size, self.res)
        kxx, kyy = np.meshgrid(k, k)
        self._kr, self._phi = cart2pol(kyy, kxx)
        # kmag is the radius of the spherical shell of the OTF
        self._kmag = self.ni / self.wl
        # because the OTF only exists on a spherical shell we can calculate
        # a kz value for any pair of kx and ky values
        self._kz = psqrt(self._kmag ** 2 - self._kr ** 2)
''', '''        k = fftfreq(self.size, self.res)
        kyy, kxx = np.meshgrid(k, k, indexing="ij")
        kr, phi = cart2pol(kyy, kxx)
        # kmag is the radius of the spherical shell of the OTF
        kmag = self.ni / self.wl
        # because the OTF only exists on a spherical shell we can calculate
        # a kz value for any pair of kx and ky values
        kz = psqrt(kmag ** 2 - kr ** 2)
        self._k, self._kr, self._phi, self._kmag, self._kz = k, kr, phi, kmag, kz
'''),
    ("otf.py", "        return np.exp(2 * np.pi * 1j * kz * self.zrange[:, np.newaxis, np.newaxis])",
     '''        phase = 2 * np.pi * np.multiply.outer(self.zrange, kz)
        return np.exp(1j * phase)'''),
    ("otf.py", "        return (kr < diff_limit).astype(complex)",
     '''        pupil = np.zeros(kr.shape, dtype=complex)
        pupil[kr < diff_limit] = 1
        return pupil'''),
    ("otf.py", '''        self._zrange = np.atleast_1d(np.array(value))
        self._attribute_changed()
''', '''        planes = np.array(value, ndmin=1)
        self._attribute_changed()
        self._zrange = planes
'''))

ref("otf-setters",
    ("otf.py", '''        if not value > 0:
            raise ValueError("zres must be positive")
        self._zres = value
        self._attribute_changed()
''', '''        if value > 0:
            self._zres = value
            self._attribute_changed()
        else:
            raise ValueError("zres must be positive")
'''),
    ("otf.py", "abbe_limit = 1 / (2 * self.na / self.wl)", "abbe_limit = 0.5 * self.wl / self.na if self.na else np.inf"),
    ("otf.py", '''        valid_values = {"none", "x", "y", "z", "total"}
        if value not in valid_values:
            raise ValueError("Vector correction must be one of {}".format(", ".join(valid_values)))
        self._vec_corr = value
''', '''        _check_option("Vector correction", value, ("none", "x", "y", "z", "total"))
        self._vec_corr = value
'''),
    ("otf.py", '''        valid_values = {"none", "sine", "herschel"}
        if value not in valid_values:
            raise ValueError(("Condition must be one of {}").format(", ".join(valid_values)))
''', '''        _check_option("Condition", value, ("none", "sine", "herschel"))
'''),
    ("otf.py", '''class BasePSF(object):
''', '''def _check_option(name, value, valid_values):
    """Raise if value isn't valid."""
    if isinstance(value, str) and value in valid_values:
        return
    raise ValueError(f"{name} must be one of {', '.join(valid_values)}")


class BasePSF(object):
'''),
    ("otf.py", '''        zres = self._validate_zrange()

        # normalize OTF and make sure it's real
        otf = abs(self.OTFi)
        otf = np.fmax(otf / otf.max(), np.finfo(float).eps)
''', '''        # normalize OTF and make sure it's real
        zres = self._validate_zrange()
        otf = np.abs(self.OTFi)
        peak = otf.max()
        otf = np.maximum(otf / peak, np.finfo(float).eps)
'''))

ref("otf-sheppard",
    ("otf.py", '''        if dk != dkz:
            with np.errstate(invalid="ignore"):
                dd = np.array((dkz, dk, dk)).reshape(3, 1, 1, 1)
                dkr = norm(np.array(k_tot) * dd, axis=0) / kr
            # we know the origin is zero so replace it
            dkr[0, 0, 0] = 0.0
        else:
            dkr = dk
        if self.dual:
            # if we want dual objectives we need two spherical shells
            kzz = abs(k_tot[0])
        else:
            kzz = k_tot[0]
''', '''        # if we want dual objectives we need two spherical shells
        kzz = np.abs(k_tot[0]) if self.dual else k_tot[0]
        dkr = dk
        if dk != dkz:
            weighted = norm([q * d for q, d in zip(k_tot, (dkz, dk, dk))], axis=0)
            dkr = np.divide(weighted, kr, out=np.zeros_like(kr), where=kr > 0)
'''),
    ("otf.py", '''            otf_sub = np.zeros((self.zsize, self.size, self.size), dtype="D")
            otf_sub[self.valid_points] = a
            otf = otf_sub[np.newaxis]
''', '''            otf = np.zeros((1, self.zsize, self.size, self.size), dtype=complex)
            otf[0, self.valid_points] = a
'''),
    ("otf.py", "            for o, p in zip(otf, plist):\n                o[self.valid_points] = p * a\n",
     "            otf[:, self.valid_points] = np.array(plist) * a\n"),
    ("otf.py", "m, n, s = np.array((kxx, kyy, kzz)) / norm((kxx, kyy, kzz), axis=0)",
     "length = np.sqrt(kxx ** 2 + kyy ** 2 + kzz ** 2)\n        m, n, s = kxx / length, kyy / length, kzz / length"))

ref("otf-aberration",
    ("otf.py", '''    if mcoefs is None:
        mcoefs = np.zeros_like(pcoefs)

    if pcoefs is None:
        pcoefs = np.zeros_like(mcoefs)

    assert len(mcoefs) == len(pcoefs), "Coefficient lengths don't match"
''', '''    mcoefs = np.zeros(len(pcoefs)) if mcoefs is None else mcoefs
    pcoefs = np.zeros(len(mcoefs)) if pcoefs is None else pcoefs

    assert len(mcoefs) == len(pcoefs), "Coefficient lengths don't match"
'''),
    ("otf.py", '''    pupil_phase = (zerns * pcoefs[:, None, None]).sum(0)
    pupil_mag = (zerns * mcoefs[:, None, None]).sum(0)
''', '''    pupil_phase = np.tensordot(pcoefs, zerns, 1)
    pupil_mag = np.tensordot(mcoefs, zerns, 1)
'''),
    ("otf.py", "    pupil_mag += abs(model._gen_pupil())\n", "    pupil_mag = pupil_mag + model._gen_pupil().real\n"),
    ("otf.py", '''    pcoefs = np.zeros(len(name2noll))
    for aberration, magnitude in aberrations.items():
        # Sum phase coefficients
        pcoefs = np.add(pcoefs, named_aberration_to_pcoefs(aberration, magnitude))
    return apply_aberration(model, None, pcoefs)
''', '''    each = [named_aberration_to_pcoefs(name, size) for name, size in aberrations.items()]
    return apply_aberration(model, None, np.sum([np.zeros(len(name2noll))] + each, axis=0))
'''))

ref("utils-pad",
    ("utils.py", '''    if oldnum % 2:
        pad1, pad2 = pad_s, pad_b
    else:
        pad1, pad2 = pad_b, pad_s
    return pad1, pad2
''', '''    return (pad_s, pad_b) if oldnum % 2 else (pad_b, pad_s)
'''),
    ("utils.py", '''        half2, half1 = _calc_pad(0, w)
        xstart = x - half1
        xend = x + half2
        assert xstart <= xend, "xstart > xend"
        if xend <= 0:
            xstart, xend = 0, 0
        # the max calls are to make slice_maker play nice with edges.
        toreturn.append(slice(max(0, xstart), xend))
''', '''        xstart = x - w // 2
        # the max calls are to make slice_maker play nice with edges.
        toreturn.append(slice(max(0, xstart), max(0, xstart + w)))
'''),
    ("utils.py", '''    for i, (x0, nx) in enumerate(zip(max_loc, data_shape)):
        centered_data = np.roll(centered_data, nx // 2 - x0, i)
    return centered_data
''', '''    shifts = [nx // 2 - x0 for x0, nx in zip(max_loc, data_shape)]
    return np.roll(centered_data, shifts, tuple(range(data.ndim)))
'''),
    ("utils.py", "    mode = np.bincount(data.ravel()).argmax()\n", '''    values, counts = np.unique(data, return_counts=True)
    mode = int(values[counts.argmax()])
'''))

ref("utils-bin",
    ("utils.py", '''    for i in range(len(new_shape)):
        op = getattr(ndarray, operation)
        ndarray = op(-1 * (i + 1))
    return ndarray
''', '''    return getattr(ndarray, operation)(axis=tuple(range(1, 2 * len(new_shape), 2)))
'''),
    ("utils.py", '''    tbin = np.bincount(r.ravel(), data.ravel())
    # sum the squares at equal r, as float because small integer types would overflow
    tbin2 = np.bincount(r.ravel(), (data.astype(float) ** 2).ravel())
    # find how many equal r's there are
    nr = np.bincount(r.ravel())
''', '''    r, data = r.ravel(), data.ravel().astype(float)
    tbin, tbin2 = np.bincount(r, data), np.bincount(r, data ** 2)
    # find how many equal r's there are
    nr = np.bincount(r)
'''),
    ("utils.py", "    r = np.sqrt(np.sum([i ** 2 for i in idx2], 0))\n", "    r = np.linalg.norm(idx2, axis=0)\n"))

ref("utils-prop",
    ("utils.py", '''                if not isinstance(value, self.vartype):
                    raise TypeError(f"{self.attr} must be an {self.vartype}, var = {value}")
                if value < 0:
                    raise ValueError(f"{self.attr} must be larger than 0")
                if getattr(obj, self.attr, None) != value:
                    setattr(obj, self.attr, value)
                    # call update code
                    obj._attribute_changed()
''', '''                self.validate(value)
                if getattr(obj, self.attr, None) == value:
                    return
                # call update code
                setattr(obj, self.attr, value)
                obj._attribute_changed()
'''),
    ("utils.py", '''        super().__init__(fget, fset, fdel, doc)
''', '''        super().__init__(fget, fset, fdel, doc)

    def validate(self, value):
        """Raise if value isn't valid."""
        if not isinstance(value, self.vartype):
            raise TypeError(f"{self.attr} must be an {self.vartype}, var = {value}")
        if value < 0:
            raise ValueError(f"{self.attr} must be larger than 0")
'''))

ref("utils-prep",
    ("utils.py", '''    if xysize == ny == nx:
        pad_data = data_without_bg
    elif xysize >= max(ny, nx):
        # pad data out to the proper size, pad with zeros
        pad_data = fft_pad(data_without_bg, (nz, xysize, xysize), mode="constant")
    else:
        # pad out a dimension that is smaller than xysize
        ny, nx = max(ny, xysize), max(nx, xysize)
        pad_data = fft_pad(data_without_bg, (nz, ny, nx), mode="constant")
''', '''    shrinking = xysize < max(ny, nx)
    ny, nx = max(ny, xysize), max(nx, xysize)
    pad_data = data_without_bg
    if (ny, nx) != data.shape[1:]:
        pad_data = fft_pad(data_without_bg, (nz, ny, nx), mode="constant")
    if shrinking:
'''),
    ("utils.py", "    return np.fmax(0, pad_data)\n", "    return np.clip(pad_data, 0, None)\n"),
    ("utils.py", "    return np.sqrt(np.fmax(0, data))\n", "    return np.sqrt(np.where(np.asarray(data) > 0, data, 0))\n"),
    ("utils.py", "    rho = np.hypot(y, x)\n    return rho, theta", "    return np.hypot(y, x), theta"))

ref("utils-fft",
    ("utils.py", "    return fftshift(fftn(ifftshift(data, axes=axes), axes=axes), axes=axes)",
     "    return _shifted(fftn, data, axes)"),
    ("utils.py", "    return fftshift(ifftn(ifftshift(data, axes=axes), axes=axes), axes=axes)",
     "    return _shifted(ifftn, data, axes)"),
    ("utils.py", "def easy_fft(data, axes=None):", '''def _shifted(transform, data, axes):
    """Transform with the origin in the middle."""
    data = ifftshift(data, axes=axes)
    data = transform(data, axes=axes)
    return fftshift(data, axes=axes)


def easy_fft(data, axes=None):'''),
    ("utils.py", '''        if hasattr(newshape, "__iter__"):
            # are we iterable?
            newshape = tuple(newshape)
        elif isinstance(newshape, int) or np.issubdtype(newshape, np.integer):
            # test for regular python int, then numpy ints
            newshape = tuple(newshape for n in oldshape)
        else:
            raise ValueError(f"{newshape} is not a recognized shape")
''', '''        if isinstance(newshape, (int, np.integer)):
            newshape = (newshape,) * len(oldshape)
        else:
            try:
                newshape = tuple(newshape)
            except TypeError:
                raise ValueError(f"{newshape} is not a recognized shape")
'''))

ref("zernike",
    ("zernike.py", "import numpy as np\nfrom scipy", "from functools import lru_cache\n\nimport numpy as np\nfrom scipy"),
    ("zernike.py", '''    # make sure that n and m are iterable
    n, m = n.ravel(), m.ravel()

    # make sure that n is always greater or equal to m
    if not (n >= abs(m)).all():
        raise ValueError("n must always be greater or equal to m")

    # return column of zernike polynomials
    return np.array([_zernike(r, theta, nn, mm, **kwargs) for nn, mm in zip(n, m)]).squeeze()
''', '''    # make sure that n and m are iterable
    n, m = np.atleast_1d(n), np.atleast_1d(m)

    # make sure that n is always greater or equal to m
    if np.any(n < abs(m)):
        raise ValueError("n must always be greater or equal to m")

    out = np.empty((len(n),) + r.shape)
    for i in range(len(n)):
        out[i] = _zernike(r, theta, int(n[i]), int(m[i]), **kwargs)
    return out.squeeze()
'''),
    ("zernike.py", '''    rad_zern = np.zeros_like(r)
    # zernike polynomials are only valid for r <= 1
    valid_points = r <= 1.0
    if m == 0 and n == 0:
        rad_zern[valid_points] = 1
        return rad_zern
    rprime = r[valid_points]
''', '''    # zernike polynomials are only valid for r <= 1
    valid_points = r <= 1.0
    rprime = np.where(valid_points, r, 0.0)
'''),
    ("zernike.py", '''    rad_zern[valid_points] = (-1) ** coef1 * rprime ** m * jacobi
    return rad_zern
''', '''    return np.where(valid_points, (-1) ** coef1 * rprime ** m * jacobi, 0.0)
'''),
    ("zernike.py", '''    if mneg:
        # odd zernike
        zern *= np.sin(m * theta)
    else:
        # even zernike
        zern *= np.cos(m * theta)
''', '''    angular = np.sin if mneg else np.cos
    zern = zern * angular(m * theta)
'''),
    ("zernike.py", '''        if m == 0:
            # m is zero
            norm = np.sqrt(n + 1)
        else:
            # m not zero
            norm = np.sqrt(2 * (n + 1))
        zern *= norm
    return zern
''', '''        zern = zern * _rms_norm(n, m)
    return zern


@lru_cache(maxsize=None)
def _rms_norm(n, m):
    """Normalise to unit RMS."""
    return np.sqrt((2 - (m == 0)) * (n + 1))
'''))

ref("pr-loop",
    ("phaseretrieval.py", '''    mse = np.zeros(max_iters)
    mse_diff = np.zeros(max_iters)
    pupil_diff = np.zeros(max_iters)
''', '''    mse, mse_diff, pupil_diff = [], [], []
'''),
    ("phaseretrieval.py", "        mse[i] = new_mse\n", "        mse.append(new_mse)\n"),
    ("phaseretrieval.py", "            mse_diff[i] = abs(old_mse - new_mse) / old_mse\n",
     "            mse_diff.append(abs(new_mse - old_mse) / old_mse)\n"),
    ("phaseretrieval.py", "            pupil_diff[i] = (abs(old_pupil - new_pupil) ** 2).mean() / (abs(old_pupil) ** 2).mean()\n",
     "            pupil_diff.append((abs(new_pupil - old_pupil) ** 2).sum() / (abs(old_pupil) ** 2).sum())\n"),
    ("phaseretrieval.py", "            mse_diff[i] = np.nan\n            pupil_diff[i] = np.nan\n",
     "            mse_diff.append(np.nan)\n            pupil_diff.append(np.nan)\n"),
    ("phaseretrieval.py", "    mse = mse[: i + 1]\n    mse_diff = mse_diff[: i + 1]\n    pupil_diff = pupil_diff[: i + 1]\n",
     "    mse, mse_diff, pupil_diff = np.array(mse), np.array(mse_diff), np.array(pupil_diff)\n"),
    ("phaseretrieval.py", '''        if pupil_diff[i] < pupil_tol or mse_diff[i] < mse_tol or mse[i] < mse_tol:
            break
''', '''        if mse[i] < mse_tol or mse_diff[i] < mse_tol or pupil_diff[i] < pupil_tol:
            break
'''),
    ("phaseretrieval.py", '''        # generate the new pupils
        new_pupils = fftn(ifftshift(new_psf, axes=(1, 2)), axes=(1, 2))
        # undo defocus and take the mean
        new_pupils /= model._calc_defocus()
        new_pupil = new_pupils.mean(0) * mask
        # if phase only discard magnitude info
        if phase_only:
            new_pupil = np.exp(1j * np.angle(new_pupil)) * mask
''', '''        new_pupil = _next_pupil(model, new_psf, mask, phase_only)
'''),
    ("phaseretrieval.py", '''class PhaseRetrievalResult(object):
''', '''def _next_pupil(model, psf, mask, phase_only):
    """Return the pupil of a field."""
    pupils = fftn(ifftshift(psf, axes=(1, 2)), axes=(1, 2))
    # undo defocus and take the mean
    pupil = (pupils * model._calc_defocus().conj()).mean(0)
    # if phase only discard magnitude info
    if phase_only:
        pupil = np.exp(1j * np.angle(pupil))
    return pupil * mask


class PhaseRetrievalResult(object):
'''))

ref("pr-result",
    ("phaseretrieval.py", '''            if nx < size:
                # if size is too small, pad it out, keeping the center at size // 2
                lb = size // 2 - nx // 2
                hb = size - nx - lb
                psf = np.pad(psf, ((0, 0), (lb, hb), (lb, hb)), mode="constant")
            elif nx > size:
                # if size is too big, crop it
                lb = size // 2
                hb = size - lb
                myslice = slice(nx // 2 - lb, nx // 2 + hb)
                psf = psf[:, myslice, myslice]
''', '''            out = np.zeros((nz, size, size), dtype=psf.dtype)
            half = min(nx, size) // 2
            n = min(nx, size)
            here = slice(size // 2 - half, size // 2 - half + n)
            there = slice(nx // 2 - half, nx // 2 - half + n)
            out[:, here, here] = psf[:, there, there]
            psf = out
'''),
    ("phaseretrieval.py", "        model = copy.copy(self.model)\n        # update", "        model = copy.deepcopy(self.model)\n        # update"),
    ("phaseretrieval.py", "    return (coefs[:, np.newaxis, np.newaxis] * zerns).sum(0)", "    return np.einsum(\"m,m...->...\", coefs, zerns)"),
    ("phaseretrieval.py", '''        mag = self.mag(smag)
        phase = self.phase(sphase)
        return mag * np.exp(1j * phase)
''', '''        phase = self.phase(sphase)
        return self.mag(smag) * (np.cos(phase) + 1j * np.sin(phase))
'''),
    ("phaseretrieval.py", '''        r = r / (self.na / self.wl)
''', '''        r = r * self.wl / self.na
'''))

ref("micro-base",
    ("microscope.py", '''        # try removing the PSF
        try:
            del self.PSF
        except AttributeError:
            pass
        # try removing the PSF
        try:
            del self.OTF
        except AttributeError:
            pass
''', '''        for name in ("OTF", "PSF"):
            self.__dict__.pop(name, None)
'''),
    ("microscope.py", '''        if self.oversample_factor > 1:
            if self.psf_params["size"] % 2 == 0:
                # if we're even then we'll be in the upper left hand corner of the super pixel
                # and we'll need to shift to the bottom and right by oversample_factor // 2
                shift = self.oversample_factor // 2
                psf = np.roll(psf, (shift, shift), axis=(1, 2))

            # only bin in the lateral direction
            psf = bin_ndarray(psf, bin_size=(1, self.oversample_factor, self.oversample_factor))

        # normalize psf
        return psf / psf.sum()
''', '''        factor = self.oversample_factor
        # if we're even then we'll be in the upper left hand corner of the super pixel
        # and we'll need to shift to the bottom and right by factor // 2
        shift = 0 if self.psf_params["size"] % 2 else factor // 2
        psf = np.roll(psf, (shift, shift), axis=(1, 2))
        psf = bin_ndarray(psf, bin_size=(1, factor, factor))
        total = psf.sum()
        return psf / total
'''),
    ("microscope.py", '''        self.oversample_factor = oversample_factor
        self.pixel_size = pixel_size
''', '''        self.pixel_size = pixel_size
'''))

ref("micro-sim",
    ("microscope.py", '''            # if we're not coherent reinitialize for the new orientation.
            if not self.coherent:
                exc_pattern = base_pattern.copy()
            else:
                exc_pattern = base_pattern
''', '''            # if we're not coherent reinitialize for the new orientation.
            exc_pattern = base_pattern if self.coherent else base_pattern.copy()
'''),
    ("microscope.py", '''            for theta in (-alpha, alpha):
                exc_pattern += np.exp(1j * ((rr * np.sin(theta) + zz * np.cos(theta)) * freq))
''', '''            exc_pattern += 2 * np.cos(rr * np.sin(alpha) * freq) * np.exp(1j * zz * np.cos(alpha) * freq)
'''),
    ("microscope.py", '''            if not self.coherent:
                sim_psf += psf * (abs(exc_pattern) ** 2)
''', '''            if not self.coherent:
                sim_psf = sim_psf + psf * (exc_pattern.real ** 2 + exc_pattern.imag ** 2)
'''),
    ("microscope.py", '''                wiener_otf = otf > 1e-16
            else:
                w = otf.max() * self.wiener ** 2
                wiener_otf = otf / (otf + w)
''', '''                wiener_otf = (otf > 1e-16).astype(float)
            else:
                wiener_otf = 1 / (1 + otf.max() * self.wiener ** 2 / np.fmax(otf, 1e-300))
'''))

ref("micro-conf",
    ("microscope.py", '''        if pixel_pinhole_radius > 1.5:
            kernel = _disk_kernel(pixel_pinhole_radius)
            psf_det_au = fftconvolve(self.model.PSFi, kernel[None], "same", axes=(1, 2))
        else:
            psf_det_au = self.model.PSFi
        psf_con_au = psf_det_au * self.model_exc.PSFi
        return psf_con_au
''', '''        excitation = self.model_exc.PSFi
        detection = self.model.PSFi
        if pixel_pinhole_radius > 1.5:
            kernel = _disk_kernel(pixel_pinhole_radius)
            detection = np.array([fftconvolve(plane, kernel, "same") for plane in detection])
        return excitation * detection
'''),
    ("microscope.py", '''    full_size = int(np.ceil(radius * 2))
    if full_size % 2 == 0:
        full_size += 1
    coords = np.indices((full_size, full_size)) - (full_size - 1) // 2
    r = np.sqrt((coords ** 2).sum(0))
    kernel = r < radius
    return kernel / kernel.sum()
''', '''    half = int(np.ceil(radius * 2)) // 2
    x = np.arange(-half, half + 1)
    kernel = (np.hypot(x[:, None], x) < radius).astype(float)
    kernel /= kernel.sum()
    return kernel
'''),
    ("microscope.py", '''        rotf = np.array([radial_profile(o)[0] for o in hybrid_otf])
        rotf /= rotf.max()
        rotf = abs(rotf)
''', '''        rotf = np.abs([radial_profile(o)[0] for o in hybrid_otf])
'''),
    ("microscope.py", '''        self.pinhole_size = pinhole_size

        # make the emission PSF
        self.model_exc = copy.deepcopy(self.model)
        self.wl_exc = wl_exc
''', '''        # make the emission PSF
        self.model_exc = copy.deepcopy(self.model)
        self.wl_exc = wl_exc
        self.pinhole_size = pinhole_size
'''))

ref("display",
    ("display.py", '''    min_ = (n // 2) * d
    max_ = (n // 2 - (n - 1) % 2) * d
    return -min_, max_
''', '''    return -(n // 2) * d, (n - 1 - n // 2) * d
'''),
    ("display.py", '''    if mip:
        grid[3].imshow(psf.max(0), **dkwargs, extent=(*kx, *ky))
        grid[2].imshow(psf.max(2).T, **dkwargs, extent=(*kz, *ky))
        grid[1].imshow(psf.max(1), **dkwargs, extent=(*kx, *kz))
    else:
        grid[3].imshow(psf[nz // 2, :, :], **dkwargs, extent=(*kx, *ky))
        grid[2].imshow(psf[:, :, nx // 2].T, **dkwargs, extent=(*kz, *ky))
        grid[1].imshow(psf[:, ny // 2, :], **dkwargs, extent=(*kx, *kz))
''', '''    if mip:
        xy, xz, yz = (psf.max(axis) for axis in range(3))
    else:
        xy, xz, yz = psf[nz // 2], psf[:, ny // 2], psf[:, :, nx // 2]
    for i, img, ext in ((1, xz, (*kx, *kz)), (2, yz.T, (*kz, *ky)), (3, xy, (*kx, *ky))):
        grid[i].imshow(img, extent=ext, **dkwargs)
'''),
    ("display.py", '''    def func(n):
        return n - np.sqrt(max(0, n ** 2 - na ** 2))

    return func(n1) / func(n2)
''', '''    extents = [n - max(0, n ** 2 - na ** 2) ** 0.5 for n in (n1, n2)]
    return extents[0] / extents[1]
'''))

ref("labview",
    ("labview.py", "retrieve_phase(data_prepped, params, max_iters, pupil_tol, mse_tol, phase_only)", '''retrieve_phase(
        data_prepped,
        params,
        phase_only=phase_only,
        mse_tol=mse_tol,
        pupil_tol=pupil_tol,
        max_iters=max_iters,
    )'''))

# other ways of writing what a property is about
ref("otf-property-cache",
    ("otf.py", '''    @cached_property
    def PSFa(self):
        """Amplitude PSF."""
        return self._gen_psf()
''', '''    @property
    def PSFa(self):
        """Amplitude PSF."""
        try:
            return self.__dict__["PSFa"]
        except KeyError:
            psf = self.__dict__["PSFa"] = self._gen_psf()
            return psf

    @PSFa.setter
    def PSFa(self, value):
        self.__dict__["PSFa"] = value

    @PSFa.deleter
    def PSFa(self):
        try:
            del self.__dict__["PSFa"]
        except KeyError:
            raise AttributeError("PSFa") from None
'''))

ref("otf-repr",
    ("otf.py", '''        return (
            f"{self.__class__.__name__}(wl={self.wl}, na={self.na}, ni={self.ni},"
            + f" res={self.res}, size={self.size}, zres={self.zres}, zsize={self.zsize},"
            + f" vec_corr='{self.vec_corr}', condition='{self.condition}')"
        )
''', '''        names = "wl", "na", "ni", "res", "size", "zres", "zsize", "vec_corr", "condition"
        args = ", ".join(f"{name}={getattr(self, name)!r}" for name in names)
        return f"{type(self).__name__}({args})"
'''),
    ("otf.py", '''        super().__init__(*args, **kwargs)
        if zrange is None:
            self._gen_zrange()
        else:
            self.zrange = zrange
''', '''        super().__init__(*args, **kwargs)
        if zrange is not None:
            self.zrange = zrange
            return
        self._gen_zrange()
'''))

ref("two-micro",
    ("microscope.py", '        return psf / psf.sum()\n', '        return psf * (1 / psf.sum())\n'),
    ("microscope.py", 'psf = bin_ndarray(psf, bin_size=(1, self.oversample_factor, self.oversample_factor))',
     'psf = bin_ndarray(psf, bin_size=(1, self.oversample_factor, self.oversample_factor), operation="mean")'),
    ("microscope.py", """        # the planes of the model can be set independently of zres
        if len(getattr(self.model, "zrange", ())) > 2:
            return self.model._validate_zrange()
        return self.model.zres
""", """        zrange = getattr(self.model, "zrange", None)
        if zrange is None or len(zrange) <= 2:
            return self.model.zres
        return self.model._validate_zrange()
"""),
    ("microscope.py", """        # normalize OTF and make sure it's real
        otf = abs(self.OTF)
        otf = np.fmax(otf / otf.max(), np.finfo(float).eps)
""", """        otf = np.abs(self.OTF)
        otf = np.maximum(otf / otf.max(), np.finfo(float).eps)
"""),
    ("microscope.py", """        # nice default plotting kwargs
        dkwargs = dict(vmin=1e-4)
        dkwargs.update(kwargs)

        fig, axs = otf_plot(
            otf,
            na=self.model.na,
            ni=self.model.ni,
            wl=self.model.wl,
            zres=self._plot_zres(),
            res=self.pixel_size,
            **dkwargs,
        )
        return fig, axs
""", """        kwargs.setdefault("vmin", 1e-4)
        optics = {name: getattr(self.model, name) for name in ("na", "ni", "wl")}
        return otf_plot(otf, zres=self._plot_zres(), res=self.pixel_size, **optics, **kwargs)
"""),
    ("microscope.py", """        # Calculate the AU in pixels
        airy_unit = 1.22 * self.model.wl / self.model.na / self.model.res
        logger.debug(f"Airy unit = {airy_unit:}")
        # Calculate the pinhole radius in pixels
        pixel_pinhole_radius = self.pinhole_size * airy_unit / 2
        #
""", """        # Calculate the pinhole radius in pixels
        pixel_pinhole_radius = 0.61 * self.model.wl / self.model.na / self.model.res * self.pinhole_size
"""),
    ("microscope.py", """        # define the Abbe diffraction limit in frequency space pixels.
        nyquist_sampling = self.psf_params["wl"] / self.psf_params["na"] / 4
        abbe_limit = int(
            np.rint(self.psf_params["size"] * self.psf_params["res"] / nyquist_sampling / 2)
        )

        # define the approximate axial response of the system
        axial_profile = rotf[:, abbe_limit // 2]

        psf_apotome = axial_profile[:, None, None] * self.model.PSFi
        return psf_apotome
""", """        # define the Abbe diffraction limit in frequency space pixels.
        params = self.psf_params
        nyquist_sampling = params["wl"] / params["na"] / 4
        abbe_limit = round(params["size"] * params["res"] / nyquist_sampling / 2)
        index = abbe_limit // 2
        return np.einsum("z,zyx->zyx", rotf[:, index], self.model.PSFi)
"""),
    ("microscope.py", """        # If we're not coherent, initialize the PSF
        if not self.coherent:
            sim_psf = np.zeros_like(psf)
""", """        # If we're not coherent, sum up the intensities of the patterns
        intensity = 0
"""),
    ("microscope.py", """            if not self.coherent:
                sim_psf += psf * (abs(exc_pattern) ** 2)

        # if we are coherent then just calculate the total PSF
        if self.coherent:
            sim_psf = psf * (abs(exc_pattern) ** 2)
        else:
            # If we want to suppress the DC component do it here.
            if self.dc_suppress:
                sim_psf -= (2 * len(self.orientations) - 1) * psf

        return sim_psf
""", """            if not self.coherent:
                intensity = intensity + abs(exc_pattern) ** 2

        # if we are coherent then just calculate the total PSF
        if self.coherent:
            return psf * abs(exc_pattern) ** 2
        # If we want to suppress the DC component do it here.
        if self.dc_suppress:
            intensity = intensity - (2 * len(self.orientations) - 1)
        return psf * intensity
"""))

ref("two-otf",
    ("otf.py", """        self.zrange = (np.arange(self.zsize) - self.zsize // 2) * self.zres
""", """        first = -(self.zsize // 2)
        self.zrange = np.arange(first, first + self.zsize) * self.zres
"""),
    ("otf.py", """        theta = np.arcsin((kr < kmag) * kr / kmag)
""", """        sin = np.where(kr < kmag, kr, 0) / kmag
        cos = np.sqrt(1 - sin ** 2)
        sphi, cphi = np.sin(phi), np.cos(phi)
"""),
    ("otf.py", """                a = 1.0 / np.sqrt(np.cos(theta))
""", """                a = cos ** -0.5
"""),
    ("otf.py", """                a = 1.0 / np.cos(theta)
""", """                a = 1 / cos
"""),
    ("otf.py", """                plist.append(np.sin(theta) * np.cos(phi))  # Pzx
                plist.append(np.sin(theta) * np.sin(phi))  # Pzy
""", """                plist.append(sin * cphi)  # Pzx
                plist.append(sin * sphi)  # Pzy
"""),
    ("otf.py", """                plist.append((np.cos(theta) - 1) * np.sin(phi) * np.cos(phi))  # Pyx
                plist.append(np.cos(theta) * np.sin(phi) ** 2 + np.cos(phi) ** 2)  # Pyy
""", """                plist.append(-(sin ** 2) / (1 + cos) * sphi * cphi)  # Pyx
                plist.append(1 - (1 - cos) * sphi ** 2)  # Pyy
"""),
    ("otf.py", """                plist.append(np.cos(theta) * np.cos(phi) ** 2 + np.sin(phi) ** 2)  # Pxx
                plist.append((np.cos(theta) - 1) * np.sin(phi) * np.cos(phi))  # Pxy
""", """                plist.append(1 - (1 - cos) * cphi ** 2)  # Pxx
                plist.append(-(sin ** 2) / (1 + cos) * sphi * cphi)  # Pxy
"""),
    ("otf.py", """        PSFa = fftshift(ifftn(pupils, axes=(2, 3)), axes=(2, 3))
        # save the PSF internally
        return PSFa
""", """        return np.array([fftshift(ifftn(p, axes=(1, 2)), axes=(1, 2)) for p in pupils])
"""),
    ("otf.py", """        return np.exp(2 * np.pi * 1j * kz * self.zrange[:, np.newaxis, np.newaxis])
""", """        phase = 2 * np.pi * np.multiply.outer(self.zrange, kz)
        return np.cos(phase) + 1j * np.sin(phase)
"""),
    ("otf.py", """    pupil_total = pupil_mag * np.exp(1j * pupil_phase)
    model.apply_pupil(pupil_total)
""", """    model.apply_pupil(pupil_mag * (np.cos(pupil_phase) + 1j * np.sin(pupil_phase)))
"""),
    ("otf.py", """    pupil_phase = (zerns * pcoefs[:, None, None]).sum(0)
    pupil_mag = (zerns * mcoefs[:, None, None]).sum(0)
""", """    pupil_phase = np.tensordot(pcoefs, zerns, 1)
    pupil_mag = np.tensordot(mcoefs, zerns, 1)
"""),
    ("otf.py", """        if self.condition == "sine":
            a = 1.0 / np.sqrt(s)
        elif self.condition == "herschel":
            a = 1.0 / s
        elif self.condition == "none":
            a = 1.0
        else:
            raise RuntimeError("You should never see this")
""", """        a = s ** -{"none": 0.0, "sine": 0.5, "herschel": 1.0}[self.condition]
"""),
    ("otf.py", """            kzz = abs(k_tot[0])
        else:
            kzz = k_tot[0]
""", """            kzz = np.hypot(k_tot[0], 0)
        else:
            kzz = k_tot[0]
"""),
    ("otf.py", """        self.valid_points = np.logical_and(abs(kr - kmag) < dkr, kzz > kz_min + dkr)
""", """        shell = abs(kr - kmag) < dkr
        cap = kzz > kz_min + dkr
        self.valid_points = shell & cap
"""),
    ("otf.py", """        return easy_ifft(self.OTFa, axes=(1, 2, 3))
""", """        return np.stack([easy_ifft(part) for part in self.OTFa])
"""))

ref("two-pr",
    ("phaseretrieval.py", """        phase = np.angle(model.PSFa.squeeze())
        # replace magnitude with experimentally measured mag
        new_psf = mag * np.exp(1j * phase)
""", """        phase = np.angle(model.PSFa[0])
        # replace magnitude with experimentally measured mag
        new_psf = mag * (np.cos(phase) + 1j * np.sin(phase))
"""),
    ("phaseretrieval.py", """        new_pupils /= model._calc_defocus()
        new_pupil = new_pupils.mean(0) * mask
""", """        new_pupils = new_pupils * model._calc_defocus().conj()
        new_pupil = np.mean(new_pupils, axis=0) * mask
"""),
    ("phaseretrieval.py", """    return ((data1 - data2) ** 2).mean()
""", """    return np.mean(np.square(data1 - data2))
"""),
    ("phaseretrieval.py", """            new_pupil = np.exp(1j * np.angle(new_pupil)) * mask
""", """            angle = np.angle(new_pupil)
            new_pupil = mask * np.cos(angle) + 1j * mask * np.sin(angle)
"""),
    ("phaseretrieval.py", """        self.zd_result = ZernikeDecomposition(mag_coefs, phase_coefs, zerns)
        return self.zd_result
""", """        zd_result = ZernikeDecomposition(mag_coefs, phase_coefs, zerns)
        self.zd_result = zd_result
        return zd_result
"""),
    ("phaseretrieval.py", """        mag_coefs = _fit_to_zerns(self.mag, zerns, r)
        phase_coefs = _fit_to_zerns(self.phase, zerns, r)
""", """        mag_coefs, phase_coefs = (_fit_to_zerns(x, zerns, r) for x in (self.mag, self.phase))
"""),
    ("phaseretrieval.py", """    coefs, _, _, _ = lstsq(zerns2fit, data2fit, rcond=None, **kwargs)
    # return the coefficients
    return coefs
""", """    return lstsq(zerns2fit, data2fit, rcond=None, **kwargs)[0]
"""),
    ("phaseretrieval.py", """        np.ma.array(phase, mask=mag == 0), cmap=""", """        np.ma.masked_where(mag == 0, phase), cmap="""),
    ("phaseretrieval.py", """        x = np.arange(len(ordered_names)) + 1
        # make the bar plot
        ax.bar(x[4:], data[4:], align="center", tick_label=ordered_names[4:])
""", """        x = range(5, len(ordered_names) + 1)
        # make the bar plot
        ax.bar(x, data[4:], tick_label=ordered_names[4:])
"""))

ref("two-utils",
    ("utils.py", """    centered_data = data.copy()
    # extract shape and max location
""", """    # extract shape and max location
"""),
    ("utils.py", """    # iterate through dimensions and roll data to the right place
    for i, (x0, nx) in enumerate(zip(max_loc, data_shape)):
        centered_data = np.roll(centered_data, nx // 2 - x0, i)
    return centered_data
""", """    # roll data to the right place
    shifts = tuple(nx // 2 - x0 for x0, nx in zip(max_loc, data_shape))
    return np.roll(data, shifts, tuple(range(data.ndim)))
"""),
    ("utils.py", """    # sum the squares at equal r, as float because small integer types would overflow
    tbin2 = np.bincount(r.ravel(), (data.astype(float) ** 2).ravel())
""", ""),
    ("utils.py", """    radial_std = np.sqrt(np.maximum(0, tbin2 / nr - radial_mean ** 2))
""", """    deviations = (data - radial_mean[r]) ** 2
    radial_std = np.sqrt(np.bincount(r.ravel(), deviations.ravel()) / nr)
"""),
    ("utils.py", """    idx2 = idx - center[(Ellipsis,) + (np.newaxis,) * (data.ndim)]
    r = np.sqrt(np.sum([i ** 2 for i in idx2], 0))
""", """    r = np.sqrt(sum((i - c) ** 2 for i, c in zip(idx, center)))
"""),
    ("utils.py", """    toreturn = []
    for x, w in zip(xs, ws):
        half2, half1 = _calc_pad(0, w)
        xstart = x - half1
        xend = x + half2
        assert xstart <= xend, "xstart > xend"
        if xend <= 0:
            xstart, xend = 0, 0
        # the max calls are to make slice_maker play nice with edges.
        toreturn.append(slice(max(0, xstart), xend))
    # return a list of slices
    return tuple(toreturn)
""", """    starts = xs - ws // 2
    ends = starts + ws
    return tuple(slice(max(0, a), b) if b > 0 else slice(0, 0) for a, b in zip(starts.tolist(), ends.tolist()))
"""),
    ("utils.py", """    theta = np.arctan2(y, x)
    rho = np.hypot(y, x)
    return rho, theta
""", """    x, y = np.asarray(x), np.asarray(y)
    return np.sqrt(x ** 2.0 + y ** 2.0), np.arctan2(y, x)
"""),
    ("utils.py", """    for i in range(len(new_shape)):
        op = getattr(ndarray, operation)
        ndarray = op(-1 * (i + 1))
    return ndarray
""", """    op = getattr(ndarray, operation)
    return op(axis=tuple(range(1, ndarray.ndim, 2)))
"""),
    ("zernike.py", "    jacobi = eval_jacobi(coef2, m, 0, 1 - 2 * rprime ** 2)\n    rad_zern[valid_points] = (-1) ** coef1 * rprime ** m * jacobi\n",
     "    jacobi = (-1) ** coef2 * eval_jacobi(coef2, 0, m, 2 * rprime ** 2 - 1)\n    rad_zern[valid_points] = (-1) ** coef1 * rprime ** m * jacobi\n"))

ref("two-display",
    ("display.py", """    fd = {"fontweight": "bold"}
    # add titles
    grid[3].set_title("$XY$", fd)
    grid[2].set_title("$YZ$", fd)
    grid[1].set_title("$XZ$", fd)
""", """    for g, name in zip(grid[1:], ("XZ", "YZ", "XY")):
        g.set_title(f"${name}$", fontweight="bold")
"""),
    ("display.py", """    step_size = 1 / d / n
    return max_min(n, step_size)
""", """    return max_min(n, 1 / (n * d))
"""),
    ("display.py", """    kz, ky, kx = [fft_max_min(n, d) for n, d in zip(otf.shape, (zres, res, res))]

    grid[3].imshow(otf[nz // 2, :, :], **dkwargs, extent=(*kx, *ky))
    grid[2].imshow(otf[:, :, nx // 2].T, **dkwargs, extent=(*kz, *ky))
    grid[1].imshow(otf[:, ny // 2, :], **dkwargs, extent=(*kx, *kz))
""", """    kz = fft_max_min(nz, zres)
    kx = ky = fft_max_min(nx, res)
    panels = (
        (grid[3], otf[nz // 2], kx, ky),
        (grid[2], otf[..., nx // 2].T, kz, ky),
        (grid[1], otf[:, ny // 2], kx, kz),
    )
    for ax, image, horizontal, vertical in panels:
        ax.imshow(image, **dkwargs, extent=horizontal + vertical)
"""))


def prepare(name):
    d = f"{W}/{name}"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree("/repo", d, symlinks=True)
    for f, old, new in (e for n in name.split("+") for e in R[n]):
        p = f"{d}/pyotf/{f}"
        t = open(p).read()
        assert t.count(old) == 1, (name, f, t.count(old), old)
        open(p, "w").write(t.replace(old, new))
    return d


def main():
    names = [a for a in sys.argv[1:] if not a.startswith("--")] or list(R)
    checks = [f"C{i:02d}" for i in range(1, 28)]
    for a in sys.argv[1:]:
        if a.startswith("--checks="):
            checks = a[9:].split(",")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
    dirs = {n: prepare(n) for n in names}
    shutil.rmtree(W + "/verif", ignore_errors=True)
    shutil.copytree(V, W + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "evidence", "replays"))

    def test(n):
        return n, sp.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "--no-header", "-p", "no:cacheprovider"],
                         cwd=dirs[n], env=env, capture_output=True, text=True)

    with ThreadPoolExecutor(4) as ex:
        for n, r in ex.map(test, names):
            print("tests", n, r.stdout.splitlines()[-1] if r.stdout else r.stderr[-300:], flush=True)

    def check(job):
        n, c = job
        r = sp.run(["/opt/venv/bin/python", "run.py", c, "--tier", "quick"], cwd=W + "/verif", capture_output=True, text=True,
                   env=dict(os.environ, VERIF_REPO=dirs[n], VERIF_JOBS="3", VERIF_MAX_VIOLATIONS="1"))
        return n, c, r

    bad = 0
    with ThreadPoolExecutor(2) as ex:
        for n, c, r in ex.map(check, [(n, c) for n in names for c in checks]):
            if r.returncode or "VIOLATION" in r.stdout:
                bad += 1
                print("ALARM", n, c, r.returncode, r.stdout[-900:], r.stderr[-300:], flush=True)
        print("done,", bad, "alarms", flush=True)
    for n in names:
        shutil.rmtree(dirs[n], ignore_errors=True)
    shutil.rmtree(W + "/verif", ignore_errors=True)


if __name__ == "__main__":
    main()
