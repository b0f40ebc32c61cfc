"""A small field of view: pixel, meta, PSF and spline data on disk, written without the code under test."""
import json
import os

import h5py
import numpy as np

from .core import REPO

PSF_COLS = ["amp", "xcen", "ycen", "Cxx", "Cyy", "Cxy"]
PSF_DTYPE = np.dtype([(c, np.float32) for c in PSF_COLS] + [("sersic_bin", np.int32)])
RA0, DEC0 = 53.0, -27.5


def header(ra, dec, nside, scale, theta, crpix, extra=()):
    from astropy.io import fits
    h = fits.Header()
    h["SIMPLE"] = True
    h["BITPIX"] = -32
    h["NAXIS"] = 2
    h["NAXIS1"], h["NAXIS2"] = nside, nside
    h["CTYPE1"], h["CTYPE2"] = "RA---TAN", "DEC--TAN"
    h["CRVAL1"], h["CRVAL2"] = ra, dec
    h["CRPIX1"], h["CRPIX2"] = crpix
    c, s = np.cos(theta), np.sin(theta)
    h["CD1_1"], h["CD1_2"] = -scale / 3600 * c, scale / 3600 * s
    h["CD2_1"], h["CD2_2"] = scale / 3600 * s, scale / 3600 * c
    for k, v in extra:
        h[k] = v
    return h


def superpixels(im, ierr, s):
    nx, ny = im.shape[0] // s, im.shape[1] // s
    f = lambda a: a.reshape(nx, s, ny, s).transpose(0, 2, 1, 3).reshape(nx, ny, s * s)
    return np.concatenate([f(im), f(ierr)], axis=-1).astype(np.float32)


class Field:
    """bands, exposures (dithered, rotated, one off to the side), PSFs of several gaussians, splines"""

    def __init__(self, root, seed=7, nside=32, sps=8, scale=0.06, bands=("F090W", "F200W", "F444W"), nexp=(2, 1, 2), fits=False, expname="exp{}"):
        rng = np.random.default_rng(seed)
        self.root, self.nside, self.sps, self.scale, self.bands = root, nside, sps, scale, list(bands)
        os.makedirs(root, exist_ok=True)
        self.pixelstore = os.path.join(root, "pix.h5")
        self.metastore = os.path.join(root, "meta.json")
        self.psfstore = os.path.join(root, "psf.h5")
        self.splinedata = os.path.join(root, "spline.h5")
        with h5py.File(os.path.join(REPO, "demo", "data", "sersic_splinedata_large.h5"), "r") as f, h5py.File(self.splinedata, "w") as o:
            for k in f:
                o.create_dataset(k, data=f[k][:])
            nrad = len(f["radii"])
        self.exposures = []
        self.fitsfiles = []
        self.fitsimages = {}         # the same, as in the FITS files
        self.images = {}             # (band, exposure): image, inverse error, header
        headers = {}
        with h5py.File(self.pixelstore, "w") as h:
            h.attrs["nside_full"] = np.array(nside)
            h.attrs["super_pixel_size"] = sps
            for b, band in enumerate(self.bands):
                headers[band] = {}
                for e in range(nexp[b]):
                    exp = expname.format(e)
                    off = rng.uniform(-3, 3, 2)
                    if e == 1:
                        off = off + np.array([nside * 0.45, 0])   # covers only half of the field
                    hdr = header(RA0, DEC0, nside, scale, rng.uniform(0, 6), tuple(nside / 2 + off), [("FILTER", band), ("BKG", 0.01 * (e + 1) + 0.003 * b)])
                    im = rng.normal(0, 1, (nside, nside)).astype(np.float32)
                    yy, xx = np.meshgrid(np.arange(nside), np.arange(nside))
                    for k in range(4):
                        x, y = rng.uniform(4, nside - 4, 2)
                        im += 30 * np.exp(-0.5 * ((xx - x)**2 + (yy - y)**2) / 4).astype(np.float32)
                    ierr = rng.uniform(0.5, 2, (nside, nside)).astype(np.float32)
                    ierr[rng.uniform(size=ierr.shape) < 0.03] = 0
                    h.create_dataset(f"{band}/{exp}/data", data=superpixels(im, ierr, sps))
                    headers[band][exp] = hdr.tostring()
                    self.exposures.append((band, exp))
                    self.images[band, exp] = (im, ierr, hdr)
                    if fits:
                        from astropy.io import fits as pyfits
                        fn = os.path.join(root, f"{band}_{exp}.fits")
                        cut = slice(0, nside - 5 * e - 3 * (b % 2))       # (not all of them are square)
                        with np.errstate(divide="ignore"):
                            pyfits.HDUList([pyfits.PrimaryHDU(), pyfits.ImageHDU(im[:, cut].T, header=hdr, name="SCI"),
                                            pyfits.ImageHDU((1 / ierr[:, cut]).T, name="ERR")]).writeto(fn)
                        self.fitsimages[band, exp] = (im[:, cut], ierr[:, cut], hdr)
                        self.fitsfiles.append(fn)
        with open(self.metastore, "w") as f:
            json.dump(headers, f)
        with h5py.File(self.psfstore, "w") as h:
            for b, band in enumerate(self.bands):
                ng = 1 + b % 2
                pars = np.zeros([1, nrad, ng], dtype=PSF_DTYPE)
                for g in range(ng):
                    pars["amp"][..., g] = 1.0 / ng
                    pars["Cxx"][..., g] = (1.2 + 0.4 * g + 0.1 * b)**2
                    pars["Cyy"][..., g] = (1.1 + 0.5 * g + 0.1 * b)**2
                    pars["Cxy"][..., g] = 0.05 * b
                pars["sersic_bin"] = np.arange(nrad)[None, :, None]
                g = h.create_group(band)
                g.create_dataset("parameters", data=pars.reshape(1, -1))
                g.attrs["n_psf_per_source"] = nrad * ng

    def sources(self, ch, n, dtype):
        """n sources within the field"""
        cat = np.zeros(n, dtype=dtype)
        half = self.nside * self.scale / 2 * 0.6
        for i in range(n):
            cat["ra"][i] = RA0 + ch.uniform(-half, half) / 3600 / np.cos(np.deg2rad(DEC0))
            cat["dec"][i] = DEC0 + ch.uniform(-half, half) / 3600
            cat["rhalf"][i] = ch.uniform(0.05, 0.2)
            cat["sersic"][i] = ch.uniform(1.1, 4.5)
            cat["q"][i] = ch.uniform(0.5, 0.95)
            cat["pa"][i] = ch.uniform(-1.2, 1.2)
            for b in self.bands:
                if b in cat.dtype.names:
                    cat[b][i] = ch.uniform(5, 60)
        cat["id"] = np.arange(n)
        cat["source_index"] = np.arange(n)
        return cat
