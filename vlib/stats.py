"""Goodness-of-fit helpers with extreme thresholds (false alarms ~1e-11 each)."""
import math

import numpy as np
import scipy.stats

from vlib.core import arr, require, zcheck


def normal(x, what, mean=0.0, var=1.0, z=7.0):
  """x is an i.i.d. normal sample: bounded characteristic-function statistics."""
  x = arr(x, what).ravel()
  n = len(x)
  if n == 0:
    return
  require(np.all(np.isfinite(x)), f"{what}: not finite")
  if var <= 0:
    require(np.allclose(x, mean, rtol=1e-9, atol=1e-9), f"{what}: not constant {mean}",
            got=x[:5])
    return
  u = (x - mean) / math.sqrt(var)
  if n < 30:
    require(np.all(np.abs(u) < 9), f"{what}: {u[:5]} standard deviations off")
    return
  zcheck(u.sum(), 0, n, f"{what}: mean of {n}", z)
  for t in (.5, 1.0, 2.0):
    e = math.exp(-t * t / 2)
    v = (1 + math.exp(-2 * t * t)) / 2 - e * e
    zcheck(np.cos(t * u).sum(), n * e, n * v, f"{what}: E cos({t}u), n={n}", z)
    zcheck(np.sin(t * u).sum(), 0, n * (1 - math.exp(-2 * t * t)) / 2,
           f"{what}: E sin({t}u), n={n}", z)


def multinormal(x, what, mean, cov, z=7.0):
  """Rows of x are i.i.d. N(mean, cov), via random-free fixed projections."""
  x = arr(x, what, ndim=2)
  d = x.shape[1]
  mean, cov = np.asarray(mean, float).ravel(), np.asarray(cov, float)
  for j in range(d):
    normal(x[:, j], f"{what}[{j}]", mean[j], cov[j, j], z)
  for j in range(d):
    for k in range(j):
      for s in (1.0, -1.0):
        v = cov[j, j] + cov[k, k] + 2 * s * cov[j, k]
        if v > 1e-9 * (cov[j, j] + cov[k, k]):
          normal(x[:, j] + s * x[:, k], f"{what}[{j}]{'+' if s > 0 else '-'}[{k}]",
                 mean[j] + s * mean[k], v, z)


def bernoulli(t, p, what, weights=(), z=7.0):
  """t[i] is Bernoulli(p[i]), independently; also against the given weights."""
  t = arr(t, what).ravel()
  p = np.broadcast_to(np.asarray(p, float), t.shape)
  require(np.all((t == 0) | (t == 1)), f"{what}: not binary", got=t[:10])
  sure = (p < 1e-9) | (p > 1 - 1e-9)
  require(np.all(t[sure] == (p[sure] > .5)), f"{what}: wrong where it is certain")
  if len(t) < 30:
    return
  r, v = t - p, p * (1 - p)
  for w in (np.ones(len(t)),) + tuple(weights):
    w = np.asarray(w, float)
    big = np.abs(w).max()
    if big == 0:
      continue
    w = np.clip(w / big, -1, 1)
    var = (w * w * v).sum()
    if var < 12:  # too few informative units for a normal approximation
      continue
    zcheck((w * r).sum(), 0, var, f"{what}: weighted frequency, n={len(t)}", z)


def independent(a, b, what, z=7.0):
  """Two equally long samples are rank-uncorrelated (permutation variance)."""
  a, b = np.asarray(a, float).ravel(), np.asarray(b, float).ravel()
  n = len(a)
  if n < 50:
    return
  ra = scipy.stats.rankdata(a) - (n + 1) / 2
  rb = scipy.stats.rankdata(b) - (n + 1) / 2
  v = (ra * ra).sum() * (rb * rb).sum() / (n - 1)  # under permutation
  if v > 0:
    zcheck((ra * rb).sum(), 0, v, f"{what}: rank correlation, n={n}", z)


def white(r, what, var=1.0, z=9.0):
  """Independent centred draws: no unit resembles the one any number of rows before it.

  r are residuals within [-1, 1] or standard Gaussian ones, var their variances.
  """
  r = arr(r, what).ravel()
  n = len(r)
  if n < 200:
    return
  v = np.broadcast_to(np.asarray(var, float), r.shape)
  size = 1 << (2 * n - 1).bit_length()
  acf = lambda a: np.fft.irfft(np.abs(np.fft.rfft(a, size))**2, size)[1:n - 100]
  c, s = acf(r), acf(v)
  known = s > 200  # many informative pairs at this lag
  if not known.any():
    return
  dev = np.where(known, np.abs(c) / np.sqrt(np.where(known, s, 1)), 0)
  k = int(dev.argmax())
  require(dev[k] <= z, f"{what}: units resemble those {k + 1} rows before them "
          f"(z={dev[k]:.1f}, {n} units)")
