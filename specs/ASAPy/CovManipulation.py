import numpy as np
import SALib.sample.latin as lhs
from scipy.stats import multivariate_normal
from scipy.stats.distributions import norm, uniform
import scipy as sp
from scipy.stats import norm as sci_norm
from numpy.random import uniform as np_uniform
from ASAPy.data.reaction import REACTION_NAME
REACTION_NAME[452] = 'nu-bar'
REACTION_NAME[1018] = 'fission-chi'

def col_independent_matrix(n, d):
    x = np.arange(1, n + 1)
    p = sp.stats.norm.ppf(x / (n + 1))
    p = (p - p.mean()) / p.std()
    score = np.zeros((n, d))
    for j in range(0, score.shape[1]):
        score[:, j] = np.random.permutation(p)
    return score

def rank(arr):
    n, k = arr.shape
    rank = np.zeros((n, k))
    for j in range(0, k):
        rank[:, j] = sp.stats.rankdata(arr[:, j], method='ordinal')
    return rank.astype(int) - 1

def order(rank, samples):
    n, k = samples.shape
    rank_samples = np.zeros((n, k))
    for j in range(0, k):
        s = np.sort(samples[:, j])
        rank_samples[:, j] = s[rank[:, j]]
    return rank_samples

def correlation_to_cov(std, corr):
    cov = np.diag(std ** 2)
    shape = len(std)
    for i in range(shape):
        for j in range(i + 1, shape):
            cov[i, j] = corr[i, j] * std[i] * std[j]
    cov = cov + cov.T - np.diag(np.diag(cov))
    return cov

def cov_to_correlation(cov):
    shape = len(cov)
    corr = np.diag(np.ones(shape))
    for i in range(shape):
        for j in range(i + 1, shape):
            corr[i, j] = cov[i, j] / np.abs(cov[i, i] * cov[j, j]) ** 0.5
    corr = corr + corr.T - np.diag(np.diag(corr))
    return corr
_FINFO = np.finfo(float)
_EPS = _FINFO.eps

def gmw_cholesky(A):
    n = A.shape[0]
    gamma = 0.0
    xi = 0.0
    for i in range(n):
        gamma = max(abs(A[i, i]), gamma)
        for j in range(i + 1, n):
            xi = max(abs(A[i, j]), xi)
    delta = _EPS * max(gamma + xi, 1.0)
    if n == 1:
        beta = np.sqrt(max(gamma, _EPS))
    else:
        beta = np.sqrt(max(gamma, xi / np.sqrt(n ** 2 - 1.0), _EPS))
    a = 1.0 * A
    r = 0.0 * A
    e = np.zeros(n, dtype=float)
    P = np.eye(n, dtype=float)
    for j in range(n):
        q = j
        for i in range(j + 1, n):
            if abs(a[i, i]) >= abs(a[q, q]):
                q = i
        if q != j:
            p = np.eye(n, dtype=float)
            row_P = 1.0 * P[:, q]
            P[:, q] = P[:, j]
            P[:, j] = row_P
            row_p = 1.0 * p[q]
            p[q] = p[j]
            p[j] = row_p
            a = np.dot(p, np.dot(a, p))
            r = np.dot(r, p)
        theta_j = 0.0
        if j < n - 1:
            for i in range(j + 1, n):
                theta_j = max(theta_j, abs(a[j, i]))
        dj = max(abs(a[j, j]), (theta_j / beta) ** 2, delta)
        e[j] = dj - a[j, j]
        r[j, j] = np.sqrt(dj)
        for i in range(j + 1, n):
            r[j, i] = a[j, i] / r[j, j]
            for k in range(j + 1, i + 1):
                a[i, k] = a[k, i] = a[k, i] - r[j, i] * r[j, k]
    return (P, r.T, e)

def lhs_uniform_sample(num_vars, num_samples):
    samples = lhs.sample({'num_vars': num_vars, 'bounds': [[0, 1] for i in range(num_vars)]}, num_samples)
    return samples

def lhs_normal_sample(num_samples, means, std_dev):
    num_vars = len(means)
    samples = lhs_uniform_sample(num_vars, num_samples)
    for i in range(num_vars):
        samples[:, i] = norm(loc=means[i], scale=std_dev[i]).ppf(samples[:, i])
    return samples

def normal_sample_corr(mean_values, desired_cov, num_samples, allow_singular=False):
    m = multivariate_normal(mean=mean_values, cov=desired_cov, allow_singular=allow_singular)
    return m.rvs(num_samples)

def sample_with_corr(mean_values, std_dev, desired_corr, num_samples, distro='normal', mt=None):
    distro = distro.lower()
    mean_values_original = np.array(mean_values)
    desired_corr = np.array(desired_corr)
    vars_to_not_sample_idx = None
    set_std_dev_below_this_to_zero = 1e-30
    if min(std_dev) <= set_std_dev_below_this_to_zero:
        set_fix_val_idx = std_dev <= set_std_dev_below_this_to_zero
        vars_to_not_sample_idx = list(set_fix_val_idx)
    if min(mean_values) == 0:
        if distro == 'lognormal':
            set_zero_mean_idx = mean_values == 0
            if vars_to_not_sample_idx is not None:
                vars_to_not_sample_idx = [i + j for i, j in zip(vars_to_not_sample_idx, set_zero_mean_idx)]
            else:
                vars_to_not_sample_idx = set_zero_mean_idx
    if np.any(np.diag(desired_corr) == 0):
        set_zero_corr_to_zero = np.diag(desired_corr) == 0
        if vars_to_not_sample_idx is not None:
            vars_to_not_sample_idx = [i + j for i, j in zip(vars_to_not_sample_idx, set_zero_corr_to_zero)]
        else:
            vars_to_not_sample_idx = set_zero_corr_to_zero
    if vars_to_not_sample_idx is not None:
        vars_to_sample = np.invert(vars_to_not_sample_idx)
        mean_values = mean_values[vars_to_sample]
        std_dev = std_dev[vars_to_sample]
        desired_corr = desired_corr[vars_to_sample, :][:, vars_to_sample]
    num_vars = len(mean_values)
    if num_vars == 0:
        print(f'mt={mt}: No variables to sample (all zero means or all std_dev below {set_std_dev_below_this_to_zero})')
        return np.ones([num_samples, len(mean_values_original)]) * mean_values_original
    if distro == 'lognormal':
        if mt is not None:
            print(f'Adjust cov from assumed normal to lognormal via G. Zerovnik for mt={mt} {REACTION_NAME[mt]}')
        else:
            print(f'Adjust cov from assumed normal to lognormal via G. Zerovnik for mt= NOT PROVIDED')
        log_corr = np.zeros(desired_corr.shape)
        for i in range(len(log_corr)):
            for j in range(len(log_corr)):
                log_corr[i, j] = mean_values[i] * mean_values[j] / (std_dev[i] * std_dev[j]) * (np.exp(desired_corr[i, j] * np.sqrt(np.log(std_dev[i] ** 2 / mean_values[i] ** 2 + 1) * np.log(std_dev[j] ** 2 / mean_values[j] ** 2 + 1))) - 1)
        with np.errstate(divide='ignore'):
            diff = np.abs(log_corr - desired_corr) / np.abs(desired_corr)
            diff[np.isnan(diff)] = 0
        diff = diff.sum().sum() / len(log_corr) ** 2 * 100
        print(f'||(Log(corr) - original) / original||) = {diff:g} % rel diff\n')
        desired_corr = log_corr
    try:
        C = sp.linalg.cholesky(desired_corr)
    except np.linalg.LinAlgError:
        P, L, e = gmw_cholesky(desired_corr)
        C = np.dot(P, L).T
    M = col_independent_matrix(num_samples, num_vars)
    D = 1.0 / num_samples * np.dot(M.T, M)
    try:
        E = sp.linalg.cholesky(D)
    except np.linalg.LinAlgError:
        P, L, e = gmw_cholesky(D)
        E = np.dot(P, L).T
    N = np.dot(np.dot(M, np.linalg.inv(E)), C)
    R = rank(N)
    if distro == 'normal':
        distro_to_sample_from = sci_norm
    elif distro == 'lognormal':
        mean = [np.log(mean_values[i] / (1 + std_dev[i] ** 2 / mean_values[i] ** 2) ** 0.5) for i in range(num_vars)]
        sigma = [np.log(1 + std_dev[i] ** 2 / mean_values[i] ** 2) ** 0.5 for i in range(num_vars)]
        mean_values = np.array(mean)
        std_dev = np.array(sigma)
        distro_to_sample_from = sci_norm
    elif distro == 'uniform':
        distro_to_sample_from = uniform
    else:
        raise Exception('Distro {0} not supported at the moment, though all scipy distros should be usable.'.format(distro))
    dists = []
    with np.errstate(all='ignore' if distro == 'lognormal' else 'warn'):
        for var_num in range(num_vars):
            dists.append([distro_to_sample_from.ppf(p, loc=mean_values[var_num], scale=std_dev[var_num]) for p in lhs_uniform_sample(1, num_samples).T[0]])
    dists = np.array(dists)
    if distro == 'lognormal':
        dists = np.exp(dists)
        dists[np.isnan(dists)] = 1
    dists = order(R, dists.T)
    if vars_to_not_sample_idx is not None:
        dists_with_all_data = np.zeros((num_samples, len(vars_to_not_sample_idx)))
        dists_with_all_data[:, np.invert(vars_to_not_sample_idx)] = dists
        dists_with_all_data[:, vars_to_not_sample_idx] = mean_values_original[vars_to_not_sample_idx]
        dists = dists_with_all_data
    return dists
if __name__ == '__main__':
    pass
