import argparse
import os
import matplotlib.pyplot as plt
import numpy as np
import pandas as pd
import scipy.linalg as LA
from matplotlib import gridspec, cm
from matplotlib.colors import ListedColormap
from matplotlib.ticker import FormatStrFormatter
import warnings
from ASAPy import CovManipulation
from ASAPy import AceIO
import mpi4py.MPI
comm = mpi4py.MPI.COMM_WORLD
rank = comm.Get_rank()
size = comm.Get_size()
top = cm.get_cmap('Reds', 128)
bottom = cm.get_cmap('Greens', 128)
newcolors = np.vstack((top(np.linspace(0, 1, 128))[-1::-1], bottom(np.linspace(0, 1, 128))))
newcolors[128] = (1, 1, 1, 1)
cm_RdGr = ListedColormap(newcolors, name='RdGn')

class XsecSampler:

    def __init__(self, h, zaid_1, mt_1, zaid_2=None, mt_2=None, remove_negative_eig=True):
        self.std_dev_df, self.corr_df = self.load_zaid_mt(h, zaid_1, mt_1, zaid_2, mt_2)
        self.zaid = zaid_1
        self.mt = mt_1
        if remove_negative_eig:
            adjusted_corr, idx = self._fix_non_pos_semi_def_matrix_eigen(self.corr_df.values)
            self.corr_df.loc[idx, idx] = adjusted_corr

    @staticmethod
    def load_zaid_mt(h, zaid_1, mt_1, zaid_2=None, mt_2=None, fill_corr_diag=False):
        if zaid_2 is None:
            zaid_2 = zaid_1
        if mt_2 is None:
            mt_2 = mt_1
        std_dev_df = h['{0}/{1}/{2}/{3}/std_dev'.format(zaid_1, mt_1, zaid_2, mt_2)]
        corr_df = h['{0}/{1}/{2}/{3}/corr'.format(zaid_1, mt_1, zaid_2, mt_2)]
        if fill_corr_diag:
            np.fill_diagonal(corr_df.values, max(np.diag(corr_df.values)))
        corr_df = corr_df / max(np.diag(corr_df.values))
        if std_dev_df['e low'][1] > std_dev_df['e high'][1]:
            temp_e = list(std_dev_df['e low'].values)
            std_dev_df['e low'] = list(std_dev_df['e high'])
            std_dev_df['e high'] = temp_e
        return (std_dev_df, corr_df)

    def calc_cov(self):
        cov = CovManipulation.correlation_to_cov(self.std_dev_df['s.d.(1)'].values, self.corr_df.values)
        cov_df = self.corr_df.copy()
        cov_df.loc[:, :] = cov
        return cov_df

    def sample(self, sample_type, num_samples, raise_on_bad_sample=False, remove_neg=True, return_relative=True, set_neg_to_zero=False, mt=None):
        if sample_type.lower() == 'normal':
            samples = CovManipulation.sample_with_corr(self.std_dev_df['x-sec(1)'].values, self.std_dev_df['s.d.(1)'].values, self.corr_df.values, num_samples, distro='normal', mt=mt)
        elif sample_type.lower() == 'lognormal':
            samples = CovManipulation.sample_with_corr(self.std_dev_df['x-sec(1)'].values, self.std_dev_df['s.d.(1)'].values, self.corr_df.values, num_samples, distro='lognormal', mt=mt)
        elif sample_type.lower() == 'uncorrelated':
            samples = CovManipulation.sample_with_corr(self.std_dev_df['x-sec(1)'].values, self.std_dev_df['s.d.(1)'].values, np.diag(np.ones(len(self.std_dev_df['x-sec(1)'].values))), num_samples, distro='normal', mt=mt)
        elif sample_type.lower() == 'uniform':
            samples = CovManipulation.sample_with_corr(self.std_dev_df['x-sec(1)'].values, self.std_dev_df['s.d.(1)'].values, self.corr_df.values, num_samples, distro='uniform', mt=mt)
        elif sample_type.lower() == 'loguncorrelated':
            samples = CovManipulation.sample_with_corr(self.std_dev_df['x-sec(1)'].values, self.std_dev_df['s.d.(1)'].values, np.diag(np.ones(len(self.std_dev_df['x-sec(1)'].values))), num_samples, distro='lognormal', mt=mt)
        else:
            raise Exception('Sampling type: {0} not implemented'.format(sample_type))
        if return_relative:
            mean = self.std_dev_df['x-sec(1)'].values
        else:
            mean = np.ones(self.std_dev_df['x-sec(1)'].shape)
        samples = self._sample_check(samples, mean, remove_neg)
        if set_neg_to_zero:
            samples[samples < 0] = 0
        num_samples_worked = samples.shape[1]
        if num_samples_worked < num_samples:
            if raise_on_bad_sample:
                raise Exception('Could not generate samples due to negative values created. Made {0} of the desired {1}'.format(num_samples_worked, num_samples))
        samples = samples.T.reset_index(drop=True).T
        return samples

    def _sample_check(self, samples, mean, remove_neg):
        sample_df = samples / mean
        sample_df = pd.DataFrame(sample_df.T, index=range(1, len(mean) + 1))
        if remove_neg:
            sample_df = sample_df.loc[:, (sample_df < 0).sum() == 0].dropna()
        return sample_df

    def _fix_non_pos_semi_def_matrix_eigen(self, corr_matrix):
        diag_non_zero = np.diag(corr_matrix) > 0
        corr_matrix_copy = corr_matrix[diag_non_zero, :][:, diag_non_zero]
        eigs, P = LA.eigh(corr_matrix_copy)
        if min(eigs) <= 1e-08:
            bad_index = np.where(eigs <= 1e-08)
            print(f'{self.zaid}/{self.mt} eig_replace: got min eig {min(eigs)} with, {len(bad_index)} eigenvalue less than 1e-8, setting min eigs to generate pos-def matrix')
            eigs[bad_index] = min(1e-08 * max(eigs), 1e-08)
            fixed_corr = np.dot(np.dot(P, np.diag(eigs)), LA.inv(P))
        else:
            fixed_corr = corr_matrix_copy
        return (fixed_corr, diag_non_zero)

def map_groups_to_continuous(e_sigma, high_e_bins, multi_group_val, max_e=None, min_e=None, value_outside_of_range=1):
    if max_e is None:
        max_e = max(high_e_bins)
    if min_e is None:
        min_e = min(high_e_bins) / 10
        warnings.warn('Min e set to {0} eV since it was not provided'.format(min_e))
    if np.equal(min_e, min(high_e_bins.values)):
        raise Exception('Min e bin should be lower than the lowest high_e_bin')
    num_groups = len(high_e_bins)
    e_bins_to_map_to = list(high_e_bins.values)
    e_bins_to_map_to.append(min_e)
    if not np.equal(e_bins_to_map_to[0], max_e):
        if max_e < e_bins_to_map_to[0]:
            raise Exception('Max e bin should be greater than or equal to the max high_e_bin')
        e_bins_to_map_to[0] = max_e
    sorted_e = sorted(e_bins_to_map_to)
    e_sigma_ev = np.array(e_sigma)
    bins_too_low = np.where(e_sigma_ev < min_e)
    bins_too_high = np.where(e_sigma_ev > max_e)
    bins = np.searchsorted(sorted_e, e_sigma_ev)
    group_nums = 1 + num_groups - bins
    group_nums[group_nums > num_groups] = num_groups
    group_nums[bins_too_low] = num_groups
    group_nums[bins_too_high] = 1
    std_dev_mapped_to_e_groups = multi_group_val[group_nums].values
    std_dev_mapped_to_e_groups[bins_too_low] = value_outside_of_range
    std_dev_mapped_to_e_groups[bins_too_high] = value_outside_of_range
    return std_dev_mapped_to_e_groups

def sample_xsec(cov_hdf_store, mt, zaid, num_samples, sample_type='lognormal', remove_neg=False, raise_on_bad_sample=False, num_samples_to_make=None):
    if not num_samples_to_make:
        num_samples_to_make = num_samples
    num_samples = int(num_samples)
    h = cov_hdf_store
    xsec = XsecSampler(h, zaid, mt)
    sample_df_full_vals = xsec.sample(sample_type, num_samples, return_relative=False, remove_neg=remove_neg, raise_on_bad_sample=raise_on_bad_sample, mt=mt)
    mean = xsec.std_dev_df['x-sec(1)'].values
    sample_df = xsec._sample_check(sample_df_full_vals.T, mean, remove_neg=False)
    zero_mean = ~np.isfinite(sample_df)
    sample_df[zero_mean] = sample_df_full_vals[zero_mean]
    return (sample_df, sample_df_full_vals)

def get_mt_from_ace(ace_file, mt):
    ace_path = os.path.expanduser(ace_file)
    non_typical_xsec = [452, 1018]
    if mt in non_typical_xsec:
        libFile = AceIO.AceEditor(ace_path)
        if mt == 452:
            e, st = libFile.get_nu_distro()
        elif mt == 1018:
            _, e, st, _ = libFile.get_chi_distro()
    else:
        libFile = AceIO.AceEditor(ace_path)
        e = libFile.get_energy(mt)
        st = libFile.get_sigma(mt, at_energies=e)
    return (e, st)

def write_sampled_data(h, ace_file, zaid, mts, sample_dfs_rel, output_formatter='xsec_sampled_{0}', zaid_2=None, mt_2=None):
    for sample_number, _ in sample_dfs_rel[0].items():
        if sample_number % size != rank:
            continue
        ae = AceIO.AceEditor(ace_file)
        for mt_idx, mt in enumerate(mts):
            col = sample_dfs_rel[mt_idx][sample_number]
            xsec, corr = XsecSampler.load_zaid_mt(h, zaid, mt, zaid_2, mt_2)
            e = ae.get_energy(mt)
            original_sigma = ae.get_sigma(mt)
            if mt == 1018:
                sampled_xsec = []
                for pdf_for_e_out, e_to_map_on in zip(original_sigma, e):
                    sampled_xsec.append(map_groups_to_continuous(e_to_map_on, xsec['e high'], col, min_e=xsec['e low'].min()) * pdf_for_e_out)
            else:
                group_mean = map_groups_to_continuous(e, xsec['e high'], xsec['x-sec(1)'], min_e=xsec['e low'].min())
                original_sigma[(original_sigma == 0) & (group_mean == 0)] = 1
                sampled_xsec = map_groups_to_continuous(e, xsec['e high'], col, min_e=xsec['e low'].min()) * original_sigma
            ae.set_sigma(mt, sampled_xsec)
            ae.apply_sum_rules()
        w = AceIO.WriteAce(ace_file)
        base_ace = AceIO.AceEditor(ace_file)
        for mt_adjusted in sorted(list(ae.adjusted_mts)):
            try:
                if mt_adjusted == 452:
                    max_replaces = 9999
                else:
                    max_replaces = 1
                if mt_adjusted == 1018:
                    _, _, base_fission_chi_prompt_energy_p, base_fission_chi_prompt_energy_c = base_ace.get_chi_distro()
                    _, _, fission_chi_prompt_energy_p, fission_chi_prompt_energy_c = ae.get_chi_distro()
                    for _base, _sampled in zip(base_fission_chi_prompt_energy_p, fission_chi_prompt_energy_p):
                        w.replace_array(_base * 1000000.0, _sampled * 1000000.0, max_replaces=1)
                    for _base, _sampled in zip(base_fission_chi_prompt_energy_c, fission_chi_prompt_energy_c):
                        w.replace_array(_base, _sampled, max_replaces=1)
                else:
                    w.replace_array(base_ace.get_sigma(mt_adjusted), ae.get_sigma(mt_adjusted), max_replaces)
            except ValueError:
                print('MT {0} adjusted but was not present on original ace, perhaps it was redundant'.format(mt_adjusted))
        w.write_ace(output_formatter.format(sample_number))
        del ae
    if rank == 0:
        for mt, sample_df_rel in zip(mts, sample_dfs_rel):
            xsec, corr = XsecSampler.load_zaid_mt(h, zaid, mt, zaid_2, mt_2)
            sample_df_rel.insert(0, 'e low', xsec['e low'])
            sample_df_rel.insert(1, 'e high', xsec['e high'])
            sample_df_rel.insert(2, 'xsec', xsec['x-sec(1)'])
            sample_df_rel.insert(3, 'rel std', xsec['rel.s.d.(1)'])
            sample_df_rel.to_csv('{0}_samples.csv'.format(output_formatter.format(mt)))

def create_argparser():
    parser = argparse.ArgumentParser(description='Generate random samples of ACE data for use in SA/UQ')
    parser.add_argument('base_ace', help='The base ACE file to sample from')
    parser.add_argument('cov_store', help='The ASAPy covariance store to use')
    parser.add_argument('num_samples', help='Number of samples to draw', type=int)
    parser.add_argument('-mts', help='The reaction MT number to sample, if not supplied all available are used', type=int, nargs='+')
    parser.add_argument('-mpiproc', type=int, help='Number of mpiprocs to use', default=1)
    parser.add_argument('-num_oversamples', help='Make this many samples but only keep num_samples. Helps if negative samples are being drawn due to large uncertainties in small numbers', type=int, default=-1)
    parser.add_argument('--make_plots', action='store_true', help='Option to create sampled cov plot, corr plot, xsec + uncertainties, and a few sampled xsec')
    parser.add_argument('--writepbs', action='store_true', help='Creates a pbs file to run this function (requires mcACE)')
    parser.add_argument('--waitforjob', help='Job number to wait for until this job runs (requires mcACE)')
    parser.add_argument('--subpbs', action='store_true', help='Runs the created pbs file (requires mcACE)')
    parser.add_argument('-distribution', choices=['normal', 'lognormal', 'uncorrelated', 'uniform', 'loguncorrelated'], help='How the distribution will be sampled', default='normal')
    parser.add_argument('--plot-only', action='store_true', help='Option to just generate plots')
    return parser
if __name__ == '__main__':
    parser = create_argparser()
    args = parser.parse_args()
    if args.writepbs:
        from coupleorigen import qsub_helper
        pbs_args = {}
        pbs_args['depends_on'] = args.waitforjob
        if args.make_plots:
            make_plots = '--make_plots'
        else:
            make_plots = ''
        if args.mpiproc > 1:
            mpi_cmd = 'mpiexec -n {0} '.format(args.mpiproc)
        else:
            mpi_cmd = ''
        if args.mts:
            mts = [str(i) for i in args.mts]
            mts = ' '.join(mts)
            mts = f'-mt {mts}'
        else:
            mts = ''
        python_to_run = mpi_cmd + 'python ' + os.path.abspath(__file__)
        qsub_helper.qsub_helper('sample_xsec.sh', [python_to_run], ['{0} {1} {5} {2} -distribution {3} -num_oversamples {4} {6}'.format(args.base_ace, args.cov_store, mts, args.distribution, args.num_oversamples, args.num_samples, make_plots)], pbs_args=pbs_args, mpiprocs=args.mpiproc)
        if args.subpbs:
            os.system('qsub sample_xsec.sh')
    else:
        ace_file = args.base_ace
        ace_data = AceIO.AceEditor(ace_file)
        zaid = str(ace_data.table.atomic_number) + str(ace_data.table.mass_number).zfill(3)
        atomic_symbol = ace_data.table.atomic_symbol
        store_name = args.cov_store
        num_samples_to_take = args.num_samples
        if args.num_oversamples == -1:
            num_samples_to_make = num_samples_to_take
        else:
            num_samples_to_make = args.num_oversamples
        if num_samples_to_make < num_samples_to_take:
            raise Exception('Cannot make more samples {0} than taking {1}'.format(num_samples_to_make, num_samples_to_take))
        output_base = './'
        sample_dfs = []
        sample_dfs_full = []
        if args.mts:
            mts = args.mts
        else:
            with pd.HDFStore(os.path.expanduser(store_name), 'r') as h:
                mts = {int(i.split('/')[2]) for i in h}
                mts = sorted(list(mts))
        adjustable_mts = []
        for mt in mts:
            if mt in ace_data.all_mts:
                adjustable_mts.append(mt)
            else:
                print(f'MT={mt} not found in the ACE file, no sampling will be performed for this MT.')
        if len(adjustable_mts) == 0:
            print('No MTs to adjust, exiting..')
            exit()
        with pd.HDFStore(os.path.expanduser(store_name), 'r') as h:
            if rank == 0:
                for mt in adjustable_mts:
                    sample_df, sample_df_full = sample_xsec(h, mt, zaid, num_samples_to_take, num_samples_to_make=num_samples_to_make, sample_type=args.distribution, raise_on_bad_sample=False, remove_neg=True)
                    if args.make_plots or args.plot_only:
                        plot_sampled_info(ace_file, h, zaid, mt, sample_df, sample_df_full, output_base=output_base, log_y=True, log_y_stddev=False)
                    if not args.plot_only:
                        sample_dfs.append(sample_df)
            else:
                sample_dfs = None
            if not args.plot_only:
                sample_dfs = comm.bcast(sample_dfs, root=0)
                output_formatter = '{0}{1}'.format(atomic_symbol, ace_data.table.mass_number)
                write_sampled_data(h, ace_file, zaid, adjustable_mts, sample_dfs, output_formatter=output_base + output_formatter + '_{0}')
