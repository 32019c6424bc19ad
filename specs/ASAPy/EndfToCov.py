import os
import shutil
from subprocess import Popen, PIPE, STDOUT, CalledProcessError
import tempfile
import numpy as np
import argparse
import pandas as pd
from ASAPy import AsapyCovStorage
from ASAPy import njoy
from ASAPy import CovManipulation
from ASAPy.data.data import ATOMIC_SYMBOL
from ASAPy.data.reaction import REACTION_NAME
REACTION_NAME[452] = 'nu-bar'
REACTION_NAME[1018] = 'fission-chi'
_BOXER_TEMPLATE_COV = '0,{mat},{mt},{mat},{mt}\n1,{mat},{mt},{mat},{mt}\n2,{mat},{mt},{mat},{mt}\n3,{mat},{mt},{mat},{mt}\n0,0\n'

def _run_cover_chain(njoy_commands, tapein, tapeout, cover_tapes, mat_num, mts, input_filename=None, stdout=True, njoy_exec='njoy', boxer_exec='boxer2mat', output_base_path='./', use_temp_folder=True):
    with tempfile.TemporaryDirectory() as tmpdir:
        if not use_temp_folder:
            tmpdir = output_base_path
        for tape_num, filename in tapein.items():
            tmpfilename = os.path.join(tmpdir, 'tape{}'.format(tape_num))
            shutil.copy(filename, tmpfilename)
        run_program(njoy_commands, njoy_exec, stdout, tmpdir, os.path.join(output_base_path, input_filename))
        shutil.copy(os.path.join(tmpdir, 'output'), os.path.join(output_base_path, 'njoy_output.txt'))
        for tape_num, filename in tapeout.items():
            tmpfilename = os.path.join(tmpdir, 'tape{}'.format(tape_num))
            if os.path.isfile(tmpfilename):
                shutil.copy(tmpfilename, os.path.join(output_base_path, filename))
        for cover_tape in cover_tapes.items():
            for mt in mts:
                tape_num, file_name = cover_tape
                tempnjoycovtape = os.path.join(tmpdir, 'tape{}'.format(tape_num))
                tmpboxerfilename_in = os.path.join(tmpdir, 'fort.20')
                tmpboxerfilename_out = os.path.join(tmpdir, 'fort.21')
                shutil.copy(tempnjoycovtape, tmpboxerfilename_in)
                if mt == 1018:
                    boxer_commands = _BOXER_TEMPLATE_COV.format(mat=mat_num, mt=18)
                else:
                    boxer_commands = _BOXER_TEMPLATE_COV.format(mat=mat_num, mt=mt)
                run_program(boxer_commands, boxer_exec, stdout, tmpdir, os.path.join(output_base_path, input_filename + 'boxer.txt'))
                shutil.move(tmpboxerfilename_out, os.path.join(output_base_path, file_name + '_' + str(mt) + '_matrix.txt'))

def run_program(commands, executable_path, stdout, run_dir, write_input_file=None):
    if write_input_file is not None:
        with open(write_input_file, 'a') as f:
            f.write(commands)
            f.write('\n')
    executable = Popen([executable_path], cwd=run_dir, stdin=PIPE, stdout=PIPE, stderr=STDOUT, universal_newlines=True)
    executable.stdin.write(commands)
    executable.stdin.flush()
    lines = []
    while True:
        line = executable.stdout.readline()
        if not line and executable.poll() is not None:
            break
        lines.append(line)
        if stdout:
            print(line, end='')
    if executable.returncode != 0:
        raise CalledProcessError(executable.returncode, executable_path, ''.join(lines))
    executable.stdin.close()
    if stdout:
        executable.stdout.close()

class read_boxer_out_matrix:

    def __init__(self, file):
        with open(file, 'r') as f:
            self.lines = f.readlines()
        for line in self.lines:
            if '***ERROR IN BOXR***' in line:
                raise RuntimeError(f'BOXR ended in error within {file}')
        self.block_line_nums = self._find_block_line_nums()

    def _find_block_line_nums(self):
        block_start_line_nums = []
        for line_num, line in enumerate(self.lines):
            l = line.split()
            if l:
                try:
                    int(l[0])
                    block_start_line_nums.append(line_num)
                except ValueError:
                    pass
        if not block_start_line_nums:
            raise Exception('Did not find any block line numbers.')
        return block_start_line_nums

    def get_block_data(self):
        group_bounds = self._block_lines_to_array(self.block_line_nums[0] + 1, self.block_line_nums[1])
        xsec = self._block_lines_to_array(self.block_line_nums[1] + 1, self.block_line_nums[2])
        rel_dev = self._block_lines_to_array(self.block_line_nums[2] + 1, self.block_line_nums[3])
        std_dev = rel_dev * xsec
        cov = self._block_lines_to_array(self.block_line_nums[3] + 1, len(self.lines))
        number_of_xsec = len(xsec)
        cov = np.reshape(cov, [number_of_xsec, number_of_xsec])
        return (group_bounds, xsec, std_dev, cov)

    def _block_lines_to_array(self, line_num_start, line_num_end):
        block_lines = self.lines[line_num_start:line_num_end]
        block_lines_no_newlines = []
        for line in block_lines:
            replace_white_space_with_zero = line.replace(' ', '0')
            removed_new_lines = ''.join(replace_white_space_with_zero.split())
            block_lines_no_newlines.append(removed_new_lines)
        block_lines_str = ''.join(block_lines_no_newlines)
        string_width = 10
        block_lines_str = [block_lines_str[i:i + string_width] for i in range(0, len(block_lines_str), string_width)]
        block_lines_str = ' '.join(block_lines_str)
        values = np.fromstring(block_lines_str, sep=' ')
        return values

def run_cover_chain(endf_file, mts, temperatures, output_dir='./', cov_energy_groups=None, iwt_fluxweight=9, user_flux_weight_vals=None, nu=False, chi=False, use_temp_folder=True, njoy_exec='njoy', boxer_exec='boxer2mat'):
    if not isinstance(mts, list):
        mts = [mts]
    mts = list(mts)
    if not isinstance(temperatures, list):
        temperatures = [temperatures]
    if not cov_energy_groups:
        raise Exception('Please specify energy group structure for cov groups')
    if chi:
        if 18 not in mts:
            print('Automatically adding mt=18 needed for chi processing')
            mts.append(18)
    mat_num = njoy.get_mat_from_endf(endf_file)
    njoy_commands, tapein, tapeout = njoy.make_njoy_run(endf_file, temperatures=temperatures, pendf=None, error=0.001, covr_plot_mts=mts, cov_energy_groups=cov_energy_groups, broadr=True, heatr=False, purr=False, acer=False, errorr=True, iwt_fluxweight=iwt_fluxweight, user_flux_weight_vals=user_flux_weight_vals, nu=nu, chi=chi)
    cover_tapes = {item: value for item, value in list(tapeout.items())[0::2]}
    print(cover_tapes)
    if nu:
        mts.append(452)
    if chi:
        mts.append(1018)
    _run_cover_chain(njoy_commands, tapein, tapeout, cover_tapes, mat_num, mts, input_filename='testing_chain.txt', stdout=True, njoy_exec=njoy_exec, boxer_exec=boxer_exec, output_base_path=output_dir, use_temp_folder=use_temp_folder)

def process_cov_to_h5(output_dir, zaid, mt, boxer_matrix_name='covr_300.txt_{mt}_matrix.txt', output_h5_format='u235_102_{0}g_cov.h5'):
    try:
        rbo = read_boxer_out_matrix(os.path.join(output_dir, boxer_matrix_name.format(mt=mt)))
        group_bounds, xsec, std_dev, cov = rbo.get_block_data()
    except RuntimeError as e:
        print(f'Skipping zaid/mt {zaid}/{mt} {REACTION_NAME[mt]} in due to boxer output errors: {e}')
        return
    groups = cov.shape[0]
    output_h5_name = output_h5_format.format(groups)
    corr = CovManipulation.cov_to_correlation(cov)
    rxn = REACTION_NAME[mt] if mt in REACTION_NAME else f'REACTION NAME NOT FOUND: {mt}'
    if np.any(np.abs(corr) > 1):
        print(f'Cov matrix for zaid/mt={zaid}/{mt} {rxn} nis ill-composed. When converting to correlation matrix, |values| greater than 1.0 were found, setting these to -1/1 as needed')
        corr[corr > 1] = 1
        corr[corr < -1] = -1
    with pd.HDFStore(os.path.join(output_dir, output_h5_name), 'a') as h:
        df = AsapyCovStorage.create_corr_df(groups)
        df.loc[:, :] = corr
        df = df.fillna(0)
        AsapyCovStorage.add_corr_to_store(h, df, zaid, mt, zaid, mt)
        df = AsapyCovStorage.create_stddev_df(groups)
        df['e high'] = group_bounds[0:-1]
        df['e low'] = group_bounds[1:]
        df['x-sec(1)'] = xsec
        df['x-sec(2)'] = xsec
        df['rel.s.d.(1)'] = std_dev / xsec
        df['rel.s.d(2)'] = std_dev / xsec
        df['s.d.(1)'] = std_dev
        df['s.d(2)'] = std_dev
        df.loc[df['rel.s.d.(1)'].isna(), ('x-sec(1)', 'x-sec(2)')] = 0.0
        df.loc[df['rel.s.d.(1)'].isna(), ('s.d.(1)', 's.d(2)')] = 1e-07
        df.loc[df['rel.s.d.(1)'].isna(), ('rel.s.d.(1)', 'rel.s.d(2)')] = 1e-07
        AsapyCovStorage.add_stddev_to_store(h, df, zaid, mt, zaid, mt)

def parse_args(args):
    parser = argparse.ArgumentParser(description='Generate table-wise covariance data from ENDF data using NJOY', formatter_class=argparse.RawTextHelpFormatter)
    parser.add_argument('endf_file', help='The base ENDF file to extract covariance data from')
    parser.add_argument('-energy_bin_structure', choices=['SCALE_3', 'SCALE_44', 'SCALE_56', 'SCALE_238', 'SCALE_252'], help='The energy bin structure', default='SCALE_252')
    parser.add_argument('-output_path', help='Path to where all outputs should be placed.', default=None)
    parser.add_argument('-output_store', help='The HDF5 store name to add covariance data to. Defaults to ZAID_#groups.\nData will be overridden. Only store one energy_bin_structure per store\nwith any number of nuclides and MTs. _#groups is automatically\nappended to the given name', default=None)
    parser.add_argument('-njoy_spectrum_weighting', default=6, type=int, choices=[2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12], help='The NJOY spectrum weight magic number:\niwt          meaning\n---          -------\n 1           read in smooth weight function\n 2           constant\n 3           1/e\n 4           1/e + fission spectrum + thermal maxwellian\n 5           epri-cell lwr\n 6           (thermal) -- (1/e) -- (fission + fusion)\n 7           same with t-dep thermal part\n 8           thermal--1/e--fast reactor--fission + fusion\n 9           claw weight function\n10           claw with t-dependent thermal part\n11           vitamin-e weight function (ornl-5505)\n12           vit-e with t-dep thermal part\n')
    parser.add_argument('-mts', help='The reaction MT numbers to sample, defaults to all available', type=int, nargs='+')
    parser.add_argument('-temperature', help='The temperature to broaden the cross-section to for covariance representation', type=int, default=300)
    parser.add_argument('-njoy_exec', help="Path to your NJOY executable if it's not already in your $PATH", default='njoy')
    parser.add_argument('-boxer_exec', help="Path to your boxer executable if it's not already in your $PATH", default='boxer2mat')
    parsed_args = parser.parse_args(args)
    parsed_args.endf_file = os.path.abspath(parsed_args.endf_file)
    if parsed_args.output_path:
        parsed_args.output_path = os.path.abspath(parsed_args.output_path)
    else:
        parsed_args.output_path = './'
    return parsed_args
if __name__ == '__main__':
    import sys
    import warnings
    import tables
    warnings.simplefilter('ignore', tables.NaturalNameWarning)
    args = parse_args(sys.argv[1:])
    output_dir = args.output_path
    endf_file = args.endf_file
    ev = njoy.endf.Evaluation(endf_file)
    zaid = int('{0}{1}'.format(ev.target['atomic_number'], str(ev.target['mass_number']).zfill(3)))
    available_mts = []
    for r in ev.reaction_list:
        if r[0] == 33:
            available_mts.append(r[1])
    if len(available_mts) == 0:
        raise Exception(f'No covariance data found in {args.endf_file}')
    if args.mts:
        if not set(args.mts).issubset(set(available_mts)):
            raise Exception(f'One of the specified covariance MTs ({args.mts}) was not found in the ENDF file (found {available_mts})')
        mts = args.mts
    else:
        mts = available_mts
    if args.output_store is None:
        output_h5_format = f'{ATOMIC_SYMBOL[ev.target['atomic_number']]}{ev.target['mass_number']}_{{0}}g.h5'
    else:
        output_h5_format = args.output_store + '{0}g.h5'
    if ev.target['fissionable'] == True:
        nu = True
        chi = True
    else:
        nu = False
        chi = False
    if args.energy_bin_structure == 'SCALE_3':
        cov_groups = njoy.energy_groups_3
    elif args.energy_bin_structure == 'SCALE_44':
        cov_groups = njoy.energy_groups_44
    elif args.energy_bin_structure == 'SCALE_56':
        cov_groups = njoy.energy_groups_56
    elif args.energy_bin_structure == 'SCALE_238':
        cov_groups = njoy.energy_groups_238
    elif args.energy_bin_structure == 'SCALE_252':
        cov_groups = njoy.energy_groups_252
    user_flux_weight_vals = None
    temperature = args.temperature
    run_cover_chain(endf_file, mts, [temperature], output_dir=output_dir, cov_energy_groups=cov_groups, iwt_fluxweight=args.njoy_spectrum_weighting, user_flux_weight_vals=user_flux_weight_vals, nu=nu, chi=chi, use_temp_folder=False, njoy_exec=args.njoy_exec, boxer_exec=args.boxer_exec)
    for mt in mts:
        process_cov_to_h5(output_dir, zaid, mt, boxer_matrix_name=f'covr_{temperature}.txt_{{mt}}_matrix.txt', output_h5_format=output_h5_format)
    if nu:
        process_cov_to_h5(output_dir, zaid, 452, boxer_matrix_name=f'covr_nu_{temperature}.txt_{{mt}}_matrix.txt', output_h5_format=output_h5_format)
    if chi:
        process_cov_to_h5(output_dir, zaid, 1018, boxer_matrix_name=f'covr_chi_{temperature}.txt_{{mt}}_matrix.txt', output_h5_format=output_h5_format)
