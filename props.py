"""The properties: statement, anchors, and what decides each one.

contracts : patterns over reference definitions ('module:path', fnmatch)
globals   : modules whose module-level tables and constants must match the reference
alias     : patterns whose storage sharing is checked
rules     : named whole-program rules in sa/rules.py
floor     : least number of contracts that must be found (vacuity guard)
"""
A = 'ASAPy.'
D = 'ASAPy.data.'

P = []


def prop(id, title, statement, over, text, why, files, mech, contracts, globals_=(), alias=(), rules=(), floor=1, observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=list(files), mech=list(mech),
                  contracts=list(contracts), globals=list(globals_), alias=list(alias), rules=list(rules), floor=floor, observe=list(observe)))


prop('C01', 'Sum rules: redundant reactions follow every edited component',
     'After partial cross sections have been edited and the sum rules applied, every redundant reaction present in the file that has an edited '
     'component equals its value as loaded plus the total change of its edited components, on its own energy grid. '
     'The fixed ENDF component lists are honoured and are applied from the innermost sum outwards, so that a change propagates to the total cross section. '
     'Redundant reactions without an edited component stay untouched.',
     ['inputs', 'histories'], 'every set of reactions present in the file, every set and order of edits, every energy grid',
     'The tests edit one reaction of one file; the component lists span 12 sums with hundreds of members and any subset may be present and edited.',
     ['ASAPy/AceIO.py'],
     [('component lists and order of application', 'AceIO.AceEditor.apply_sum_rules'), ('presence filter', 'AceIO.AceEditor._check_if_mts_present'),
      ('difference applied to the as-loaded value', 'AceIO.AceEditor.get_sigma(unadjusted)')],
     [A + 'AceIO:AceEditor.*'],
     alias=[A + 'AceIO:AceEditor.*'], floor=10, observe=['AceEditor.get_sigma(redundant mt) after apply_sum_rules'])

prop('C02', 'The as-loaded baseline is isolated from edits',
     'Whatever sequence of edits is made to a loaded nuclide, asking for unadjusted data always returns the values read from the file. '
     'Arrays handed out by cross-section queries are private: modifying them changes neither the edited data nor the baseline. '
     'The remembered original of an edited reaction is the value before its first edit.',
     ['histories', 'inputs'], 'every sequence of get, set and sum-rule operations on every reaction kind (cross section, nu-bar, chi)',
     'Tests look at one get/set pair; isolation is about aliasing over arbitrary sequences.',
     ['ASAPy/AceIO.py', 'ASAPy/data/function.py'],
     [('two independent tables', 'AceIO.AceEditor.__init__'), ('deep copies on the way out', 'AceIO.AceEditor.get_sigma'),
      ('first-edit snapshot', 'AceIO.AceEditor.set_sigma')],
     [A + 'AceIO:AceEditor.*', D + 'function:Tabulated1D.__init__', D + 'function:Tabulated1D.[xy]*'],
     alias=[A + 'AceIO:*', D + 'function:Tabulated1D.*', D + 'reaction:Reaction.*', D + 'neutron:*', D + 'product:*'], rules=['hidden_state:ASAPy.AceIO'], floor=12)

prop('C03', 'Edits reach exactly the requested data and malformed edits are refused',
     'Setting the data of a reaction replaces exactly that reaction (cross section at the selected temperature, total nu-bar, or prompt fission spectrum) and records it as adjusted. '
     'Data whose length does not match the energy grid of the target (for a spectrum: the number of incident energies, then the length of the first spectrum), an absent reaction, a missing prompt spectrum or a nu-bar that is not tabulated '
     'is refused with an error and the reaction is not recorded as adjusted. '
     'A replaced fission spectrum is renormalised so that its cumulative distribution and density stay consistent.',
     ['inputs', 'histories'], 'every reaction number, array and loaded file',
     'Tests exercise one or two reactions with well-formed arrays.',
     ['ASAPy/AceIO.py'],
     [('length check and dispatch', 'AceIO.AceEditor.set_sigma'), ('renormalisation', 'AceIO.AceEditor.set_chi_distro'),
      ('temperature selection', 'AceIO.AceEditor.__init__')],
     [A + 'AceIO:AceEditor.*'], alias=[A + 'AceIO:AceEditor.*'], floor=10)

prop('C04', 'Rewriting an ACE file changes only the requested numbers',
     'Replacing an array in an ACE file substitutes exactly the text of that array with the new numbers in the same fixed format, at most the allowed number of times, and refuses arrays of different length or that do not occur. '
     'Writing the file reproduces the header lines unchanged and every other number as read, in order, right-justified in 20 columns, four per line, with a final newline.',
     ['inputs'], 'every ACE file of either header style, every array and replacement count',
     'Tests replace one array in one file and compare one output.',
     ['ASAPy/AceIO.py'],
     [('text image of the data', 'AceIO.WriteAce._read_ace_to_a_line'), ('replacement', 'AceIO.WriteAce.replace_array'), ('layout', 'AceIO.WriteAce.write_ace')],
     [A + 'AceIO:WriteAce.*'], alias=[A + 'AceIO:WriteAce.*'], floor=5)

prop('C05', 'Each sample becomes one self-contained perturbed library file',
     'For every requested sample exactly one parallel rank writes one output file, numbered by the sample, built from a freshly loaded base file so that nothing leaks from one sample into the next. '
     'Every sampled reaction is multiplied by its own mapped perturbation factors, sum rules are applied, and for each adjusted reaction the base values are replaced by the adjusted ones (spectra in the file\'s own units, nu-bar wherever it occurs). '
     'The command line passes every option on to the operation it names.',
     ['inputs', 'configurations', 'schedules'], 'every set of reactions and samples, every number of ranks, every command line',
     'No test runs the writer or the command line; it needs a full ACE file, an MPI world and a covariance store.',
     ['ASAPy/XsecSampler.py'],
     [('per-sample loop', 'XsecSampler.write_sampled_data'), ('driver', 'XsecSampler.sample_xsec'), ('command line', 'XsecSampler.create_argparser and main block')],
     [A + 'XsecSampler:write_sampled_data', A + 'XsecSampler:sample_xsec', A + 'XsecSampler:get_mt_from_ace', A + 'XsecSampler:create_argparser', A + 'XsecSampler:__main__',
      A + 'XsecSampler:*', A + 'AceIO:WriteAce.*', A + 'AceIO:AceEditor.*'],
     globals_=[A + 'XsecSampler'], alias=[A + 'XsecSampler:*'], floor=12)

prop('C06', 'Group-wise values map onto the continuous grid by energy',
     'Every point of a continuous energy grid receives the value of the group whose half-open energy interval contains it, the lowest bound belonging to the lowest group. '
     'Points below the lowest or above the highest bound receive the caller\'s out-of-range value, and inconsistent bounds are refused. '
     'The inputs are not modified.',
     ['inputs'], 'every grid, group structure, bound and out-of-range value, including points exactly on a bound',
     'Tests check one grid; off-by-one errors live on the boundaries and at the two ends.',
     ['ASAPy/XsecSampler.py'],
     [('search and group numbering', 'XsecSampler.map_groups_to_continuous')],
     [A + 'XsecSampler:map_groups_to_continuous', A + 'XsecSampler:write_sampled_data'], alias=[A + 'XsecSampler:map_groups_to_continuous'], floor=1)

prop('C07', 'Covariance store: written and read under the same keys and layout',
     'Standard deviations and correlations are stored under keys determined by the two nuclides and reactions, indexed by groups 1..n with the documented columns, and are found again under the same keys when sampling. '
     'A correlation frame that is not square or whose rows and columns carry different labels, and a standard-deviation frame whose low or high energies are not strictly decreasing, are refused before anything is written. '
     'On loading, correlations are scaled to a unit maximum on the diagonal, and low and high energies that were stored swapped are put in order.',
     ['inputs'], 'every pair of nuclides and reactions, every number of groups, every frame',
     'Tests store one matrix; key collisions and malformed frames need quantification over all inputs.',
     ['ASAPy/AsapyCovStorage.py', 'ASAPy/XsecSampler.py', 'ASAPy/EndfToCov.py'],
     [('key formats', 'AsapyCovStorage df_key_*_formatter'), ('validation', 'AsapyCovStorage.check_*'), ('reader', 'XsecSampler.XsecSampler.load_zaid_mt')],
     [A + 'AsapyCovStorage:*', A + 'XsecSampler:XsecSampler.*', A + 'XsecSampler:sample_xsec', A + 'EndfToCov:process_cov_to_h5', A + 'EndfToCov:run_cover_chain'],
     globals_=[A + 'AsapyCovStorage'], alias=[A + 'AsapyCovStorage:*'], floor=12)

prop('C08', 'NJOY covariance output is parsed and stored faithfully',
     'The four blocks of a BOXER covariance listing are located by their header lines (those starting with an integer) and decoded from 10-character columns, blanks counting as zero, into bounds, cross sections, relative deviations and a square covariance matrix. '
     'A listing that reports an error is skipped, and one without blocks is refused. '
     'The stored bounds, cross sections, absolute and relative standard deviations and correlations of a reaction come from its own blocks, from high to low energy: absolute deviations are relative ones times the cross section, '
     'correlations are clipped into [-1, 1] with a unit diagonal and undefined ones become zero, and groups without a cross section get zero with a negligible deviation.',
     ['inputs'], 'every covariance listing, group count and reaction',
     'Tests parse one listing.',
     ['ASAPy/EndfToCov.py'],
     [('block location and decoding', 'EndfToCov.read_boxer_out_matrix'), ('assembly and storage', 'EndfToCov.process_cov_to_h5'), ('driver', 'EndfToCov.run_cover_chain')],
     [A + 'EndfToCov:*', A + 'CovManipulation:cov_to_correlation', A + 'AsapyCovStorage:*'], globals_=[A + 'EndfToCov', A + 'CovManipulation'], alias=[A + 'EndfToCov:*'], floor=15)

prop('C09', 'A failing external program is never taken for success',
     'Whenever an external processing program ends with a non-zero status, the call that ran it raises an error and no result of that run is used. '
     'The program receives exactly the prepared input, its output is read until it has ended, and result files are collected only after a successful end. '
     'Inputs are copied into the run directory before the program starts, and that directory is private to the run and removed afterwards unless the caller names one.',
     ['inputs', 'fault_sequences'], 'every program run, every exit status, every set of input and output tapes',
     'NJOY is not available to the tests; none of them runs these paths.',
     ['ASAPy/EndfToCov.py', 'ASAPy/njoy.py', 'ASAPy/data/njoy.py'],
     [('exit-status checks', 'EndfToCov.run_program, njoy.run, data.njoy.run'), ('driver', 'EndfToCov._run_cover_chain')],
     [A + 'EndfToCov:run_program', A + 'EndfToCov:_run_cover_chain', A + 'EndfToCov:run_cover_chain', A + 'EndfToCov:read_boxer_out_matrix', A + 'njoy:*', D + 'njoy:*'],
     floor=5)

prop('C10', 'NJOY input decks are wired consistently',
     'In every generated NJOY deck each module reads the tape written by the preceding stage that was requested, writes a tape of its own, and every value in the deck (material, temperatures, groups, tolerances, reactions) is the one asked for. '
     'Requested output files come from the tape that holds them, with one ACE file per temperature in order, and the deck ends with a stop. '
     'Switching a stage on or off never leaves a later stage reading a tape nobody wrote.',
     ['configurations', 'inputs'], 'every combination of optional stages, temperatures, groups and output files',
     'There are hundreds of combinations of switches; tests cover none without NJOY.',
     ['ASAPy/njoy.py', 'ASAPy/data/njoy.py'],
     [('deck assembly', 'njoy.make_njoy_run, data.njoy.make_ace, make_ace_thermal, make_pendf'), ('templates', 'njoy._TEMPLATE_*, data.njoy._TEMPLATE_*')],
     [A + 'njoy:*', D + 'njoy:*', A + 'EndfToCov:_run_cover_chain', A + 'EndfToCov:run_cover_chain'], globals_=[A + 'njoy', D + 'njoy', A + 'EndfToCov'], alias=[A + 'njoy:*', D + 'njoy:*'], floor=14)

prop('C11', 'Energy group structures are complete, ordered and selectable by name',
     'Every built-in group structure of n groups has exactly n+1 strictly increasing positive bounds in eV, within the standard range. '
     'Each group count offered on the command line selects the structure with that many groups, and any other choice is refused.',
     ['configurations'], 'every built-in structure and every accepted command-line choice',
     'Tests never compare the tables with their names.',
     ['ASAPy/njoy.py', 'ASAPy/EndfToCov.py'],
     [('tables', 'njoy.energy_groups_*'), ('selection', 'EndfToCov main block and parse_args')],
     [A + 'EndfToCov:parse_args', A + 'EndfToCov:__main__', A + 'EndfToCov:run_cover_chain', A + 'njoy:make_njoy_run'], globals_=[A + 'njoy'], rules=['groups'], floor=4)

prop('C12', 'Correlated sampling honours the requested distribution, means and correlations',
     'Sampling returns one row per sample and one column per variable in the order given, drawn from the distribution asked for (matched without regard to case, unknown names refused when there is anything to draw), through the rank-preserving transformation of Latin-hypercube draws by the desired correlation. '
     'Variables that cannot be sampled (no spread, no correlation data, or zero mean for a lognormal) keep their mean in every sample and leave the others unaffected. '
     'Lognormal parameters and correlations are derived from the means and standard deviations by the exact moment formulas.',
     ['inputs'], 'every vector of means and standard deviations, every correlation matrix, every distribution and sample count',
     'Tests check moments of a few random draws within loose tolerances.',
     ['ASAPy/CovManipulation.py'],
     [('sampling', 'CovManipulation.sample_with_corr'), ('rank transformation', 'CovManipulation.rank, order, col_independent_matrix'), ('Latin hypercube', 'CovManipulation.lhs_*')],
     [A + 'CovManipulation:*', A + 'XsecSampler:XsecSampler.*'], globals_=[A + 'CovManipulation'], alias=[A + 'CovManipulation:*'], floor=10)

prop('C13', 'Correlation and covariance conversions are exact inverses in form',
     'Converting a correlation matrix and standard deviations to a covariance multiplies element (i,j) by both standard deviations, and converting back divides element (i,j) by the square root of the absolute product of the two diagonal elements, with a unit diagonal; both results are symmetric. '
     'The covariance computed for sampling uses the stored correlation and standard deviations without altering the stored data. '
     'A correlation matrix with eigenvalues at or below 1e-8 is repaired by raising exactly those to a tiny positive value, leaving out rows without data; in sampling, a matrix without a Cholesky factor is factorised by the modified Cholesky method with its pivoting undone.',
     ['inputs'], 'every matrix and vector of standard deviations',
     'Tests use small hand-made matrices.',
     ['ASAPy/CovManipulation.py', 'ASAPy/XsecSampler.py'],
     [('conversions', 'CovManipulation.correlation_to_cov, cov_to_correlation'), ('factorisation', 'CovManipulation.gmw_cholesky'),
      ('repair', 'XsecSampler.XsecSampler._fix_non_pos_semi_def_matrix_eigen')],
     [A + 'CovManipulation:correlation_to_cov', A + 'CovManipulation:cov_to_correlation', A + 'CovManipulation:gmw_cholesky', A + 'CovManipulation:sample_with_corr',
      A + 'CovManipulation:normal_sample_corr', A + 'XsecSampler:XsecSampler.*'], globals_=[A + 'CovManipulation'],
     alias=[A + 'CovManipulation:*', A + 'XsecSampler:XsecSampler.*'], floor=9)

prop('C14', 'Perturbation factors are relative to the mean, screened and correctly numbered',
     'The perturbation factors drawn for a reaction are the sampled values divided by the group means (the sampled value itself where that quotient is not finite), one row per group numbered from 1 and one column per sample numbered from 0. '
     'When asked to, every sample containing a negative value is discarded as a whole and no other, and the remaining ones are renumbered without gaps; if fewer than the requested number remain, that is an error when the caller asked for one. '
     'Every accepted sampling type draws from the distribution and the correlation (stored, or none) that it names, and other types are refused.',
     ['inputs'], 'every covariance, distribution and number of samples',
     'Tests sample one well-behaved reaction.',
     ['ASAPy/XsecSampler.py'],
     [('sampling driver', 'XsecSampler.XsecSampler.sample'), ('sample screening', 'XsecSampler.XsecSampler._sample_check'), ('data loading', 'XsecSampler.XsecSampler.load_zaid_mt')],
     [A + 'XsecSampler:XsecSampler.*', A + 'XsecSampler:sample_xsec', A + 'CovManipulation:*', A + 'AsapyCovStorage:*'], alias=[A + 'XsecSampler:XsecSampler.*'], floor=6)

prop('C15', 'ENDF records are decoded by fixed columns',
     'Every ENDF record (text, control, head, list, one- and two-dimensional tables, packed integers) is decoded from its fixed columns with six values of eleven characters per line, reading exactly the number of lines its counts announce. '
     'Floating-point fields are accepted with or without an exponent letter. '
     'An evaluation is split into its sections by file and reaction number, and its header fields are taken from their documented positions.',
     ['inputs'], 'every ENDF-6 file',
     'Tests decode a handful of lines.',
     ['ASAPy/endf.py', 'ASAPy/data/endf.py'],
     [('record readers', 'endf.get_*_record, data.endf.get_*_record'), ('section split', 'Evaluation.__init__'), ('header', 'Evaluation._read_header')],
     [A + 'endf:*', D + 'endf:*'], globals_=[A + 'endf', D + 'endf'], alias=[A + 'endf:*', D + 'endf:*'], floor=25)

prop('C16', 'ACE tables are read completely in text and binary form',
     'Reading an ACE library yields, for every requested table, its name, masses, temperature, pointer arrays and data array exactly as laid out in the file, for both header styles of the text form and for the binary form. '
     'Array positions match the one-based positions of the format, tables that were not requested are skipped completely, and asking for a single table by a name that does not occur is an error. '
     'Conversion from text to binary keeps all of this.',
     ['inputs'], 'every ACE file of either form, every selection of tables',
     'Tests read one small text file.',
     ['ASAPy/data/ace.py'],
     [('readers', 'data.ace.Library._read_ascii, _read_binary'), ('conversion', 'data.ace.ascii_to_binary'), ('selection', 'data.ace.get_table')],
     [D + 'ace:*'], alias=[D + 'ace:*'], floor=8)

prop('C17', 'HDF5 writers and readers agree',
     'For every data object that can be written to HDF5, the reader looks up exactly the names, attributes, shapes and encodings that the writer produces, so that reading back a written object restores the same data. '
     'Optional parts are written and read under the same condition, and a type label written into a file leads the reader to the same kind of object.',
     ['inputs'], 'every kind of data object and every combination of optional parts',
     'Tests round-trip at most one nuclide; dozens of writer/reader pairs are never exercised.',
     ['ASAPy/data/neutron.py', 'ASAPy/data/reaction.py', 'ASAPy/data/product.py', 'ASAPy/data/energy_distribution.py', 'ASAPy/data/angle_distribution.py', 'ASAPy/data/correlated.py',
      'ASAPy/data/kalbach_mann.py', 'ASAPy/data/nbody.py', 'ASAPy/data/uncorrelated.py', 'ASAPy/data/function.py', 'ASAPy/data/thermal.py', 'ASAPy/data/urr.py', 'ASAPy/data/multipole.py',
      'ASAPy/data/fission_energy.py', 'ASAPy/data/photon.py'],
     [('writers', 'to_hdf5 / export_to_hdf5'), ('readers', 'from_hdf5')],
     [D + '*:*to_hdf5', D + '*:*from_hdf5', D + 'mixin:*', D + 'fission_energy:*'], alias=[D + '*:*to_hdf5', D + '*:*from_hdf5'], floor=45)

prop('C18', 'Files of the wrong kind or version are refused',
     'A library file opened by name that records no format version is refused with an error before any data are used, and so is a thermal-scattering or windowed-multipole file whose major version differs from the supported one. '
     'The generic gate refuses every file whose kind or major version is not the expected one, whatever it is asked to expect. '
     'Every written library file records its kind and the supported version.',
     ['inputs'], 'every file opened by any reader',
     'Tests never present a foreign file.',
     ['ASAPy/data/checkvalue.py', 'ASAPy/data/neutron.py', 'ASAPy/data/thermal.py', 'ASAPy/data/multipole.py', 'ASAPy/data/photon.py', 'ASAPy/data/library.py'],
     [('gate', 'data.checkvalue.check_filetype_version'), ('version constants', 'data HDF5_VERSION, WMP_VERSION')],
     [D + 'checkvalue:check_filetype_version', D + 'neutron:IncidentNeutron.from_hdf5', D + 'neutron:IncidentNeutron.export_to_hdf5', D + 'thermal:ThermalScattering.from_hdf5',
      D + 'thermal:ThermalScattering.export_to_hdf5', D + 'multipole:WindowedMultipole.from_hdf5', D + 'multipole:WindowedMultipole.export_to_hdf5',
      D + 'photon:IncidentPhoton.export_to_hdf5', D + 'library:DataLibrary.register_file'],
     globals_=['ASAPy.data'], floor=9)

prop('C19', 'Tabulated functions follow their interpolation laws',
     'Evaluating a tabulated function applies, in each region, the interpolation law declared for it between the two bracketing points, returns the tabulated value at the points, and handles scalars and arrays alike. '
     'Its running integral uses the exact antiderivative of the same law. '
     'Sums, combinations, piecewise regions and resonance backgrounds evaluate to the combination of their parts.',
     ['inputs'], 'every table, region structure, law and argument',
     'Tests evaluate no tabulated function directly.',
     ['ASAPy/data/function.py', 'ASAPy/data/grid.py'],
     [('evaluation', 'data.function.Tabulated1D.__call__'), ('integral', 'data.function.Tabulated1D.integral'), ('combinations', 'data.function.Sum, Combination, Regions1D, ResonancesWithBackground')],
     [D + 'function:*', D + 'grid:*'], globals_=[D + 'function'], alias=[D + 'function:*', D + 'grid:*'], floor=45)

prop('C20', 'ACE data are decoded from the right positions in eV',
     'Every quantity read from an ACE table (grids, cross sections, yields, angular, energy and correlated distributions, probability tables, thermal and photon data) is taken from the position given by the table\'s pointers and counts. '
     'Energies and heating numbers are converted from MeV to eV exactly once, and the ACE table itself is never modified by reading it.',
     ['inputs'], 'every ACE table and every distribution law',
     'Tests read one table and look at a few numbers.',
     ['ASAPy/data/neutron.py', 'ASAPy/data/reaction.py', 'ASAPy/data/energy_distribution.py', 'ASAPy/data/angle_distribution.py', 'ASAPy/data/angle_energy.py', 'ASAPy/data/correlated.py',
      'ASAPy/data/kalbach_mann.py', 'ASAPy/data/nbody.py', 'ASAPy/data/urr.py', 'ASAPy/data/thermal.py', 'ASAPy/data/photon.py', 'ASAPy/data/function.py'],
     [('decoders', 'from_ace of every data class'), ('unit constant', 'data.data.EV_PER_MEV')],
     [D + '*:*from_ace', D + 'reaction:_get_fission_products_ace', D + 'reaction:_get_photon_products_ace', D + 'reaction:_get_products', D + 'ace:*'],
     globals_=[D + 'data'], alias=[D + '*:*from_ace', D + 'reaction:*', D + 'ace:*'], floor=20)

prop('C21', 'Unknown laws, types and options are refused, known ones reach their own decoder',
     'Every law number, distribution type, resonance formalism or function label found in a data file selects the decoder defined for it. '
     'A label that is not known is refused with an error or an explicit warning, never silently decoded as something else or left undefined.',
     ['inputs'], 'every label that may occur in a file',
     'Tests contain a few of the dozens of laws and no unknown ones.',
     ['ASAPy/data/angle_energy.py', 'ASAPy/data/energy_distribution.py', 'ASAPy/data/function.py', 'ASAPy/data/resonance.py', 'ASAPy/data/resonance_covariance.py', 'ASAPy/data/reaction.py'],
     [('dispatch', 'AngleEnergy.from_ace/from_hdf5, EnergyDistribution.from_endf/from_hdf5, Function1D.from_hdf5, Resonances.from_endf')],
     [D + 'angle_energy:*', D + 'energy_distribution:EnergyDistribution.*', D + 'function:Function1D.*', D + 'resonance:Resonances.*', D + 'resonance_covariance:ResonanceCovariances.*',
      D + 'reaction:_get_products', D + 'uncorrelated:UncorrelatedAngleEnergy.from_hdf5', D + 'angle_distribution:AngleDistribution.from_*', D + 'kalbach_mann:KalbachMann.from_endf', D + 'correlated:CorrelatedAngleEnergy.from_endf',
      D + 'product:Product.from_hdf5', D + 'library:DataLibrary.*', D + 'decay:get_decay_modes', D + 'reaction:_get_photon_products_*', D + '*:*from_ace', D + '*:*from_endf', D + '*:*from_hdf5'],
     globals_=[D + 'resonance', D + 'resonance_covariance', D + 'decay', D + 'reaction'], floor=22)

prop('C22', 'Attributes accept only values that pass their check',
     'Assigning an attribute of a data object stores the value only after every check defined for that attribute (type, length, range, allowed values) has passed, and a value that fails is refused with an error while the old value stays. '
     'The stored value is the one read back. '
     'The generic checks accept exactly the values they document.',
     ['inputs'], 'every attribute and every value',
     'Tests assign almost no attributes, and only valid values.',
     ['ASAPy/data/checkvalue.py'] + ['ASAPy/data/%s.py' % m for m in ('angle_distribution', 'correlated', 'decay', 'energy_distribution', 'fission_energy', 'function', 'kalbach_mann', 'laboratory', 'mixin',
                                                                   'multipole', 'nbody', 'neutron', 'photon', 'product', 'reaction', 'resonance', 'thermal', 'uncorrelated', 'univariate', 'urr')],
     [('generic checks', 'data.checkvalue'), ('setters', 'property setters of every data class')],
     [D + 'checkvalue:*', D + '*:*.setter', D + '*:*.__init__', D + 'mixin:*'], alias=[D + 'checkvalue:*', D + '*:*.setter'], floor=100)

prop('C23', 'Nuclide identifiers and constants are consistent everywhere',
     'Atomic number, mass number, metastable state, element symbol and conventional name determine each other: decoding a ZAID under either metastable convention, composing a name and parsing it back give the same nuclide. '
     'Physical constants, element symbols, abundances, reaction names and thermal material tables have their reference values, and a thermal material is recognised under all of its listed aliases.',
     ['inputs'], 'every nuclide identifier and every table entry',
     'Tests name a few nuclides.',
     ['ASAPy/data/data.py', 'ASAPy/data/ace.py', 'ASAPy/data/thermal.py', 'ASAPy/data/reaction.py', 'ASAPy/data/endf.py'],
     [('names', 'data.data.gnd_name, zam'), ('ZAID decoding', 'data.ace.get_metadata'), ('thermal aliases', 'data.thermal.get_thermal_name')],
     [D + 'data:*', D + 'ace:get_metadata', D + 'thermal:get_thermal_name', D + 'endf:Evaluation.gnd_name', D + 'neutron:IncidentNeutron.name*', D + 'neutron:IncidentNeutron.atomic_symbol',
      D + 'photon:IncidentPhoton.name', D + 'neutron:IncidentNeutron.__init__', D + 'neutron:IncidentNeutron.from_*', D + 'decay:*', D + 'endf:Evaluation.*', A + 'endf:*', D + 'thermal:ThermalScattering.*', A + 'njoy:get_mat_from_endf'],
     globals_=[D + 'data', D + 'thermal', D + 'reaction', D + 'photon', D + 'endf', A + 'endf', A + 'njoy', D + 'njoy'], floor=12)

prop('C24', 'Resonance parameters and their covariances are decoded by formalism',
     'Every resonance range of an evaluation is decoded with the layout of its formalism into one row of parameters per resonance, with its channel radii, spins and energy limits. '
     'Covariance data of a range are expanded into a matrix aligned with the parameters whose upper triangle holds every covariance of the file, for every storage form, every l-value and every block of resonances. '
     'Sampling draws from the symmetric matrix of that upper triangle, every parameter from its own column. '
     'Taking a subset or sampling leaves the original range unchanged and keeps parameters and matrix aligned.',
     ['inputs'], 'every resonance range, formalism and storage form',
     'Tests read no resonance data.',
     ['ASAPy/data/resonance.py', 'ASAPy/data/resonance_covariance.py', 'ASAPy/data/endf.py'],
     [('parameters', 'data.resonance from_endf'), ('covariances', 'data.resonance_covariance from_endf, subset, sample')],
     [D + 'resonance:*', D + 'resonance_covariance:*', D + 'endf:*'],
     globals_=[D + 'resonance', D + 'resonance_covariance'], alias=[D + 'resonance:*', D + 'resonance_covariance:*'], floor=38)

prop('C25', 'Decay data, fission yields and fission energy release are decoded faithfully',
     'Half-life, decay energies, modes with their daughters and branching ratios, and spectra of a decay evaluation are read from their documented fields with uncertainties, a stable nuclide having an infinite half-life. '
     'Fission product yields are read per energy for independent and cumulative yields. '
     'The components of the fission energy release add up to the documented recoverable, prompt and total values in every representation.',
     ['inputs'], 'every decay, yield and energy-release section',
     'Tests read no decay or yield files.',
     ['ASAPy/data/decay.py', 'ASAPy/data/fission_energy.py'],
     [('decay', 'data.decay.Decay.from_endf, get_decay_modes'), ('yields', 'data.decay.FissionProductYields.from_endf'), ('energy release', 'data.fission_energy.FissionEnergyRelease')],
     [D + 'decay:*', D + 'fission_energy:*', D + 'function:sum_functions', D + 'endf:get_*'], globals_=[D + 'decay', D + 'fission_energy'], alias=[D + 'decay:*', D + 'fission_energy:*'], floor=38)

prop('C26', 'Photon interaction and relaxation data are decoded faithfully',
     'Photoatomic cross sections, form factors, subshell data, Compton profiles, stopping powers, bremsstrahlung and relaxation transitions are taken from their documented positions with energies in eV and probabilities normalised. '
     'Subshells are identified by their designator, binding energies and electron numbers match them, and reactions are found by their number.',
     ['inputs'], 'every photoatomic and relaxation file',
     'Tests read no photon data.',
     ['ASAPy/data/photon.py'],
     [('relaxation', 'data.photon.AtomicRelaxation'), ('element data', 'data.photon.IncidentPhoton'), ('reactions', 'data.photon.PhotonReaction')],
     [D + 'photon:*', D + 'endf:get_*'], globals_=[D + 'photon'], alias=[D + 'photon:*'], floor=35)

prop('C27', 'Windowed multipole cross sections are evaluated by the documented formula',
     'Evaluating a windowed multipole library at an energy and temperature selects the window by the square root of the energy (the highest energy belonging to the last window), adds the curve-fit polynomial (Doppler-broadened where the window asks for it) and the contribution of every pole of the window, '
     'with separate treatment of zero temperature. '
     'Scattering, absorption and fission keep their own residues, and fission is zero for a nuclide that is not fissionable.',
     ['inputs'], 'every library, energy and temperature',
     'Tests contain no multipole library.',
     ['ASAPy/data/multipole.py'],
     [('evaluation', 'data.multipole.WindowedMultipole._evaluate'), ('broadened polynomials', 'data.multipole._broaden_wmp_polynomials'), ('Faddeeva function', 'data.multipole._faddeeva')],
     [D + 'multipole:*'], globals_=[D + 'multipole'], alias=[D + 'multipole:*'], floor=25)

prop('C28', 'Univariate distributions describe themselves consistently',
     'Every one-dimensional distribution keeps its parameters and the consistency between them (matching lengths, ordered bounds, allowed interpolation), reports its number of parameters as its length, and writes itself to XML with its type, parameters and interpolation. '
     'A Legendre expansion evaluates with the (2l+1)/2 weights.',
     ['inputs'], 'every distribution and parameter set',
     'Tests build no such distributions directly.',
     ['ASAPy/data/univariate.py', 'ASAPy/data/_xml.py'],
     [('distributions', 'data.univariate')],
     [D + 'univariate:*', D + '_xml:*'], globals_=[D + 'univariate'], alias=[D + 'univariate:*', D + '_xml:*'], floor=50)

prop('C29', 'A data library index lists and finds exactly the registered files',
     'Registering a file records its path, its kind and every material it contains; looking up a material returns the entry that contains it and nothing if there is none. '
     'An index written to XML and read back gives the same entries with paths resolved relative to the index, and an index that is missing or not configured is refused.',
     ['inputs', 'histories'], 'every set of registered files',
     'Tests register no files.',
     ['ASAPy/data/library.py', 'ASAPy/data/_xml.py'],
     [('registry', 'data.library.DataLibrary')],
     [D + 'library:*', D + '_xml:*'], alias=[D + 'library:*', D + '_xml:*'], floor=7)

prop('C30', 'Reactions and products read from ENDF are complete',
     'Every reaction of an evaluation is read with its Q-value, reference frame, cross section and products; fission products are split into prompt and delayed neutrons with their own yields, decay rates and spectra, and photons from production files carry their yields. '
     'Angular, energy and correlated distributions are decoded per incident energy with their interpolation. '
     'Yields of different products never share storage.',
     ['inputs'], 'every evaluation and reaction',
     'Tests read one evaluation at most and inspect few products.',
     ['ASAPy/data/reaction.py', 'ASAPy/data/product.py', 'ASAPy/data/angle_distribution.py', 'ASAPy/data/energy_distribution.py', 'ASAPy/data/kalbach_mann.py', 'ASAPy/data/correlated.py',
      'ASAPy/data/laboratory.py', 'ASAPy/data/nbody.py', 'ASAPy/data/neutron.py', 'ASAPy/data/uncorrelated.py'],
     [('reactions', 'data.reaction.Reaction.from_endf'), ('products', 'data.reaction._get_*'), ('distributions', 'from_endf of every distribution')],
     [D + 'reaction:*', D + 'product:*', D + 'angle_distribution:*', D + 'uncorrelated:*', D + 'laboratory:*', D + 'nbody:*', D + '*:*from_endf', D + 'endf:get_*'], globals_=[D + 'reaction'],
     alias=[D + 'reaction:*', D + 'product:*', D + 'angle_distribution:*', D + '*:*from_endf'], floor=70)

prop('C31', 'A nuclide\'s reactions, temperatures and redundant sums stay consistent',
     'A nuclide assembled from several temperatures holds one grid, cross section set and probability table per temperature, labelled by the rounded temperature, and refuses data of another nuclide. '
     'Reactions are reachable by their number, redundant reactions missing from the file are built as the sum of the components that are present, and the components of a reaction are found recursively.',
     ['inputs', 'histories'], 'every file, temperature set and reaction',
     'Tests load a single temperature.',
     ['ASAPy/data/neutron.py'],
     [('container', 'data.neutron.IncidentNeutron'), ('redundant sums', 'data.neutron.IncidentNeutron._get_redundant_reaction, get_reaction_components')],
     [D + 'neutron:*', D + 'urr:*', D + 'endf:get_evaluations', D + 'reaction:Reaction.*'], globals_=[D + 'neutron', D + 'endf'], alias=[D + 'neutron:*', D + 'urr:*'], floor=45)

prop('C32', 'Thermal scattering data are decoded and evaluated faithfully',
     'Thermal scattering files yield inelastic and elastic cross sections and outgoing distributions per temperature, with the secondary mode and table shapes given by the file, and refuse data of another material when temperatures are added. '
     'A table is named as the caller says or else by its recognised file name. '
     'Coherent elastic scattering is zero up to the first Bragg edge and otherwise the cumulative structure factor of the last edge below the energy, divided by the energy.',
     ['inputs'], 'every thermal file, energy and temperature',
     'Tests read no thermal data.',
     ['ASAPy/data/thermal.py'],
     [('decoder', 'data.thermal.ThermalScattering.from_ace'), ('coherent elastic', 'data.thermal.CoherentElastic.__call__')],
     [D + 'thermal:*'], globals_=[D + 'thermal'], alias=[D + 'thermal:*'], floor=16)

prop('C33', 'No operation depends on undefined names or on state left by earlier calls',
     'Every name and object attribute used by any function is defined on every run, so that no operation fails for want of a definition. '
     'The result of a computation depends only on its arguments and on the object it is called on, never on results remembered from earlier calls with other arguments.',
     ['programs', 'histories'], 'every function of the package, every call history',
     'Tests import the modules and call a few functions once.',
     ['ASAPy'],
     [('definitions', 'all modules'), ('absence of caches', 'all modules')],
     [], rules=['names', 'hidden_state:'], floor=0)

NA = [
    dict(id='N01', title='Sample statistics converge to the requested moments',
         statement='As the number of samples grows, the sample mean, standard deviation and correlation of the drawn variables converge to the requested ones.',
         over=['inputs'], text='every distribution, moment set and sample size', why='Tests check one seed and size.',
         files=['ASAPy/CovManipulation.py'], mech=[('sampling', 'CovManipulation.sample_with_corr')],
         reason='Convergence of random draws is a statement about distributions of run-time values; no structural condition in the source is equivalent to it (the formulas feeding the draws are decided under C12 and C13).'),
    dict(id='N02', title='Linearised and thinned grids stay within the tolerance',
         statement='Linearising a function or thinning a table yields a piecewise-linear table whose relative error against the original is below the requested tolerance everywhere.',
         over=['inputs'], text='every function, grid and tolerance', why='No test covers it.',
         files=['ASAPy/data/grid.py'], mech=[('adaptive bisection', 'data.grid.linearize'), ('thinning', 'data.grid.thin')],
         reason='The error bound quantifies over values of an arbitrary function between grid points; midpoint bisection does not even imply it for all functions (the decision procedure itself is decided under C19).'),
    dict(id='N03', title='The modified Cholesky factor stays close to the matrix',
         statement='The repaired factorisation of a matrix that is not positive definite reproduces the matrix up to a minimal diagonal perturbation.',
         over=['inputs'], text='every symmetric matrix', why='Tests use small matrices.',
         files=['ASAPy/CovManipulation.py'], mech=[('factorisation', 'CovManipulation.gmw_cholesky')],
         reason='The size of the perturbation is a numerical bound over run-time values; static analysis can only decide the update formulas (C13).'),
]
