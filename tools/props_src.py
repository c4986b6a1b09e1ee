#!/usr/bin/env python3
"""Source of properties.jsonl (run: python3 tools/props_src.py).  One P(...) per property."""
import json, os
OUT = []

def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    OUT.append(dict(id=id, title=title, statement=' '.join(statement.split()),
        quantifier=dict(over=over, text=' '.join(qtext.split())),
        why_tests_cant=' '.join(why.split()),
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))

P('C01', 'Format detection picks the first accepting format in priority order',
  """For any file and any set of registered formats, automatic detection returns the first format, in priority order
  (library formats plus user-defined ones), whose extension list matches the file name case-insensitively (wildcards included)
  and whose reader accepts the content; a format that declares the content wrong is skipped, any other reader failure is reported
  to the caller, and if no format accepts a dedicated not-detected error is raised.
  Reading with automatic detection gives the same content as reading with the detected format's own reader, and detection and reading
  give the same answer however many files were handled before.""",
  ['inputs', 'configurations', 'histories'],
  "Every file name and content, every combination of registered formats/extensions/priorities, every sequence of previous detections.",
  "The tests read each example file once, with the fixed built-in list; they never vary the registry, the priorities, the history or the failure mode of a reader.",
  ['weio/__init__.py', 'weio/file_formats.py'],
  [('priority-sorted format list, cached', 'weio/__init__.py:fileFormats'), ('extension match + trial construction', 'weio/__init__.py:detectFormat'),
   ('trial read catching only the wrong-format error', 'weio/file_formats.py:isRightFormat'), ('user class discovery', 'weio/__init__.py:userFileClasses')],
  [('_FORMATS', 'cached list of formats', 'weio/__init__.py')], ['weio.detectFormat', 'weio.read', 'weio.fileFormats'])

P('C02', 'FAST input files survive read, write, read unchanged',
  """Reading a FAST/OpenFAST input file, writing it and reading the result gives the same entries in the same order: same labels,
  values, descriptions (up to surrounding blanks and dashes), comment lines, tables (column names, units, every row) and output-channel lists, with numbers unchanged up to the printed precision (about nine significant digits in tables, fifteen elsewhere);
  blank lines at the end, lines after the END of an output list, and AeroDyn 14 airfoil files (which have no writer) are excepted.
  Writing the re-read file again produces a byte-identical file when table numbers have at most nine significant digits.
  Writing never alters the content held in memory.""",
  ['inputs', 'histories'],
  "Every FAST input file of any supported module (main, structure, blades, tower, aero, polars, inflow, servo, hydro, substructure, beam, mooring, linear drivers ...) and every number of read/write cycles.",
  "The tests compare a few hand-picked keys or text of a few files; most tables, comments, units and number ranges are never compared after a cycle.",
  ['weio/fast_input_file.py'],
  [('line/table parser', 'weio/fast_input_file.py:FASTInputFileBase._read'), ('serialiser', 'weio/fast_input_file.py:FASTInputFileBase.toString'),
   ('specialised blade/polar/platform classes', 'weio/fast_input_file.py:EDBladeFile,ADBladeFile,ADPolarFile,ExtPtfmFile')],
  [('data', 'ordered list of entries', 'weio/fast_input_file.py')], ['FASTInputFile.read/.write/.data'])

P('C03', 'Editing a FAST input file changes exactly what was edited',
  """Entries of a FAST input file are reached by label regardless of letter case; asking for an absent label, or assigning to one, is an error.
  After any sequence of assignments, every entry reads back as last assigned (or as originally read if never assigned), both in memory and in the file
  that is written and read back, and nothing else in the file changes, except that row counters of blade, tower and polar tables follow the number of rows of the table on writing.""",
  ['inputs', 'histories'],
  "Every file, every label, every sequence of assignments of scalars, strings, booleans, lists and table arrays (including tables with added or removed rows), every interleaving with writes.",
  "The tests assign one or two keys once; they do not check the rest of the file nor sequences.",
  ['weio/fast_input_file.py'],
  [('case-insensitive lookup', 'weio/fast_input_file.py:FASTInputFileBase.getIDs/getID'), ('assignment', 'weio/fast_input_file.py:FASTInputFileBase.__setitem__'),
   ('row counters', 'weio/fast_input_file.py:_writeSanityChecks')],
  [('data', 'ordered list of entries', 'weio/fast_input_file.py')], ['FASTInputFile[...]', 'written file'])

P('C04', 'FAST input values are interpreted as the file states',
  """Every entry of a FAST input file is read with the type and value its text denotes: integers, floating-point numbers, logicals in all accepted spellings,
  quoted strings, keywords and comma-separated lists, together with its label and description.
  Every table is read with all its announced rows and columns, its column names and units, and tables given by name or by row count never swallow or drop neighbouring lines;
  conversion to data frames reports the same numbers.""",
  ['inputs'],
  "Every spelling, spacing and ordering of entries and every table size, including empty tables.",
  "Tests use the fixed example files, in which each spelling and size occurs at most once and few values are compared.",
  ['weio/fast_input_file.py'],
  [('parseFASTInputLine', 'weio/fast_input_file.py'), ('parseFASTNumTable', 'weio/fast_input_file.py'), ('parseFASTFilTable', 'weio/fast_input_file.py'), ('parseFASTOutList', 'weio/fast_input_file.py')],
  (), ['FASTInputFile(...)[label]', 'FASTInputFile(...).toDataFrame()'])

P('C05', 'FAST output files are decoded exactly, text and binary',
  """Reading a FAST/OpenFAST output file, whether text or any of the binary variants (packed with or without time channel, uncompressed, long channel names), gives for every channel and
  time step the value encoded in the file, in order, with the channel names, units and file description stored in it, independently of the number of rows, channels or the size of the file.
  The data frame has one column per channel named from channel and unit, starting with time.""",
  ['inputs'],
  "Every file size, channel count, name, unit, scaling, time step and description, in each variant.",
  "Tests read three small example files and compare one or two numbers.",
  ['weio/fast_output_file.py'],
  [('load_ascii_output', 'weio/fast_output_file.py'), ('load_binary_output, buffered unpacking', 'weio/fast_output_file.py'), ('toDataFrame', 'weio/fast_output_file.py')],
  (), ['FASTOutputFile(...).toDataFrame()', '.data/.info'])

P('C06', 'FAST output files written by the library read back as the data given',
  """Writing channel data as a FAST output file (text, or packed binary) and reading it gives the same channel names and units (of up to ten characters), number of steps and time axis (evenly spaced for packed binary), and for packed binary the same description.
  Every value is kept within the resolution of the format (for packed binary: one part in 65535 of the range of the channel, or of one for constant channels, besides single-precision rounding of its scale and offset; for text: the printed digits), for constant, tiny, huge and sign-changing channels alike.
  Data that the format cannot hold is refused before anything is written.""",
  ['inputs', 'histories'],
  "Every table of finite channel data, every units convention of the column names, binary and text targets, repeated cycles.",
  "Tests rewrite one small file and check one channel with a loose tolerance.",
  ['weio/fast_output_file.py'],
  [('writeBinary', 'weio/fast_output_file.py'), ('writeDataFrame', 'weio/fast_output_file.py'), ('ASCII _write', 'weio/fast_output_file.py')],
  (), ['FASTOutputFile.write', 'writeDataFrame', 'writeBinary'])

P('C07', 'TurbSim wind boxes are read and written faithfully',
  """Reading a TurbSim full-field file gives, at every grid and tower point, component and time, the velocity encoded in the file, with the grid coordinates, time axis, reference height and wind speed it states.
  Writing a wind box and reading it back changes no velocity by more than one quantisation step of its component (constant components: single precision), and keeps the grid, tower points, times, mean-wind data and file type,
  for any range of velocities.""",
  ['inputs', 'histories'],
  "Every grid size, number of tower points, number of steps, velocity range (constant, offset, wide, tiny) and repeated cycles.",
  "The test writes one small box back and compares with a loose tolerance; no tower points, no constant components, no wide ranges.",
  ['weio/turbsim_file.py'],
  [('read: per-component int16 unpacking', 'weio/turbsim_file.py:TurbSimFile.read'), ('write: int16 packing', 'weio/turbsim_file.py:TurbSimFile.write')],
  (), ['TurbSimFile.read', 'TurbSimFile.write'])

P('C08', 'Wind-box queries are correct and do not disturb the box',
  """Profiles, mid-line and plane extractions, nearest-point lookups, correlations, spectra, periodic extension, scaling and conversions computed from a turbulence box agree with their definition applied to the stored velocities.
  Queries and conversions to data frames leave the stored velocities, coordinates and times untouched, so that results do not depend on which queries were made before, in which order or how often.""",
  ['inputs', 'histories'],
  "Every box, every query and every sequence of queries.",
  "Tests call a few of the queries once, without comparing the box before and after.",
  ['weio/turbsim_file.py', 'weio/mannbox_file.py'],
  [('query methods on views of the velocity array', 'weio/turbsim_file.py'), ('makePeriodic, scale', 'weio/turbsim_file.py'), ('fromMannBox/toMannBox/fromTurbSim', 'weio/turbsim_file.py, weio/mannbox_file.py')],
  [("self['u']", 'velocity array', 'weio/turbsim_file.py')], ['TurbSimFile query methods'])

P('C09', 'Mann boxes round-trip exactly with the documented orientation',
  """Reading a Mann box gives at each longitudinal, lateral and vertical index the single-precision value stored for it, with the dimensions taken from the arguments or from the file name,
  and writing it gives back the same bytes.
  Coordinates, time axis, point and profile extraction agree with the stored values and spacings, and a wrong size is reported as an error rather than producing a distorted box.""",
  ['inputs', 'histories'],
  "Every box size (cubic or not), spacing, value, and file-name convention.",
  "The tests use one 2x4x8 box.",
  ['weio/mannbox_file.py'],
  [('read/_write with axis flip', 'weio/mannbox_file.py'), ('size from file name', 'weio/mannbox_file.py')], (), ['MannBoxFile.read/.write/.valuesAt/.vertProfile/.toDataFrame'])

P('C10', 'Delimited text tables are read completely, whatever the dialect',
  """Reading a delimited text table with automatic settings returns every data row and column with the values in the file and the column names given in the file (or generated ones when there are none),
  for comma, semicolon, tab or blank separation, with or without comment lines, header names, unit line, byte-order mark, blank-padded fields or missing final newline.
  Explicitly given separators, names, comment and header settings are obeyed, and reading the file again with the same object gives the same table.""",
  ['inputs', 'configurations'],
  "Every dialect and every table size and content within the dialects above.",
  "The tests cover a dozen fixed files and mostly compare one number or a column name.",
  ['weio/csv_file.py', 'weio/file.py'],
  [('dialect detection', 'weio/csv_file.py:CSVFile._read'), ('encoding detection', 'weio/file.py:File.encoding')], (), ['CSVFile(...).toDataFrame()', 'weio.read'])

P('C11', 'Delimited text tables written by the library read back the same',
  """Writing a table that was read, built or edited as delimited text and reading it back gives the same columns, the same number of rows and the same values to full printed precision,
  for every separator and with or without header lines, any number of times.""",
  ['inputs', 'histories'],
  "Every dialect, table content (numbers, text, missing values) and number of cycles.",
  "The tests do one write/read comparison of files.",
  ['weio/csv_file.py', 'weio/fast_wind_file.py'],
  [('CSVFile._write', 'weio/csv_file.py')], (), ['CSVFile.write', 'CSVFile.toDataFrame'])

P('C12', 'HAWC2 time series are decoded and written exactly',
  """Reading a HAWC2 result, text or binary, gives for each sensor and time step the value encoded in the data file (binary scale factors applied), with sensor names, units and descriptions as listed in the sensor file,
  and the data frame columns follow the sensor order.
  Writing the result in text form and reading it back gives the same values to printed precision and the same sensor list (names of up to thirty, units of up to ten characters), any number of times.""",
  ['inputs', 'histories'],
  "Every number of sensors/steps, every sensor text, scale factor and variant.",
  "Tests read one binary and one text example and compare one number.",
  ['weio/hawc2_dat_file.py', 'weio/wetb/hawc2/Hawc2io.py'],
  [('ReadHawc2', 'weio/wetb/hawc2/Hawc2io.py'), ('column naming', 'weio/hawc2_dat_file.py:_toDataFrame'), ('text writer', 'weio/hawc2_dat_file.py:_write')], (), ['HAWC2DatFile(...).toDataFrame()', '.write'])

P('C13', 'HAWC2 blade geometry, polar and structural tables survive editing and saving',
  """The aerodynamic-layout, profile-coefficient and structural-data files of HAWC2 give, for each set, thickness and row, the numbers in the file; saving and re-reading gives the same sets, rows and numbers to printed precision, also after tables were edited.
  Interpolated chord, thickness and coefficients equal linear interpolation of the tables (coefficients: also between thicknesses, within the range of the set).
  The element stiffness matrix and shape functions of a structural set are those of the uniform Timoshenko beam with the properties interpolated at the given radius.""",
  ['inputs', 'histories'],
  "Every number of sets, rows, thicknesses and values, any query point.",
  "Tests read one file per type and compare one number or a text rewrite.",
  ['weio/hawc2_ae_file.py', 'weio/hawc2_pc_file.py', 'weio/hawc2_st_file.py', 'weio/wetb/hawc2/ae_file.py', 'weio/wetb/hawc2/pc_file.py', 'weio/wetb/hawc2/st_file.py'],
  [('AEFile', 'weio/wetb/hawc2/ae_file.py'), ('PCFile', 'weio/wetb/hawc2/pc_file.py'), ('StFile', 'weio/wetb/hawc2/st_file.py')], (), ['HAWC2AEFile', 'HAWC2PCFile', 'HAWC2StFile'])

P('C14', 'HAWC2 control files keep their structure and edits when saved',
  """Reading a HAWC2 control file exposes every section and command with its values, in order, including repeated sections and included files.
  Saving and re-reading gives the same tree of sections, commands, values and comments (body sections come first and sensor commands last in their section),
  and an assigned value or added/deleted section is found after saving, with everything else unchanged.""",
  ['inputs', 'histories'],
  "Every nesting, repetition, value list and edit sequence.",
  "The test reads one file and compares one body definition.",
  ['weio/hawc2_htc_file.py', 'weio/wetb/hawc2/htc_file.py', 'weio/wetb/hawc2/htc_contents.py'],
  [('HTCFile reader/writer', 'weio/wetb/hawc2/htc_file.py'), ('section tree', 'weio/wetb/hawc2/htc_contents.py')], (), ['HAWC2HTCFile(...).data', '.write'])

P('C15', 'FLEX files are decoded exactly',
  """Reading FLEX result files of versions 0, 2 and 3 gives the encoded value of each sensor at each step with the time axis implied by the stored step, the names and units of the accompanying sensor list or of the file.
  FLEX wave-kinematics, blade, profile and documentation files give every number, name and table stored in them; profiles that are written read back the same.""",
  ['inputs'],
  "Every number of sensors, steps, time step, version, text.",
  "One example of each kind, one value compared.",
  ['weio/flex_out_file.py', 'weio/flex_wavekin_file.py', 'weio/flex_blade_file.py', 'weio/flex_profile_file.py', 'weio/flex_doc_file.py'],
  [('read_flex_res', 'weio/flex_out_file.py'), ('read_flex_sensor', 'weio/flex_out_file.py')], (), ['FLEX*File(...).toDataFrame()'])

P('C16', 'Bladed results are decoded exactly and gathered by group',
  """Reading a Bladed result, through its header, its data or its project file, gives for every variable (and every section, for two- and three-dimensional groups) and every step the stored value,
  whether the data is text or binary of either precision, with variable names, units, and axis values from the header.
  Channels of several groups are gathered without mixing or duplicates; short data is an error when the group is read directly, and leaves the group out of a project.""",
  ['inputs', 'configurations'],
  "Every combination of groups, dimensions, precision, variable naming.",
  "Tests read two cases and compare a few numbers.",
  ['weio/bladed_out_file.py'],
  [('read_bladed_sensor_file', 'weio/bladed_out_file.py'), ('read_bladed_output', 'weio/bladed_out_file.py')], (), ['BladedFile(...).toDataFrame()'])

P('C17', 'Linearization files give every operating point, matrix and label',
  """Reading an OpenFAST linearization file gives the operating-point header values, states, derivatives, inputs and outputs with their descriptions and frames, and each system matrix with its stated dimensions and all its entries;
  the data frames carry the same numbers, rows and columns labelled in file order by the conventional unique short name and unit of each description.""",
  ['inputs'],
  "Every number of states, inputs, outputs (including none), with or without Jacobians, and every description.",
  "Tests read one file and compare one entry.",
  ['weio/fast_linearization_file.py'],
  [('read sections and matrices', 'weio/fast_linearization_file.py:_read'), ('short descriptions', 'weio/fast_linearization_file.py:short_descr')], (), ['FASTLinearizationFile(...)'])

P('C18', 'SubDyn summary data, modes and node displacements follow the file',
  """Reading a SubDyn summary gives every scalar, vector and table of the file; mode displacements and rotations at nodes, degree-of-freedom maps and mode data frames equal the file's matrices mapped to nodes, in the node order requested,
  and repeating a query or export gives the same result.""",
  ['inputs', 'histories'],
  "Every structure size, node numbering, sets of degrees of freedom and modes; every repetition of queries.",
  "Tests read one summary and compare a few entries.",
  ['weio/fast_summary_file.py', 'weio/mini_yaml.py', 'weio/tools/graph.py', 'weio/fast_input_file_graph.py'],
  [('yaml_read', 'weio/mini_yaml.py'), ('NodesDisp/getModes', 'weio/fast_summary_file.py')], (), ['FASTSummaryFile'])

P('C19', 'Unusable files give the documented errors, never wrong data',
  """For every supported format, reading a path that does not exist raises a file-not-found error and reading an empty file raises the library's empty-file error;
  content that is not of the format is refused with an exception.
  A file cut short or with header counts larger than its data never yields a full-size result with invented values: it is refused, or the data that remains is given unchanged.""",
  ['inputs', 'fault_sequences'],
  "Every supported format, every truncation point, every foreign content.",
  "Tests try a handful of missing/empty files with automatic detection only.",
  ['weio/file.py', 'weio/*_file.py'],
  [('generic pre-checks', 'weio/file.py:File.read and re-implementations')], (), ['Format(filename)', 'weio.read'])

P('C20', 'Reading and querying have no side effects',
  """Reading a file, converting it to data frames or printing it never creates, changes, renames or removes any file and leaves no file open; writing touches only the target file (and its documented companions), and a write that fails because the content cannot be written leaves the target as it was.
  Converting repeatedly, or reading again with the same object (be it the same file or another one), gives what a new object gives, and queries and writing do not change the content of the object.
  Separate objects never influence each other.""",
  ['inputs', 'histories'],
  "Every format, every file, every interleaving of reads, conversions and writes on several objects.",
  "Tests never look at the file system, open handles or second conversions.",
  ['weio/*.py'], [('readers/writers of all formats', 'weio/*_file.py')], (), ['all format classes'])

P('C21', 'FAST model decks are read and written as a consistent set of files',
  """Opening a FAST model by its main file reads exactly the enabled and requested sub-files, each found relative to the file that names it, whatever the working directory; files marked unused or missing are left out, and reading again with the same object gives the same deck.
  Writing a complete deck under another name, prefix, suffix or directory produces one file for the main input and for each enabled structural, blade, tower, wind, aerodynamic, controller, hydrodynamic, substructure and MoorDyn file, and touches nothing else.
  These files reference each other by name and re-read as a deck with the same values in every sub-file, including edits.""",
  ['inputs', 'configurations', 'histories'],
  "Every combination of enabled modules, read lists, directories, prefixes/suffixes.",
  "Tests read one deck, write none.",
  ['weio/fast_input_deck.py'], [('read/_read', 'weio/fast_input_deck.py'), ('write', 'weio/fast_input_deck.py')], (), ['FASTInputDeck'])

P('C22', 'VTK grids and meshes are decoded and rewritten faithfully',
  """Reading a legacy VTK file, text or binary, gives the points, cells, point data and cell data stored in it; for regular grids the axes and gridded fields index the value of each grid point.
  Writing as an unstructured mesh, text or binary, and reading back gives the same points, cells and data.
  A file that is cut short is refused or gives complete arrays only.""",
  ['inputs', 'histories'],
  "Every grid size, field count, data type, text or binary.",
  "Tests read two files.",
  ['weio/vtk_file.py'], [('section readers', 'weio/vtk_file.py'), ('writers', 'weio/vtk_file.py')], (), ['VTKFile'])

P('C23', 'Other tabular formats keep every number',
  """TurbSim time-series input, deterministic wind, Tecplot, HAWCStab2 tables, ROSCO performance tables, BModes outputs, Parquet, Excel, NetCDF and TDMS files give the names and numbers stored in the file.
  Those that can be written (TurbSim time series, deterministic wind, Tecplot, ROSCO, Parquet, Excel, NetCDF) read back with the same names and numbers to the printed precision, and a generated step wind has the requested steps.""",
  ['inputs', 'histories'],
  "Every table size, value and text of each format.",
  "One example per format, one number compared.",
  ['weio/turbsim_ts_file.py', 'weio/tecplot_file.py', 'weio/hawcstab2_pwr_file.py', 'weio/hawcstab2_ind_file.py', 'weio/hawcstab2_cmb_file.py', 'weio/rosco_performance_file.py', 'weio/parquet_file.py', 'weio/bmodes_out_file.py', 'weio/fast_wind_file.py'],
  [('format readers and writers', 'weio/*_file.py')], (), ['format classes'])

P('C24', 'Graphs of structures match the file and stay consistent when changed',
  """The graph of a SubDyn or HydroDyn input file has one node per joint and one element per member, with the coordinates, connectivity, properties, boundary conditions, added masses and coefficients of the file.
  Dividing elements splits each chosen element in equal parts with new unique identifiers, same properties and interpolated node data, keeps existing nodes and total length, and sorting only reorders nodes.
  Connectivity maps, extents, lines, frames and JSON always describe the current nodes and elements, whatever was asked or changed before.""",
  ['inputs', 'histories'],
  "Every structure (numbering, properties, member types) and every sequence of divisions, sorting, additions and queries.",
  "Tests count the nodes and elements of two files.",
  ['weio/tools/graph.py', 'weio/fast_input_file_graph.py'], [('conversion', 'weio/fast_input_file_graph.py:subdynToGraph/hydrodynToGraph'), ('divideElements, sortNodesBy, cached connectivity', 'weio/tools/graph.py:GraphModel')],
  [('Nodes, Elements, cached maps', 'nodes, elements and connectivity', 'weio/tools/graph.py:GraphModel')], ['FASTInputFile.toGraph', 'GraphModel'])

P('C25', 'CACTUS results and RAAW measurements are assembled faithfully',
  """Reading a CACTUS input gives its namelists and geometry with the time, element and dynamic-stall tables found in the output folder next to it, and its data frame has for every computed step the original columns, the time, the azimuth, and the rotor, blade and sectional quantities that the reference values, the blade azimuths and the sign convention imply.
  Missing companion files leave their part out, a run stopped early keeps its steps, and asking for the frame again gives the same frame.
  A RAAW measurement file gives every 50 Hz and 1 Hz signal under its name, in its own frame, with the time stamps from the start date and empty channels for those announced but absent.""",
  ['inputs', 'histories'],
  "Every number of blades, elements and steps, geometry, sign convention and set of companion files; every set of signals.",
  "No test reads either format.",
  ['weio/cactus_file.py', 'weio/raawmat_file.py'], [('reference values and scaling', 'weio/cactus_file.py'), ('signals', 'weio/raawmat_file.py:matfile')],
  (), ['CactusFile', 'RAAWMatFile', 'matfile'])

P('C26', 'File objects follow one protocol and their self-tests tell the truth',
  """Objects of every format can be made without a file and read one later, giving what direct construction gives; reading or writing without ever having been given a file name is an error, and otherwise the name given last, to a read or a write, is the one used, so that saving under a new name never touches the file that was read.
  The built-in self-tests write a copy named with the suffix _TMP beside the file and fail exactly when writing or reading it back fails or, for the text comparison, when the two texts (file and copy, or two copies) differ in more than blanks.
  They never change or remove the file tested or any file other than their own copies, which remain when deletion was not asked for, and are gone when it was asked for and the test succeeded.""",
  ['inputs', 'histories'],
  "Every format, every file and every sequence of reading, saving and testing, including formats defined by the user whose writer or reader misbehaves.",
  "Tests call the self-tests on a few files and take their verdict for granted.",
  ['weio/file.py'], [('file names and protocol', 'weio/file.py:read'), ('self-tests', 'weio/file.py:test_ascii'), ('text comparison', 'weio/file.py:ascii_comp')],
  (), ['File', 'ascii_comp'])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for p in OUT:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
print(len(OUT), 'properties')
