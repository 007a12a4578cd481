#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the file stays well-formed)."""
import json, os
P = []
IO = 'shipgrav/io.py'; GR = 'shipgrav/grav.py'; NV = 'shipgrav/nav.py'; UT = 'shipgrav/utils.py'
def p(id, title, statement, over, qtext, why, files, mech, **anch):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    a.update(anch)
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a})

p('C01', 'Every logged navigation fix is returned exactly once, in time order',
  'Reading navigation files returns, for every supported vessel and talker, one row per distinct fix time logged under the selected talker, strictly increasing in time, carrying the coordinates (degrees, sign from hemisphere) of the first sentence logged with that time in the order files and lines are given, and nothing else: sentences of other talkers, duplicated, reordered or delayed sentences, file rotation, logger restarts and overlapping files neither lose, invent nor alter a fix. A navigation dropout (empty coordinates) gives missing coordinates at its own time and leaves every other fix untouched. Decimating by n keeps every n-th sentence of each file, starting with the first; a sampling rate other than the native one gives the track interpolated to that rate.',
  ['histories', 'fault_sequences', 'configurations'],
  'all vessels, talkers (default or chosen), decimations, hand-written reader functions, path lists (or a single path), and all histories of an acquisition system that loses, duplicates, reorders and delays messages, interleaves talkers, drops navigation, restarts and rotates files',
  'tests read one clean example file per vessel and look at a few fixed values',
  [IO], [('navigation reader, per-file parse, decimation and de-duplication', IO+': read_nav'), ('coordinate parsing', IO+': _navcoords'), ('talker selection', 'shipgrav/database.toml: nav-talkers')])

p('C02', 'Navigation times are the right UTC instant under any clock behaviour',
  'For every supported vessel the time of a fix is the UTC instant its record denotes, to the microsecond given in the record (whole seconds on the vessel whose reader keeps only whole seconds): for vessels whose files combine a GPS clock time with a logger date, the GPS time of day on the day that puts it closest to the logger time; for vessels timed by the logger, the logger stamp itself. This holds whatever the skew or jump of the logger clock against GPS time (below half a day), for any number of fractional digits, and across midnight, month, year and leap-day rollovers. The time-zone aware UTC stamp and the numeric epoch time of each row denote the same instant.',
  ['histories', 'fault_sequences', 'inputs'],
  'all start instants 1985-2062 (from 2000 on the vessel whose logger writes two-digit years), sub-second phases, digit counts, logger skews, clock steps and delays, with rollovers anywhere in the history',
  'tests use one recording per vessel, none with a rollover, and compare one or two instants',
  [IO], [('GPS clock decoding', IO+': _clock_time'), ('per-vessel date decoding', IO+': _navdate_*')])

p('C03', 'Longitudes stay faithful and continuous across the antimeridian and gaps',
  'Every longitude returned by the navigation reader equals the logged longitude up to a whole turn, at every fix, and latitudes and times are never affected by longitude repair. Wherever the vessel crosses the 180 degree meridian (in either direction, any number of times, in one file or across files, with dropouts at the crossing), consecutive returned longitudes differ by exactly the short way round and never jump by a turn. Gaps in the recording leave the fixes on both sides as they were logged. The only exception is the single-fix glitch: a longitude more than a degree off both its neighbours, which agree with each other, may be smoothed to their midpoint.',
  ['histories', 'fault_sequences'],
  'all tracks (crossing or not, either majority side, several crossings) with dropouts, losses, gaps of several degrees and file boundaries placed anywhere, including at the crossing itself',
  'no test file crosses the antimeridian or contains a gap',
  [IO], [('jump detection and repair', IO+': _clean_180cross and its trigger in read_nav')])

p('C04', 'BGM gravimeter records are returned complete, in order, scaled and timed right',
  'Reading BGM serial files of every supported vessel returns exactly one row per logged record, in file-list then line order, with the counts as logged, raw gravity equal to counts times the meter scale factor in force (the vessel\'s known factor, or the one supplied), and the record\'s time as a time-zone aware UTC instant to the logged precision. Reading RGS files returns one row per record with the logged gravity, latitude, longitude and UTC time. Loss, duplication, reordering, restarts, file rotation and clock steps in the acquisition change only which records are in the files, never how any of them is read.',
  ['histories', 'fault_sequences', 'configurations'],
  'all vessels and formats, list or single path, scale overrides, hand-written readers, and all histories of loss, duplication, delay, reordering, clock steps, restarts and rotation',
  'tests check first-row values of one clean file per vessel',
  [IO, 'shipgrav/database.toml'], [('BGM serial readers', IO+': read_bgm_raw, _bgmserial_*'), ('RGS reader', IO+': read_bgm_rgs')])

p('C05', 'DGS laptop records are returned complete, in the right columns, flags decoded',
  'Reading DGS laptop files of every supported vessel returns one row per logged record, in file-list then line order, each named quantity holding the value the meter wrote for it and the record\'s UTC time; on the vessel whose logger damages lines, exactly the lines without the full set of fields are left out and all other rows are unaffected. Decoding the status word, alone or for a whole record table, gives each named flag the value of its own bit for every 16-bit word, adds one column per flag, and leaves all other columns as they were.',
  ['histories', 'fault_sequences', 'inputs'],
  'all vessels and formats, all values of every field including all 16-bit status words, with loss, duplication, reordering, damaged lines, restarts, rotation and clock steps anywhere',
  'tests read one clean file per vessel and decode one status word',
  [IO, UT], [('laptop readers', IO+': read_dgs_laptop, _dgs_laptop_*'), ('flag decoding', UT+': decode_dgs_status_bits')])

p('C06', 'DGS raw records are returned complete, scaled once, timed in every clock mode',
  'Reading raw DGS serial files returns one row per logged record, in file-list then line order, every channel holding the logged value, with the four cross-coupling channels multiplied by 1e-5 exactly once when scaling is requested and left as logged otherwise. Record times are the right UTC instants whether the meter clock is synchronised (calendar stamp in the record) or not (stamp taken from the logger prefix), and for the vessels with their own raw formats.',
  ['histories', 'fault_sequences', 'configurations'],
  'all formats and clock-synchronisation modes, scaling on or off, list or single path, with loss, duplication, reordering, restarts, rotation (a meter that gains or loses clock sync between files) and clock steps',
  'tests read one clean file per format, never mixed modes or several files',
  [IO], [('raw readers', IO+': read_dgs_raw, _dgs_raw_*')])

p('C07', 'A named feed is extracted completely from a mixed stream',
  'Reading a named feed from a mixed data file returns exactly one row per logged sentence of that feed, in file order and including the last line, with every field under the name the specification gives it, numeric where the text is a number and verbatim otherwise, and whatever precedes the tag kept in the extra column; it also returns the descriptions of the named fields. Other feeds interleaved in the stream never contribute or disturb a row. A feed missing from the specification or from the data is refused with an error.',
  ['histories', 'fault_sequences', 'inputs'],
  'all interleavings of feeds, tags given with or without the dollar sign, prefixes, line endings (with or without a final newline), empty, numeric and textual fields, losses, duplicates, reordering',
  'one test reads one file of one feed and checks its first row',
  [IO], [('feed reader', IO+': read_other_stuff')])

p('C08', 'A torn write damages at most the record it tears',
  'When the logger or its disk stops at an arbitrary byte, so that a file ends in the middle of a record, every reader either raises an error or returns every complete record of all files exactly as if the torn record had never been written, plus at most one row for the torn record itself (a torn navigation sentence whose time survived counts as the first one logged with that time, and may so hide another logger\'s record of the same instant). In navigation files and in the laptop format that tolerates damaged lines the torn record is either absent, has missing coordinates, or is exactly the record that was being written, never a wrong position or value.',
  ['crash_points', 'fault_sequences', 'histories'],
  'every byte offset at which the last record of any of the files can be cut, for every reader, vessel and format, one or several files',
  'the example files all end at record boundaries; the crash points are every byte of every format',
  [IO], [('all readers', IO+': read_nav, read_bgm_raw, read_bgm_rgs, read_dgs_laptop, read_dgs_raw, read_other_stuff'), ('damaged-line filter', IO+': _dgs_laptop_Langseth')])

p('C09', 'A read fault makes a read fail, never shrink or change its result',
  'If any file given to a reader cannot be opened, or any read of it fails part way, the call raises that failure to the caller; it never returns a result built from part of the data. Short reads and arbitrary buffering do not change results; once the fault has cleared, repeating the call gives exactly the fault-free result, and no call, failed or not, leaves a data file open. A request for a vessel (or meter, or talker) that a reader does not support yields the not-supported signal or an error, never data.',
  ['fault_sequences', 'configurations', 'histories'],
  'every reader, any file in the list, any byte offset or open call at which missing files, permission errors, I/O errors, descriptor exhaustion and short reads may strike, alone or repeatedly',
  'tests read healthy files only',
  [IO], [('all readers', IO+': read_*')])

p('C10', 'Interrupts and failed allocations are never mistaken for data',
  'When an interrupt or an allocation failure strikes at any instant during any call into the library, the call ends by raising it, or completes with exactly its normal result if it had nothing left to do; it never returns normally with a different result. Afterwards the same call gives the same result as in a fresh process, and arguments the call promises not to modify are unmodified.',
  ['crash_points', 'schedules'],
  'all public readers, corrections, filters, kinematics, attitude, regression, forward models and converters; every line of library code executed by the call, as the point of interruption; keyboard interrupt and memory error',
  'no test can place an interrupt at each of thousands of instants',
  [IO, GR, NV, UT], [('exception handling', IO+': read_other_stuff, _dgs_raw_general; '+UT+': clean_ini_to_toml'), ('every public function', 'shipgrav/*.py')])

p('C11', 'Calls are independent of each other, in any order and on any threads',
  'The result of a library call depends only on its arguments and the files they name: it is the same whatever calls ran before it and whatever calls run at the same time on other threads, under every interleaving. Calls leave their arguments as they were, except the two documented in-place operations (flag columns added to a given table, accelerations cleaned by the platform model), and no result shares storage with an argument or an earlier result (a table given for its flags is itself returned), so changing one never changes another.',
  ['schedules', 'histories'],
  'all sequences and concurrent mixtures of public calls with arbitrary arguments, under all line-level interleavings of library code',
  'tests run each function once, alone, in one order',
  [IO, GR, NV, UT], [('every public function', 'shipgrav/*.py')])

p('C12', 'Results do not depend on the environment the program runs in',
  'Results of reading and processing are the same in every host time zone (including zones with daylight saving), at every wall-clock time and through clock jumps, in every working directory with relative or absolute paths, with progress display on or off, and for every hash seed. All times returned by readers of formats that carry UTC times are time-zone aware UTC. The tide predicted for given instants is the same whatever time zone their time stamps are expressed in.',
  ['configurations', 'fault_sequences'],
  'all host time zones, wall-clock values and jumps, working directories, path forms, display settings, hash seeds, for every reader and for the tide prediction',
  'tests run in one environment, in UTC, at one working directory',
  [IO, GR], [('time construction in all readers', IO+': _navdate_*, read_*'), ('tide times', GR+': _convert_datetime_tidetime'), ('package data lookup', IO+': read_nav, read_bgm_raw (database.toml)')])

p('C13', 'Converting an ini file is complete or fails visibly, and a re-run repairs it',
  'Converting a meter ini file never modifies the input and writes no file but the toml file beside it; when the call returns, the toml file is on disk complete, parses as TOML, and holds every section and key of the input with the same value: decimal numbers, TRUE and FALSE as booleans, quoted strings verbatim, and any other text (up to a comment) as a string (the words nan and inf may become either). If opening, writing or closing the output fails, or the disk fills, the call raises. After a crash or failure at any point, running the conversion again gives exactly the file an undisturbed run gives.',
  ['crash_points', 'fault_sequences', 'inputs'],
  'all ini contents the format uses (bare names; comments begin with // or #; no backslashes in quoted strings), crash at every output operation with any part of unflushed data lost, full disk, short writes, write and close errors, stale output from earlier crashes',
  'a single test converts one clean file',
  [UT], [('converter', UT+': clean_ini_to_toml')])

p('C14', 'The interactive picker keeps exactly the picks the user made',
  'After any sequence of mouse events, the picker\'s stored picks are those of the left clicks made on the time-series axis, each at the data sample nearest in time to the click, less one for each right click that had a pick to undo, most recent first; longitude, latitude and index lists always have equal length and agree with the data, and the plotted picks equal the stored ones. Left clicks outside the axis, right clicks (anywhere) with nothing to undo, other buttons, and moves never change the picks or raise. After a move on the axis the cross-hair is visible at the data point selected by the cursor and the map dot at the matching position; after a move off the axis the cross-hair is hidden.',
  ['histories', 'schedules'],
  'all sequences of moves, clicks, undo clicks, other buttons and off-axis events, in any order, duplicated, lost or reordered, over all data sets',
  'the picker has no tests at all; its behaviour depends on the history of events',
  [UT], [('event handlers', UT+': _SnappingCursor')])

p('C15', 'A disturbance spreads through a processing operator only as far as its stencil',
  'Smoothing a series gives at each sample a fixed weighted mean of that sample and the preceding ones within one filter length (weights symmetric, positive, summing to one, starting from an empty history), so that later data never affect earlier output and a spike or step is forgotten after one filter length. Centred differences, the Eotvos correction and velocities from positions are affected by a bad or missing sample only within their own stencil (one, one and five samples either side), with exactly the declared edge samples undefined or repeated, and return to the undisturbed values outside it; a value that needs a missing sample is undefined, never invented.',
  ['fault_sequences', 'inputs'],
  'all series, filter lengths and sampling rates, with spikes, steps, missing samples and truncation (crash) at any position',
  'tests evaluate the operators once on clean example data',
  [GR, NV, UT], [('smoothing', UT+': gaussian_filter'), ('differences', GR+': center_diff, eotvos_full'), ('velocities', NV+': latlon_to_EN')])

p('C16', 'Cross-coupling estimation uses all continuous data and never bridges a gap',
  'When gravity depends on the cross-coupling monitors with fixed coefficients, the regression recovers those coefficients whatever gaps and restarts interrupt the recording. Every continuous stretch of more than 1000 samples contributes, including the last; stretches shorter than 1000 contribute nothing; nothing is differentiated or filtered across a gap longer than five samples, so offsets between stretches have no influence; short gaps do not split the data.',
  ['fault_sequences', 'histories'],
  'all placements, lengths and numbers of gaps, restarts with arbitrary level offsets, sample rates and coefficients',
  'one test runs one gap-free data set and compares one coefficient',
  [GR], [('segmentation and regression', GR+': calc_cross_coupling_coefficients')])

p('C17', 'Corrections applied along a voyage are physically right at every instant',
  'Along any simulated voyage the tide prediction, the Eotvos correction, normal gravity and the second-order free-air correction agree with independent evaluations of the published formulas (Longman 1959, Harlan 1968, WGS84 ellipsoid) at every sample, so that gravity recorded by a simulated meter on a moving vessel reduces to the free-air anomaly that was put in. This holds across clock rollovers, the antimeridian, the equator and any speed or course a vessel can have, and the lunar and solar parts of the tide add up to the whole.',
  ['histories', 'inputs', 'fault_sequences'],
  'all voyages (positions, courses, speeds, dates 1985-2062, sampling rates) including missing samples in any input',
  'tests compare a handful of values on one example record',
  [GR], [('tide', GR+': longman_tide_prediction'), ('Eotvos', GR+': eotvos_full'), ('normal gravity and free air', GR+': wgs_grav, free_air_second_order')])

p('C18', 'Velocities, courses and rotated accelerations reproduce the vessel\'s motion',
  'From the sampled positions of a simulated vessel, the derived north and east velocities equal the true velocities to the accuracy of the differencing scheme for every speed, course, latitude and sampling rate, with undefined values only at the five samples at either end and around missing fixes. Course (degrees clockwise from north) and speed agree with those velocities in all quadrants. Rotating east/north accelerations into cross/long components preserves their magnitude and follows the heading convention, so that a pure along-track acceleration has no cross component.',
  ['histories', 'inputs', 'fault_sequences'],
  'all vessel motions, headings in and beyond a full turn, sampling rates and navigation dropouts',
  'tests compare a few values on one example record',
  [NV], [('velocity', NV+': latlon_to_EN'), ('course', NV+': ENvel_to_course_heading'), ('rotation', NV+': rotate_acceleration_EN_to_cl')])

p('C19', 'The modelled gravimeter platform is a stable, damped, level-seeking system',
  'The platform up-vectors are unit vectors, exactly vertical while there is no acceleration, and follow the damped tilt response of the given periods and damping, independently for the cross and long axes, with the sign of the driving acceleration. Samples that are missing or flagged as bad act exactly as samples with no acceleration, whenever they occur. After a disturbance ends the platform returns to vertical within a few platform periods and no earlier sample is affected by a later one.',
  ['fault_sequences', 'histories'],
  'all acceleration histories, platform periods, dampings, sampling intervals, and placements of missing samples, flagged stretches, shocks and truncation',
  'two tests compare a few output values for one input',
  [GR], [('platform model', GR+': up_vecs, _tilt_filter, _calc_up_vecs')])

p('C20', 'Gravity forward models agree with potential theory',
  'The gravity of a density contrast across a relief, in one and two dimensions, and of a layer of variable density equals the published spectral solution for every relief, contrast, depth and grid: it is linear in density contrast, vanishes for flat relief, and is attenuated exponentially with distance.',
  ['inputs'], 'all reliefs, densities, grids and depths',
  'tests compare sums for one topography each',
  [GR], [('forward models', GR+': grav1d_padded, grav2d_folding, grav2d_layer_variable_density')])
p('C21', 'Thermal models obey their boundary conditions and invert consistently',
  'Half-space and plate cooling models give surface temperature at the seafloor, mantle temperature at depth, and isotherm depths that invert the temperature field, for all ages, spreading rates and material parameters.',
  ['inputs'], 'all ages or distances, depths, rates and material parameters',
  'tests compare a few values for one configuration',
  [GR], [('thermal models', GR+': therm_halfspace, therm_Z_halfspace, therm_plate, therm_Z_plate')])
p('C22', 'Crustal thickness inversion reproduces the gravity it explains',
  'Downward continuation of a band-limited residual anomaly gives a crustal relief whose forward gravity is the input anomaly within the pass band, for all lines and grids.',
  ['inputs'], 'all anomalies, grids, depths and cut-off wavelengths',
  'one test compares one value for one profile',
  [GR], [('inversion', GR+': crustal_thickness_2D')])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
with open(out, 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['id']
        f.write(json.dumps(x) + '\n')
print(len(P))
