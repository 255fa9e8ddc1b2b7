""" writes properties.jsonl (kept as a script to make editing easier) """
import json, os
OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
BFA = 'src/razorback/io/binary_file_array.py'
ATS = 'src/razorback/io/ats.py'
SIG = 'src/razorback/signalset.py'
FT = 'src/razorback/fourier_transform.py'
UT = 'src/razorback/utils.py'
WE = 'src/razorback/weights.py'
ME = 'src/razorback/mestimator.py'
CAL = 'src/razorback/calibrations.py'
DATA = 'src/razorback/data.py'
CLI = 'src/razorback/cli.py'
PRE = 'src/razorback/prefilters.py'
P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               observe_at=observe, hook_needed=None)))


prop('C01', 'Samples read from a recording are exact, or the read fails',
     'Every read of samples from a recording file (whole, sliced with any step, in any chunking, '
     'several channels at once, from any number of concurrent tasks and threads) that returns, '
     'returns exactly the stored values times the scale factor of the file, with the stored sampling '
     'rate, start time and other header fields. A disk fault during a read or a load makes it raise instead of delivering '
     'short, shifted, stale or padded data. Once the faults stop, the objects loaded before read '
     'correctly again and no file stays open.',
     ['fault_sequences', 'schedules', 'inputs'],
     'for all file contents, slices, chunk sizes, task and thread interleavings and sequences of disk '
     'faults (errors on open/stat/read, premature end of file, file vanishing, failing allocations)',
     'no test reads a recording file at all; none injects a fault or runs the chunked reads in parallel',
     [BFA, ATS], [('BinaryFileArray_1D.extract', BFA), ('read_ats_sample', ATS)],
     ['values of SyncSignal.data', 'exceptions raised by the read', 'open file handles'],
     [('source', 'path and offset of the samples', BFA)])

prop('C02', 'A torn or still growing recording never yields wrong samples',
     'Loading a recording cut at an arbitrary byte, still being appended to, or whose header promises '
     'more or fewer samples than the file holds, either fails or yields exactly the complete samples '
     'present at load time, at most the declared number, with a warning when fewer than declared. '
     'Loading several channels that differ in number of samples, start time or sampling rate fails. '
     'What was loaded never changes its length or values afterwards: if the file grows it still reads '
     'the same samples, and if it shrinks the read fails.',
     ['crash_points', 'histories', 'fault_sequences'],
     'for all crash points of the recorder (every byte of header and samples), all interleavings of '
     'recorder appends and truncations with load and read',
     'no test loads a file; a crash point is a byte position in a multi-channel write history',
     [BFA, ATS, SIG], [('_get_real_size', BFA), ('short read check', BFA), ('load_ats asserts', ATS)],
     ['size and values of the loaded signal', 'warnings', 'exceptions'])

prop('C03', 'Samples of distinct recordings never mix',
     'Arrays obtained from recordings always deliver the samples of the very file they were loaded '
     'from, also when several recordings share a relative name in different working directories, when '
     'a recording is replaced and loaded again, when one file is loaded several times with different '
     'chunk-size settings, when the working directory changes between load and read, and when all of '
     'them are evaluated in one joint computation.',
     ['histories', 'schedules', 'configurations'],
     'for all sequences of chdir, load, reload, file replacement, chunk-size changes and joint reads, '
     'by one or several threads',
     'tests never load two files, never change directory, never evaluate lazily loaded data jointly',
     [ATS, BFA], [('identity of the lazy array', ATS), ('absolute path of the source', BFA)],
     ['values of jointly computed SyncSignal.data'])

prop('C04', 'Spectra depend on the samples only, not on storage or scheduling',
     'The sliding-window Fourier coefficients of a channel equal (2/L) * sum of window * sample * '
     'exp(-2i pi f n / rate) over each window of L = ceil(periods * rate / f) samples shifted by '
     'int(L * (1 - overlap)), divided by the calibration of the channel at f, whatever the storage '
     '(memory, file, chunk size), the evaluation order and the number of threads. Windows never straddle two '
     'runs, coefficients of all channels stay aligned, runs are concatenated in time order and the '
     'reported window number, length and shift of each run are those used. A fault during the '
     'evaluation raises instead of giving a different value.',
     ['schedules', 'configurations', 'inputs', 'fault_sequences'],
     'for all recordings, splits into runs, frequencies, periods, overlaps, windows, calibrations, '
     'chunk layouts, task orders, interleavings and disk faults',
     'tests use one in-memory array with one chunk and one window; they never compare with an '
     'independent transform and never vary chunking or scheduling',
     [FT, SIG, BFA], [('time_to_freq', FT), ('fourier_coefficients', SIG)],
     ['result of fourier_coefficients'])

prop('C05', 'Concurrent estimations sharing objects equal isolated ones',
     'Running any number of impedance estimations or transfer-function fits concurrently, on shared '
     'or separate signal sets and with shared weighting, prefilter, window and calibration objects, '
     'including the weight sequences shipped with the package, gives each of them exactly what it '
     'gives when run alone: impedance, error, remote transfer and rejected window times. It leaves '
     'the floating-point error handling of every thread as it was.',
     ['schedules', 'inputs', 'configurations'],
     'for all interleavings of the estimating threads and all sharing patterns of their objects',
     'tests run one estimation at a time in one thread',
     [WE, ME, UT, PRE], [('per-fit state of weight functions', WE), ('impedance', UT)],
     ['ImpedanceResult', 'transfer_function result', 'np.geterr()'],
     [('state kept between iterations', 'scale and previous weights of one fit', WE)])

prop('C06', 'A failing frequency never disturbs the others',
     'In an estimation over several frequencies, a frequency that cannot be processed (disk fault, '
     'frequency too high or low for the data, failing window, calibration or prefilter, non-convergence, all '
     'windows rejected, singular system) yields NaN impedance, error and remote transfer and no '
     'rejected times for that frequency only, with the same shapes as a success: impedance and error '
     '(frequency, electric, magnetic), remote transfer (frequency, magnetic, remote). All other frequencies get '
     'exactly what they get without the failure, in the order requested, also when the caller asks '
     'for estimation failures to be raised and none occurs.',
     ['fault_sequences', 'inputs', 'configurations'],
     'for all positions and kinds of failures among the frequencies, numbers of electric, magnetic '
     'and remote channels, and disk fault sequences during the estimation',
     'tests cover two frequencies out of range with one channel pair; none covers other channel '
     'numbers, transient faults, remote reference or non-convergence',
     [UT, ME], [('_impedance failure paths', UT), ('NonConvergence', ME)],
     ['ImpedanceResult arrays'])

prop('C07', 'An interrupted operation leaves no trace',
     'If any operation (load, selection, merge, spectrum, estimation) is aborted at an arbitrary '
     'point, by an interrupt, a failing allocation or a disk error, then its inputs are unmodified, '
     'no file stays open, the floating-point error state is restored, and repeating the operation '
     'with the same objects gives exactly the result of a never interrupted run.',
     ['crash_points', 'fault_sequences', 'histories'],
     'for all points of the code at which an asynchronous exception or fault can strike, and all '
     'operations following it',
     'tests never abort an operation; the abort points are every line of the library',
     [SIG, WE, UT, BFA, FT], [('immutability of SyncSignal', SIG), ('per-fit state reset', WE),
                              ('with open', BFA)],
     ['later results', 'open handles', 'np.geterr()', 'inputs'])

prop('C08', 'Survey assembly keeps exactly the common recorded data',
     'Packing an inventory of recordings, in which each tag has the same companions wherever it '
     'occurs, gives, for every sampling rate, one run per maximal time '
     'interval with at least two samples covered by all channels present (consecutive runs merged), '
     'containing for each tag '
     'exactly the samples recorded by that channel in the interval, with its calibration; rates '
     'lacking a channel are left out, and with keep_multi_tags disabled only the tags of single '
     'channels are packed. The result does not depend on the order in which files or '
     'signal sets are discovered or added, and filtering by name patterns keeps exactly the channels '
     'whose tags match, whatever was done to the inventory before.',
     ['histories', 'inputs', 'configurations'],
     'for all multi-site recording histories (starts, stops, gaps, restarts of each recorder), '
     'tag layouts, sampling rates and discovery orders',
     'doctests cover a handful of hand-made intervals in one order with small integer times',
     [SIG, UT], [('Inventory.pack', SIG), ('SignalSet.merge', SIG), ('merge_consecutive_runs', SIG)],
     ['runs, samples, tags and calibrations of the packed SignalSet'])

prop('C09', 'Unsynchronised clocks are detected, never silently misaligned',
     'Merging channels whose recorders share a sampling rate but whose sample clocks are offset by a '
     'fraction of a sample raises; clocks that agree to within the float resolution of the time '
     'stamps are accepted and every merged sample row holds the samples taken at that instant. '
     'Overlapping runs of one recorder (a clock set back) are refused on join, and runs separated by '
     'a clock jump are never merged into one.',
     ['histories', 'inputs', 'fault_sequences'],
     'for all clock offsets, jumps and skews between recorders, sampling rates, start epochs and '
     'restart histories',
     'tests use clocks that agree exactly, with small integer time stamps',
     [SIG], [('synchronisation assertion of merge', SIG), ('overlap assertion', SIG),
             ('consecutive test', SIG)],
     ['exceptions of merge/join/pack', 'alignment of merged samples'])

prop('C10', 'Selecting and assembling never touches sample data',
     'Selecting channels, runs or time spans, joining, merging, packing and merging consecutive runs '
     'of loaded recordings work on metadata only: they succeed while the disk is unavailable and '
     'read no samples. When the disk is back, evaluating the assembled object gives exactly '
     'the data it would have given without the outage.',
     ['fault_sequences', 'histories', 'configurations'],
     'for all sequences of structural operations, outage intervals and chunkings',
     'tests use in-memory arrays, for which every operation succeeds',
     [SIG, BFA, ATS], [('lazy slicing', BFA), ('SyncSignal.extract_i', SIG)],
     ['success of the operations', 'disk reads performed', 'values afterwards'])

prop('C11', 'Channel order follows names, not directory enumeration',
     'Loading all recordings of a directory gives one channel for each *.ats file, in ascending order '
     'of the file names, each with its own samples, whatever order the file system enumerates the entries in and whatever other files lie beside them, so that calibrations and tags '
     'given by position apply to the right file; an error while listing the directory never yields '
     'a subset of the channels.',
     ['schedules', 'fault_sequences', 'inputs'],
     'for all enumeration orders, directory contents and listing faults',
     'no test loads a directory; the real file system of the test machine has one fixed order',
     [ATS], [('load_ats_from', ATS)], ['order and values of SyncSignal.data', 'calibrations'])

prop('C12', 'Calibration tables load completely or not at all',
     'Loading a Metronix or Phoenix calibration either returns functions giving the values of the '
     'tables in the file (the section selected by the chopper rule, the low-frequency extrapolation, '
     'linear interpolation in between, the selected level) or raises; a transient disk error never '
     'yields a function built from part of the table. A loaded function no longer depends on the '
     'file, on options changed afterwards or on other loads, concurrent or later; a file replaced '
     'during the load gives the values of the old or of the new one, never a mixture.',
     ['fault_sequences', 'schedules', 'inputs'],
     'for all table contents, sampling rates, sensor versions, levels, disk fault sequences and '
     'interleavings of loads, rewrites of the file and evaluations',
     'no test loads a calibration file',
     [CAL, DATA], [('metronix', CAL), ('phoenix', CAL)], ['calibration values', 'exceptions'])

prop('C13', 'Data files resolve to the local copy first, then the packaged one',
     'Looking up a data file returns an existing file: the one in the data directory below the current '
     'working directory if that directory has it, otherwise the packaged one, otherwise a clear '
     'error. This holds at each call for the working directory and directory contents of that moment, when '
     'they change between calls, and with changes made during the call the answer is one that was '
     'right just before or after one of them. A disk error during the look-up is raised or leaves '
     'the answer as it is.',
     ['histories', 'schedules', 'configurations'],
     'for all histories of chdir, creation and removal of directories and files interleaved with '
     'look-ups, and all disk faults during them',
     'no test resolves a data file; resolution depends on a mutable environment',
     [DATA, CAL], [('data_path', DATA), ('get_data_file', DATA)], ['returned path', 'exceptions'])

prop('C14', 'Creating the local data path is idempotent, race-safe, crash-safe',
     'The command creating a local data path succeeds for every one of any number of concurrent or '
     'repeated invocations, leaves the directory existing, reports for each invocation whether it '
     'created it or found it, and removes or alters nothing. Killed at any point it leaves a state '
     'from which the next invocation succeeds, a failing disk makes it exit with an error rather than report '
     'success, and without the create option the command changes nothing and prints the path the library uses.',
     ['schedules', 'crash_points', 'fault_sequences'],
     'for all interleavings of concurrent invocations, kill points and mkdir faults, from any '
     'initial directory state',
     'no test runs the command line',
     [CLI, DATA], [('path_action', CLI)], ['exit status and output', 'directory tree'])

prop('C15', 'Processing never writes to disk nor alters its inputs',
     'Loading, selecting, assembling, filtering and estimating never create, modify, rename or delete '
     'any file, and never modify the arrays, tags, signal sets, inventories, option dictionaries and '
     'lists handed in, whether the operation succeeds, fails or is interrupted; tagging a resulting '
     'signal set or extending a resulting inventory does not reach the objects it came from.',
     ['histories', 'fault_sequences', 'inputs'],
     'for all operation histories including failing and concurrent ones',
     'tests check results, not the absence of effects on files and inputs',
     [SIG, UT, ATS, BFA, FT, ME], [('functional style of SignalSet', SIG), ('options copied', UT)],
     ['file tree before/after and write operations', 'deep comparison of inputs'])

prop('C16', 'Mass processing equals one-by-one processing',
     'Each cell (remote combination, interval, frequency) of a mass processing result equals the '
     'estimation run separately on the channels and interval of that cell, listed in the order of the combinations and intervals; all '
     'combinations of the given remotes appear exactly once, or only the full one when combinations '
     'are disabled. A disk fault or an impossible cell (too high or low a frequency, an interval or '
     'remotes without common time) gives NaN of the usual shape in that cell only. The prefilter '
     'values of a mass processing equal those computed separately. The inventory or signal set '
     'given is left unchanged, so that processing it again gives the same.',
     ['fault_sequences', 'configurations', 'inputs'],
     'for all numbers of remotes, intervals, frequencies and options, and all positions of faults',
     'no test runs the mass processing',
     [UT, SIG], [('impedance_mass_proc', UT), ('extract_groups', SIG)], ['MassProcResult'])

prop('C17', 'Results do not depend on hash randomisation',
     'Two executions of the same program on the same data give identical results in every observable: '
     'tags and their order, channel order, runs, samples, spectra, estimates, error and printed '
     'messages, whatever hash seed the interpreter draws.',
     ['configurations', 'inputs'],
     'for all interpreter hash seeds and programs using tags, inventories and estimations',
     'the test suite runs with one fixed hash seed',
     [SIG, UT], [('ordering of tag sets', SIG)], ['digest of results across processes'])

prop('C18', 'Any history of survey edits conserves samples, times and names',
     'After any sequence of tagging, selecting channels or runs, cutting or excluding time spans, joining, '
     'merging and merging consecutive runs, every sample kept is found at the time it was recorded, '
     'under its tag, with its calibration, and exactly the samples the operations ask to keep '
     'are kept (time spans include both end points; runs left with fewer than two samples by a cut are dropped). '
     'All views of an object (starts, stops, intervals, sizes, sampling rates, channels found by tag, attribute '
     'or pattern, its printed form) tell the same, also after its tags were changed in place. '
     'Earlier objects stay as they were, and '
     'an operation that is refused leaves everything unchanged.',
     ['histories', 'inputs', 'fault_sequences'],
     'for all sequences of operations on file-backed or in-memory surveys with any exactly '
     'representable or decimal sampling rate and start time, with disk faults in between',
     'doctests show single operations on toy intervals; a history composes them',
     [SIG], [('SignalSet operations', SIG), ('time/index conversion', SIG)],
     ['starts, stops, sizes, tags, samples of every object'])

prop('C19', 'Objects copied or sent to other processes behave as the originals',
     'Recordings, signal sets, inventories, tag mappings, weightings, prefilters, calibration functions '
     'and sets of options can be copied, deep-copied, or serialised and sent to another interpreter at '
     'any moment of their life (as the multi-process dask schedulers do with the tasks of a lazy '
     'computation). There, in any working directory and with any hash seed, they have the same tags, '
     'runs, times and calibrations and give the same samples, spectra and estimates; an object edited '
     'there and sent back equals the same edit done here. Tagging one side of a deep copy or of a '
     'transport does not show on the other. A disk fault over there raises, and trying again once it is over gives '
     'the right result.',
     ['histories', 'inputs', 'fault_sequences', 'schedules'],
     'for all surveys, edit histories, moments of sending, ways of copying, schedules and disk faults in '
     'either process',
     'the suite never serialises or copies any object and runs in one process',
     [SIG, BFA, ATS, CAL, WE, ME, PRE, DATA],
     [('SignalSet/SyncSignal state', SIG), ('BinaryFileArray_1D', BFA), ('calibration functions', CAL),
      ('lazy data functions', DATA)],
     ['tags, times, samples, spectra, estimates obtained in a second interpreter'])

prop('C20', 'A damaged part of a recording spoils only the reads that need it',
     'Reading a part of a recording (slice with a positive step, time span, selected channels or runs, spectrum of '
     'those) accesses the bytes of that part only, up to the size of chunks configured in dask, '
     'whatever the length of the recording and however the object was obtained; loading reads headers only and '
     'editing reads nothing. So damaged sectors or a lost tail elsewhere in the file, or in files of '
     'other channels or runs, do not disturb it. A read that does need a damaged sector either raises or is right, '
     'and leaves later reads of the same objects as good as before; once the '
     'damage is repaired everything reads as ever.',
     ['fault_sequences', 'schedules', 'histories', 'inputs'],
     'for all recordings, chunk sizes, edit histories, interleavings of reads, and places and times of damage',
     'no test reads a part of a recording, nor a damaged one; the memory and sectors a lazy read touches do not '
     'show in its result',
     [BFA, ATS, SIG], [('BinaryFileArray_1D.extract', BFA), ('chunking', ATS), ('lazy SyncSignal data', SIG)],
     ['byte ranges accessed at the disk seam', 'values and exceptions of reads'])

prop('C21', 'Results do not depend on the clock, the time zone or the environment',
     'Two executions of the same program on the same data give identical results in every observable '
     '(recordings with their start times, tags and their order, runs, samples, spectra, estimates, mass '
     'processing, errors and printed messages), whatever the time zone, the locale, the current time (also '
     'jumping back and forth while the program runs), the modification times of the files, the umask and the '
     'home directory.',
     ['configurations', 'inputs', 'schedules'],
     'for all time zones (with and without daylight saving), clock readings and jumps, file dates and programs',
     'the test suite runs in one environment, at the time it is',
     [SIG, ATS, UT, DATA, CAL],
     [('start times', ATS), ('survey editing', SIG), ('mass processing', UT), ('data look-up', DATA)],
     ['digest of results across processes with different clocks and environments'])

NA = [
    ('C30', 'Estimators attain the weighted least-squares optimum',
     'The transfer function returned solves the weighted least-squares problem of the last weights.',
     ME, 'a deterministic function of its input arrays: no schedule, time, fault or second party'),
    ('C31', 'File paths are mapped to tags exactly by the given pattern',
     'A path yields tags if and only if it matches the pattern, fields being substituted.',
     UT, 'string matching, a pure function'),
    ('C32', 'Tag mappings only ever hold indices in range',
     'No operation on a tag mapping stores an index outside of the channels, an empty group or an '
     'invalid name.',
     SIG, 'single-object input validation, a pure in-memory data-structure invariant'),
    ('C33', 'The coefficient-of-determination filter computes its definition',
     'The filter rejects exactly the blocks of windows whose coefficient lies outside the bounds.',
     PRE, 'a pure function of two arrays'),
]
for id, title, st, f, why in NA:
    prop(id, title, st, ['inputs'], 'for all inputs', 'tests sample a few inputs',
         [f], [('pure function', f)], ['return value'])
with open(OUT, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
