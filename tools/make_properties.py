"""Writes /verif/properties.jsonl (the list is edited here)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {'files': files,
         'mechanism': [{'name': n, 'where': w} for n, w in mech],
         'observe_at': observe, 'hook_needed': None}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})


prop('C01', 'Waveform files round-trip the receiver function metadata',
     'Writing a stream whose traces carry any subset of the documented headers (station, event, onset, ray, piercing point, box, type/phase/moveout) as SAC, SH/Q or HDF5 and reading it back with read_rf gives the same traces: seed id, sampling rate, start time, samples and every documented header, within the precision of the format, and no documented header that was not set. '
     'The same holds for any chain of conversions between the three formats. HDF5 additionally keeps entries outside the documented table.',
     ['inputs', 'histories'],
     'all header subsets and values in their physical ranges, all trace shapes and ids, all chains of the three formats',
     'The tests write one fixed header set on one or two fixed traces, one format at a time, and compare to two decimals.',
     ['rf/rfstream.py'],
     [('header tables and conversions', 'rf/rfstream.py:_HEADERS,_FORMATHEADERS,_HEADER_CONVERSIONS'),
      ('format header read/write', 'rf/rfstream.py:RFTrace'), ('H5 index selection', 'rf/rfstream.py:RFStream.write')],
     ['RFStream.write / RFTrace.write followed by read_rf'])

prop('C02', 'Writing a stream never changes it, even if writing fails',
     'After a write in any format, successful or failing with an exception, the in-memory stream still has the same ids, samples, documented headers and trace order, and writing it again anywhere gives the same file content as the first write would have. '
     'A write does not influence how other, unrelated streams are written later in the same process.',
     ['histories', 'fault_sequences'],
     'all sequences of successful and failing writes (missing directory, unwritable target) in all formats over several streams',
     'The tests never look at the stream after a write and never make a write fail.',
     ['rf/rfstream.py'],
     [('station rewritten for Q and restored afterwards, global H5 index swapped and restored', 'rf/rfstream.py:RFStream.write')],
     ['stream ids/stats/data before and after write', 'content of files written later'],
     [('obspyh5 index', 'process-wide layout of HDF5 files', 'obspyh5')])

prop('C03', 'Reading tolerates headers that rf did not write',
     'Any readable SAC or SH/Q waveform file is loaded by read_rf whatever its comment or user fields contain (arbitrary text, arbitrary JSON value, undefined values): it never raises and samples, ids and times equal what ObsPy reads. '
     'Undefined SAC fields do not turn into headers, and wrapping an ObsPy stream into an RFStream does the same as reading the file with read_rf. Headers changed after reading are not reset to the values of the file by merging or wrapping.',
     ['inputs'],
     'all comment strings and all defined/undefined combinations of the mapped SAC and SH/Q fields',
     'The tests only read files that the package itself wrote or the bundled ones.',
     ['rf/rfstream.py'],
     [('format header read', 'rf/rfstream.py:RFTrace._read_format_specific_header'), ('Q station splitting', 'rf/rfstream.py:RFTrace.__init__')],
     ['read_rf and RFStream(obspy_stream) on files written by plain ObsPy'])

prop('C04', 'Ray parameters from rfstats match geodesy and travel times',
     'For a station and an event inside the distance window, rfstats sets distance and back azimuth of the WGS84 geodesic (distance in degrees of 111.2 km), the onset of the first arrival of the phase in the chosen Earth model, its slowness (the slope of the travel time curve in s/deg) and its incidence angle at the surface, and copies event and station coordinates, depth in km, magnitude, time and id unchanged. '
     'If a piercing point depth is given, the piercing point of the converted phase (S leg for P, P leg for S, unless chosen otherwise) is stored as well.',
     ['inputs'],
     'all station/event positions, source depths 0-700 km, phases and models for which TauP returns the phase',
     'One event/station pair due north is tested, with tolerances of 0.1 s/deg and 1 degree, and nothing about onset or incidence.',
     ['rf/rfstream.py'],
     [('rfstats', 'rf/rfstream.py:rfstats'), ('event and station getters', 'rf/rfstream.py:obj2stats')],
     ['return value of rfstats / tr.stats after rfstats(stream)'])

prop('C05', 'rfstats keeps exactly the traces inside the distance window',
     'rfstats returns None exactly for epicentral distances outside the given window (default 30-90 for P, 50-85 for S, both ends inside; no limit if switched off); applied to a stream it keeps exactly the traces inside, in order, with their data and other headers untouched. '
     'Event and station data may come from arguments, from the stats object or one from each, arguments taking precedence, and missing origin or magnitude information is reported as ValueError.',
     ['inputs', 'configurations'],
     'all mixes of sources of event/station data, windows, phases, and streams of traces of several events and stations',
     'Only a stream with all traces in range and one fully specified pair are tested; no trace is ever dropped.',
     ['rf/rfstream.py'],
     [('distance window and stream filtering', 'rf/rfstream.py:rfstats'), ('getters with error reporting', 'rf/rfstream.py:obj2stats')],
     ['rfstats return value, stream content'])

prop('C06', 'Relative trimming and slicing equal absolute cuts per trace',
     'trim2 and slice2 give, for every trace, exactly the samples an absolute cut at reference time plus offset gives, where the reference is the trace\'s own header of that name (onset, starttime, endtime, ...) or a fixed time, and each bound may be missing or absolute. '
     'Traces left empty are dropped (slice2 can keep them on request), the others keep order and headers, slice2 leaves the original untouched and trim2 changes it in place.',
     ['inputs'],
     'all traces, references, bounds (inside, outside, reversed windows, sub-sample offsets) and options',
     'Two fixed windows on one stream whose traces are all alike.',
     ['rf/rfstream.py'],
     [('trim2, slice2, _seconds2utc', 'rf/rfstream.py:RFStream.trim2,RFStream.slice2,RFTrace._seconds2utc')],
     ['stream after trim2, return value of slice2'])

prop('C07', 'Component grouping is a partition of the stream',
     'Iterating over associated components yields groups in which all traces share the seed id up to the component letter and, if a key is given, the value of that header; every trace of the stream is in exactly one such group, in stream order, complete with all traces belonging to it. '
     'With number_components set, exactly the groups with a matching number of traces are yielded, and the length reported equals the number of groups iterated, on every pass.',
     ['inputs'],
     'all streams of several stations, locations, bands, events, component sets and all number_components settings',
     'The class is only used indirectly with complete three component data.',
     ['rf/util.py'],
     [('IterMultipleComponents', 'rf/util.py:IterMultipleComponents')],
     ['the substreams yielded'])

prop('C08', 'Time domain deconvolution is the damped least squares solution',
     'The time domain deconvolution of a response equals the solution of the documented Toeplitz system: autocorrelation of the windowed, tapered source (normalised, spiking factor on the diagonal) against the cross-correlation with the response, with zero delay at the onset sample, for any window, sampling rate, record length and solver. '
     'With normalisation the largest absolute amplitude of the chosen trace is 1, and all results share one factor.',
     ['inputs'],
     'all source/response waveforms, source windows (around, before, after the onset, beyond the record), odd/even lengths, spiking factors and solvers',
     'Tests look only at where the maximum of one component falls for a few windows with a tolerance of 0.1 s.',
     ['rf/deconvolve.py'],
     [('deconv_time', 'rf/deconvolve.py:deconv_time'), ('window handling', 'rf/deconvolve.py:deconvolve')],
     ['deconv_time and deconvolve(method="time") results vs an independent dense solver'])

prop('C09', 'Water level deconvolution equals the spectral formula',
     'The frequency domain deconvolution equals response times conjugate source over source power, the power raised to at least waterlevel times its maximum, low-passed by the documented Gaussian and delayed so that zero delay falls on the onset, for any window, nfft, Gaussian and water level. '
     'Normalisation scales all results by one factor such that the chosen trace, or the deconvolved source, has maximum 1; a single array is treated like a list with one array.',
     ['inputs', 'configurations'],
     'all waveforms, windows, nfft, waterlevel, gauss (also off), tshift, length and normalize settings',
     'Tests only look at the position of one maximum for a few settings.',
     ['rf/deconvolve.py'],
     [('deconv_waterlevel', 'rf/deconvolve.py:deconv_waterlevel')],
     ['deconv_waterlevel and deconvolve(method="waterlevel") results vs direct evaluation with explicit DFT sums'])

prop('C10', 'Iterative deconvolution is greedy matching pursuit of the response',
     'The iterative deconvolution builds a Gaussian filtered spike train in which every spike is the one that reduces the misfit most at admissible delays: the reported misfit never increases, iteration stops when the improvement drops below the threshold or at the iteration limit, and the result equals an independent matching pursuit. '
     'For a response made of well separated scaled delayed copies of the source the spikes appear at these delays with these amplitudes, zero delay being at the requested shift.',
     ['inputs', 'configurations'],
     'all spike trains, source wavelets, gauss, itmax, minderr, mute_shift and normalize settings',
     'Tests only look at the position of the largest peak for two real records and one synthetic.',
     ['rf/deconvolve.py'],
     [('deconv_iterative', 'rf/deconvolve.py:deconv_iterative')],
     ['deconv_iterative return values; deconvolve(method="iterative") data and stats.iterations'])

prop('C11', 'Multitaper deconvolution equals the multitaper spectral estimate',
     'The multitaper deconvolution equals the ratio of the summed taper cross spectra of response and source to the summed source spectra plus the pre-event noise power, for windows of T seconds with the given overlap, time-bandwidth product and number of tapers, low-passed by the Gaussian, and normalised on the chosen trace. '
     'The noise is taken from the given noise traces, or else from the record before the onset.',
     ['inputs', 'configurations'],
     'all waveforms, noise records, T, K (1-3), tband, overlap, gauss and normalize settings with the source shorter than the record',
     'Tests only look at the position of one maximum and one stored amplitude.',
     ['rf/deconvolve.py'],
     [('deconv_multitaper', 'rf/deconvolve.py:deconv_multitaper'), ('noise selection', 'rf/deconvolve.py:deconvolve')],
     ['deconv_multitaper and deconvolve(method="multitaper") results vs an independent evaluation with SciPy tapers'])

prop('C12', 'Deconvolution puts the source at the onset and respects scaling',
     'For every method the deconvolution of the source component from itself peaks at the onset with amplitude 1, and a response that is a scaled and delayed copy of the source peaks at that delay with the sign and (as far as the method is linear) amplitude of the scale factor. '
     'Multiplying the whole record by a positive constant, shifting all times, permuting the traces or dropping another response does not change a receiver function, and reversing the polarity of a response reverses its receiver function.',
     ['inputs'],
     'all source wavelets, delays, scale factors, record lengths, sampling rates, onsets and source windows holding the wavelet, for the four methods and both P and S source components',
     'Position of the maximum is tested on one P and one S record and one synthetic.',
     ['rf/deconvolve.py'],
     [('deconvolve and the four methods', 'rf/deconvolve.py')],
     ['stream data after deconvolve'])

prop('C13', 'Deconvolution selects components and windows as documented',
     'deconvolve uses exactly the one trace of the source components as source and the traces of the response components (default all) as responses, raising ValueError if there is not exactly one source or not one to three responses and NotImplementedError for unknown methods; the result has one trace per response in stream order, with unchanged id, start time, length and other headers and the onset on the nearest sample of the source. '
     'The source window handed on is the record cut (zero padded) to winsrc around the onset and cosine tapered, the method defaults are used for P and S, and a custom function receives responses, source and time shift and its return value becomes the result.',
     ['inputs', 'configurations'],
     'all component sets, source/response selections, windows, onsets between samples and custom functions',
     'The tests use complete three component records with default selection; errors and metadata are untested.',
     ['rf/deconvolve.py', 'rf/rfstream.py'],
     [('deconvolve', 'rf/deconvolve.py:deconvolve'), ('RFStream.deconvolve', 'rf/rfstream.py:RFStream.deconvolve')],
     ['return value and arguments seen by a custom function'])

prop('C14', 'stream.rf() performs exactly the documented processing steps',
     'Calling rf on a stream gives the same result as performing the requested filter, onset-relative trim, downsampling, rotation by back azimuth and inclination, reversal of Q so that it points away from the source, and deconvolution (source L/Z for P, Q/R for S) separately on each record, and for S receiver functions mirroring all components and the onset in time. '
     'Afterwards every trace is labelled as receiver function of the method used, and everything not requested is left out.',
     ['inputs', 'configurations'],
     'all combinations of method, filter, trim, downsample, rotate, deconvolve and window options over synthetic records with arbitrary angles',
     'Tests check the place of one maximum for three option sets on bundled data.',
     ['rf/rfstream.py'],
     [('rf pipeline', 'rf/rfstream.py:RFStream.rf')],
     ['stream after rf() vs explicit steps with independent rotation'])

prop('C15', 'Receiver functions of one event do not depend on other records',
     'Calculating receiver functions for a stream with many events and stations gives for each record what calculating it alone gives, whatever the order of the traces; order and number of traces are kept. '
     'Traces that do not belong to a two or three component record are not deconvolved and do not influence the others.',
     ['inputs', 'histories'],
     'all collections of records (differing in station, location, onset, length, sampling rate), all interleavings of their traces, both rotations, P and S',
     'The tests compute bundled events together and look at the stack only.',
     ['rf/rfstream.py', 'rf/util.py'],
     [('grouping by id and onset in rf', 'rf/rfstream.py:RFStream.rf'), ('IterMultipleComponents', 'rf/util.py')],
     ['per-trace data of joint vs separate calculation'])

prop('C16', 'Moveout correction moves conversions to their reference delay time',
     'After moveout correction the signal that was at the delay time of a converted phase or multiple from some depth, for the slowness of the trace, is at the delay time of that depth for the reference slowness, with unchanged amplitude, as far as delay times of the model reach, for P and S receiver functions, any model and any type of data; samples before the onset (after it, for S multiples) do not change. '
     'A trace already at the reference slowness does not change; neither do other traces which share the array of the data.',
     ['inputs', 'configurations'],
     'all models, phases (Ps, Ppps, Ppss, Psss, Sp and S multiples of monotonic delay), slownesses, reference slownesses, onsets and sampling rates',
     'Compared with stored output for one trace, two slownesses and four phases of the P type to two decimals.',
     ['rf/simple_model.py', 'rf/rfstream.py'],
     [('stretching', 'rf/simple_model.py:SimpleModel.stretch_delay_times,moveout')],
     ['trace data after moveout'])

prop('C17', 'Results of moveout and piercing do not depend on earlier calls',
     'Moveout correction and piercing point calculation give the same result whatever models, phases, reference slownesses and streams were used before in the same process. '
     'Moveout records phase, reference slowness and original slowness in each trace, defaults to the conversion of the receiver function type, and correcting a second time to the same reference changes nothing.',
     ['histories'],
     'all sequences of moveout / piercing point / model loading calls with different references, phases, models and streams',
     'Every test uses the default reference slowness and one model.',
     ['rf/simple_model.py', 'rf/rfstream.py'],
     [('reference delay time cache', 'rf/simple_model.py:SimpleModel.t_ref'), ('model cache', 'rf/simple_model.py:_MODEL_CACHE')],
     ['trace data and headers after each call vs a fresh model'],
     [('t_ref', 'cached reference delay times', 'rf/simple_model.py'), ('_MODEL_CACHE', 'cached models', 'rf/simple_model.py')])

prop('C18', 'Delay times and offsets equal the ray integrals of the model',
     'For any layered model the horizontal offset of a ray at a depth and the delay times at the model depths equal the integrals of the ray equation over the layers above that depth, for each leg of the phase, both for models given as arrays and for model files, with velocities interpolated with the given number of support points. '
     'Offsets vanish at the surface and grow with depth and slowness and are undefined (nan) where a ray does not reach the depth; multi-leg phases are the sum of their legs.',
     ['inputs'],
     'all increasing depth grids with arbitrary layers and velocities, depths inside the model, slownesses for which the ray propagates, and phase strings',
     'Three depths in iasp91 are compared with tolerances of 5, 10 and 20 percent.',
     ['rf/simple_model.py'],
     [('vertical slowness, delay times, offset', 'rf/simple_model.py:SimpleModel'), ('model file parser', 'rf/simple_model.py:load_model')],
     ['SimpleModel.ppoint_distance / calculate_delay_times / calculate_vertical_slowness'])

prop('C19', 'Piercing points lie on the back azimuth at the ray offset',
     'The piercing point of every trace lies on the WGS84 geodesic leaving the station in the direction of the back azimuth, at the horizontal offset of the requested leg at the requested depth, on any part of the globe; coordinates and depth are stored in the trace headers and returned in trace order. '
     'Without explicit leg it is the S leg for P receiver functions and the P leg for S receiver functions.',
     ['inputs'],
     'all station positions (including near poles and date line), back azimuths, slownesses, depths, legs and models',
     'One station on the equator with back azimuth 0.',
     ['rf/simple_model.py', 'rf/util.py', 'rf/rfstream.py'],
     [('ppoint', 'rf/simple_model.py:SimpleModel.ppoint'), ('geodesic', 'rf/util.py:direct_geodetic'), ('ppoints', 'rf/rfstream.py:RFStream.ppoints')],
     ['return value of ppoints, pp_* headers'])

prop('C20', 'Stacking returns the mean trace of every seed id',
     'Stacking returns exactly one trace per distinct seed id of the stream, whose samples are the arithmetic mean of all traces with that id, and whose sampling rate, onset offset, phase, moveout and station coordinates are those of the stacked traces. '
     'Order of the input does not matter, traces of different length under one id are rejected, and the input stream including its headers is not modified.',
     ['inputs'],
     'all streams with several ids, unequal numbers of traces per id, interleaved order, different headers between ids',
     'Stacks are only made of one station with three components and their headers are not looked at.',
     ['rf/rfstream.py'],
     [('stack', 'rf/rfstream.py:RFStream.stack')],
     ['return value of stack'])

prop('C21', 'Profile boxes tile the profile on the globe',
     'Profile boxes follow the geodesic of the given azimuth from the starting point: box i covers the distances between edges i and i+1 along the profile and half the width to either side, with position and length in km and mid point as coordinates, and the first box describing the whole profile. '
     'A point well inside one box\'s along/across range is assigned to that box and a point well outside all ranges to none, anywhere on the globe including across the date line.',
     ['inputs'],
     'all starting points, azimuths, edge lists (also negative and uneven) and widths up to regional scale',
     'One profile with one geometry; assignment is only checked by the number of profile traces.',
     ['rf/profile.py', 'rf/util.py'],
     [('box construction', 'rf/profile.py:get_profile_boxes'), ('box search', 'rf/profile.py:profile')],
     ['box dicts; membership of points via profile() of one-trace streams'])

prop('C22', 'Profile stacking averages each trace into its box once',
     'Each trace whose piercing point is in a box contributes exactly once, to the profile trace of that box and its component; a profile trace is the mean of its contributions with their number, box and profile geometry, slowness, phase, moveout and onset offset as headers, and traces outside all boxes contribute nothing. '
     'The result is sorted by component and position, does not depend on the order of the input or on whether it is a stream, a list or an iterator, and the input is not modified.',
     ['inputs'],
     'all streams with piercing points inside, outside and between boxes, several components and stations, and all input kinds',
     'One bundled stream; only the number of traces and one header line is checked.',
     ['rf/profile.py'],
     [('profile', 'rf/profile.py:profile')],
     ['return value of profile()'])

prop('C23', 'Harmonic decomposition recovers the harmonics of the data',
     'For receiver functions made of constant, cos, sin, cos2 and sin2 terms of back azimuth (relative to the decomposition azimuth) the decomposition returns these terms, for one component and, with the coupled and the unmodelled terms, for two components with any weighting of the constant terms, in the time and in the frequency domain. '
     'For any data the result is the least squares fit, independent of the order of events in the stream and of other components, and each returned trace is labelled with its term, channel number and modelled/unmodelled part and keeps length, sampling and onset.',
     ['inputs', 'configurations'],
     'all back azimuth distributions with enough coverage, harmonic coefficients, azimuths, component sets, weights, methods and trace orders',
     'One sparse bundled data set with one stored peak amplitude.',
     ['rf/harmonics.py'],
     [('harmonics and design matrices', 'rf/harmonics.py')],
     ['stream returned by harmonics()'])

prop('C24', 'Event data iteration yields every usable event-station pair once',
     'Iterating over event data yields, event by event and station by station, one three component stream for each pair whose phase onset is in the distance window and whose data are complete, cut to the requested window around the onset and carrying the ray headers, and nothing else. '
     'A pair that fails in any way (station not running, no or broken origin, no arrival, exception or nothing from the data source, missing components, gaps) is skipped without affecting other pairs, and the data source is asked for the right channel and padded window once per pair. Iterating over the metadata (as the batch commands do) names every station once for each event with an origin time, and once if there are no events.',
     ['inputs', 'fault_sequences'],
     'all inventories, catalogs, windows, pads, phases and all placements of data source failures',
     'The tests run it on a bundled complete data set through the batch tool; no failure is injected.',
     ['rf/util.py', 'rf/batch.py'],
     [('iter_event_data', 'rf/util.py:iter_event_data'), ('data source wrapper', 'rf/batch.py:init_data')],
     ['streams yielded, calls seen by the data source'])

prop('C25', 'The batch tool computes what the Python API computes',
     'Running the batch commands (data, calc, moveout, stack, profile, convert; alone or combined in one call) gives, for each of the formats SAC, Q and H5, files that hold exactly the traces the corresponding API calls give for the same inputs, one file or entry per event, station and (for SAC) channel under the documented names, up to the precision of the format. '
     'Converting between formats keeps all of them, and an event-station pair without data, or an event without origin, does not stop the others. The figures of plot and plot-profile show what the plot functions draw for the traces of these files (ordered by back azimuth).',
     ['programs', 'inputs', 'configurations'],
     'all small data sets, command sequences, formats and option sets, data source failures included',
     'The tests count the files produced by one command sequence.',
     ['rf/batch.py'],
     [('run_commands, write, iter_event_processed_data', 'rf/batch.py')],
     ['files in the output directory read back with read_rf'])

prop('C26', 'Command line options and configuration are combined as documented',
     'Configuration files may carry # comments, options given on the command line override those of the file, option dictionaries are passed on to the API call they belong to, and unknown options or a processing command given twice are rejected before anything is written. '
     'A configuration that cannot be read produces a message and no output files.',
     ['inputs', 'configurations'],
     'all comment placements, option sets split over file and command line, malformed configurations and command repetitions',
     'One configuration file is used unchanged.',
     ['rf/batch.py'],
     [('run, run_commands, run_cli, ConfigJSONDecoder', 'rf/batch.py')],
     ['files produced / messages / exit of the command line tool'])

prop('C27', 'Every processing step is logged once, in order, with its arguments',
     'Each of deconvolution, receiver function calculation, moveout, stacking, profiling and harmonic decomposition adds exactly one entry naming the step, the rf version and all its effective arguments to the processing list of every resulting trace, after the entries of earlier steps (harmonic decomposition starts a new list). '
     'Entries of other traces and of the input of functions that return a new stream are not touched, and logging never changes arguments or results.',
     ['inputs', 'histories'],
     'all sequences of processing steps and argument values (defaults, positional, keyword, extra keyword)',
     'One test looks for two substrings in one trace.',
     ['rf/util.py'],
     [('_add_processing_info', 'rf/util.py')],
     ['stats.processing'])

prop('C28', 'The receiver function plot shows the data it is given',
     'plot_rf draws one curve per trace, in stream order from bottom to top, at times relative to the onset of that trace and with amplitudes scaled by the global (or own) maximum and the scale factor, header values beside them, and above it the mean of the traces if all have one id and equal length; the requested trim, fill, axes and file options are honoured in every combination. '
     'The stream is not modified.',
     ['inputs', 'configurations'],
     'all streams and all combinations of plot options',
     'The tests only call the function with defaults and look at nothing.',
     ['rf/imaging.py'],
     [('plot_rf', 'rf/imaging.py:plot_rf')],
     ['matplotlib artists of the returned figure; saved file'])

prop('C29', 'Profile, map and harmonics plots show the data they are given',
     'The profile plot draws each profile trace at its box position with amplitudes scaled by the global maximum and the smallest box length, time relative to onset increasing downwards, a depth axis consistent with the moveout model, and bars spanning each box showing the number of stacked traces; map plots draw stations, piercing points and boxes at their coordinates; the harmonics plot draws each term at its row, scaled by the largest amplitude of its stream (modeled terms only for the second stream). '
     'None of them modifies its input.',
     ['inputs', 'configurations'],
     'all profiles, inventories, piercing points, boxes and harmonic streams and plot options',
     'The tests only call the functions and look at nothing.',
     ['rf/imaging.py'],
     [('plot_profile, plot_stations, plot_ppoints, plot_profile_map, plot_harmonics', 'rf/imaging.py')],
     ['matplotlib artists of the figures'])

prop('C30', 'Stream type, method and text reflect the headers',
     'The type and method of a stream are those common to all its traces (method being the last letter of the phase in upper case), None with a warning if they differ and None if unset, and setting them sets every trace. '
     'The text of a trace states id, type, time window relative to onset, sampling and exactly those of magnitude, distance, back azimuth, box position, slowness and moveout that are set, and printing never fails for any set of headers.',
     ['inputs'],
     'all combinations of set and unset headers and values over traces of a stream',
     'Two fixed lines of text are compared.',
     ['rf/rfstream.py'],
     [('type, method, __str__', 'rf/rfstream.py:RFStream,RFTrace')],
     ['stream.type, stream.method, str(trace), str(stream)'])

prop('C31', 'Streams handed out are independent of each other',
     'The bundled example streams, copies, stacks, profiles, harmonics and computed receiver functions share no mutable state with each other or with later calls: changing data or headers of one in any way never changes another one, nor what the next call returns. '
     'Array level deconvolution functions never modify their input arrays.',
     ['histories'],
     'all sequences of obtaining, computing from and modifying streams in one process',
     'Every test gets a fresh process state and never modifies one stream to look at another.',
     ['rf/util.py', 'rf/rfstream.py', 'rf/profile.py', 'rf/harmonics.py', 'rf/deconvolve.py'],
     [('example cache', 'rf/util.py:minimal_example_rf'), ('RFTrace construction', 'rf/rfstream.py'), ('deconv functions', 'rf/deconvolve.py')],
     ['snapshots of all live streams after each operation'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
