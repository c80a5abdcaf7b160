NOTES = {
'C01': ('write/read round trips through SAC, Q and H5 over generated streams and headers', 'Trusts numpy and the header comparison rules per format (SAC float32, 1e-4 s).'),
'C02': ('stateful histories of writes and reads with injected write failures against a model of the files', 'Failures are injected by making the destination unwritable or a writer raise.'),
'C03': ('generated foreign SAC/Q/H5 files, differential against obspy.read', 'Trusts ObsPy readers for data and times.'),
'C04': ('differential against geographiclib and an own travel time slope oracle', 'Trusts geographiclib and TauP travel times; the slope is derived from TauP times of neighbouring distances.'),
'C05': ('generated windows, events and stations against an own distance oracle', 'Trusts geographiclib.'),
'C06': ('differential against absolute cuts of single traces', 'Trusts obspy Trace.slice for absolute cuts.'),
'C07': ('partition invariants and reference grouping over generated streams', 'None beyond Python.'),
'C08': ('independent solve of the documented Toeplitz system in numpy', 'Trusts numpy.linalg; toeplitz package is stubbed (not installed).'),
'C09': ('independent evaluation of the spectral formula', 'Trusts numpy.fft.'),
'C10': ('invariants of matching pursuit and an independent reference pursuit', 'Trusts numpy; ties within rounding are skipped.'),
'C11': ('independent multitaper estimate', 'Trusts the Slepian tapers of scipy.'),
'C12': ('metamorphic relations (scale, delay, permutation, polarity) for all methods', 'Bounds depend on method; see DESIGN.md.'),
'C13': ('recorded arguments of a custom deconvolution function against a reference selection, and differential against array level functions', 'Trusts the array level functions judged by C08-C11.'),
'C14': ('differential against the documented steps performed one by one', 'Trusts ObsPy filter and rotation primitives.'),
'C15': ('metamorphic: whole stream against single records, permutations', 'None beyond C14.'),
'C16': ('synthetic conversions placed at delay times of an own ray integral', 'Peak position judged to a fraction of a sample.'),
'C17': ('histories of calls against a fresh process state', 'Fresh state is a freshly imported rf module.'),
'C18': ('differential against own ray integrals', 'Known finding ppoint-offset-shift is listed.'),
'C19': ('differential against geographiclib and own ray integrals', 'Known finding ppoint-offset-shift is listed.'),
'C20': ('reference mean and header model, permutations, snapshots', 'Trusts numpy mean.'),
'C21': ('differential against geographiclib positions, points in and outside boxes', 'Boxes near the poles are outside the generators.'),
'C22': ('reference binning model, permutations, input kinds', 'Points are placed away from box edges.'),
'C23': ('synthetic harmonics, differential against own least squares in the time domain', 'Trusts numpy.linalg.'),
'C24': ('generated catalogs, inventories and failing data sources against a reference iteration', 'Trusts TauP arrivals as judged by C04.'),
'C25': ('histories of batch commands against API calls, formats and conversions', 'Trusts the readers judged by C01.'),
'C26': ('generated configurations and command lines against a reference merge', 'None beyond json.'),
'C27': ('generated histories of processing steps against a model of the log', 'None.'),
'C28': ('figures of generated streams read back through public matplotlib artists', 'Trusts matplotlib artists.'),
'C29': ('figures of generated profiles, maps and harmonics read back through public artists', 'Trusts matplotlib and cartopy transforms.'),
'C30': ('reference model of type, method and text over generated headers', 'None.'),
'C31': ('generated mutations of one result against deep snapshots of the others', 'Mutable state reachable through data and headers.'),
}
