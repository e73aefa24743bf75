AI = 'static analysis: abstract interpretation over MIR (symbolic value numbering, exact linear arithmetic, summarised loops)'
TB = 'Trusts rustc\'s MIR, the transfer functions for core/alloc in sa/eng and the reference in sa/ref.py. A violation is reported only when an obligation is definitely refuted; obligations the analysis cannot decide are counted in the evidence as undetermined and stay quiet.'
CHECKS['C02'] = (AI, 'other', 'Every argument pair by symbolic rate and channel count; untouched state shown leaf by leaf from an arbitrary state. Assumes rubato accepts ratio > 0. ' + TB)
CHECKS['C05'] = (AI + ', constants compared with the published tables', 'other', 'Complete: every entry of every preset. ' + TB)
CHECKS['C08'] = (AI + ', FFT inputs compared with the specification', 'other', 'All sample values (symbolic); stream lengths and geometries are enumerated, not symbolic. ' + TB)
CHECKS['C09'] = (AI + ', symbolic split points', 'other', 'All sample values and, for several stream lengths, all split positions (symbolic). ' + TB)
CHECKS['C10'] = (AI + ', symbolic channel count', 'other', 'All sample values; channel counts symbolic in the generic path. ' + TB)
CHECKS['C18'] = (AI, 'other', 'All offsets, lengths and configurations (symbolic). ' + TB)
CHECKS['C03'] = ('static analysis: effect analysis over the call graph and type graph', 'other', 'Complete over the call graph reachable from the library: ambient sources, statics, hash iteration, address exposure, shared interior mutability. ' + 'Trusts rustc MIR, the classification of std paths, and determinism of rustfft and rubato.')
CHECKS['C20'] = (AI + ', event traces against a protocol automaton', 'other', 'Every path of both tools for enumerated decoder scripts, buffer sizes and options; sample contents symbolic. The decoding library is a scripted contract. ' + TB)
CHECKS['C21'] = (AI + ', option-by-option observable difference', 'other', 'Every field of the argument structure. Three options that have no effect are listed as known findings. ' + TB)
CHECKS['C22'] = (AI + ', sample accounting over event traces', 'other', 'Buffer sizes are enumerated up to 6 frames, options enumerated, contents symbolic; a small rate and delay stand for the real ones, in which the code is linear. ' + TB)
CHECKS['C23'] = (AI + ', symbolic outcome of every fallible call', 'other', 'All combinations of outcomes of the set-up calls, every packet and decoder error kind. Assumes a decoder never delivers a buffer larger than the capacity of its first. ' + TB)
CHECKS['C24'] = (AI + ', identity of the configuration tracked', 'other', 'All 256 parsed numbers; all output paths of both tools. ' + TB)
CHECKS['C25'] = (AI + ', format templates decoded from constants', 'other', 'All combinations of output options; fingerprint words symbolic. ' + TB)
CHECKS['C26'] = ('static analysis: compiler query over HIR and item signatures', 'other', 'Complete over the three workspace crates as compiled by rustc.')
CHECKS['C27'] = (AI + ', resampler as a contract', 'other', 'Every rate and channel count for the construction (symbolic); sample values symbolic, stream lengths, cuts and resampled lengths enumerated around the buffer size. ' + TB)
NA = {
    'C29': 'Bitwise equality with another program over all audio depends on floating-point rounding through FFT and logarithms and on thresholds: no static argument in reach bounds it. The structural parts are claimed as C05 to C12.',
    'C30': 'A statistical statement about recordings; not a property of program paths that static analysis could decide. The structural guarantees of matching are claimed as C15 to C18.',
    'C31': 'Signal quality of a dependency (rubato); numerical, outside the source. The way the library feeds it is claimed as C27.',
}
CHECKS['C01'] = (AI + ', closed forms of a restarted and of a new run compared', 'other', 'Sample values and transform outputs symbolic in both lives; histories (lengths, cuts, channel counts, rates, finished or not, up to two earlier lives) enumerated. ' + TB)
CHECKS['C04'] = (AI + ', builder settings traced to the step they govern', 'other', 'Sequences of setters enumerated, coefficients, thresholds, samples and transform outputs symbolic. Silence removal has no effect in this library: listed as known findings. ' + TB)
CHECKS['C06'] = (AI + ', words as closed forms', 'other', 'All rows and all ordered thresholds (symbolic); classifier lists enumerated. ' + TB)
CHECKS['C07'] = (AI + ', filter responses as closed forms', 'other', 'All row values (symbolic), every geometry of the presets and others; row counts enumerated up to 530. ' + TB)
CHECKS['C11'] = (AI + ', linear forms compared bin by bin', 'other', 'All spectra (symbolic), every bin of every preset and of seven other frame sizes, with and without interpolation. ' + TB)
CHECKS['C12'] = (AI + ', smoothing and normalisation as closed forms', 'other', 'All spectra and all coefficients (symbolic), up to 8 coefficients. ' + TB)
CHECKS['C28'] = (AI + ', word lists compared call by call', 'other', 'Contents symbolic; sequences of calls enumerated. ' + TB)
CHECKS['C13'] = (AI + ', header bytes as closed forms', 'other', 'All word counts (symbolic) and all 256 algorithm identifiers; fingerprints of enumerated word counts with symbolic words for the length of the rest. ' + TB)
CHECKS['C14'] = (AI + ', output bytes compared with a second encoder on lists of guarded values', 'other', 'Words symbolic within families of bit differences that cover every gap length, including every escape boundary; word counts enumerated. ' + TB)
CHECKS['C15'] = (AI + ', histogram and gaps as closed forms', 'other', 'Words symbolic; limits decided for all lengths (symbolic), alignment positions for enumerated pairs of lengths. ' + TB)
CHECKS['C16'] = (AI + ', case splitting on every undecided condition', 'other', 'Words symbolic; pairs of lengths, alignments and smoothed curves enumerated. ' + TB)
CHECKS['C17'] = (AI + ', scores as closed forms, case splitting', 'other', 'Words symbolic; pairs of lengths, alignments and gradient peaks enumerated. ' + TB)
CHECKS['C19'] = (AI + ', every panic edge of the reachable code as an obligation', 'other', 'Sample values symbolic, call sequences and lengths enumerated, configurations: presets and corner geometries. ' + TB)
CHECKS['C32'] = (AI + ', sorts and histogram on prescribed upper bits', 'other', 'Lower 20 bits of every word symbolic, patterns of the upper 12 bits and lengths up to 15 enumerated. ' + TB)
CHECKS['C33'] = (AI + ', smoothing as linear forms, case splitting', 'other', 'Smoothing: all values symbolic, sizes up to 90 enumerated. Cuts: words symbolic, smoothed curves enumerated. ' + TB)
