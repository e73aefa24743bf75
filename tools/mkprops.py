"""writes properties.jsonl and MANIFEST.json from one table"""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = 'chromaprint/src/'
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=()):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext},
              'why_tests_cant': why,
              'anchors': {'files': [f if '/src/' in f else SRC + f for f in files],
                          'mechanism': [{'name': n, 'where': w} for n, w in mech],
                          'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
                          'observe_at': list(observe), 'hook_needed': None}})


prop('C01', 'A restarted fingerprinter behaves like a new one',
     'After an accepted start, the fingerprint produced depends only on the configuration, the arguments of that start and the samples consumed since: a fingerprinter used before for any streams, finished or not, yields the same words as a freshly created one.',
     ['histories', 'inputs', 'configurations'], 'every sequence of start/consume/finish calls before the restart, every earlier stream (length, rate, channels), every configuration',
     'The tests use a fresh fingerprinter per stream; left-over state of one of six stages only matters for particular lengths of the earlier stream.',
     ['fingerprinter.rs', 'audio_processor.rs', 'fft.rs', 'chroma.rs', 'chroma_filter.rs', 'chroma_normalizer.rs', 'fingerprint_calculator.rs', 'rolling_image.rs'],
     [('reset of every stage', 'Fingerprinter::start, *::reset')], ['Fingerprinter::start', 'Fingerprinter::fingerprint'])
prop('C02', 'start validates its arguments and a rejected start changes nothing',
     'start reports NoChannels for zero channels and SampleRateTooLow for a positive channel count with a rate of at most 1000 Hz; every other pair of arguments is accepted. A rejected start leaves the fingerprinter exactly as it was, so the stream in progress is not disturbed. start never panics.',
     ['inputs', 'histories'], 'all 2^64 argument pairs, in every state of the fingerprinter',
     'Only a few argument pairs are tested, and nothing observes the state after a rejected call.',
     ['fingerprinter.rs', 'audio_processor.rs'], [('argument checks before any state change', 'AudioProcessor::reset')], ['Fingerprinter::start'])
prop('C03', 'Fingerprints are deterministic and instances are isolated',
     'The result of every library operation is a function of its arguments and the instance it is called on: there is no shared mutable state between fingerprinters, and no dependence on time, randomness, environment, threads, addresses or hash order.',
     ['schedules', 'histories', 'inputs'], 'any interleaving of any number of instances and calls on any threads',
     'Tests run each operation in one process and one order; an ambient dependency shows up only across instances, runs or schedules.',
     ['fingerprinter.rs', 'fingerprint_matcher.rs', 'lib.rs'], [('owned state only', 'struct fields'), ('no statics with interior mutability', 'all modules')])
prop('C04', 'Every configuration setting reaches the computation',
     'Each value set through the configuration builder or preset (frame size, overlap, filter coefficients, classifiers, interpolation, silence removal) governs the corresponding step of the fingerprint computation, and changing one setting does not alter the meaning of another.',
     ['configurations', 'inputs'], 'all configurations constructible through the public builder',
     'Tests check getters and whole fingerprints of a preset on one file; a setting that is dropped or swapped for untested configurations is invisible.',
     ['fingerprinter.rs', 'chroma.rs', 'fft.rs', 'chroma_filter.rs'], [('construction of the pipeline from the configuration', 'Fingerprinter::new'), ('builder methods', 'Configuration::with_*')])
prop('C05', 'Presets are the Chromaprint algorithms',
     'Presets test1 to test5 carry the published Chromaprint parameters: identifiers 0 to 4, frame size, overlap, filter coefficients, interpolation and silence flags, and for each of 16 classifiers its filter type, position, height, width and three thresholds; the default is test2.',
     ['configurations'], 'all five presets, every table entry and derived accessor',
     'Tests exercise a few presets on one recording; a wrong entry may flip no bit there.',
     ['fingerprinter.rs'], [('preset tables', 'Configuration::preset_test*')], ['Configuration::preset_test*'])
prop('C06', 'A sub-fingerprint is the Gray-coded sequence of its classifier decisions',
     'Each word is built from the classifiers in order: classifier value v is quantised to 0..3 by its three thresholds (number of thresholds not above v), coded 0,1,3,2, and shifted in two bits at a time with the first classifier most significant.',
     ['inputs', 'configurations'], 'all filter responses, including values equal to thresholds, all classifier lists',
     'Tests fix a handful of filter values and words.',
     ['classifier.rs', 'quantize.rs', 'utils.rs', 'fingerprint_calculator.rs'], [('quantisation and gray code', 'Classifier/Quantizer/gray_code'), ('bit accumulation', 'FingerprintCalculator')])
prop('C07', 'Filter responses compare the defined rectangles of the chroma image',
     'For the window of rows ending at the newest row, each of the six filters compares the summed energy of its two rectangle sets (defined by type, y, height, width) as ln((1+a)/(1+b)), with rectangle sums exact for every position of the bounded rolling image, also after it has wrapped around.',
     ['inputs', 'histories', 'configurations'], 'every filter type, geometry inside 12 bands, image content and number of rows pushed',
     'Unit tests use small constant images and never a history longer than the buffer.',
     ['filter.rs', 'rolling_image.rs', 'fingerprint_calculator.rs'], [('summed-area table ring', 'RollingIntegralImage'), ('filter kernels', 'Filter::apply')])
prop('C08', 'Every overlapped frame of the stream is analysed exactly once',
     'Frame k of a mono stream consists of samples k*(frame-overlap) to k*(frame-overlap)+frame-1, is scaled by 1/32767, weighted by a Hamming window of the frame size and transformed once; a stream of n samples has floor((n-frame)/(frame-overlap))+1 frames and none if n < frame. finish flushes every complete frame.',
     ['inputs', 'configurations'], 'every stream content, length, frame size, overlap and channel count',
     'Tests feed a single file; dropped or duplicated frames at buffer boundaries change few words.',
     ['fft.rs', 'audio_processor.rs', 'fingerprinter.rs'], [('ring buffer and drain', 'Fft::consume'), ('sample buffer flush', 'AudioProcessor')])
prop('C09', 'How a stream is cut into consume calls does not matter',
     'For any division of an interleaved stream into consume calls at frame boundaries (empty pieces included), the resulting fingerprint is identical to that of one call with the whole stream.',
     ['inputs', 'histories'], 'all streams, all partitions at multiples of the channel count',
     'Tests use one packetisation; failures need a piece ending at a particular distance from an internal buffer boundary.',
     ['audio_processor.rs', 'fft.rs'], [('internal sample buffer', 'AudioProcessor::consume')], ['Fingerprinter::consume'])
prop('C10', 'Multi-channel input is the average of its channels',
     'For c channels each mono sample is the sum of the c interleaved 16-bit samples divided by c, rounded toward zero, without overflow for any channel count; a single channel is passed through unchanged.',
     ['inputs', 'configurations'], 'all sample values, all channel counts',
     'Tests feed mono or stereo material; rounding, overflow and the generic path need other counts and extreme values.',
     ['audio_processor.rs'], [('downmix loops', 'AudioProcessor::load*')])
prop('C11', 'Spectra become chroma energies by the 27.5 Hz pitch-class mapping',
     'Each spectral bin between the bins of 28 Hz and 3520 Hz adds its energy re^2+im^2 to the pitch class floor(12*frac(log2(f/27.5))) of its frequency, or, with interpolation on, splits it between that class and a neighbour by the fractional position; other bins contribute nothing.',
     ['inputs', 'configurations'], 'all spectra, frame sizes and both interpolation settings',
     'Tests use a few synthetic bins.',
     ['chroma.rs', 'fft.rs'], [('note table', 'Chroma::new/prepare_notes'), ('accumulation', 'Chroma::consume')])
prop('C12', 'Chroma vectors are smoothed over time and normalised',
     'Each smoothed vector is the coefficient-weighted sum of the last ncoef chroma vectors, oldest first, available once ncoef vectors have been seen; it is divided by its Euclidean norm, or replaced by zeros when the norm is below 0.01.',
     ['inputs', 'histories', 'configurations'], 'all chroma sequences, any number of vectors, any coefficient list up to the supported length',
     'Tests run at most a few vectors, never past the ring size.',
     ['chroma_filter.rs', 'chroma_normalizer.rs'], [('8-slot ring', 'ChromaFilter::consume'), ('normalisation', 'ChromaNormalizer')])
prop('C13', 'Compressed fingerprints carry the algorithm and the length',
     'The first byte of a compressed fingerprint is the identifier of the configuration it was made with and the next three bytes are the number of sub-fingerprints, most significant first; nothing precedes the header.',
     ['inputs', 'configurations'], 'all fingerprints of fewer than 2^24 words and all configurations',
     'One vector of 32 words under one configuration is tested.',
     ['compression.rs'], [('header', 'FingerprintCompressor::compress')])
prop('C14', 'Compression encodes exactly the bit positions of successive differences',
     'For each word the 1-based positions of the set bits of its exclusive-or with the previous word are delta coded as 3-bit values closed by 0, with 7 escaping to a 5-bit remainder; the 3-bit stream and then the 5-bit stream are packed least significant bit first and padded to whole bytes. Hence decompression restores the fingerprint.',
     ['inputs'], 'all sequences of 32-bit words',
     'One vector is tested; escapes at the boundary value and partial groups need particular bits and lengths.',
     ['compression.rs'], [('bit deltas', 'compress_subfingerprint'), ('packing', 'iter_packed_intn_array')])
prop('C15', 'Matching rejects fingerprints it cannot index',
     'match_fingerprints returns FingerprintTooLong naming the offending argument when either fingerprint has 2^19-2 or more words, before doing any work, and otherwise never fails; empty fingerprints give an empty result.',
     ['inputs'], 'all pairs of lengths',
     'No test uses fingerprints of half a million words.',
     ['fingerprint_matcher.rs'], [('length guards', 'match_fingerprints')])
prop('C16', 'Matched segments lie inside both fingerprints, aligned and in order',
     'Every segment satisfies offset1+items <= len1 and offset2+items <= len2, has at least one item, and all segments of a result share one alignment (offset1-offset2 constant); they are ordered by position and do not overlap.',
     ['inputs'], 'all pairs of fingerprints and configurations',
     'Tests compare the result for a few recordings.',
     ['fingerprint_matcher.rs'], [('alignment histogram and segmentation', 'match_fingerprints')])
prop('C17', 'Segment scores are mean bit differences and only good segments are kept',
     'The score of an unmerged segment is the mean number of differing bits between its paired words, only segments with a score below 10 are reported, and adjacent ones whose scores differ by less than 0.7 are merged into one covering both with the length-weighted mean score.',
     ['inputs'], 'all pairs of fingerprints',
     'Tests compare a few results with loose tolerance.',
     ['fingerprint_matcher.rs'], [('merge', 'Segment::merged'), ('threshold', 'match_fingerprints')])
prop('C18', 'Segment times are item counts times the item duration',
     'The start, end and duration of a segment in seconds are its offsets and length times (frame-overlap)/11025, the end being start plus duration, for every configuration.',
     ['inputs', 'configurations'], 'all segments and configurations',
     'Tests check one configuration.',
     ['fingerprint_matcher.rs', 'fingerprinter.rs'], [('conversions', 'Segment::start1 etc.')])
prop('C19', 'Valid audio never makes the library panic',
     'For each preset, no sequence of start, consume of whole sample frames and finish panics by index, overflow, division or unwrap.',
     ['inputs', 'histories', 'configurations'], 'all presets, rates, channel counts, sample values, stream lengths and splits',
     'Tests cover one input each; a panic needs a particular length, value or rate.',
     ['audio_processor.rs', 'fft.rs', 'chroma.rs', 'rolling_image.rs', 'fingerprint_calculator.rs'], [('bounds by construction', 'all stages')])
prop('C20', 'The tools drive the fingerprinter through its protocol',
     'fpcalc and compare start a fingerprinter successfully before feeding it, feed only decoded samples of the selected track, finish it exactly once before reading the fingerprint of a chunk or file, and, unless chunks overlap, start it again before feeding the next chunk when the stream continues.',
     ['histories', 'inputs', 'fault_sequences'], 'all paths through the two command line tools, including decoder errors',
     'The tools have no tests.',
     ['fpcalc/src/main.rs', 'compare/src/main.rs'], [('main loops', 'main, calc_fingerprint')])
prop('C21', 'Every command line option has its documented effect',
     'Each option of fpcalc is honoured: it is read somewhere that influences the processing or the output.',
     ['configurations'], 'all options',
     'The tools have no tests.',
     ['fpcalc/src/main.rs'], [('Args', 'main')])
prop('C22', 'fpcalc accounts for every decoded sample exactly once',
     'fpcalc feeds each decoded sample frame up to the length limit exactly once and in order; with chunking each chunk covers the requested duration (plus the overlap when asked) and a printed duration equals the audio it covers.',
     ['inputs', 'configurations', 'histories'], 'all buffer sizes delivered by a decoder, all limits and chunk sizes',
     'The tools have no tests.',
     ['fpcalc/src/main.rs'], [('sample accounting loop', 'main')])
prop('C23', 'The tools report failures instead of panicking',
     'A missing, unreadable or unsupported file, or a file without usable track, rate or channel information, ends in a reported error and a non-zero exit; no failure of an external call is unwrapped.',
     ['fault_sequences', 'inputs'], 'all results of the decoding library and the file system',
     'The tools have no tests.',
     ['fpcalc/src/main.rs', 'compare/src/main.rs'], [('error propagation', 'main, AudioReader::new, calc_fingerprint')])
prop('C24', 'Algorithm identifiers select their presets consistently',
     'Algorithm n on the command line selects the preset whose identifier is n for n from 0 to 4 and anything else is rejected; a fingerprint is compressed, printed and matched with the same configuration it was computed with.',
     ['inputs', 'configurations'], 'all algorithm arguments and all paths from computation to output',
     'The tools have no tests.',
     ['fpcalc/src/main.rs', 'compare/src/main.rs', 'fingerprinter.rs'], [('Algorithm::try_from', 'fpcalc main')])
prop('C25', 'fpcalc prints its results in the selected format',
     'Raw output lists the words in order as unsigned, or with --signed as two\'s complement signed, decimal numbers separated by commas; otherwise the URL-safe unpadded base64 of the compressed fingerprint is printed; text, JSON and plain forms carry exactly their documented fields and JSON is well formed.',
     ['configurations', 'inputs'], 'all combinations of the output options',
     'The tools have no tests.',
     ['fpcalc/src/main.rs'], [('ResultPrinter::print_result', 'fpcalc main')])
prop('C26', 'The workspace is free of unsafe code of its own',
     'No crate of the workspace contains unsafe blocks, unsafe functions or implementations, foreign declarations or raw pointer dereferences, so memory safety and freedom from data races rest on the compiler and the dependencies alone.',
     ['programs', 'schedules'], 'the complete source of the three crates',
     'Tests cannot show the absence of undefined behaviour.',
     ['lib.rs'], [('language rules', 'all files')])
prop('C27', 'Streams at another rate are resampled to 11025 Hz without loss',
     'For a rate other than 11025 Hz the resampler is created with the ratio 11025/rate for one channel, every mono sample is handed to it exactly once and in order, all the samples it returns are passed on, and at 11025 Hz no resampler is involved.',
     ['inputs', 'configurations', 'histories'], 'all rates, stream lengths and splits',
     'Tests resample one file; a lost tail or stale ratio depends on length and history.',
     ['audio_processor.rs'], [('resample/flush', 'AudioProcessor')])
prop('C28', 'The fingerprint only grows until the next start',
     'consume and finish only append words: words already returned never change, finish is idempotent, consuming nothing changes nothing, and the number of words is the number of frames minus the warm-up of smoothing and of the widest classifier, zero for shorter streams.',
     ['histories', 'inputs'], 'all call sequences and streams',
     'Tests read the fingerprint once at the end.',
     ['fingerprint_calculator.rs', 'fingerprinter.rs', 'chroma_filter.rs'], [('push only', 'FingerprintCalculator')])
prop('C29', 'Fingerprints equal those of the reference implementation bit for bit',
     'For the same audio, the fingerprint has the same words as that of the C++ Chromaprint library, up to resampling differences.',
     ['inputs', 'configurations'], 'all audio', 'Tests compare three recordings.',
     ['fingerprinter.rs'], [('whole pipeline', 'all stages')])
prop('C30', 'Similar recordings match and different recordings do not',
     'Fingerprints of re-encoded or noisy versions of a recording are matched over their common part, and unrelated recordings are not.',
     ['inputs'], 'all recordings', 'Tests compare a few recordings.',
     ['fingerprint_matcher.rs'], [('alignment and thresholds', 'match_fingerprints')])
prop('C31', 'Resampled audio keeps the spectrum below the Nyquist frequency',
     'Resampling to the internal rate preserves the band used for chroma to the accuracy the classifiers need.',
     ['inputs', 'configurations'], 'all rates and signals', 'Tests resample one recording.',
     ['audio_processor.rs'], [('sinc interpolation', 'rubato')])

prop('C32', 'Fingerprints are compared at the alignment where most words agree',
     'match_fingerprints compares the two fingerprints at a relative offset at which the largest number of word pairs agree in their upper 12 bits, over the whole overlap at that offset; if no offset has at least two such pairs the result is empty.',
     ['inputs'], 'all pairs of fingerprints',
     'Tests compare two recordings and their exact copies; wrong choices need competing alignments, ties, edges of the overlap or values that differ in one bit.',
     ['fingerprint_matcher.rs'], [('hash sort and histogram', 'match_fingerprints')])
prop('C33', 'Segments are cut where the smoothed difference changes most',
     'The numbers of differing bits are smoothed by moving averages of 15, 15 and 17 values mirrored at both ends, and the overlap is cut exactly at the interior maxima of the absolute gradient of the smoothed values that exceed 0.15 and do not directly follow another cut.',
     ['inputs'], 'all difference curves',
     'Tests check the filter on a few vectors and segments of a few recordings.',
     ['gaussian.rs', 'gradient.rs', 'fingerprint_matcher.rs'], [('box filters', 'gaussian_filter'), ('gradient', 'gradient'), ('peaks', 'match_fingerprints')])

CHECKS = {}
exec(open(os.path.join(ROOT, 'tools', 'claims.py')).read())

if __name__ == '__main__':
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['id']
            assert p['statement'].count('. ') <= 2, p['id']
            f.write(json.dumps(p) + '\n')
    m = {'version': 1, 'setup_cmd': 'bash sa/setup.sh', 'checks': [], 'not_applicable': []}
    for p in P:
        i = p['id']
        if i in CHECKS:
            tech, level, note = CHECKS[i]
            m['checks'].append({'property': i, 'quick_cmd': 'python3 sa/run.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3 sa/run.py ' + i,
                                'evidence_file': 'evidence/%s.json' % i, 'technique': tech, 'level': level, 'level_note': note})
        else:
            m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'no static check finished yet')})
    m['notes'] = 'All checks analyse the MIR of the current tree (driver/main.rs); the program under test is never executed. No hooks in /repo.'
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
