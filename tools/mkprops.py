import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],**({'state':[dict(name=a,meaning=b,where=c) for a,b,c in state]} if state else {}),**({'observe_at':observe} if observe else {}),hook_needed=hook)))
I='include/'
p('C01','A failing task is never reported as a pass, nor a passing one as a failure',
 "A task is reported and counted as failed exactly when its body raised a failed assertion or any other exception derived from the standard exception type, or recorded at least one failed expectation; otherwise it is reported and counted as passed. What one task recorded never changes the verdict of another, one task's failure never stops the following tasks, and the run's exit status is non-zero exactly when at least one task failed. The failing macros (assert, expect, fail, data-path guard) report a failure exactly when their condition says so.",
 ['inputs','histories'],'every task body outcome (return, failed expectation, assertion, other exception) in every sequence of tasks',
 'the 15 tests all pass, so no failing path of the runner is ever executed; the property quantifies over every outcome of every task in a run',
 [I+'hart_test_registry.hpp',I+'hart_expectation_failure_messages.hpp',I+'hart.hpp'],
 [('TestRegistry::runTask','include/hart_test_registry.hpp'),('TestRegistry::runAll','include/hart_test_registry.hpp'),('HART_ASSERT_TRUE / HART_EXPECT_TRUE / HART_FAIL_TEST','include/hart.hpp')],
 [('expectation messages','failed expectations of the running task','include/hart_expectation_failure_messages.hpp'),('pass/fail counters','verdict totals of the run','include/hart_test_registry.hpp')],['console report','process exit status'])
p('C02','Every task of the selected kind runs exactly once, and only those',
 "A run executes every registered task of the selected kind (tests by default, generators when requested) exactly once, and none of the other kind. Without shuffling they run in registration order; shuffling only permutes them. A second registration of a name within one kind is refused, while the same name may exist once as a test and once as a generator.",
 ['inputs','configurations','histories'],'every set of registered tasks, every combination of the generator and shuffle flags',
 'the suite runs one fixed registry in one configuration and nothing checks that no task is skipped or run twice',
 [I+'hart_test_registry.hpp',I+'hart.hpp'],[('TestRegistry::add','include/hart_test_registry.hpp'),('TestRegistry::runAll','include/hart_test_registry.hpp'),('TestRegistry::shuffleTasks','include/hart_test_registry.hpp'),('HART_ITEM_WITH_TAGS','include/hart.hpp')])
p('C03','Audio checks are independent and keep their requested polarity and severity',
 "Each check added to an audio test is evaluated on all the audio it is due until it first fails, whatever the other checks in the same test did; it fails exactly when the matcher's answer differs from what was asked (True or False), and is reported exactly once. A failed 'assert' check stops the test with an assertion failure; a failed 'expect' check is recorded as a failed expectation and everything else carries on.",
 ['inputs','histories'],'every list of checks, every sequence of matcher verdicts over the blocks',
 'tests use one or two checks that all pass; a check that is skipped, inverted or silently dropped makes the suite pass more easily',
 [I+'hart_process_audio.hpp'],[('AudioTestBuilder::expectTrue/expectFalse/assertTrue/assertFalse','include/hart_process_audio.hpp'),('AudioTestBuilder::addCheck','include/hart_process_audio.hpp'),('AudioTestBuilder::processChecks','include/hart_process_audio.hpp')])
p('C04','Whole-signal checks only ever see the complete output',
 "A matcher that cannot judge audio block by block, and any check that asserts a mismatch (the 'False' forms), is evaluated exactly once per test, on the complete output signal from first to last frame; only non-inverted checks whose matcher accepts blocks are evaluated block by block, on each output block once and in order. Every check's matcher is prepared and reset for this test before it sees any audio.",
 ['inputs','configurations'],'every matcher kind, polarity, block size and duration',
 'stock matchers with one block-size default; a whole-signal matcher fed single blocks still passes on a stationary sine',
 [I+'hart_process_audio.hpp',I+'matchers/hart_matcher.hpp'],[('AudioTestBuilder::addCheck','include/hart_process_audio.hpp'),('AudioTestBuilder::process','include/hart_process_audio.hpp')])
p('C05','No effect or signal is prepared or run in a configuration it rejects',
 "Before a tested effect, an effect in a signal's chain or a signal is prepared, it has been asked whether it supports the channel layout and the sample rate it is about to get, and if either answer is no, an error is raised and it is neither prepared nor run with them. Everything is prepared before it processes or renders audio.",
 ['inputs','configurations'],'every effect, signal, channel layout and sample rate',
 'every tested combination is a supported one, so the rejecting paths never run',
 [I+'hart_process_audio.hpp',I+'signals/hart_signal.hpp',I+'dsp/hart_dsp.hpp',I+'matchers/hart_equalsto.hpp'],[('AudioTestBuilder::process','include/hart_process_audio.hpp'),('Signal::prepareWithDSPChain','include/signals/hart_signal.hpp'),('DSP::prepareWithEnvelopes','include/dsp/hart_dsp.hpp')])
p('C06','The test signal is processed block by block without loss, overlap or reordering',
 "A test renders and processes exactly the requested duration (rounded to frames) as consecutive non-empty blocks, all of the configured block size except possibly a shorter last one, with input and output blocks of equal length and the configured channel counts. Each block is rendered once from the input signal, passed once through the tested effect, and both the input and the effect's output are recorded in order in full. A test with nothing to process or without an input signal is refused with an error.",
 ['inputs','configurations'],'every duration, sample rate, block size and channel configuration',
 'durations and block sizes in the suite are a handful of defaults; off-by-one at the last block or a dropped block is invisible to peak checks on a steady sine',
 [I+'hart_process_audio.hpp'],[('AudioTestBuilder::process','include/hart_process_audio.hpp')])
p('C07','Everyone in a test works at the configured rate, channels and block size',
 "The sample rate and channel counts configured for a test are exactly what the tested effect, the input signal, every effect in its chain, every attached automation envelope, every matcher and every reference signal get when they are prepared, and what saved files and reported timestamps use. The maximum block size they are told is the configured one, or the whole duration for checks that get the whole signal at once, so no block is ever longer than announced.",
 ['inputs','configurations'],'every sample rate, channel layout, block size and composition of signals, effects and envelopes',
 'nearly all tests run at the defaults, where a hard-coded or swapped value is indistinguishable from the configured one',
 [I+'hart_process_audio.hpp',I+'signals/hart_signal.hpp',I+'dsp/hart_dsp.hpp',I+'matchers/hart_equalsto.hpp',I+'hart_wavwriter.hpp'],[('AudioTestBuilder::process','include/hart_process_audio.hpp'),('Signal::prepareWithDSPChain','include/signals/hart_signal.hpp'),('DSP::prepareWithEnvelopes','include/dsp/hart_dsp.hpp'),('EqualsTo::prepare','include/matchers/hart_equalsto.hpp')])
p('C08','Everything random is determined by the seed; nothing else varies between runs',
 "Noise, task shuffling and every other result depend only on the inputs and on the random seed: two noise signals with the same seed produce the same audio, and two runs with the same arguments give the same audio, order and verdicts. No result depends on the clock, environment, thread timing, addresses, a non-deterministic entropy source, hash-table iteration order or uninitialised memory.",
 ['inputs','histories','configurations'],'every seed, every pair of runs',
 'a test compares two outputs of one process; a nondeterministic source shows up only across runs or rarely',
 [I+'signals/hart_whitenoise.hpp',I+'hart_test_registry.hpp',I+'hart_cliconfig.hpp'],[('WhiteNoise::reset','include/signals/hart_whitenoise.hpp'),('TestRegistry::shuffleTasks','include/hart_test_registry.hpp')])
p('C09','Reset restores the initial state',
 "After a reset, every stock signal, automation envelope and effect produces exactly the audio or values that a freshly made one (prepared the same way) would produce, whatever was rendered before. Resetting a signal also resets every effect in its chain, and resetting for a new test also rewinds attached automation envelopes, so re-used effects start from the beginning.",
 ['histories','inputs'],'every history of rendering before a reset, at any point in a sweep, ramp or file',
 'the tests reset only untouched objects, so state that survives a reset is never observed',
 [I+'signals/hart_signal.hpp',I+'signals/hart_sinewave.hpp',I+'signals/hart_sine_sweep.hpp',I+'signals/hart_whitenoise.hpp',I+'signals/hart_wavfile.hpp',I+'envelopes/hart_segmentedenvelope.hpp',I+'dsp/hart_dsp.hpp'],[('reset() overrides','include/signals/, include/envelopes/, include/dsp/'),('Signal::resetWithDSPChain','include/signals/hart_signal.hpp')])
p('C10','Copies are complete and independent',
 "A copy of a signal, effect, envelope, matcher or audio buffer has the same concrete type and carries over its settings, its effect chain in order and its attached envelopes; assigning replaces what was there before. Afterwards the original and the copy share no state that either can change: using, resetting or destroying one never affects what the other produces.",
 ['inputs','histories'],'every object, every interleaving of operations on original and copy',
 'tests copy freshly made objects and use them once; aliasing or a forgotten member only shows when both are used or the member differs from its default',
 [I+'signals/hart_signal.hpp',I+'dsp/hart_dsp.hpp',I+'matchers/hart_equalsto.hpp',I+'envelopes/hart_segmentedenvelope.hpp',I+'hart_audio_buffer.hpp',I+'signals/hart_wavfile.hpp'],[('copy constructors, copy assignments and copy()','include/')])
p('C11','Transferred effects are handed through, never copied, and come back',
 "An effect given to a test by ownership transfer is used and handed back by the test as the very same object, without ever being copied or moved, also when the test is refused in a build without exceptions; so effects that can be neither copied nor moved can be declared with the documented macros and tested or chained this way. An effect, signal, matcher or envelope given as an lvalue is copied, and the caller's object is neither changed, moved from nor referred to afterwards; an effect given as an rvalue is moved from rather than copied.",
 ['programs','inputs'],'every effect type, including non-copyable ones, and every way of handing it over',
 'the suite only transfers a copyable stock effect, so a hidden copy or a lost object changes nothing it sees; non-copyable types are not instantiated at all',
 [I+'hart_process_audio.hpp',I+'signals/hart_signal.hpp',I+'dsp/hart_dsp.hpp',I+'matchers/hart_matcher.hpp'],[('AudioTestBuilder constructors and process()','include/hart_process_audio.hpp'),('Signal::followedBy','include/signals/hart_signal.hpp'),('HART_*_FORBID_COPY_AND_MOVE','include/')])
p('C12','Audio buffers stay internally consistent under every operation',
 "After any sequence of construction, copying, moving, assigning, appending and clearing, every channel of an audio buffer has exactly the reported number of frames in its own distinct storage. Appending keeps the existing frames and puts the other buffer's frames after them channel by channel; copying reproduces every frame; a buffer's channel count never changes and mismatching channel counts are refused with an error that leaves the buffer unchanged; peak queries reject out-of-range channels and frame ranges.",
 ['inputs','histories'],'every sequence of buffer operations and every shape, including zero channels or frames',
 'no test addresses audio buffers directly; stale channel pointers survive most runs by luck',
 [I+'hart_audio_buffer.hpp'],[('AudioBuffer members and updateChannelPointers','include/hart_audio_buffer.hpp')])
p('C13','No audio sample, envelope value or file frame is accessed out of bounds',
 "Rendering, processing, matching, saving and plotting only ever read or write samples with a channel index below that buffer's channel count and a frame index below its length, and only read envelope and file data inside their length, for every block length, channel layout, loop setting and file length.",
 ['inputs','configurations'],'every buffer shape, block size, wav length, loop mode',
 'shapes in the suite are few; an off-by-one read returns neighbouring memory and mostly passes',
 [I+'dsp/',I+'signals/',I+'matchers/',I+'hart_wavwriter.hpp',I+'hart_plot.hpp',I+'hart_process_audio.hpp'],[('all per-sample loops','include/')])
p('C14','Gain effects multiply every sample by the gain, in every layout',
 "A gain effect sets each output sample to the input sample at the same frame and channel (or of the single input channel when mono is spread to many) times the current gain, for every channel and frame: the attached automation's value for that very frame when there is one, otherwise the fixed gain last set. The decibel version applies the decibel-to-ratio conversion exactly once to constructor, fixed and automated values alike; it accepts n-to-n and 1-to-n layouts only, and works when input and output are the same buffer.",
 ['inputs','configurations'],'every input, gain, envelope, channel layout and aliasing of input and output',
 'tests use peak checks on a few layouts; a wrong channel, frame or skipped sample keeps the peak',
 [I+'dsp/hart_gaindb.hpp',I+'dsp/hart_gainlinear.hpp'],[('GainDb::process','include/dsp/hart_gaindb.hpp'),('GainLinear::process','include/dsp/hart_gainlinear.hpp')])
p('C15','The hard clipper bounds every sample and leaves the rest untouched',
 "Every output sample of the hard clipper is the input sample at the same channel and frame limited symmetrically to plus or minus the threshold, so it never exceeds the threshold in either direction and samples within the threshold pass through identically, for every channel and frame, also in place. The threshold in decibels is converted the same way whether given at construction or set later; only n-to-n layouts are accepted.",
 ['inputs','configurations'],'every input sample, threshold, layout',
 'symmetric sine inputs with a peak check cannot see an asymmetric or partly skipped clip',
 [I+'dsp/hart_hardclip.hpp'],[('HardClip::process','include/dsp/hart_hardclip.hpp')])
p('C16','Signals fill every frame of every channel of every block',
 "Every stock signal writes a sample to every frame of every channel of each block it is asked to render; tone, sweep and silence signals write the same value to all channels, and a wav signal writes each file channel to the same output channel in file order. A sweep or wav signal that does not loop produces silence for every frame after its end.",
 ['inputs','configurations'],'every block length, channel count and position of the end of the signal inside a block',
 'freshly allocated blocks are zero, so an unwritten sample looks like silence; ends of signals inside a block are hardly sampled',
 [I+'signals/hart_silence.hpp',I+'signals/hart_sinewave.hpp',I+'signals/hart_sine_sweep.hpp',I+'signals/hart_whitenoise.hpp',I+'signals/hart_wavfile.hpp'],[('renderNextBlock overrides','include/signals/')])
p('C17','Matchers judge every frame of every channel by their stated criterion',
 "The equality matcher passes a piece of audio exactly when every frame of every channel is within the tolerance of its reference signal, which advances by exactly the frames judged; the peaks-below matcher passes exactly when no frame of any channel exceeds the threshold plus tolerance in absolute value; the peaks-at matcher passes exactly when the largest absolute value over all channels and frames is within the tolerance of the target.",
 ['inputs'],'every observed audio, tolerance and reference',
 'the suite feeds mono, stationary signals: a matcher that skips a channel, the last frame or negative samples still answers correctly',
 [I+'matchers/hart_equalsto.hpp',I+'matchers/hart_peaksat.hpp',I+'matchers/hart_peaksbelow.hpp'],[('match() overrides','include/matchers/')])
p('C18','Audio that is not a number never satisfies a matcher',
 "When any judged sample is NaN (or makes the comparison value NaN), the equality, peaks-below and peaks-at matchers report a mismatch.",
 ['inputs'],'every audio containing NaN at any channel and frame',
 'no test produces NaN audio; comparison polarity is invisible on ordinary numbers',
 [I+'matchers/hart_equalsto.hpp',I+'matchers/hart_peaksat.hpp',I+'matchers/hart_peaksbelow.hpp'],[('comparisons in match()','include/matchers/')])
p('C19','A failure report describes the actual failure',
 "The report of a failed 'True' check names the severity and polarity, the test's label when it has one, the condition, and the channel, frame, timestamp, sample value and matcher details of the very sample that made the matcher fail, with the timestamp counted from the start of the signal also for whole-signal checks. Decibel readings in reports are taken of absolute levels, never of signed samples.",
 ['inputs','histories'],'every failing check, block index, channel and sign of the failing sample',
 'tests never fail, so no report is ever produced or inspected',
 [I+'hart_process_audio.hpp',I+'matchers/'],[('AudioTestBuilder::processChecks / appendFailureDetails','include/hart_process_audio.hpp'),('getFailureDetails overrides','include/matchers/')])
p('C20','Every command-line option controls exactly what it documents',
 "Each command-line option (data root path, seed, the five decimal-places options, run-generators, shuffle) sets its own setting and no other, and that setting is what the corresponding behaviour reads: seeds feed noise and shuffling, the generator flag selects the task kind, the shuffle flag enables shuffling, each decimals option governs its own unit, and relative paths resolve against the data root while absolute ones stay as they are.",
 ['configurations'],'every combination of command-line options',
 'the suite is run with one option; swapped or unread options have no effect on it',
 [I+'hart_cliconfig.hpp',I+'hart_precision.hpp',I+'hart_utils.hpp',I+'hart_test_registry.hpp'],[('CLIConfig','include/hart_cliconfig.hpp'),('precision manipulators','include/hart_precision.hpp'),('toAbsolutePath','include/hart_utils.hpp')])
p('C21','File errors are never swallowed and file resources are always released',
 "When a wav file cannot be opened or read, or a saved wav file cannot be created or completely written, an input/output error is raised. Every file handle and decoded sample block that was successfully obtained is released exactly once on every way out, and nothing is released that was not obtained.",
 ['fault_sequences','inputs'],'every failing open, read or write, at any point of the file',
 'no test injects an I/O failure',
 [I+'hart_wavwriter.hpp',I+'signals/hart_wavfile.hpp'],[('WavWriter::writeBuffer','include/hart_wavwriter.hpp'),('WavFile constructor','include/signals/hart_wavfile.hpp')])
p('C22','Saved wav files have the announced format and layout, within range',
 "For each supported sample format, a saved wav file declares the buffer's channel count, the sample rate and the format's encoding and bit depth, contains exactly all frames of all channels interleaved frame by frame, and integer formats clamp each sample symmetrically to full scale before converting it with that format's full-scale factor. Reading a wav file uses the same frame-by-frame channel order.",
 ['inputs','configurations'],'every format, channel count, buffer content including samples above full scale',
 'only mono 24-bit output is ever produced by the suite, and no test reads back what it wrote',
 [I+'hart_wavwriter.hpp',I+'hart_wavformat.hpp',I+'signals/hart_wavfile.hpp'],[('WavWriter::writeBuffer','include/hart_wavwriter.hpp'),('WavFile constructor','include/signals/hart_wavfile.hpp')])
p('C23','Files are written exactly when asked for, with the right content',
 "A test writes its output wav file, or its plot, only if that was requested, and then exactly when the mode is 'always' or the mode is 'when fails' and at least one check of the test failed, including a failed assertion; it holds the complete output signal (the plot: input and output), at the requested path resolved against the data root and in the requested format. Nothing else in the library writes files.",
 ['inputs','configurations','histories'],'every combination of save mode, target and check outcomes',
 'no check fails in the suite and it never looks at saved files',
 [I+'hart_process_audio.hpp',I+'hart_wavwriter.hpp',I+'hart_plot.hpp'],[('AudioTestBuilder::saveOutputTo / savePlotTo / process','include/hart_process_audio.hpp')])
p('C24','Invalid settings are refused and leave the test configuration unchanged',
 "A sample rate that is not positive or not supported by the tested effect, a zero block size, a negative duration and a channel count of zero or above 128 are refused with an error and leave the configuration as it was; every other value is stored exactly as given, under its own setting only. The mono and stereo shorthands set exactly the side(s) they name; invalid arguments of stock signals and envelopes are refused likewise.",
 ['inputs'],'every argument value of every setting',
 'tests only pass valid values',
 [I+'hart_process_audio.hpp',I+'signals/hart_sine_sweep.hpp',I+'signals/hart_sinewave.hpp',I+'envelopes/hart_segmentedenvelope.hpp'],[('AudioTestBuilder::with*()','include/hart_process_audio.hpp'),('constructor validation','include/signals/')])
p('C25','Unit literals mean their SI scale, for whole and fractional numbers alike',
 "For every literal value, the unit suffixes give the number in the base unit: seconds, milli- and microseconds in seconds, hertz and kilohertz in hertz, degrees and radians in radians, decibels unchanged; the integer and floating-point forms of a suffix agree.",
 ['inputs'],'every literal value, both literal kinds',
 'tests use a few suffixes in one literal kind only (_us, _deg and _rad never)',
 [I+'hart_units.hpp'],[('literal operators','include/hart_units.hpp')])
p('C26','Effect chains apply every effect once per block, in the order attached',
 "Rendering a signal with a chain renders the signal itself once and then passes the block once through each attached effect, in the order of attachment; preparing and resetting likewise reach the signal and every effect of its chain. Attaching appends exactly one effect at the end, whichever form is used (copy, move, ownership transfer, operator), and the textual representation lists the same effects in the same order.",
 ['programs','inputs'],'every chain length, order and way of attaching',
 'commuting gains and one two-effect order test leave dropped, doubled or reordered effects in longer or mixed chains unseen',
 [I+'signals/hart_signal.hpp'],[('Signal::followedBy, operator>>','include/signals/hart_signal.hpp'),('prepareWithDSPChain/renderNextBlockWithDSPChain/resetWithDSPChain','include/signals/hart_signal.hpp')])
p('C27','Automation attaches only where supported, the last wins, and it gets applied',
 "Attaching an envelope to a parameter the effect does not support is refused with an error and changes nothing; attaching again to the same parameter replaces the previous envelope. While processing, the effect receives automation values for exactly the parameters that have an envelope attached, at least one value per frame of the block and rendered from that parameter's own envelope, each envelope advancing once per block.",
 ['inputs','histories'],'every sequence of attachments and every set of parameters',
 'tests attach one envelope to one parameter once',
 [I+'dsp/hart_dsp.hpp'],[('DSP::withEnvelope','include/dsp/hart_dsp.hpp'),('DSP::prepareWithEnvelopes / processWithEnvelopes / getValues','include/dsp/hart_dsp.hpp')])
p('C28','The whole library builds header-only, in C++11, for float and double',
 "Including the single header in any number of translation units compiles in strict C++11 and links without duplicate definitions; every public class works for both float and double samples, every documented way of passing objects (constant, lvalue, temporary, owning pointer) compiles, and in the double instantiation audio samples are never squeezed through single precision outside the wav file boundary. It also builds with exceptions-on-error disabled.",
 ['programs','configurations'],'every translation unit, sample type, value category and build configuration',
 'the suite instantiates float only and a fraction of the templates; unused templates are never compiled',
 [I],[('all headers','include/'),('src/hart.cpp','src/hart.cpp')])
p('C29','Printed numbers carry their own unit\'s precision and label',
 "Every floating-point quantity written in a failure report or textual representation is printed with the decimal places configured for its own unit (linear, decibel, seconds, hertz, radians), whatever was printed before it, and any unit label that follows matches that unit.",
 ['inputs','configurations'],'every reported quantity, for every preceding stream state and precision options',
 'tests never look at the text',
 [I+'hart_precision.hpp',I+'signals/',I+'dsp/',I+'matchers/',I+'hart_process_audio.hpp'],[('represent() overrides','include/'),('getFailureDetails / appendFailureDetails','include/')])
p('C30','Decibels and linear values are never confused',
 "A value given in decibels is used in arithmetic with samples, gains, peaks and thresholds only after conversion to a linear ratio, exactly once, and a linear value is presented as decibels only after the opposite conversion; time, frequency, phase and frame counts are likewise never used in place of one another.",
 ['inputs'],'every parameter and sample value',
 'at 0 dB and other fixed points a missing or doubled conversion gives the same or a passing value',
 [I+'dsp/',I+'matchers/',I+'signals/',I+'envelopes/',I+'hart_process_audio.hpp'],[('decibelsToRatio / ratioToDecibels call sites','include/')])
p('C31','Block size never changes the audio',
 "What a stock signal, effect or envelope produces for a given frame depends only on its settings, its input and how many frames came before since reset, never on how the frames were split into blocks: per-frame state advances once per frame and carries over between blocks.",
 ['inputs','configurations'],'every partition of the frames into blocks',
 'tests use the default block size almost exclusively',
 [I+'signals/',I+'envelopes/hart_segmentedenvelope.hpp',I+'dsp/'],[('renderNextBlock / process loops','include/')])
p('C32','Builds without exceptions report a refusal and never act on it',
 "When the library is built to report errors without throwing, every refused operation (bad setting, unsupported layout or rate, missing input signal, unreadable file, unsupported envelope) prints its error and returns without performing the refused action, leaving objects valid: nothing later dereferences data that a refused operation failed to provide.",
 ['configurations','inputs','fault_sequences'],'every refusal in the non-throwing configuration',
 'the suite is built only in the throwing configuration',
 [I+'hart_exceptions.hpp',I],[('HART_THROW_OR_RETURN','include/hart_exceptions.hpp')])
p('C33','Plots show every sample of each channel at its own time',
 "A saved plot draws, for the input and for the output, one line per channel holding every sample of that channel in order, with the first sample of each channel at time zero and consecutive samples one sample period apart.",
 ['inputs','configurations'],'every channel count, length and sample rate',
 'no test writes a plot',
 [I+'hart_plot.hpp'],[('plotData','include/hart_plot.hpp')])
p('C34','Segmented envelopes run through their segments in order and then hold',
 "A segmented envelope takes its segments in the order they were added, each starting from the value at which the previous one ended, a hold keeping that value and a ramp interpolating between start and target in the shape requested; after the last segment, or with no segments at all, it holds its final (initial) value forever. Every shape is handled.",
 ['inputs'],'every list of segments, duration (including zero) and shape',
 'three fixed envelopes are compared with recorded audio; empty lists, zero durations and single segments are not tried',
 [I+'envelopes/hart_segmentedenvelope.hpp'],[('SegmentedEnvelope::hold / rampTo / advance','include/envelopes/hart_segmentedenvelope.hpp')])
p('C35','Tone and sweep waveforms are numerically accurate',
 "The sine and sweep signals produce sin of the exactly integrated phase to within floating-point accuracy for every frequency, phase, sample rate and duration, including very long signals.",
 ['inputs'],'every frequency, sample rate and length','tests compare a few frequencies with tolerance',
 [I+'signals/hart_sinewave.hpp',I+'signals/hart_sine_sweep.hpp'],[('renderNextBlock','include/signals/')])
p('C36','Decibel conversions and wav round trips are numerically faithful',
 "Converting decibels to a ratio and back, and writing audio to a wav file and reading it back, reproduces the value to within floating-point rounding, respectively one quantisation step of the format, for all in-range values.",
 ['inputs'],'every in-range value','a few values with tolerance',
 [I+'hart_utils.hpp',I+'hart_wavwriter.hpp',I+'signals/hart_wavfile.hpp'],[('decibelsToRatio/ratioToDecibels','include/hart_utils.hpp')])
open('/verif/properties.jsonl','w').write('\n'.join(json.dumps(x) for x in P)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P:
    jsonschema.validate(x,s)
print(len(P))
