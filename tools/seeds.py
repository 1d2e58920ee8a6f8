"""Planted bugs: id, property, edits [(file under include/, old, new[, occurrence])], needs, breaks, demo body."""
SEEDS = []
def S(id, property, edits, needs, breaks, demo, **k): SEEDS.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **k))
P = 'hart_process_audio.hpp'; SIG = 'signals/hart_signal.hpp'; DSP = 'dsp/hart_dsp.hpp'; REG = 'hart_test_registry.hpp'; BUF = 'hart_audio_buffer.hpp'

S('c01-exit-status', 'C01', [(REG, 'return (int) (tasksFailed != 0);', 'return (int) tasksFailed;')],
  'a run in which exactly a multiple of 256 tasks fail', 'the exit status is the number of failed tasks, of which the system keeps eight bits: 256 failures end with status 0',
  '''config(); struct T { static void f() { HART_FAIL_TEST(); } }; auto& r = TestRegistry::getInstance();
    for (int i = 0; i < 256; ++i) r.add ("t" + std::to_string (i), "", TaskCategory::test, &T::f);
    const int rc = r.runAll(); std::cout << rc << "\\n"; CHECK ((rc & 0xff) != 0);''')
S('c01-stop-at-100', 'C01', [(REG, '            runTask (task);', '            if (tasksFailed < 100)\n                runTask (task);')],
  'more than a hundred failing tasks', 'tasks are skipped after 100 failures',
  '''config(); static int n = 0; struct T { static void f() { ++n; HART_FAIL_TEST(); } }; auto& r = TestRegistry::getInstance();
    for (int i = 0; i < 150; ++i) r.add ("t" + std::to_string (i), "", TaskCategory::test, &T::f);
    r.runAll(); CHECK (n == 150);''')
S('c02-generator-duplicates', 'C02', [(REG, 'const bool isDuplicate = ! insertResult.second;', 'const bool isDuplicate = ! insertResult.second && testCategory == TaskCategory::test;')],
  'two generators with the same name', 'duplicate names are refused for tests only',
  '''struct T { static void f() {} }; auto& r = TestRegistry::getInstance(); r.add ("a", "", TaskCategory::generate, &T::f);
    CHECK (throws ([&] { r.add ("a", "", TaskCategory::generate, &T::f); }));''')
S('c03-message-cap', 'C03', [(P, 'hart::ExpectationFailureMessages::get().emplace_back (stream.str());', 'if (hart::ExpectationFailureMessages::get().size() < 16)\n                        hart::ExpectationFailureMessages::get().emplace_back (stream.str());')],
  'more than sixteen failed expectations in one task', 'the seventeenth failed expect check is not reported',
  '''config(); auto b = processAudioWith (GainDb<F>()); b.withInputSignal (constant<F> (1));
    for (int i = 0; i < 20; ++i) b.expectTrue (PeaksBelow<F> (-20_dB));
    b.process(); CHECK (drain().size() == 20);''')
S('c03-skip-lost', 'C03', [(P, 'check.shouldSkip = true;', 'check.shouldSkip = assertionLevel == SignalAssertionLevel::assert || ! check.shouldPass;')],
  'an expect check that fails in a test of several blocks', 'a failed expect check stays active and is reported again for every further block',
  '''config(); auto b = processAudioWith (GainDb<F>()); b.withInputSignal (constant<F> (1)).withBlockSize (441).expectTrue (PeaksBelow<F> (-20_dB)).process(); CHECK (drain().size() == 1);''')
S('c04-assert-false-block', 'C04', [(P, 'const bool forceFullSignal = ! shouldPass;  // No per-block checks for inverted matchers', 'const bool forceFullSignal = ! shouldPass && signalAssertionLevel == SignalAssertionLevel::expect;', 1)],
  'an assertFalse check with a temporary matcher on a signal whose first block matches', 'assertFalse judges each block on its own instead of the whole signal',
  '''config(); CHECK (! throws ([&] { processAudioWith (GainDb<F>()).withInputSignal (Gen<F> ([] (size_t, size_t f) { return f < 2000 ? 0.0f : 1.0f; })).withBlockSize (441).assertFalse (PeaksBelow<F> (-20_dB)).process(); }));''')
S('c05-first-only', 'C05', [(SIG, 'if (! dsp->supportsSampleRate (sampleRateHz))', 'if (&dsp == &dspChain.front() && ! dsp->supportsSampleRate (sampleRateHz))')],
  'a chain whose second or later effect rejects the sample rate', 'only the first effect of a chain is asked about the sample rate',
  '''config(); Spy<F> a, b; b.rate = [] (double) { return false; }; auto s = constant<F> (1); s.followedBy (a).followedBy (b); auto l = b.log;
    CHECK (throws ([&] { s.prepareWithDSPChain (44100, 1, 64); })); CHECK (count (*l, "prepare") == 0);''')
S('c06-last-frame', 'C06', [(P, 'while (offsetFrames < m_durationFrames)', 'while (offsetFrames + 1 < m_durationFrames)')],
  'a duration one frame longer than a multiple of the block size', 'a last block of a single frame is dropped',
  '''config(); Spy<F> d; auto l = d.log; processAudioWith (d).withInputSignal (constant<F> (1)).withSampleRate (1000).withDuration (0.101).withBlockSize (50).process();
    long n = 0; for (auto& e : *l) if (e.find ("process") != std::string::npos) n += std::stol (e.substr (12)); CHECK (n == 101);''')
S('c06-block-cap', 'C06', [(P, 'const size_t blockSizeFrames = std::min (m_blockSizeFrames, m_durationFrames - offsetFrames);', 'const size_t blockSizeFrames = std::min (std::min (m_blockSizeFrames, size_t (65536)), m_durationFrames - offsetFrames);')],
  'a block size above 65536 frames', 'blocks are silently capped at 65536 frames',
  '''config(); Spy<F> d; auto l = d.log; processAudioWith (d).withInputSignal (constant<F> (1)).withSampleRate (100000).withDuration (1).withBlockSize (100000).process(); CHECK (count (*l, "process") == 1);''')
S('c07-layout-clipped', 'C07', [(P, 'm_processor->prepareWithEnvelopes (m_sampleRateHz, m_numInputChannels, m_numOutputChannels, m_blockSizeFrames);', 'm_processor->prepareWithEnvelopes (m_sampleRateHz, m_numInputChannels, m_numOutputChannels, m_blockSizeFrames < m_durationFrames ? m_blockSizeFrames : m_blockSizeFrames / 2);')],
  'a test of a single block, no longer than the block size', 'the effect is prepared for blocks of half the size',
  '''config(); Spy<F> d; auto l = d.log; processAudioWith (d).withInputSignal (constant<F> (1)).withDuration (0.01).withBlockSize (441).process(); CHECK (count (*l, "prepare 44100 1 1 441") == 1);''')
S('c14-mono-spread', 'C14', [('dsp/hart_gaindb.hpp', 'output[channel][frame] = input[0][frame] * (SampleType) m_gainEnvelopeValuesLinear[frame];', 'output[channel][frame] = input[0][frame] * (SampleType) m_gainEnvelopeValuesLinear[channel == 0 ? frame : 0];')],
  'an automated decibel gain spread from mono to several channels', 'channels after the first get the gain of the first frame throughout the block',
  '''config(); const auto e = SegmentedEnvelope (0).rampTo (-20, 0.01); GainDb<F> g; g.withEnvelope (0, e); g.prepareWithEnvelopes (44100, 1, 2, 64); AudioBuffer<F> i (1, 64), o (2, 64); for (int f = 0; f < 64; ++f) i[0][f] = 1.0f; g.processWithEnvelopes (i, o); CHECK (o[0][63] == o[1][63]);''')
S('c14-double-conversion', 'C14', [('dsp/hart_gaindb.hpp', 'm_gainLinear = decibelsToRatio (value);', 'm_gainLinear = value > 40.0 ? value : decibelsToRatio (value);')],
  'a gain above 40 dB set with setValue()', 'large decibel values are taken as linear',
  '''config(); GainDb<F> g; g.setValue (0, 60.0); AudioBuffer<F> i (1, 1), o (1, 1); i[0][0] = 0.001f; g.process (i, o, {}); CHECK (std::abs (o[0][0] - 1.0f) < 1e-3f);''')
S('c15-negative-side', 'C15', [('dsp/hart_hardclip.hpp', '(SampleType) -m_thresholdLinear)', '(SampleType) -(m_thresholdLinear < 1.0 ? m_thresholdLinear : 1.0))')],
  'a threshold above 0 dB', 'negative samples are clipped at full scale although the threshold is higher',
  '''config(); HardClip<F> h (12.0); AudioBuffer<F> i (1, 2), o (1, 2); i[0][0] = 2.0f; i[0][1] = -2.0f; h.process (i, o, {}); CHECK (o[0][0] == 2.0f && o[0][1] == -2.0f);''')
S('c23-full-only', 'C23', [(P, 'atLeastOneCheckFailed |= ! allChecksPassed;\n            fullInputBuffer', 'atLeastOneCheckFailed = ! allChecksPassed;\n            fullInputBuffer')],
  'a per-block check that fails in a block that is not the last one, with Save::whenFails', 'only the verdict of the last block decides whether the output is saved',
  '''config(); processAudioWith (GainDb<F>()).withInputSignal (Gen<F> ([] (size_t, size_t f) { return f < 10 ? 1.0f : 0.0f; })).withBlockSize (441).saveOutputTo ("a.wav", Save::whenFails).expectTrue (PeaksBelow<F> (-20_dB)).process(); CHECK (drain().size() == 1); CHECK (std::ifstream ("a.wav").good());''')
S('c24-partial', 'C24', [(P, 'if (blockSizeFrames == 0)', 'if ((m_blockSizeFrames = blockSizeFrames) == 0)')],
  'a refused block size whose error is caught, then the same builder being used', 'the refused zero block size is stored all the same, and the test never ends',
  '''config(); auto b = processAudioWith (GainDb<F>()); b.withInputSignal (constant<F> (1)); CHECK (throws ([&] { b.withBlockSize (0); })); alarm (5); b.process();''')
S('c24-stereo', 'C24', [(P, 'return this->withMonoInput().withMonoOutput();', 'return this->m_numOutputChannels > 1 ? this->withMonoInput() : this->withMonoInput().withMonoOutput();')],
  'inMono() after a multi-channel output has been configured', 'inMono() leaves the number of output channels alone',
  '''config(); Spy<F> d; auto l = d.log; processAudioWith (d).withInputSignal (constant<F> (1)).inStereo().inMono().process(); CHECK (count (*l, "prepare 44100 1 1 ") == 1);''')
PA = 'matchers/hart_peaksat.hpp'; PB = 'matchers/hart_peaksbelow.hpp'; EQ = 'matchers/hart_equalsto.hpp'; GD = 'dsp/hart_gaindb.hpp'; GL = 'dsp/hart_gainlinear.hpp'
S('c17-last-frame', 'C17', [(EQ, 'for (size_t frame = 0; frame < referenceAudio.getNumFrames(); ++frame)', 'for (size_t frame = 0; frame < referenceAudio.getNumFrames(); frame += 1 + frame / 65536)')],
  'audio longer than 65536 frames that differs at an odd frame further on', 'EqualsTo skips frames of long audio',
  '''EqualsTo<F> m (constant<F> (0), 0.01); m.prepare (44100, 1, 70000); AudioBuffer<F> b (1, 70000); for (int i = 0; i < 70000; ++i) b[0][i] = i == 65537 ? 1.0f : 0.0f; CHECK (! m.match (b));''')
S('c17-two-channels', 'C17', [(PB, 'channel < observedAudio.getNumChannels()', 'channel < std::min<size_t> (8, observedAudio.getNumChannels())')],
  'audio of more than eight channels whose peak is in a later one', 'PeaksBelow looks at the first eight channels',
  '''PeaksBelow<F> m (-6_dB); AudioBuffer<F> b (10, 4); for (int c = 0; c < 10; ++c) for (int i = 0; i < 4; ++i) b[c][i] = c == 9 ? 1.0f : 0.0f; CHECK (! m.match (b));''')
S('c18-both-nan', 'C18', [(EQ, 'if (notEqual (observedAudio[channel][frame], referenceAudio[channel][frame]))', 'if (notEqual (observedAudio[channel][frame], referenceAudio[channel][frame]) && ! (std::isnan (observedAudio[channel][frame]) && std::isnan (referenceAudio[channel][frame])))')],
  'NaN in the observed and in the reference audio at the same place', 'EqualsTo takes two NaNs for equal',
  '''EqualsTo<F> m (constant<F> (std::nan ("")), 0.01); m.prepare (44100, 1, 2); AudioBuffer<F> b (1, 2); b[0][0] = b[0][1] = std::nanf (""); CHECK (! m.match (b));''')
S('c18-max', 'C18', [(PA, 'const SampleType currentPeakLinear = std::abs (observedAudio[channel][frame]);', 'const SampleType currentPeakLinear = std::max ((SampleType) 0, std::abs (observedAudio[channel][frame]));')],
  'NaN samples among ordinary ones that peak at the target', 'std::max with the zero first turns NaN samples into silence, so PeaksAt passes',
  '''PeaksAt<F> m (0_dB); AudioBuffer<F> b (1, 2); b[0][0] = std::nanf (""); b[0][1] = 1.0f; CHECK (! m.match (b));''')
S('c19-channel-frame', 'C19', [(PA, 'frameOfObservedPeakLinear = frame;', 'frameOfObservedPeakLinear = std::max (frame, frameOfObservedPeakLinear);')],
  'a higher peak at an earlier frame of a later channel', 'the reported frame is not the one of the reported peak',
  '''PeaksAt<F> m (-20_dB); AudioBuffer<F> b (2, 8); for (int i = 0; i < 16; ++i) b[i / 8][i % 8] = 0; b[0][5] = 0.5f; b[1][2] = 1.0f; CHECK (! m.match (b)); const auto d = m.getFailureDetails(); CHECK (d.channel == 1 && d.frame == 2);''')
S('c19-stale', 'C19', [(PB, 'm_observedPeakDb = ratioToDecibels (observedPeakLinear);', 'm_observedPeakDb = std::max (m_observedPeakDb, ratioToDecibels (observedPeakLinear));')],
  'a peak below 0 dB that is too high all the same', 'the description gives 0 dB instead of the observed level',
  '''config(); PeaksBelow<F> m (-20_dB); AudioBuffer<F> b (1, 1); b[0][0] = 0.5f; CHECK (! m.match (b)); CHECK (m.getFailureDetails().description.find ("at least -6") != std::string::npos);''')
S('c26-owned-order', 'C26', [(SIG, 'dspChain.emplace_back (std::move (dsp));', 'dspChain.insert (dspChain.begin() + (dspChain.size() < 5 ? dspChain.size() : 5), std::move (dsp));')],
  'more than five effects given by owning pointer', 'effects from the seventh on are put before earlier ones',
  '''auto s = constant<F> (1); for (int i = 0; i < 9; ++i) { std::unique_ptr<Spy<F>> d (new Spy<F>()); d->name = std::string (1, (char) ('a' + i)); s.followedBy (std::unique_ptr<DSP<F>> (std::move (d))); } std::stringstream t; s.representWithDSPChain (t); std::string u; for (char c : t.str()) if (c >= 'a' && c <= 'i') u += c; CHECK (u.find ("hi") != std::string::npos);''')
S('c27-refuse-change', 'C27', [(DSP, '        if (! supportsEnvelopeFor(paramId))', '        if (! supportsEnvelopeFor(paramId) && ! hasEnvelopeFor (paramId))', 1)],
  'an effect that stops supporting automation of a parameter which already has an envelope', 'a second envelope is accepted without asking the effect',
  '''Spy<F> d; d.enveloped = true; d.withEnvelope (3, Probe (1)); d.enveloped = false; const Probe p (2); CHECK (throws ([&] { d.withEnvelope (3, p); })); CHECK (throws ([&] { d.withEnvelope (3, Probe (3)); }));''')
S('c27-negative-id', 'C27', [(DSP, '            m_envelopeBuffers.emplace (paramId, std::vector<double> (maxBlockSizeFrames));', '            if (paramId >= 0)\n                m_envelopeBuffers.emplace (paramId, std::vector<double> (maxBlockSizeFrames));')],
  'a user effect with a negative parameter id', 'no values are rendered for parameters with negative ids',
  '''Spy<F> d; d.enveloped = true; static size_t n; n = 0; d.body = [] (const AudioBuffer<F>&, AudioBuffer<F>&, const EnvelopeBuffers& e) { n += e.count (-1) ? e.at (-1).size() : 0; }; d.withEnvelope (-1, Probe (2)); d.prepareWithEnvelopes (44100, 1, 1, 16); AudioBuffer<F> i (1, 16), o (1, 16); for (int f = 0; f < 16; ++f) i[0][f] = 0; d.processWithEnvelopes (i, o); CHECK (n == 16);''')
SW = 'signals/hart_sine_sweep.hpp'; WV = 'signals/hart_wavfile.hpp'
S('c16-sweep-tail', 'C16', [(SW, 'fillWithSilence (output, frame + 1);', 'fillWithSilence (output, frame + 2);')],
  'a sweep without loop that ends inside a block, rendered into a buffer that held audio before', 'the frame right after the end of the sweep is not written',
  '''config(); SineSweep<F> s (0.01, 100.0, 1000.0, SineSweep<F>::SweepType::linear, SineSweep<F>::Loop::no); s.prepare (1000, 2, 64); AudioBuffer<F> o (2, 64); for (int c = 0; c < 2; ++c) for (int f = 0; f < 64; ++f) o[c][f] = 7.0f;
    s.renderNextBlock (o); for (int c = 0; c < 2; ++c) for (int f = 10; f < 64; ++f) CHECK (o[c][f] == 0.0f);''')
S('c16-wav-silence', 'C16', [(WV, '                output[channel][frameInOutputBuffer] = (SampleType) 0;', '                output[m_wavNumChannels > 1 ? channel : 0][frameInOutputBuffer] = m_wavNumChannels > 2 ? output[channel][0] : (SampleType) 0;')],
  'a wav file of three or more channels that ends inside a block', 'the frames after the end of the file repeat the first sample of the block',
  '''config(); writeWav ("w.wav", 3, 10); WavFile<F> w ("w.wav", WavFile<F>::Loop::no); w.prepare (44100, 3, 64); AudioBuffer<F> o (3, 64); w.renderNextBlock (o); for (int c = 0; c < 3; ++c) for (int f = 10; f < 64; ++f) CHECK (o[c][f] == 0.0f);''')
WN = 'signals/hart_whitenoise.hpp'; EN = 'envelopes/hart_segmentedenvelope.hpp'
S('c31-noise-order', 'C31', [(WN, 'for (size_t frame = 0; frame < output.getNumFrames(); ++frame)\n            for (size_t channel = 0; channel < this->getNumChannels(); ++channel)', 'for (size_t channel = 0; channel < this->getNumChannels(); ++channel)\n            for (size_t frame = 0; frame < output.getNumFrames(); ++frame)')],
  'noise of two channels rendered in several blocks', 'noise is drawn channel by channel, so its frames depend on where the blocks end',
  '''config(); WhiteNoise<F> a (1), b (1); a.prepareWithDSPChain (44100, 2, 64); b.prepareWithDSPChain (44100, 2, 64); AudioBuffer<F> w (2, 64), x (2, 32), y (2, 32); a.renderNextBlockWithDSPChain (w); b.renderNextBlockWithDSPChain (x); b.renderNextBlockWithDSPChain (y);
    for (int c = 0; c < 2; ++c) for (int f = 0; f < 64; ++f) CHECK (w[c][f] == (f < 32 ? x[c][f] : y[c][f - 32]));''')
S('c31-sweep-frame', 'C31', [(SW, 'frequencyAtFrame (m_posFrames, m_reverseFrequencyDirection);', 'frequencyAtFrame (m_posFrames > frame ? m_posFrames : frame, m_reverseFrequencyDirection);')],
  'a looping sweep whose turning point lies inside a block', 'after the sweep has turned around, the frequency follows the frame number in the block',
  '''config(); using SS = SineSweep<F>; SS a (0.01, 100.0, 400.0, SS::SweepType::linear, SS::Loop::yes), b = a; a.prepare (1000, 1, 64); b.prepare (1000, 1, 64); AudioBuffer<F> w (1, 9), v (1, 9), x (1, 18); a.renderNextBlock (w); a.renderNextBlock (v); b.renderNextBlock (x);
    for (int f = 0; f < 18; ++f) CHECK (std::abs (x[0][f] - (f < 9 ? w[0][f] : v[0][f - 9])) < 1e-6f);''')
S('c09-sweep-direction', 'C09', [(SW, '        m_reverseFrequencyDirection = false;\n', '')],
  'a looping sweep reset after it has turned around', 'a reset sweep goes on in the direction it had',
  '''config(); using SS = SineSweep<F>; SS s (0.01, 100.0, 400.0, SS::SweepType::linear, SS::Loop::yes); s.prepare (1000, 1, 64); AudioBuffer<F> a (1, 8), b (1, 15), c (1, 8); s.renderNextBlock (a); s.reset(); s.renderNextBlock (b); s.reset(); s.renderNextBlock (c); for (int f = 0; f < 8; ++f) CHECK (a[0][f] == c[0][f]);''')
S('c09-envelope-index', 'C09', [(EN, '        m_currentTimeSeconds = 0.0;\n        m_currentSegmentIndex = 0;', '        m_currentTimeSeconds = 0.0;\n        m_currentSegmentIndex = m_currentSegmentIndex < m_segments.size() ? 0 : m_segments.size();')],
  'an envelope that is reset after it has run to its end', 'an envelope that has ended stays at its end after a reset',
  '''config(); auto e = SegmentedEnvelope (0).rampTo (1, 0.001).hold (0.001); e.prepare (44100, 256); std::vector<double> a (256), b (256); e.renderNextBlock (256, a); e.reset(); e.renderNextBlock (256, b); for (int f = 0; f < 256; ++f) CHECK (a[f] == b[f]);''')
S('c34-jump-end', 'C34', [(EN, '        m_endValue = targetValue;', '        if (durationSeconds > 0.0)\n            m_endValue = targetValue;')],
  'a ramp of zero length (a jump), followed by a hold or by the end of the envelope', 'the value after the jump is the one before it',
  '''config(); auto e = SegmentedEnvelope (1).hold (0.001).rampTo (3, 0.0).hold (0.001).rampTo (5, 0.0); e.prepare (44100, 256); std::vector<double> a (256); e.renderNextBlock (256, a); CHECK (a[0] == 1); CHECK (a[60] == 3); CHECK (a[255] == 5);''')
S('c34-begin-current', 'C34', [(EN, '                m_beginValue = currentSegment.targetValue;', '                m_beginValue = currentSegment.isHold ? currentSegment.targetValue : m_currentValue;')],
  'a ramp after a ramp that is shorter than a frame (or a steep one)', 'the next ramp starts from the last frame rendered instead of from where the ramp before it ended',
  '''config(); auto e = SegmentedEnvelope (0).rampTo (8, 0.0).rampTo (10, 0.01); e.prepare (44100, 256); std::vector<double> a (256); e.renderNextBlock (256, a); for (int f = 0; f < 256; ++f) CHECK (a[f] >= 8);''')

S('c10-assign-no-effects', 'C10', [(SIG, '        dspChain.clear();\n\n        if (other.dspChain.size() == 0)\n            return *this;', '        if (other.dspChain.size() == 0)\n            return *this;\n\n        dspChain.clear();')],
  'assigning a signal without effects to a signal that has some', 'the effects of the signal that was assigned to stay in its chain',
  '''config(); auto a = constant<F> (1); auto b = constant<F> (1); Spy<F> d; auto l = d.log; b.followedBy (d); b = a;
    b.prepareWithDSPChain (44100, 1, 64); AudioBuffer<F> x (1, 64); b.renderNextBlockWithDSPChain (x); CHECK (count (*l, "process") == 0);''')
S('c10-buffer-pointers', 'C10', [(BUF, '        m_channelPointers.resize (m_numChannels);\n        updateChannelPointers();\n\n        return', '        m_channelPointers = other.m_channelPointers;\n\n        return')],
  'assigning one buffer to another of the same size, then writing to the copy', 'the copy refers to the samples of the source',
  '''AudioBuffer<F> a (1, 8), b (1, 8); a[0][3] = 0.5f; b = a; b[0][3] = 0.25f; CHECK (a[0][3] == 0.5f);''')

S('c08-shuffle-static', 'C08', [(REG, 'std::mt19937 rng (CLIConfig::getInstance().getRandomSeed());', 'static std::mt19937 rng (CLIConfig::getInstance().getRandomSeed());')],
  'two shuffled runs of the registry in one process, or a seed set after the first one', 'the generator used for shuffling is made once, so the order no longer depends on the seed alone',
  '''auto& app = CLIConfig::getInstance().getCLIApp(); CLIConfig::getInstance().initCommandLineArgs(); const char* av[] = { "x", "--shuffle", "--seed", "7" }; app.parse (4, const_cast<char**> (av));
    static std::string order; struct A { static void f() { order += 'a'; } }; struct B { static void f() { order += 'b'; } }; struct C { static void f() { order += 'c'; } }; struct D { static void f() { order += 'd'; } }; struct E { static void f() { order += 'e'; } };
    auto fill = [] (TestRegistry& r) { r.add ("a", "", TaskCategory::test, &A::f); r.add ("b", "", TaskCategory::test, &B::f); r.add ("c", "", TaskCategory::test, &C::f); r.add ("d", "", TaskCategory::test, &D::f); r.add ("e", "", TaskCategory::test, &E::f); };
    auto& r = TestRegistry::getInstance(); TestRegistry fresh (r); TestRegistry one (fresh), two (fresh); fill (one); fill (two);
    one.runAll(); const std::string first = order; order.clear(); two.runAll(); CHECK (first.size() == 5); CHECK (first == order);''')
S('c08-noise-thread-entropy', 'C08', [(WN, 'm_randomNumberGenerator = std::mt19937 (m_randomSeed);', 'm_randomNumberGenerator = m_randomSeed != 0 ? std::mt19937 (m_randomSeed) : std::mt19937 (std::random_device{}());')],
  'noise with seed 0, which is the default seed', 'seed 0 is taken to mean any seed',
  '''WhiteNoise<F> a (0), b (0); AudioBuffer<F> x (1, 64), y (1, 64); a.prepare (44100, 1, 64); b.prepare (44100, 1, 64); a.renderNextBlock (x); b.renderNextBlock (y);
    for (size_t i = 0; i < 64; ++i) CHECK (x[0][i] == y[0][i]);''')

S('c12-moved-from-frames', 'C12', [(BUF, '        m_channelPointers = std::move (other.m_channelPointers);\n        other.clear();', '        m_channelPointers = std::move (other.m_channelPointers);\n        other.m_frames.clear();\n        other.m_channelPointers.resize (m_numChannels);')],
  'using a buffer after it was moved from', 'a buffer that was moved from still says that it has frames, with null channels',
  '''AudioBuffer<F> a (1, 8), b (1, 4); b = std::move (a); CHECK (b.getNumFrames() == 8); CHECK (a.getNumFrames() == 0); CHECK (a.getNumChannels() == 1);''')
S('c12-clear-pointers', 'C12', [(BUF, '        if (m_channelPointers.size() != m_numChannels)\n            m_channelPointers.resize (m_numChannels);\n\n        updateChannelPointers();', '        if (m_channelPointers.size() == m_numChannels)\n            updateChannelPointers();')],
  'assigning or appending to a buffer that was moved from', 'a buffer that was moved from has no channel pointers any more; appending to it writes out of bounds',
  '''AudioBuffer<F> a (1, 8), c (1, 4); c[0][2] = 0.5f; AudioBuffer<F> b (std::move (a)); CHECK (a.getArrayOfReadPointers() != nullptr); a.appendFrom (c); CHECK (a[0][2] == 0.5f);''')

S('c13-wav-end', 'C13', [(WV, 'while (m_wavOffsetFrames < m_wavFrames->getNumFrames() && frameInOutputBuffer < numFrames)', 'while (m_wavOffsetFrames <= m_wavFrames->getNumFrames() && frameInOutputBuffer < numFrames)'), (WV, 'm_wavOffsetFrames %= m_wavFrames->getNumFrames();', 'm_wavOffsetFrames = m_wavOffsetFrames < m_wavFrames->getNumFrames() ? m_wavOffsetFrames : 0;')],
  'a wav file that is not looped, rendered past its end', 'the frame behind the last one of every channel of the file is read',
  '''config(); writeWav ("w.wav", 2, 10); WavFile<F> w ("w.wav", WavFile<F>::Loop::no); w.prepare (44100, 2, 64); AudioBuffer<F> o (2, 64); w.renderNextBlock (o); CHECK (o[1][0] != 0.0f || o[1][1] != 0.0f); CHECK (o[0][10] == 0.0f);''')
S('c13-last-frame', 'C13', [(EQ, 'm_failedFrame = frame;', 'm_failedFrame = frame < 65535 ? frame : frame + 1;')],
  'audio of more than 65535 frames that differs from the reference in the last one', 'a frame that is not there is reported, and the runner looks up the sample in it',
  '''EqualsTo<F> m (constant<F> (0), 0.01); m.prepare (44100, 1, 70000); AudioBuffer<F> b (1, 70000); for (int i = 0; i < 70000; ++i) b[0][i] = i == 69999 ? 1.0f : 0.0f; CHECK (! m.match (b)); CHECK (m.getFailureDetails().frame < 70000);''')

WW = 'hart_wavwriter.hpp'
S('c22-rate-16', 'C22', [(WW, 'static_cast<drwav_uint32> (sampleRateHz)', 'static_cast<drwav_uint16> (sampleRateHz)')],
  'audio saved at a sample rate above 65535 Hz', 'the sample rate in the header is cut to 16 bits',
  '''AudioBuffer<F> b (1, 8); for (int i = 0; i < 8; ++i) b[0][i] = 0.5f; WavWriter<F>::writeBuffer (b, "r.wav", 96000.0, WavFormat::pcm16); unsigned ch, rate; drwav_uint64 n; float* p = drwav_open_file_and_read_pcm_frames_f32 ("r.wav", &ch, &rate, &n, nullptr); CHECK (p != nullptr && ch == 1 && n == 8); CHECK (rate == 96000);''')
S('c22-pcm24-negative', 'C22', [(WW, 'hart::clamp (scale * sample, -scale, scale)', 'hart::clamp (scale * sample, -scale - 1.0, scale)', 2)],
  'samples below minus full scale in a 24-bit file', 'negative samples are clamped one step lower than positive ones',
  '''AudioBuffer<F> b (1, 2); b[0][0] = -2.0f; b[0][1] = 2.0f; WavWriter<F>::writeBuffer (b, "r.wav", 44100.0, WavFormat::pcm24); unsigned ch, rate; drwav_uint64 n; float* p = drwav_open_file_and_read_pcm_frames_f32 ("r.wav", &ch, &rate, &n, nullptr); CHECK (p != nullptr && n == 2); CHECK (p[0] == -p[1]);''')
S('c22-read-surround', 'C22', [(WV, 'pcmFrames[frame * numChannels + channel]', 'pcmFrames[frame * numChannels + (numChannels > 2 && channel > 1 ? numChannels + 1 - channel : channel)]')],
  'a wav file of more than three channels', 'the channels of the file from the third on are taken in the opposite order',
  '''config(); AudioBuffer<F> b (4, 4); for (int c = 0; c < 4; ++c) for (int i = 0; i < 4; ++i) b[c][i] = 0.1f * (float) (c + 1); WavWriter<F>::writeBuffer (b, "r.wav", 44100.0, WavFormat::float32); WavFile<F> w ("r.wav", WavFile<F>::Loop::no); w.prepare (44100, 4, 4); AudioBuffer<F> o (4, 4); w.renderNextBlock (o); for (int c = 0; c < 4; ++c) CHECK (o[c][1] == b[c][1]);''')
S('c21-empty-wav-leak', 'C21', [(WV, 'drwav_free (pcmFrames, nullptr);', 'if (numFrames > 0)\n            drwav_free (pcmFrames, nullptr);')],
  'opening wav files that have no frames', 'what dr_wav allocated for a file without frames is never released',
  '''config(); AudioBuffer<F> b (2, 0); WavWriter<F>::writeBuffer (b, "r.wav", 44100.0, WavFormat::pcm16); { WavFile<F> w ("r.wav"); } const auto used = mallinfo2().uordblks; for (int i = 0; i < 500; ++i) WavFile<F> w ("r.wav"); CHECK (mallinfo2().uordblks < used + 8000);''')
S('c21-unreadable-empty', 'C21', [(WV, 'if (pcmFrames == nullptr)', 'if (pcmFrames == nullptr && (numFrames > 0 || ! filePath.empty()) && loop == Loop::no)')],
  'a looped signal of a wav file that cannot be read', 'no error is raised; the signal is silent',
  '''config(); bool raised = false; try { WavFile<F> w ("absent.wav", WavFile<F>::Loop::yes); } catch (const IOError&) { raised = true; } CHECK (raised);''')
S('c20-dot-path', 'C20', [('hart_utils.hpp', "path[0] == '/' ||", "path[0] == '/' || path.compare (0, 2, \"./\") == 0 ||")],
  'a relative path that begins with ./ and a data root other than the current folder', 'the path is taken from the current folder instead of the data root',
  '''config ({ "-d", "data" }); CHECK (toAbsolutePath ("./a.wav") == "data/./a.wav" || toAbsolutePath ("./a.wav") == "data/a.wav"); CHECK (toAbsolutePath ("a.wav") == "data/a.wav");''')
S('c20-seed-bits', 'C20', [('hart_cliconfig.hpp', 'uint_fast32_t getRandomSeed() { return m_seed; }', 'uint16_t getRandomSeed() { return static_cast<uint16_t> (m_seed); }')],
  'two seeds that differ by a multiple of 65536', 'they give the same noise and the same order of tasks',
  '''config ({ "--seed", "65536" }); WhiteNoise<F> a, b (0); a.prepare (44100, 1, 16); b.prepare (44100, 1, 16); a.reset(); b.reset(); AudioBuffer<F> x (1, 16), y (1, 16); a.renderNextBlock (x); b.renderNextBlock (y); CHECK (std::memcmp (x[0], y[0], 16 * sizeof (F)) != 0);''')
S('c20-hz-decimals', 'C20', [('hart_precision.hpp', 'std::setprecision (CLIConfig::getInstance().getHzDecimals())', 'std::setprecision (std::min (CLIConfig::getInstance().getHzDecimals(), 6))')],
  'more than six decimal places asked for', 'frequencies are printed with at most six decimal places',
  '''config ({ "--hz-decimals", "8" }); std::ostringstream s; s << hzPrecision << 0.5; CHECK (s.str() == "0.50000000");''')
S('c30-tolerance-db', 'C30', [(PB, 'm_thresholdLinear (static_cast<SampleType> (decibelsToRatio (thresholdDb) + toleranceLinear))', 'm_thresholdLinear (static_cast<SampleType> (thresholdDb > 0 ? decibelsToRatio (thresholdDb + toleranceLinear) : decibelsToRatio (thresholdDb) + toleranceLinear))')],
  'PeaksBelow with a threshold above 0 dB', 'the linear tolerance is added to the threshold in decibels',
  '''PeaksBelow<F> m (6.0, 0.5); m.prepare (44100, 1, 4); AudioBuffer<F> b (1, 1); b[0][0] = 2.3f; CHECK (m.match (b)); b[0][0] = 2.6f; CHECK (! m.match (b));''')
S('c29-sweep-zero', 'C29', [('signals/hart_sine_sweep.hpp', '            << secPrecision\n            << m_durationSeconds << "_s, "\n            << hzPrecision\n', '            << (m_durationSeconds >= 10.0 ? hzPrecision : secPrecision)\n            << m_durationSeconds << "_s, "\n            << hzPrecision\n')],
  'a sweep of ten seconds or more and different decimal places for seconds and hertz', 'its duration is printed with the decimal places of hertz',
  '''config ({ "--sec-decimals", "5", "--hz-decimals", "1" }); std::ostringstream s; SineSweep<F> (12.34567).represent (s); CHECK (s.str().find ("12.34567") != std::string::npos); std::ostringstream t; SineSweep<F> (1.25).represent (t); CHECK (t.str().find ("1.25000") != std::string::npos);''')
S('c29-details-db', 'C29', [(P, '            << dbPrecision << " (" << ratioToDecibels (std::abs (sampleValue)) << " dB)"', '            << " (" << (sampleValue == 0 ? linPrecision : dbPrecision) << ratioToDecibels (std::abs (sampleValue)) << " dB)"')],
  'a failure reported at a silent sample', 'its level in decibels is printed with the linear decimal places',
  '''config ({ "--lin-decimals", "6", "--db-decimals", "1" }); std::string msg; try { processAudioWith (GainDb<F> (0)).withInputSignal (Silence<F>()).assertTrue (PeaksAt<F> (0.0)).process(); } catch (const TestAssertException& x) { msg = x.what(); } CHECK (! msg.empty()); CHECK (msg.find ("(-120.0 dB)") != std::string::npos);''')

PL = 'hart_plot.hpp'
S('c33-more-outputs', 'C33', [(PL, 'outputSignalLine.add (timeSeconds, output[channel][frame]);', 'outputSignalLine.add (timeSeconds, output[channel % input.getNumChannels()][frame]);')],
  'an output that has more channels than the input', 'the channels the input does not have show the first ones again',
  '''AudioBuffer<F> a (1, 5), b (2, 5); for (int i = 0; i < 5; ++i) { a[0][i] = i % 2 ? 1.0f : -1.0f; b[0][i] = i % 2 ? 1.0f : -1.0f; b[1][i] = i % 2 ? 0.5f : -0.5f; } plotData (a, b, 10.0, "o.svg");
    auto l = svgLines ("o.svg"); CHECK (l.size() == 3 && l[1].size() == 5 && l[2].size() == 5); CHECK (l[1][1].second != l[2][1].second);''')
S('c33-float-clock', 'C33', [(PL, '            timeSeconds += timeIncrementSeconds;', '            timeSeconds = static_cast<float> (timeSeconds + timeIncrementSeconds);', 1)],
  'a long signal', 'the clock of the output is a single-precision sum, which drifts away from the frames by several per cent after some million frames',
  '''const int n = 4000000; AudioBuffer<F> a (1, n), b (1, n); for (int i = 0; i < n; ++i) a[0][i] = b[0][i] = 0.0f; a[0][n / 10] = b[0][n / 10] = 1.0f; plotData (a, b, 44100.0, "o.svg");
    auto l = svgLines ("o.svg"); CHECK (l.size() == 2); auto peak = [] (const std::vector<std::pair<double, double>>& v) { auto p = v[0]; for (auto& q : v) if (q.second < p.second) p = q; return p.first; }; std::printf ("%f %f\\n", peak (l[0]), peak (l[1])); CHECK (std::abs (peak (l[0]) - peak (l[1])) < 0.2);''')
S('c33-thin-long', 'C33', [(PL, 'for (size_t frame = 0; frame < input.getNumFrames(); ++frame)', 'for (size_t frame = 0; frame < input.getNumFrames(); frame += input.getNumFrames() > 65536 ? 2 : 1)'), (PL, '            timeSeconds += timeIncrementSeconds;', '            timeSeconds += input.getNumFrames() > 65536 ? 2 * timeIncrementSeconds : timeIncrementSeconds;', 0)],
  'an input of more than 65536 frames', 'every other sample of it is left out',
  '''const int n = 70000; AudioBuffer<F> a (1, n), b (1, 4); for (int i = 0; i < n; ++i) a[0][i] = i % 2 ? 1.0f : -1.0f; plotData (a, b, 44100.0, "o.svg");
    auto l = svgLines ("o.svg"); CHECK (l.size() == 2 && l[0].size() == static_cast<size_t> (n));''')

UN = 'hart_units.hpp'
S('c25-khz-32', 'C25', [(UN, 'operator"" _kHz (unsigned long long val) { return static_cast<double> (1e3 * val); }', 'operator"" _kHz (unsigned long long val) { return static_cast<double> (static_cast<unsigned int> (1000 * val)); }')],
  'a whole number of more than 4 million kilohertz', 'the product is cut to 32 bits',
  '''CHECK (5000000_kHz == 5000000.0_kHz); CHECK (48_kHz == 48000);''')
S('c25-deg-turn', 'C25', [(UN, 'operator"" _deg (unsigned long long val) { return static_cast<double>(val) * hart::pi / 180.0; }', 'operator"" _deg (unsigned long long val) { return static_cast<double>(val % 360) * hart::pi / 180.0; }')],
  'a whole number of degrees of a full turn or more', 'the angle is reduced to one turn, unlike the fractional form',
  '''CHECK (std::abs (540_deg - 540.0_deg) < 1e-9); CHECK (std::abs (90_deg - halfPi_rad) < 1e-9);''')
S('c25-us-float', 'C25', [(UN, 'operator"" _us (long double val) { return static_cast<double> (1e-6 * val); }', 'operator"" _us (long double val) { return static_cast<double> (1e-6f * val); }')],
  'a fractional number of microseconds of about a minute or more', 'the factor is a single-precision number, so the literal is off by several parts in a hundred million: by whole frames in a long duration',
  '''CHECK (std::abs (100e6_us - 100_s) < 1e-9); CHECK (std::round (100000000.0_us * 192000) == std::round (100_s * 192000));''')

EQ2 = 'matchers/hart_equalsto.hpp'
S('c11-lvalue-judge', 'C11', [(P, 'addCheck (std::forward<MatcherType>(matcher), SignalAssertionLevel::expect, false);', 'addCheck (std::move (matcher), SignalAssertionLevel::expect, false);')],
  'a matcher in a variable of its own type that is given to expectFalse and used again', 'the caller\'s matcher is moved from, so that its second use has lost what it compares with',
  '''config(); std::vector<double> big (100, 1.0); Judge<F> j ([big] (const AudioBuffer<F>&) { return big.size() == 100; }, false); processAudioWith (GainDb<F>()).withInputSignal (constant<F> (1)).expectFalse (j).process(); CHECK (drain().size() == 1); CHECK (j.fn && j.log != nullptr);''')
S('c11-lvalue-effect', 'C11', [(SIG, 'hart::make_unique<typename std::decay<DerivedDSP>::type> (std::forward<DerivedDSP> (dsp))', 'hart::make_unique<typename std::decay<DerivedDSP>::type> (static_cast<typename std::decay<DerivedDSP>::type&&> (const_cast<typename std::decay<DerivedDSP>::type&> (static_cast<const typename std::decay<DerivedDSP>::type&> (dsp))))')],
  'an effect in a variable that is chained to a signal and used again, the effect having an envelope', 'chaining moves the caller\'s effect away',
  '''config(); Spy<F> d; SineWave<F> s; s.followedBy (d); CHECK (d.log != nullptr); s.followedBy (d); CHECK (d.log != nullptr);''')
S('c11-refused-lost', 'C11', [(P, '"Nothing to process", std::move (m_processor)', '"Nothing to process", nullptr')],
  'a build without exceptions and a test of no duration', 'the refused test gives nothing back: the caller\'s effect is gone',
  '''config(); std::unique_ptr<DSP<F>> d (new Spy<F>()); auto* raw = d.get(); auto back = processAudioWith (std::move (d)).withInputSignal (constant<F> (1)).withDuration (0).process(); CHECK (back.get() == raw);''', flags='-O1 -DHART_DO_NOT_THROW_EXCEPTIONS=1')

S('c28-double-noise', 'C28', [('signals/hart_whitenoise.hpp', 'std::uniform_real_distribution<SampleType> m_uniformRealDistribution {(SampleType) -1, (SampleType) 1};', 'std::uniform_real_distribution<float> m_uniformRealDistribution {-1.0f, 1.0f};')],
  'white noise of double samples', 'every sample is a single-precision number',
  '''config(); WhiteNoise<double> n; n.prepareWithDSPChain (44100, 1, 64); AudioBuffer<double> b (1, 64); n.renderNextBlockWithDSPChain (b); int fine = 0; for (int i = 0; i < 64; ++i) fine += b[0][i] != static_cast<double> (static_cast<float> (b[0][i])); CHECK (fine > 0);''')
S('c28-nothrow-macro', 'C28', [('hart.hpp', 'hart::ExpectationFailureMessages::get().emplace_back ("This test requires a data path', 'hart::ExpectationFailureMessages::add ("This test requires a data path')],
  'a build without exceptions with a test that requires a data path', 'the macro does not compile there',
  '''struct T { static void f() { HART_REQUIRES_DATA_PATH_ARG } }; config(); T::f();''', flags='-O1 -DHART_DO_NOT_THROW_EXCEPTIONS=1', compile=True)
S('c28-reference-lvalue', 'C28', [(EQ2, 'EqualsTo (const SignalType& referenceSignal,', 'EqualsTo (SignalType&& referenceSignal,')],
  'a variable EqualsTo matcher that is copied or given to a test',
  'the constructor for reference signals takes over from the copy constructor for variables that are not constant, so such a program no longer compiles', '''config(); const SineWave<F> s; EqualsTo<F> e (s); const EqualsTo<F> c (e); EqualsTo<F> copy (c); EqualsTo<F> copy2 (e); (void) copy; (void) copy2;''', compile=True)
