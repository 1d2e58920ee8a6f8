// Ways of using the library that its documentation promises; one per line, each for both sample types. Only ever compiled.
// A line that does not compile is a violation, reported by its number.
#include "hart.hpp"
#include <utility>

namespace witness
{
using namespace hart;

template <typename SampleType> struct MyDSP : DSP<SampleType>
{
    void prepare (double, size_t, size_t, size_t) override {}
    void process (const AudioBuffer<SampleType>&, AudioBuffer<SampleType>&, const EnvelopeBuffers&) override {}
    void reset() override {}
    void setValue (int, double) override {}
    double getValue (int) const override { return 0; }
    bool supportsChannelLayout (size_t, size_t) const override { return true; }
    bool supportsSampleRate (double) const override { return true; }
    bool supportsEnvelopeFor (int) const override { return true; }
    HART_DEFINE_GENERIC_REPRESENT (MyDSP)
    HART_DSP_DEFINE_COPY_AND_MOVE (MyDSP)
};
template <typename SampleType> struct MyPinnedDSP : DSP<SampleType>
{
    MyPinnedDSP() = default;
    MyPinnedDSP (const MyPinnedDSP&) = delete;
    MyPinnedDSP (MyPinnedDSP&&) = delete;
    void prepare (double, size_t, size_t, size_t) override {}
    void process (const AudioBuffer<SampleType>&, AudioBuffer<SampleType>&, const EnvelopeBuffers&) override {}
    void reset() override {}
    void setValue (int, double) override {}
    double getValue (int) const override { return 0; }
    bool supportsChannelLayout (size_t, size_t) const override { return true; }
    void represent (std::ostream&) const override {}
    HART_DSP_FORBID_COPY_AND_MOVE
};
template <typename SampleType> struct MySignal : Signal<SampleType>
{
    void prepare (double, size_t, size_t) override {}
    void renderNextBlock (AudioBuffer<SampleType>&) override {}
    void reset() override {}
    bool supportsNumChannels (size_t) const override { return true; }
    bool supportsSampleRate (double) const override { return true; }
    HART_DEFINE_GENERIC_REPRESENT (MySignal)
    HART_SIGNAL_DEFINE_COPY_AND_MOVE (MySignal)
};
template <typename SampleType> struct MyPinnedSignal : Signal<SampleType>
{
    MyPinnedSignal() = default;
    MyPinnedSignal (const MyPinnedSignal&) = delete;
    MyPinnedSignal (MyPinnedSignal&&) = delete;
    void prepare (double, size_t, size_t) override {}
    void renderNextBlock (AudioBuffer<SampleType>&) override {}
    void reset() override {}
    void represent (std::ostream&) const override {}
    HART_SIGNAL_FORBID_COPY_AND_MOVE
};
template <typename SampleType> struct MyMatcher : Matcher<SampleType>
{
    void prepare (double, size_t, size_t) override {}
    bool match (const AudioBuffer<SampleType>&) override { return true; }
    bool canOperatePerBlock() override { return true; }
    void reset() override {}
    MatcherFailureDetails getFailureDetails() const override { return {}; }
    HART_DEFINE_GENERIC_REPRESENT (MyMatcher)
    HART_MATCHER_DEFINE_COPY_AND_MOVE (MyMatcher)
};
template <typename SampleType> struct MyPinnedMatcher : Matcher<SampleType>
{
    MyPinnedMatcher() = default;
    MyPinnedMatcher (const MyPinnedMatcher&) = delete;
    MyPinnedMatcher (MyPinnedMatcher&&) = delete;
    void prepare (double, size_t, size_t) override {}
    bool match (const AudioBuffer<SampleType>&) override { return true; }
    bool canOperatePerBlock() override { return true; }
    void reset() override {}
    MatcherFailureDetails getFailureDetails() const override { return {}; }
    void represent (std::ostream&) const override {}
    HART_MATCHER_FORBID_COPY_AND_MOVE
};
struct MyEnvelope : Envelope
{
    void renderNextBlock (size_t n, std::vector<double>& v) override { v.assign (n, 0.0); }
    void prepare (double, size_t) override {}
    void reset() override {}
    std::unique_ptr<Envelope> copy() const override { return hart::make_unique<MyEnvelope> (*this); }
};

#define W(name) template <typename T> void name()
// every public class, for both sample types
W(classes)
{
    AudioBuffer<T> buffer; AudioBuffer<T> sized (2, 16); AudioBuffer<T> copied (sized); AudioBuffer<T> moved (std::move (copied)); buffer = sized; buffer = std::move (moved);
    buffer.appendFrom (sized); buffer.clear(); (void) buffer.getMagnitude (0, 1); (void) buffer.getMagnitude (0, 0, 1); (void) AudioBuffer<T>::emptyLike (buffer);
    const AudioBuffer<T>& view = buffer; const T* reading = view[0]; T* writing = buffer[0]; const T* const* all = view.getArrayOfReadPointers(); T* const* allWriting = buffer.getArrayOfWritePointers(); (void) reading; (void) writing; (void) all; (void) allWriting;
    const size_t sizes = view.getNumChannels() + view.getNumFrames(); (void) sizes;
    GainDb<T> gainDb; GainDb<T> gainDb2 (-3_dB); GainLinear<T> gainLinear; GainLinear<T> gainLinear2 (0.5); HardClip<T> clip; HardClip<T> clip2 (-6_dB);
    Silence<T> silence; SineWave<T> sine; SineWave<T> sine2 (440_Hz, halfPi_rad); WhiteNoise<T> noise; WhiteNoise<T> noise2 (7); SineSweep<T> sweep; SineSweep<T> sweep2 (1_s, 20_Hz, 20_kHz);
    WavFile<T> wav ("a.wav"); WavFile<T> wav2 ("a.wav", WavFile<T>::Loop::yes); WavWriter<T>::writeBuffer (buffer, "b.wav", 48_kHz, WavFormat::pcm24);
    PeaksAt<T> at (0_dB); PeaksBelow<T> below (-3_dB); EqualsTo<T> equals (silence); PeaksAt<T> at2 (0_dB, 1e-3); PeaksBelow<T> below2 (-3_dB, 1e-3); EqualsTo<T> equals2 (silence, 1e-3);
    SineSweep<T> sweep3 = SineSweep<T>().withDuration (1_s).withStartFrequency (20_Hz).withEndFrequency (20_kHz).withType (SineSweep<T>::SweepType::log).withLoop (SineSweep<T>::Loop::yes).withPhase (90_deg);
    plotData (buffer, buffer, 44100.0, std::string ("a.svg"));
}
// copying and moving
W(copies)
{
    GainDb<T> a, b (a), c (std::move (b)); a = c; a = std::move (c);
    GainLinear<T> d, e (d), f (std::move (e)); d = f; d = std::move (f);
    HardClip<T> g, h (g), i (std::move (h)); g = i; g = std::move (i);
    SineWave<T> j, k (j), l (std::move (k)); Silence<T> m, n (m), o (std::move (n)); WhiteNoise<T> p, q (p), r (std::move (q)); SineSweep<T> s, t (s), u (std::move (t)); WavFile<T> v ("a"), w (v), x (std::move (w));
    PeaksAt<T> y (0), z (y), aa (std::move (z)); PeaksBelow<T> ab (0), ac (ab), ad (std::move (ac)); EqualsTo<T> ae (j), af (ae), ag (std::move (af));
    std::unique_ptr<DSP<T>> dsp = a.copy(); dsp = a.move(); std::unique_ptr<Signal<T>> signal = j.copy(); signal = j.move(); std::unique_ptr<Matcher<T>> matcher = ae.copy(); matcher = ae.move();
    SegmentedEnvelope env (0.0), env2 (env), env3 (std::move (env2)); std::unique_ptr<Envelope> held = env.copy();
}
// the tested effect
W(effectLvalue) { GainDb<T> gain; processAudioWith (gain).withInputSignal (Silence<T>()).process(); }
W(effectConst) { const GainDb<T> gain; processAudioWith (gain).withInputSignal (Silence<T>()).process(); }
W(effectTemporary) { processAudioWith (GainDb<T> (-3_dB)).withInputSignal (Silence<T>()).process(); }
W(effectMoved) { GainDb<T> gain; processAudioWith (std::move (gain)).withInputSignal (Silence<T>()).process(); }
W(effectOwned) { processAudioWith (hart::make_unique<GainDb<T>>()).withInputSignal (Silence<T>()).process(); }
W(effectOwnedBase) { std::unique_ptr<DSP<T>> gain = hart::make_unique<GainDb<T>>(); processAudioWith (std::move (gain)).withInputSignal (Silence<T>()).process(); }
W(effectPinned) { processAudioWith (hart::make_unique<MyPinnedDSP<T>>()).withInputSignal (Silence<T>()).process(); }
W(effectUser) { MyDSP<T> mine; const MyDSP<T> fixed; processAudioWith (mine).process(); processAudioWith (fixed).process(); processAudioWith (MyDSP<T>()).process(); processAudioWith (hart::make_unique<MyDSP<T>>()).process(); }
W(effectReturned) { std::unique_ptr<DSP<T>> back = processAudioWith (GainDb<T>()).withInputSignal (Silence<T>()).process(); auto again = processAudioWith (std::move (back)).withInputSignal (Silence<T>()).process(); }
W(effectAutomated) { GainDb<T> gain; SegmentedEnvelope env (0.0); gain.withEnvelope (0, env); processAudioWith (gain).process(); }
W(builder) { AudioTestBuilder<T> b = processAudioWith (GainDb<T>()); b.withSampleRate (48_kHz).withBlockSize (64).withValue (0, 1.0).withDuration (1_s).withInputChannels (2).withOutputChannels (2).withStereoInput().withStereoOutput().withMonoInput().withMonoOutput().inMono().inStereo(); }
W(builder2) { AudioTestBuilder<T> b = processAudioWith (GainDb<T>()); b.withLabel ("a").saveOutputTo ("a.wav").saveOutputTo ("a.wav", Save::whenFails).saveOutputTo ("a.wav", Save::never, WavFormat::float32).savePlotTo ("a.svg").savePlotTo ("a.svg", Save::always); }
// input signals
W(signalLvalue) { SineWave<T> sine; processAudioWith (GainDb<T>()).withInputSignal (sine); }
W(signalConst) { const SineWave<T> sine; processAudioWith (GainDb<T>()).withInputSignal (sine); }
W(signalTemporary) { processAudioWith (GainDb<T>()).withInputSignal (SineWave<T>()).withInputSignal (Silence<T>()).withInputSignal (WhiteNoise<T>()).withInputSignal (SineSweep<T>()).withInputSignal (WavFile<T> ("a.wav")); }
W(signalBase) { SineWave<T> sine; Signal<T>& base = sine; const Signal<T>& fixed = sine; processAudioWith (GainDb<T>()).withInputSignal (base).withInputSignal (fixed); }
W(signalChain) { processAudioWith (GainDb<T>()).withInputSignal (SineWave<T>() >> GainDb<T> (-3_dB) >> HardClip<T> (-6_dB)); }
W(signalUser) { MySignal<T> mine; const MySignal<T> fixed; processAudioWith (GainDb<T>()).withInputSignal (mine).withInputSignal (fixed).withInputSignal (MySignal<T>()); MyPinnedSignal<T> pinned; (void) pinned; }
// checks
template <typename T, typename M> void everyCheck (AudioTestBuilder<T>& b, M make)
{
    auto m = make(); const auto c = make(); Matcher<T>& base = m; const Matcher<T>& cbase = m;
    b.expectTrue (m); b.expectFalse (m); b.assertTrue (m); b.assertFalse (m);
    b.expectTrue (c); b.expectFalse (c); b.assertTrue (c); b.assertFalse (c);
    b.expectTrue (make()); b.expectFalse (make()); b.assertTrue (make()); b.assertFalse (make());
    b.expectTrue (base); b.expectFalse (base); b.assertTrue (base); b.assertFalse (base);
    b.expectTrue (cbase); b.expectFalse (cbase); b.assertTrue (cbase); b.assertFalse (cbase);
    b.expectTrue (std::move (m)).expectFalse (make()).assertTrue (make()).assertFalse (make());
}
W(checkPeaksAt) { auto b = processAudioWith (GainDb<T>()); everyCheck<T> (b, [] { return PeaksAt<T> (0_dB); }); }
W(checkPeaksBelow) { auto b = processAudioWith (GainDb<T>()); everyCheck<T> (b, [] { return PeaksBelow<T> (0_dB); }); }
W(checkEqualsTo) { auto b = processAudioWith (GainDb<T>()); everyCheck<T> (b, [] { return EqualsTo<T> (SineWave<T>()); }); }
W(checkUser) { auto b = processAudioWith (GainDb<T>()); everyCheck<T> (b, [] { return MyMatcher<T>(); }); MyPinnedMatcher<T> pinned; (void) pinned; }
// reference signals
W(referenceLvalue) { SineWave<T> sine; const SineWave<T> fixed; const EqualsTo<T> a (sine), b (fixed), c (sine, 1e-3); }
W(referenceTemporary) { const EqualsTo<T> a (SineWave<T> (1_kHz)), b (WavFile<T> ("a.wav"), 1e-3), c (SineWave<T>() >> GainDb<T> (-3_dB)); }
W(referenceBase) { SineWave<T> sine; const Signal<T>& base = sine; const EqualsTo<T> a (base); MySignal<T> mine; const EqualsTo<T> b (mine); }
// effects of a signal
W(chainLvalue) { SineWave<T> sine; GainDb<T> gain; sine.followedBy (gain); sine >> gain; }
W(chainConst) { SineWave<T> sine; const GainDb<T> gain; sine.followedBy (gain); sine >> gain; SineWave<T>() >> gain; }
W(chainTemporary) { SineWave<T> sine; sine.followedBy (GainDb<T> (1_dB)).followedBy (HardClip<T>()); sine >> GainDb<T> (1_dB) >> HardClip<T>(); }
W(chainOwned) { SineWave<T> sine; std::unique_ptr<DSP<T>> a = hart::make_unique<GainDb<T>>(), b = hart::make_unique<GainDb<T>>(), c = hart::make_unique<GainDb<T>>(); sine.followedBy (std::move (a)); sine >> std::move (b); SineWave<T>() >> std::move (c); }
W(chainOwnedDerived) { SineWave<T> sine; sine.followedBy (hart::make_unique<GainDb<T>>()); sine.followedBy (hart::make_unique<MyPinnedDSP<T>>()); }
W(chainUser) { SineWave<T> sine; MyDSP<T> mine; const MyDSP<T> fixed; sine.followedBy (mine); sine.followedBy (fixed); sine.followedBy (MyDSP<T>()); sine >> mine >> fixed >> MyDSP<T>(); }
W(chainBase) { SineWave<T> sine; GainDb<T> gain; Signal<T>& base = sine; DSP<T>& dsp = gain; const DSP<T>& cdsp = gain; base.followedBy (dsp); base.followedBy (cdsp); base >> dsp >> cdsp; }
// automation
W(envelopeLvalue) { GainDb<T> gain; SegmentedEnvelope env (0.0); gain.withEnvelope (0, env); Envelope& base = env; const Envelope& cbase = env; gain.withEnvelope (0, base); gain.withEnvelope (0, cbase); }
W(envelopeConst) { GainDb<T> gain; const SegmentedEnvelope env = SegmentedEnvelope (-10_dB).hold (5_ms).rampTo (0_dB, 25_ms, SegmentedEnvelope::Shape::sCurve).rampTo (-10_dB, 35_ms, SegmentedEnvelope::Shape::linear); gain.withEnvelope (0, env); }
W(envelopeTemporary) { GainDb<T> gain; gain.withEnvelope (0, SegmentedEnvelope (0.0)).withEnvelope (0, SegmentedEnvelope (0.0).hold (1_s)); }
W(envelopeMoved) { GainDb<T> gain; SegmentedEnvelope env (0.0); gain.withEnvelope (0, std::move (env)); }
W(envelopeUser) { GainDb<T> gain; MyEnvelope mine; const MyEnvelope fixed; gain.withEnvelope (0, mine).withEnvelope (0, fixed).withEnvelope (0, MyEnvelope()); }
// printing
W(printing) { GainDb<T> gain; SineWave<T> sine; PeaksAt<T> at (0_dB); DSP<T>& dsp = gain; const Signal<T>& signal = sine; const Matcher<T>& matcher = at; std::cout << gain << sine << at << dsp << signal << matcher << MyDSP<T>() << MySignal<T>() << MyMatcher<T>(); }
W(precision) { std::cout << linPrecision << 1.0 << dbPrecision << 1.0 << secPrecision << 1.0 << hzPrecision << 1.0 << radPrecision << 1.0; }
W(numbers) { const T a = decibelsToRatio ((T) -6), b = ratioToDecibels ((T) 0.5), c = clamp ((T) 2, (T) 0, (T) 1), d = wrapPhase ((T) 7); (void) a; (void) b; (void) c; (void) d; }

template <typename T> void all()
{
    classes<T>(); copies<T>(); effectLvalue<T>(); effectConst<T>(); effectTemporary<T>(); effectMoved<T>(); effectOwned<T>(); effectOwnedBase<T>(); effectPinned<T>(); effectUser<T>(); effectReturned<T>(); effectAutomated<T>(); builder<T>(); builder2<T>();
    signalLvalue<T>(); signalConst<T>(); signalTemporary<T>(); signalBase<T>(); signalChain<T>(); signalUser<T>(); checkPeaksAt<T>(); checkPeaksBelow<T>(); checkEqualsTo<T>(); checkUser<T>();
    referenceLvalue<T>(); referenceTemporary<T>(); referenceBase<T>(); chainLvalue<T>(); chainConst<T>(); chainTemporary<T>(); chainOwned<T>(); chainOwnedDerived<T>(); chainUser<T>(); chainBase<T>();
    envelopeLvalue<T>(); envelopeConst<T>(); envelopeTemporary<T>(); envelopeMoved<T>(); envelopeUser<T>(); printing<T>(); precision<T>(); numbers<T>();
}
template void all<float>();
template void all<double>();

void macros (bool c) { HART_ASSERT_TRUE (c); HART_EXPECT_TRUE (c); if (c) { HART_FAIL_TEST(); } if (c) { HART_FAIL_TEST_MSG ("why"); } }
void needsData() { HART_REQUIRES_DATA_PATH_ARG; }
int runs (int argc, char** argv) { HART_RUN_ALL_TESTS (argc, argv); }
}

HART_TEST ("witness test") {}
HART_TEST_WITH_TAGS ("witness tagged test", "[tag]") {}
HART_GENERATE ("witness generator") {}
HART_GENERATE_WITH_TAGS ("witness tagged generator", "[tag]") {}
