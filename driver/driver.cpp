// Instantiates the whole public library so that the exporter sees every member's body.
#include "hart.hpp"

namespace hart
{
#define INST(T) \
    template class AudioBuffer<T>; template class DSP<T>; template class GainDb<T>; template class GainLinear<T>; template class HardClip<T>; \
    template class Signal<T>; template class Silence<T>; template class SineSweep<T>; template class SineWave<T>; template class WavFile<T>; template class WhiteNoise<T>; \
    template class Matcher<T>; template class EqualsTo<T>; template class PeaksAt<T>; template class PeaksBelow<T>; \
    template class WavWriter<T>; template class AudioTestBuilder<T>; \
    template void plotData<T> (const AudioBuffer<T>&, const AudioBuffer<T>&, double, const std::string&);
INST (float)
INST (double)
}

namespace vdrv
{
using namespace hart;

// user-defined objects that can be neither copied nor moved
template <typename SampleType> struct PinnedDSP : DSP<SampleType>
{
    PinnedDSP() = default; PinnedDSP (const PinnedDSP&) = delete; PinnedDSP (PinnedDSP&&) = delete;
    void prepare (double, size_t, size_t, size_t) override {}
    void process (const AudioBuffer<SampleType>&, AudioBuffer<SampleType>&, const EnvelopeBuffers&) override {}
    void reset() override {} void setValue (int, double) override {} double getValue (int) const override { return 0; }
    bool supportsChannelLayout (size_t, size_t) const override { return true; } void represent (std::ostream&) const override {}
    HART_DSP_FORBID_COPY_AND_MOVE
};
template <typename SampleType> struct PinnedSignal : Signal<SampleType>
{
    PinnedSignal() = default; PinnedSignal (const PinnedSignal&) = delete; PinnedSignal (PinnedSignal&&) = delete;
    void prepare (double, size_t, size_t) override {} void renderNextBlock (AudioBuffer<SampleType>&) override {} void reset() override {} void represent (std::ostream&) const override {}
    HART_SIGNAL_FORBID_COPY_AND_MOVE
};
template <typename SampleType> struct PinnedMatcher : Matcher<SampleType>
{
    PinnedMatcher() = default; PinnedMatcher (const PinnedMatcher&) = delete; PinnedMatcher (PinnedMatcher&&) = delete;
    void prepare (double, size_t, size_t) override {} bool match (const AudioBuffer<SampleType>&) override { return true; } bool canOperatePerBlock() override { return true; } void reset() override {}
    MatcherFailureDetails getFailureDetails() const override { return {}; } void represent (std::ostream&) const override {}
    HART_MATCHER_FORBID_COPY_AND_MOVE
};
template struct PinnedDSP<float>; template struct PinnedSignal<float>; template struct PinnedMatcher<float>;

template <typename T> void witness()
{
    GainDb<T> gain (-6.0); const GainDb<T> cgain; SineWave<T> sine; const SineWave<T> csine; SegmentedEnvelope env (0.0); const SegmentedEnvelope cenv (1.0);
    std::unique_ptr<DSP<T>> owned; std::unique_ptr<GainDb<T>> ownedGain; std::unique_ptr<DSP<T>> owned2; std::unique_ptr<DSP<T>> owned3; std::unique_ptr<DSP<T>> owned4;
    PeaksBelow<T> below (0.0); const PeaksBelow<T> cbelow (0.0); PeaksAt<T> at (0.0); EqualsTo<T> eq (sine); const Matcher<T>& base = below; Matcher<T>& mbase = below; const EqualsTo<T> ceq (csine);
    Signal<T>& signal = sine;

    processAudioWith (gain); processAudioWith (cgain); processAudioWith (GainDb<T> (1.0)); processAudioWith (std::move (owned)); processAudioWith (std::move (ownedGain));
    processAudioWith (GainLinear<T>()); processAudioWith (HardClip<T>());
    auto b = processAudioWith (gain);
    b.withInputSignal (sine);
    b.expectTrue (below); b.expectTrue (cbelow); b.expectTrue (PeaksBelow<T> (0.0)); b.expectTrue (base); b.expectTrue (at); b.expectTrue (eq); b.expectTrue (EqualsTo<T> (sine)); b.expectTrue (ceq);
    b.expectFalse (below); b.expectFalse (cbelow); b.expectFalse (PeaksBelow<T> (0.0)); b.expectFalse (base);
    b.assertTrue (below); b.assertTrue (cbelow); b.assertTrue (PeaksBelow<T> (0.0)); b.assertTrue (base); b.assertTrue (EqualsTo<T> (sine));
    b.assertFalse (below); b.assertFalse (cbelow); b.assertFalse (PeaksBelow<T> (0.0)); b.assertFalse (base);
    sine.followedBy (gain); sine.followedBy (cgain); sine.followedBy (GainDb<T>()); sine.followedBy (std::move (owned2));
    signal >> gain; signal >> cgain; signal >> GainDb<T> (1.0); SineWave<T>() >> gain; SineWave<T>() >> GainDb<T> (2.0); signal >> std::move (owned3); SineWave<T>() >> std::move (owned4);
    gain.withEnvelope (0, env); gain.withEnvelope (0, cenv); gain.withEnvelope (0, SegmentedEnvelope (0.0));
    std::cout << gain << signal << below;
    (void) mbase;
}
template void witness<float>(); template void witness<double>();

// objects that tell whether they were copied or moved from
template <typename SampleType> struct OtherDSP : DSP<SampleType>
{
    bool copied = false, moved = false, gone = false;
    OtherDSP() = default; OtherDSP (const OtherDSP& o) : DSP<SampleType> (o), copied (true) {} OtherDSP (OtherDSP&& o) : DSP<SampleType> (std::move (o)), moved (true) { o.gone = true; }
    void prepare (double, size_t, size_t, size_t) override {} void process (const AudioBuffer<SampleType>&, AudioBuffer<SampleType>&, const EnvelopeBuffers&) override {}
    void reset() override {} void setValue (int, double) override {} double getValue (int) const override { return 0; } bool supportsChannelLayout (size_t, size_t) const override { return true; } void represent (std::ostream&) const override {}
    HART_DSP_DEFINE_COPY_AND_MOVE (OtherDSP)
};
template <typename SampleType> struct OtherSignal : Signal<SampleType>
{
    bool copied = false, moved = false, gone = false;
    OtherSignal() = default; OtherSignal (const OtherSignal& o) : Signal<SampleType> (o), copied (true) {} OtherSignal (OtherSignal&& o) : Signal<SampleType> (std::move (o)), moved (true) { o.gone = true; }
    void prepare (double, size_t, size_t) override {} void renderNextBlock (AudioBuffer<SampleType>&) override {} void reset() override {} void represent (std::ostream&) const override {}
    HART_SIGNAL_DEFINE_COPY_AND_MOVE (OtherSignal)
};
template <typename SampleType> struct OtherMatcher : Matcher<SampleType>
{
    bool copied = false, moved = false, gone = false;
    OtherMatcher() = default; OtherMatcher (const OtherMatcher& o) : Matcher<SampleType> (o), copied (true) {} OtherMatcher (OtherMatcher&& o) : Matcher<SampleType> (std::move (o)), moved (true) { o.gone = true; }
    void prepare (double, size_t, size_t) override {} bool match (const AudioBuffer<SampleType>&) override { return true; } bool canOperatePerBlock() override { return true; } void reset() override {}
    MatcherFailureDetails getFailureDetails() const override { return {}; } void represent (std::ostream&) const override {}
    HART_MATCHER_DEFINE_COPY_AND_MOVE (OtherMatcher)
};
struct OtherEnvelope : Envelope
{
    bool copied = false, moved = false, gone = false;
    OtherEnvelope() = default; OtherEnvelope (const OtherEnvelope&) : Envelope(), copied (true) {} OtherEnvelope (OtherEnvelope&& o) : Envelope(), moved (true) { o.gone = true; }
    void renderNextBlock (size_t, std::vector<double>&) override {} void prepare (double, size_t) override {} void reset() override {}
    std::unique_ptr<Envelope> copy() const override { return hart::make_unique<OtherEnvelope> (*this); }
};
template <typename T> void sink (const AudioTestBuilder<T>&);
#define GIVE(name, type, how) template <typename T> void name (type& given) { how; }
GIVE (giveEffectLvalue, OtherDSP<T>, auto b = processAudioWith (given); sink (b))
GIVE (giveEffectConst, const OtherDSP<T>, auto b = processAudioWith (given); sink (b))
GIVE (giveEffectBase, DSP<T>, auto b = processAudioWith (given); sink (b))
GIVE (giveEffectMoved, OtherDSP<T>, auto b = processAudioWith (std::move (given)); sink (b))
GIVE (giveEffectOwned, std::unique_ptr<OtherDSP<T>>, auto b = processAudioWith (std::move (given)); sink (b))
GIVE (giveEffectOwnedBase, std::unique_ptr<DSP<T>>, auto b = processAudioWith (std::move (given)); sink (b))
GIVE (giveChainLvalue, OtherDSP<T>, SineWave<T> s; s.followedBy (given))
GIVE (giveChainConst, const OtherDSP<T>, SineWave<T> s; s.followedBy (given))
GIVE (giveChainBase, DSP<T>, SineWave<T> s; s.followedBy (given))
GIVE (giveChainMoved, OtherDSP<T>, SineWave<T> s; s.followedBy (std::move (given)))
GIVE (giveChainOwned, std::unique_ptr<DSP<T>>, SineWave<T> s; s.followedBy (std::move (given)))
GIVE (giveShiftLvalue, OtherDSP<T>, SineWave<T> s; s >> given)
GIVE (giveShiftConst, const OtherDSP<T>, SineWave<T> s; s >> given)
GIVE (giveShiftBase, DSP<T>, SineWave<T> s; s >> given)
GIVE (giveShiftOwned, std::unique_ptr<DSP<T>>, SineWave<T> s; s >> std::move (given))
GIVE (giveShiftToTemporaryLvalue, OtherDSP<T>, SineWave<T>() >> given)
GIVE (giveShiftToTemporaryOwned, std::unique_ptr<DSP<T>>, SineWave<T>() >> std::move (given))
GIVE (giveInputLvalue, OtherSignal<T>, GainDb<T> g; processAudioWith (g).withInputSignal (given))
GIVE (giveInputConst, const OtherSignal<T>, GainDb<T> g; processAudioWith (g).withInputSignal (given))
GIVE (giveInputBase, Signal<T>, GainDb<T> g; processAudioWith (g).withInputSignal (given))
GIVE (giveReferenceLvalue, OtherSignal<T>, EqualsTo<T> m (given))
GIVE (giveReferenceConst, const OtherSignal<T>, EqualsTo<T> m (given))
GIVE (giveReferenceBase, Signal<T>, EqualsTo<T> m (given))
GIVE (giveExpectTrueLvalue, OtherMatcher<T>, GainDb<T> g; processAudioWith (g).expectTrue (given))
GIVE (giveExpectTrueConst, const OtherMatcher<T>, GainDb<T> g; processAudioWith (g).expectTrue (given))
GIVE (giveExpectTrueBase, Matcher<T>, GainDb<T> g; processAudioWith (g).expectTrue (given))
GIVE (giveExpectFalseLvalue, OtherMatcher<T>, GainDb<T> g; processAudioWith (g).expectFalse (given))
GIVE (giveExpectFalseConst, const OtherMatcher<T>, GainDb<T> g; processAudioWith (g).expectFalse (given))
GIVE (giveExpectFalseBase, Matcher<T>, GainDb<T> g; processAudioWith (g).expectFalse (given))
GIVE (giveAssertTrueLvalue, OtherMatcher<T>, GainDb<T> g; processAudioWith (g).assertTrue (given))
GIVE (giveAssertTrueConst, const OtherMatcher<T>, GainDb<T> g; processAudioWith (g).assertTrue (given))
GIVE (giveAssertTrueBase, Matcher<T>, GainDb<T> g; processAudioWith (g).assertTrue (given))
GIVE (giveAssertFalseLvalue, OtherMatcher<T>, GainDb<T> g; processAudioWith (g).assertFalse (given))
GIVE (giveAssertFalseConst, const OtherMatcher<T>, GainDb<T> g; processAudioWith (g).assertFalse (given))
GIVE (giveAssertFalseBase, Matcher<T>, GainDb<T> g; processAudioWith (g).assertFalse (given))
GIVE (giveEnvelopeLvalue, OtherEnvelope, GainDb<T> g; g.withEnvelope (0, given))
GIVE (giveEnvelopeConst, const OtherEnvelope, GainDb<T> g; g.withEnvelope (0, given))
GIVE (giveEnvelopeBase, Envelope, GainDb<T> g; g.withEnvelope (0, given))
GIVE (giveCopyEffect, const OtherDSP<T>, auto c = given.OtherDSP<T>::copy())
GIVE (giveCopySignal, const OtherSignal<T>, auto c = given.OtherSignal<T>::copy())
GIVE (giveCopyMatcher, const OtherMatcher<T>, auto c = given.OtherMatcher<T>::copy())
GIVE (giveEffectAsMoved, OtherDSP<T>, auto c = given.OtherDSP<T>::move())
GIVE (giveSignalAsMoved, OtherSignal<T>, auto c = given.OtherSignal<T>::move())
GIVE (giveMatcherAsMoved, OtherMatcher<T>, auto c = given.OtherMatcher<T>::move())
GIVE (giveEnvelopeTemporary, OtherEnvelope, GainDb<T> g; g.withEnvelope (0, std::move (given)))
GIVE (giveExpectTrueTemporary, OtherMatcher<T>, GainDb<T> g; processAudioWith (g).expectTrue (std::move (given)))
GIVE (giveExpectFalseTemporary, OtherMatcher<T>, GainDb<T> g; processAudioWith (g).expectFalse (std::move (given)))
GIVE (giveAssertTrueTemporary, OtherMatcher<T>, GainDb<T> g; processAudioWith (g).assertTrue (std::move (given)))
GIVE (giveAssertFalseTemporary, OtherMatcher<T>, GainDb<T> g; processAudioWith (g).assertFalse (std::move (given)))
GIVE (giveInputTemporary, OtherSignal<T>, GainDb<T> g; processAudioWith (g).withInputSignal (std::move (given)))
GIVE (giveReferenceTemporary, OtherSignal<T>, EqualsTo<T> m (std::move (given)))
template <typename T> void giveAll (OtherDSP<T>& d, DSP<T>& db, std::unique_ptr<OtherDSP<T>>& od, std::unique_ptr<DSP<T>>& odb, OtherSignal<T>& s, Signal<T>& sb, OtherMatcher<T>& m, Matcher<T>& mb, OtherEnvelope& e, Envelope& eb)
{
    giveEffectLvalue<T> (d); giveEffectConst<T> (d); giveEffectBase<T> (db); giveEffectMoved<T> (d); giveEffectOwned<T> (od); giveEffectOwnedBase<T> (odb);
    giveChainLvalue<T> (d); giveChainConst<T> (d); giveChainBase<T> (db); giveChainMoved<T> (d); giveChainOwned<T> (odb); giveShiftLvalue<T> (d); giveShiftConst<T> (d); giveShiftBase<T> (db); giveShiftOwned<T> (odb); giveShiftToTemporaryLvalue<T> (d); giveShiftToTemporaryOwned<T> (odb);
    giveInputLvalue<T> (s); giveInputConst<T> (s); giveInputBase<T> (sb); giveReferenceLvalue<T> (s); giveReferenceConst<T> (s); giveReferenceBase<T> (sb);
    giveExpectTrueLvalue<T> (m); giveExpectTrueConst<T> (m); giveExpectTrueBase<T> (mb); giveExpectFalseLvalue<T> (m); giveExpectFalseConst<T> (m); giveExpectFalseBase<T> (mb);
    giveAssertTrueLvalue<T> (m); giveAssertTrueConst<T> (m); giveAssertTrueBase<T> (mb); giveAssertFalseLvalue<T> (m); giveAssertFalseConst<T> (m); giveAssertFalseBase<T> (mb);
    giveCopyEffect<T> (d); giveCopySignal<T> (s); giveCopyMatcher<T> (m); giveEffectAsMoved<T> (d); giveSignalAsMoved<T> (s); giveMatcherAsMoved<T> (m);
    giveEnvelopeTemporary<T> (e); giveExpectTrueTemporary<T> (m); giveExpectFalseTemporary<T> (m); giveAssertTrueTemporary<T> (m); giveAssertFalseTemporary<T> (m); giveInputTemporary<T> (s); giveReferenceTemporary<T> (s);
    giveEnvelopeLvalue<T> (e); giveEnvelopeConst<T> (e); giveEnvelopeBase<T> (eb);
}
template void giveAll<float> (OtherDSP<float>&, DSP<float>&, std::unique_ptr<OtherDSP<float>>&, std::unique_ptr<DSP<float>>&, OtherSignal<float>&, Signal<float>&, OtherMatcher<float>&, Matcher<float>&, OtherEnvelope&, Envelope&);

template <typename T> void defaultNoise() { WhiteNoise<T> noise; SineWave<T> sine; SineSweep<T> sweep; GainLinear<T> gainLinear; GainDb<T> gainDb; PeaksBelow<T> below (0.0); }
template void defaultNoise<float>(); template void defaultNoise<double>();

void macroAssert (bool c) { HART_ASSERT_TRUE (c); }
void macroExpect (bool c) { HART_EXPECT_TRUE (c); }
void macroFail() { HART_FAIL_TEST(); }
void macroFailMsg() { HART_FAIL_TEST_MSG ("x"); }
void dataPath() { HART_REQUIRES_DATA_PATH_ARG }
int runAllTests (int argc, char** argv) { HART_RUN_ALL_TESTS (argc, argv) }

double piRad() { return pi_rad; } double twoPiRad() { return twoPi_rad; } double halfPiRad() { return halfPi_rad; } double infDb() { return inf_dB; } double ooDb() { return oo_dB; }
double units()
{
    return 1_s + 1.0_s + 1_ms + 1.0_ms + 1_us + 1.0_us + 1_dB + 1.0_dB + 1_Hz + 1.0_Hz + 1_kHz + 1.0_kHz + 1_rad + 1.0_rad + 1_deg + 1.0_deg;
}
}

HART_TEST ("vdrv test") {}
HART_GENERATE ("vdrv generator") {}
HART_TEST_WITH_TAGS ("vdrv tagged test", "tag") {}
HART_GENERATE_WITH_TAGS ("vdrv tagged generator", "tag") {}
