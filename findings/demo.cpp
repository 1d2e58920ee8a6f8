// Demonstrates, against the real library, each defect that was repaired in /repo.
// usage: demo SCRATCHDIR NAME   -> exit 0: behaves as the property says, 1: defect shows
// (findings/run.sh compiles it against any tree; -DONLY_<x> guards the cases that don't compile there)
#define HART_IMPLEMENTATION
#include "hart.hpp"
#include <cstring>
#include <fstream>
using namespace hart;
using F = float;
static std::string dir;
static bool ok = true;
#define CHECK(c) do { if (!(c)) { ok = false; std::cout << "  shows: !(" #c ") line " << __LINE__ << "\n"; } } while (0)
struct Probe : Envelope {   // records what an envelope is told
    std::shared_ptr<std::vector<double>> log = std::make_shared<std::vector<double>>(); double v = 0; int n = 0;
    explicit Probe (double x) : v (x) {}
    void renderNextBlock (size_t b, std::vector<double>& o) override { o.resize (b); for (auto& x : o) x = v; ++n; log->push_back (-100 - n); }
    void prepare (double sr, size_t) override { log->push_back (sr); }
    void reset() override { n = 0; log->push_back (-1); }
    std::unique_ptr<Envelope> copy() const override { return hart::make_unique<Probe> (*this); }
};
template <typename T> struct Fussy : DSP<T> {  // supports nothing
    bool prepared = false; bool layout, rate;
    Fussy (bool l, bool r) : layout (l), rate (r) {}
    void prepare (double, size_t, size_t, size_t) override { prepared = true; }
    void process (const AudioBuffer<T>&, AudioBuffer<T>&, const EnvelopeBuffers&) override {}
    void reset() override {} void setValue (int, double) override {} double getValue (int) const override { return 0; }
    bool supportsChannelLayout (size_t, size_t) const override { return layout; }
    bool supportsSampleRate (double) const override { return rate; }
    HART_DEFINE_GENERIC_REPRESENT (Fussy)
    using SampleType = T; HART_DSP_DEFINE_COPY_AND_MOVE (Fussy)
};
template <typename T> struct Const : Signal<T> {
    T v; explicit Const (double x) : v ((T) x) {}
    void prepare (double, size_t, size_t) override {}
    void renderNextBlock (AudioBuffer<T>& o) override { for (size_t c = 0; c < o.getNumChannels(); ++c) for (size_t f = 0; f < o.getNumFrames(); ++f) o[c][f] = v; }
    void reset() override {} HART_DEFINE_GENERIC_REPRESENT (Const)
    using SampleType = T; HART_SIGNAL_DEFINE_COPY_AND_MOVE (Const)
};
template <typename T> struct CountMatch : Matcher<T> {
    std::shared_ptr<int> n = std::make_shared<int> (0); bool answer; size_t prepared = 0;
    explicit CountMatch (bool a) : answer (a) {}
    void prepare (double, size_t, size_t b) override { prepared = b; }
    bool match (const AudioBuffer<T>&) override { ++*n; return answer; }
    bool canOperatePerBlock() override { return true; } void reset() override {}
    MatcherFailureDetails getFailureDetails() const override { return {}; }
    HART_DEFINE_GENERIC_REPRESENT (CountMatch)
    using SampleType = T; HART_MATCHER_DEFINE_COPY_AND_MOVE (CountMatch)
};
static std::string drain() { std::string s; for (auto& m : ExpectationFailureMessages::get()) s += m + "\n"; ExpectationFailureMessages::clear(); return s; }
template <typename Fn> static bool throws (Fn fn) { try { fn(); } catch (const std::exception&) { return true; } return false; }
static void writeWav (const std::string& p, size_t ch, size_t n) { AudioBuffer<F> b (ch, n); for (size_t c = 0; c < ch; ++c) for (size_t i = 0; i < n; ++i) b[c][i] = 0.1f * (F) (i + 1) + 0.01f * (F) c; WavWriter<F>::writeBuffer (b, p, 44100, WavFormat::float32); }
int main (int, char** argv)
{
    dir = argv[1]; const std::string t = argv[2];
    CLIConfig::getInstance().initCommandLineArgs(); int ac = 1; CLIConfig::getInstance().getCLIApp().parse (ac, argv);
    auto env = [] (double v) { return SegmentedEnvelope (v).hold (1.0); };
    AudioBuffer<F> one (1, 4), out (1, 4); for (int i = 0; i < 4; ++i) one[0][i] = 1.0f;
    if (t == "last-envelope") { GainLinear<F> g; const auto a = env (2), b = env (3); g.withEnvelope (0, a); g.withEnvelope (0, b); g.prepareWithEnvelopes (44100, 1, 1, 4); g.processWithEnvelopes (one, out); CHECK (out[0][0] == 3.0f); }
#ifndef NO_RVALUE_ENV
    else if (t == "temporary-envelope") { GainLinear<F> g; g.withEnvelope (0, SegmentedEnvelope (2.0)); CHECK (g.hasEnvelopeFor (0)); }
#endif
    else if (t == "assign-envelopes") { GainLinear<F> g, h; const auto a = env (2); g.withEnvelope (0, a); g = h; CHECK (! g.hasEnvelopeFor (0)); const auto b = env (3); h.withEnvelope (0, b); g.withEnvelope (0, a); g = h; g.prepareWithEnvelopes (44100, 1, 1, 4); g.processWithEnvelopes (one, out); CHECK (out[0][0] == 3.0f); }
    else if (t == "envelope-rate") { GainLinear<F> g; Probe p (1); const Envelope& e = p; g.withEnvelope (0, e); g.prepareWithEnvelopes (96000, 1, 1, 4); CHECK (! p.log->empty() && p.log->at (0) == 96000.0); }
    else if (t == "envelope-rewind") { GainLinear<F> g; const auto e = SegmentedEnvelope (1).rampTo (0, 0.1); g.withEnvelope (0, e); auto d = processAudioWith (g).withInputSignal (Const<F> (1)).withDuration (0.1).process(); processAudioWith (std::move (d)).withInputSignal (Const<F> (1)).withDuration (0.1).expectTrue (PeaksAt<F> (0_dB)).process(); CHECK (drain() == ""); }
    else if (t == "envelope-reset") { auto e = SegmentedEnvelope (1).rampTo (2, 0.001).rampTo (0, 0.001); e.prepare (44100, 64); std::vector<double> a (64), b (64); e.renderNextBlock (64, a); e.reset(); e.renderNextBlock (64, b); CHECK (a == b); }
    else if (t == "empty-envelope") { SegmentedEnvelope e (0.5); e.prepare (44100, 4); std::vector<double> a (4); e.renderNextBlock (4, a); CHECK (a[3] == 0.5); }
    else if (t == "wav-loop") { writeWav (dir + "/l.wav", 1, 3); WavFile<F> w (dir + "/l.wav", WavFile<F>::Loop::yes); w.prepare (44100, 1, 8); AudioBuffer<F> o (1, 8); w.renderNextBlock (o); CHECK (o[0][3] == 0.1f && o[0][7] == 0.2f); }
    else if (t == "wav-fewer") { writeWav (dir + "/s.wav", 2, 4); WavFile<F> w (dir + "/s.wav"); CHECK (w.supportsNumChannels (1)); CHECK (! throws ([&] { w.prepare (44100, 1, 4); w.renderNextBlock (out); })); }
    else if (t == "short-sweep") { SineSweep<F> s (1e-6, 20, 20e3); s.prepare (44100, 1, 4); CHECK (! throws ([&] { s.renderNextBlock (out); })); CHECK (out[0][3] == 0.0f); }
    else if (t == "all-checks") { CountMatch<F> a (false), b (true), c (true); auto n = b.n; processAudioWith (GainDb<F>()).withInputSignal (Const<F> (1)).withDuration (0.1).withBlockSize (441).expectTrue (std::move (a)).expectTrue (std::move (b)).process(); CHECK (*n == 10); drain(); }
    else if (t == "full-timestamp") { processAudioWith (GainDb<F>()).withInputSignal (Const<F> (1)).withDuration (0.5).expectTrue (PeaksAt<F> (-6_dB)).process(); auto m = drain(); CHECK (m.find ("Timestamp: 0.000") != std::string::npos); }
    else if (t == "full-prepare") { const auto e = env (2); GainLinear<F> g; g.withEnvelope (0, e); processAudioWith (GainLinear<F> (3)).withInputSignal (Const<F> (1)).withDuration (0.1).expectFalse (EqualsTo<F> (Const<F> (1) >> g)).process(); CHECK (drain() == ""); }
    else if (t == "nan") { for (int i = 0; i < 3; ++i) { processAudioWith (GainDb<F>()).withInputSignal (Const<F> (NAN)).expectTrue (EqualsTo<F> (Const<F> (1))).process(); CHECK (drain() != ""); processAudioWith (GainDb<F>()).withInputSignal (Const<F> (NAN)).expectTrue (PeaksBelow<F> (0_dB)).process(); CHECK (drain() != ""); processAudioWith (GainDb<F>()).withInputSignal (Const<F> (NAN)).expectTrue (PeaksAt<F> (-oo_dB)).process(); CHECK (drain() != ""); } }
    else if (t == "negative-db") { processAudioWith (GainDb<F>()).withInputSignal (Const<F> (1)).expectTrue (EqualsTo<F> (Const<F> (-1))).process(); auto m = drain(); CHECK (m.find ("-1.000000 (0.0 dB)") != std::string::npos); }
#ifndef NO_CONST_MATCHER
    else if (t == "const-matcher") { const PeaksAt<F> p (0_dB); const Matcher<F>& b = p; processAudioWith (GainDb<F>()).withInputSignal (Const<F> (1)).expectTrue (p).expectTrue (b).process(); CHECK (drain() == ""); }
#endif
    else if (t == "layout-query") { auto d = hart::make_unique<Fussy<F>> (false, true); auto* p = d.get(); CHECK (throws ([&] { AudioTestBuilder<F> b (std::unique_ptr<DSP<F>> (d.release())); b.withInputSignal (Const<F> (1)); try { b.process(); } catch (...) { CHECK (! p->prepared); throw; } CHECK (! p->prepared); })); }
    else if (t == "short-write") { AudioBuffer<F> b (2, 100000); CHECK (throws ([&] { WavWriter<F>::writeBuffer (b, "/dev/full", 44100, WavFormat::pcm24); })); }
    else if (t == "append-empty") { AudioBuffer<F> a (2, 0), b (2, 0); a.appendFrom (b); CHECK (a.getNumFrames() == 0); }   // run with -D_GLIBCXX_ASSERTIONS
    else if (t == "magnitude-range") { AudioBuffer<F> a (1, 4); CHECK (throws ([&] { a.getMagnitude (0, (size_t) -1, 2); })); }
    else if (t == "gain-precision") { std::stringstream s; s << GainLinear<F> (0.123456); CHECK (s.str().find ("0.123456") != std::string::npos); }
    else if (t == "save-on-assert") { const auto p = dir + "/a.wav"; std::remove (p.c_str()); throws ([&] { processAudioWith (GainDb<F>()).withInputSignal (Const<F> (1)).saveOutputTo (p, Save::whenFails).assertTrue (PeaksBelow<F> (-20_dB)).process(); }); CHECK (std::ifstream (p).good()); }
    else if (t == "plot-time") { const auto p = dir + "/p.svg"; plotData<F> ([&] { AudioBuffer<F> b (2, 3); for (int c = 0; c < 2; ++c) for (int i = 0; i < 3; ++i) b[c][i] = (F) (i * i); return b; }(), [&] { AudioBuffer<F> b (2, 3); for (int c = 0; c < 2; ++c) for (int i = 0; i < 3; ++i) b[c][i] = (F) (i * i); return b; }(), 1.0, p); std::ifstream f (p); std::string s ((std::istreambuf_iterator<char> (f)), {}); std::vector<std::string> paths; for (size_t i = 0; (i = s.find ("<path", i)) != std::string::npos; ++i) { auto j = s.find (" d=\"", i); auto q = s.substr (j, s.find ('"', j + 4) - j); if (q.size() > 12) paths.push_back (q); } bool dup = false; for (size_t i = 0; i + 1 < paths.size(); ++i) dup |= paths[i] == paths[i + 1]; CHECK (dup); }
    else if (t == "short-blocks") { const auto e = SegmentedEnvelope (-20).rampTo (0, 0.002); auto s = Const<F> (1), r = s; GainDb<F> g; g.withEnvelope (0, e); s.followedBy (g); r.followedBy (g); AudioBuffer<F> a (1, 64), b (1, 16); for (auto* x : { &s, &r }) { x->prepareWithDSPChain (44100, 1, 64); x->resetWithDSPChain(); } s.renderNextBlockWithDSPChain (a); for (int i = 0; i < 4; ++i) { r.renderNextBlockWithDSPChain (b); CHECK (b[0][15] == a[0][16 * i + 15]); } }
    else if (t == "task-exception") { struct X { static void f() { throw hart::IOError ("x"); } static void g() {} }; auto& r = TestRegistry::getInstance(); r.add ("a", "", TaskCategory::test, &X::f); r.add ("b", "", TaskCategory::test, &X::g); int rc = 0; CHECK (! throws ([&] { rc = r.runAll(); })); CHECK (rc == 1); }
    else { std::cout << "unknown case\n"; return 2; }
    return ok ? 0 : 1;
}
