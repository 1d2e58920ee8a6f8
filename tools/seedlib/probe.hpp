// Small user-defined objects for the demonstrations
#define HART_IMPLEMENTATION
#include <malloc.h>
#include "hart.hpp"
#include <cstring>
#include <fstream>
#include <functional>
#include <unistd.h>
using namespace hart;
using F = float;
static bool ok = true;
#define CHECK(c) do { if (! (c)) { ok = false; std::cout << "shows: !(" #c ") line " << __LINE__ << "\n"; } } while (0)
struct Probe : Envelope   // records what an envelope is told
{
    std::shared_ptr<std::vector<double>> log = std::make_shared<std::vector<double>>(); double v = 0; int n = 0;
    explicit Probe (double x) : v (x) {}
    void renderNextBlock (size_t b, std::vector<double>& o) override { o.resize (b); for (auto& x : o) x = v; ++n; log->push_back (-100 - n); }
    void prepare (double sr, size_t) override { log->push_back (sr); }
    void reset() override { n = 0; log->push_back (-1); }
    std::unique_ptr<Envelope> copy() const override { return hart::make_unique<Probe> (*this); }
};
template <typename T> struct Spy : DSP<T>   // a pass-through effect that tells what happens to it
{
    std::function<bool (size_t, size_t)> layout = [] (size_t, size_t) { return true; }; std::function<bool (double)> rate = [] (double) { return true; };
    std::shared_ptr<std::vector<std::string>> log = std::make_shared<std::vector<std::string>>(); std::string name = "spy"; bool enveloped = false;
    std::function<void (const AudioBuffer<T>&, AudioBuffer<T>&, const EnvelopeBuffers&)> body;
    void say (const std::string& s) const { log->push_back (name + ":" + s); }
    void prepare (double r, size_t i, size_t o, size_t b) override { say ("prepare " + std::to_string ((long) r) + " " + std::to_string (i) + " " + std::to_string (o) + " " + std::to_string (b)); }
    void process (const AudioBuffer<T>& in, AudioBuffer<T>& out, const EnvelopeBuffers& e) override { say ("process " + std::to_string (in.getNumFrames())); if (body) { body (in, out, e); return; } for (size_t c = 0; c < out.getNumChannels(); ++c) for (size_t f = 0; f < out.getNumFrames(); ++f) out[c][f] = in[c < in.getNumChannels() ? c : 0][f]; }
    void reset() override { say ("reset"); } void setValue (int id, double v) override { say ("set " + std::to_string (id) + " " + std::to_string (v)); } double getValue (int) const override { return 0; }
    bool supportsChannelLayout (size_t i, size_t o) const override { return layout (i, o); }
    bool supportsSampleRate (double r) const override { return rate (r); }
    bool supportsEnvelopeFor (int) const override { return enveloped; }
    void represent (std::ostream& s) const override { s << name; }
    using SampleType = T; HART_DSP_DEFINE_COPY_AND_MOVE (Spy)
};
template <typename T> struct Gen : Signal<T>   // sample = fn (channel, frame since reset)
{
    std::function<T (size_t, size_t)> fn; size_t pos = 0; std::shared_ptr<std::vector<std::string>> log = std::make_shared<std::vector<std::string>>();
    explicit Gen (std::function<T (size_t, size_t)> g) : fn (g) {}
    void prepare (double r, size_t c, size_t b) override { log->push_back ("prepare " + std::to_string ((long) r) + " " + std::to_string (c) + " " + std::to_string (b)); }
    void renderNextBlock (AudioBuffer<T>& o) override { for (size_t c = 0; c < o.getNumChannels(); ++c) for (size_t f = 0; f < o.getNumFrames(); ++f) o[c][f] = fn (c, pos + f); pos += o.getNumFrames(); }
    void reset() override { pos = 0; log->push_back ("reset"); } HART_DEFINE_GENERIC_REPRESENT (Gen)
    using SampleType = T; HART_SIGNAL_DEFINE_COPY_AND_MOVE (Gen)
};
template <typename T> Gen<T> constant (double x) { return Gen<T> ([x] (size_t, size_t) { return (T) x; }); }
template <typename T> struct Judge : Matcher<T>   // answers fn (audio), remembers what it saw
{
    std::function<bool (const AudioBuffer<T>&)> fn; bool blocks; std::shared_ptr<std::vector<std::string>> log = std::make_shared<std::vector<std::string>>();
    Judge (std::function<bool (const AudioBuffer<T>&)> g, bool b) : fn (g), blocks (b) {}
    void prepare (double r, size_t c, size_t b) override { log->push_back ("prepare " + std::to_string ((long) r) + " " + std::to_string (c) + " " + std::to_string (b)); }
    bool match (const AudioBuffer<T>& a) override { log->push_back ("match " + std::to_string (a.getNumFrames())); return fn (a); }
    bool canOperatePerBlock() override { return blocks; } void reset() override { log->push_back ("reset"); }
    MatcherFailureDetails getFailureDetails() const override { return {}; }
    HART_DEFINE_GENERIC_REPRESENT (Judge)
    using SampleType = T; HART_MATCHER_DEFINE_COPY_AND_MOVE (Judge)
};
static std::vector<std::string> drain() { std::vector<std::string> s = ExpectationFailureMessages::get(); ExpectationFailureMessages::clear(); return s; }
template <typename Fn> static bool throws (Fn fn) { try { fn(); } catch (const std::exception&) { return true; } return false; }
static void config (std::vector<std::string> args = {}) { CLIConfig::getInstance().initCommandLineArgs(); std::vector<const char*> v { "demo" }; for (auto& a : args) v.push_back (a.c_str()); CLIConfig::getInstance().getCLIApp().parse ((int) v.size(), const_cast<char**> (v.data())); }
static void writeWav (const std::string& p, size_t ch, size_t n) { AudioBuffer<F> b (ch, n); for (size_t c = 0; c < ch; ++c) for (size_t i = 0; i < n; ++i) b[c][i] = 0.1f * (F) (i % 7 + 1) + 0.01f * (F) c; WavWriter<F>::writeBuffer (b, p, 44100, WavFormat::float32); }
static long count (const std::vector<std::string>& v, const std::string& s) { long n = 0; for (auto& x : v) n += x.find (s) != std::string::npos; return n; }
static std::vector<std::vector<std::pair<double, double>>> svgLines (const std::string& p)   // the lines of samples in a plot, later lines of a plot first
{
    std::ifstream f (p); std::string s ((std::istreambuf_iterator<char> (f)), std::istreambuf_iterator<char>()); std::vector<std::vector<std::pair<double, double>>> r; size_t i = 0; const std::string mark = "class=\"svg-plot-line";
    while ((i = s.find (mark, i)) != std::string::npos)
    {
        i += mark.size(); size_t d = s.find (" d=\"M", i); if (d == std::string::npos) break; const char* c = s.c_str() + d + 5; r.emplace_back();
        while (*c && *c != '"') { char* e; const double x = std::strtod (c, &e); if (e == c) { ++c; continue; } const double y = std::strtod (e, &e); r.back().emplace_back (x, y); c = e; }
        i = d;
    }
    return r;
}
