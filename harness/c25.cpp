// C25: objects and tests influence neither each other, nor the rest of the process
#include "stock.hpp"

#include <cfenv>
#include <clocale>
#include <condition_variable>
#include <csignal>
#include <fstream>
#include <mutex>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>

using namespace stock;
using mc::Run;

// -- Contents of fresh memory

static int fillByte = -1;

void* operator new (std::size_t size)
{
    void* p = malloc (size > 0 ? size : 1);
    if (p == nullptr) throw std::bad_alloc();
    if (fillByte >= 0) memset (p, fillByte, size);
    return p;
}
void* operator new[] (std::size_t size) { return operator new (size); }
void operator delete (void* p) noexcept { free (p); }
void operator delete[] (void* p) noexcept { free (p); }
void operator delete (void* p, std::size_t) noexcept { free (p); }
void operator delete[] (void* p, std::size_t) noexcept { free (p); }

// -- Scripts: the life of an object in a few steps, with a log of what it gave

using Log = std::vector<std::string>;

struct Script
{
    virtual ~Script() = default;
    virtual std::string step (int i) = 0;
};

constexpr int numSteps = 5;
static const char wrong[] = "WRONG";  // In a log, whatever it is compared with

static std::string replaced (std::string s, const std::string& what, const std::string& by)
{
    for (size_t at; ! what.empty() && (at = s.find (what)) != std::string::npos;) s.replace (at, what.size(), by);
    return s;
}

template <typename T>
static std::string text (const hart::AudioBuffer<T>& b)
{
    std::string s;
    for (size_t c = 0; c < b.getNumChannels(); ++c)
    {
        s += c ? " | " : "";
        for (size_t f = 0; f < b.getNumFrames(); ++f) s += fmt (f ? " %.9g" : "%.9g", (double) b[c][f]);
    }
    return s;
}

template <typename T>
static std::string text (const Audio<T>& a)
{
    std::string s;
    for (auto& c : a) { s += " | "; for (auto x : c) s += fmt (" %.9g", (double) x); }
    return s;
}

template <typename O>
static std::string shown (const O& o)
{
    std::ostringstream s;
    s << o;
    return replaced (s.str(), workDir(), "@");
}

struct Settings { double rate; size_t channels; };
static const Settings settings[2] = { { 48000, 2 }, { 8000.0, 1 } };
constexpr size_t length = 24, block = 6;

template <typename T>
struct SignalScript : Script
{
    int kind, v;
    std::unique_ptr<hart::Signal<T>> s;
    SignalScript (int kind, int v): kind (kind), v (v) {}

    std::string render (hart::Signal<T>& x, size_t n) { hart::AudioBuffer<T> b (settings[v].channels, n); x.renderNextBlockWithDSPChain (b); return text (b); }

    std::string step (int i) override
    {
        const auto& k = settings[v];
        switch (i)
        {
            case 0:
                // The second of a kind has other parameters, and another duration in one of the precisions
                s = makeSignal<T> (kind < numSignals ? kind : kind == numSignals ? 1 : kind == numSignals + 1 ? 10 : 7, k.rate, v && sizeof (T) == 4 ? length + 7 : length, (unsigned) k.channels);
                if (kind >= numSignals) s->followedBy (makeEffect<T> (v ? 6 : 5, k.rate, length)).followedBy (makeEffect<T> (v ? 4 : 3, k.rate, length)).followedBy (makeEffect<T> (v ? 10 : 9, k.rate, length));
                s->resetWithDSPChain();
                s->prepareWithDSPChain (k.rate, k.channels, block);
                return "";
            case 1: return render (*s, 5);
            case 2: return shown (*s) + render (*s, 3);
            case 3: { auto c = s->copy(); c->resetWithDSPChain(); c->prepareWithDSPChain (k.rate, k.channels, block); return render (*c, 4) + " / " + render (*s, 6) + " / " + render (*c, 2); }
            default: { s->resetWithDSPChain(); const auto r = render (*s, 4); s.reset(); return r; }
        }
    }
};

template <typename T>
struct EffectScript : Script
{
    int kind, v;
    size_t at = 0;
    std::unique_ptr<hart::DSP<T>> d;
    EffectScript (int kind, int v): kind (kind), v (v) {}

    std::string process (hart::DSP<T>& x, size_t n)
    {
        hart::AudioBuffer<T> in (settings[v].channels, n), out (settings[v].channels, n);
        fill (in, table<T> (2, 64), at);
        at += n;
        x.processWithEnvelopes (in, out);
        return text (out);
    }

    std::string step (int i) override
    {
        const auto& k = settings[v];
        switch (i)
        {
            case 0:
                d = makeEffect<T> (kind, v ? k.rate * 1.3 : k.rate, length);
                if (kind >= 1 && kind < 5 && v) d->setValue (0, kind == 2 ? 0.3 : -7);
                d->resetWithEnvelopes();
                d->prepareWithEnvelopes (k.rate, k.channels, k.channels, block);
                return "";
            case 1: return process (*d, 5);
            case 2: if (kind == 1 || kind == 2) d->setValue (0, v ? -1.5 : 2.5); return shown (*d) + process (*d, 3);
            case 3: { auto c = d->copy(); c->resetWithEnvelopes(); c->prepareWithEnvelopes (k.rate, k.channels, k.channels, block); return process (*c, 4) + " / " + process (*d, 6) + " / " + process (*c, 2); }
            default: { d->resetWithEnvelopes(); const auto r = process (*d, 4); d.reset(); return r; }
        }
    }
};

struct EnvelopeScript : Script
{
    int kind, v;
    std::unique_ptr<hart::SegmentedEnvelope> e;
    EnvelopeScript (int kind, int v): kind (kind), v (v) {}

    std::string render (hart::Envelope& x, size_t n) { std::vector<double> b (n); x.renderNextBlock (n, b); std::string s; for (size_t i = 0; i < n; ++i) s += fmt (" %.12g", b[i]); return s; }

    std::string step (int i) override
    {
        switch (i)
        {
            case 0: e.reset (new hart::SegmentedEnvelope (envelope (kind % numEnvelopes, v && kind % 2 ? length + 5 : length, kind >= numEnvelopes).make (1 / settings[v].rate))); e->prepare (settings[v].rate, block); e->reset(); return "";
            case 1: return render (*e, 5);
            case 2: e->hold (3 / settings[v].rate).rampTo (v ? 0.7 : 0.2, 4 / settings[v].rate, hart::SegmentedEnvelope::Shape::sCurve); return render (*e, 6);
            case 3: { hart::SegmentedEnvelope c (*e); c.reset(); c.prepare (settings[v].rate, block); return render (c, 4) + " / " + render (*e, 6) + " / " + render (c, 2); }
            default: { e->reset(); std::string r; for (int n = 0; n < 6; ++n) r += render (*e, 6); e.reset(); return r; }
        }
    }
};

template <typename T>
struct MatcherScript : Script
{
    int kind, v;
    size_t at = 0;
    std::unique_ptr<hart::Matcher<T>> m;
    MatcherScript (int kind, int v): kind (kind), v (v) {}

    std::string match (hart::Matcher<T>& x, size_t n, double wrong)
    {
        const auto& k = settings[v];
        hart::AudioBuffer<T> b (k.channels, n);
        hart::SineWave<T> s (v ? 500 : 1000);
        if (kind == 1) s.followedBy (makeEffect<T> (5, k.rate, length));
        fill (b, renderFresh<T> (s, k.rate, k.channels, 40, 40), at);
        at += n;
        b[k.channels - 1][n / 2] += (T) wrong;
        if (x.match (b)) return " yes";
        const auto d = x.getFailureDetails();
        return fmt (" no: frame %zu channel %d ", (size_t) d.frame, (int) d.channel) + d.description;
    }

    std::string step (int i) override
    {
        const auto& k = settings[v];
        switch (i)
        {
            case 0:
                if (kind < 2) { hart::SineWave<T> s (v ? 500 : 1000); if (kind == 1) s.followedBy (makeEffect<T> (5, k.rate, length)); m.reset (new hart::EqualsTo<T> (s, v ? 0.01 : 0.125)); }
                else if (kind == 2) m.reset (new hart::PeaksBelow<T> (v ? -6 : 1));
                else m.reset (new hart::PeaksAt<T> (v ? -6 : 0, v ? 0.5 : 3));
                m->prepare (k.rate, k.channels, block);
                m->reset();
                return "";
            case 1: return match (*m, 5, 0);
            case 2: return shown (*m) + match (*m, 3, v ? 0.5 : -4);
            case 3: { auto c = m->copy(); const size_t was = at; c->prepare (k.rate, k.channels, block); c->reset(); at = 0; auto r = match (*c, 4, v ? 0.1 : 0); at = was; return r + " / " + match (*m, 6, 0) + match (*m, 2, 1.5); }
            default: { m->reset(); at = 0; const auto r = match (*m, 4, v ? 0 : 0.1); m.reset(); return r; }
        }
    }
};

// Runs `call`, and tells which failures were reported by it; those reported before stay
template <typename F>
static std::string reports (F&& call)
{
    auto& all = hart::ExpectationFailureMessages::get();
    const auto before = all;
    std::string s, what;
    all.clear();
    if (throws (call, &what)) s = "threw " + what;
    for (auto& m : all) s += "\n" + m;
    all = before;
    return replaced (s, workDir(), "@");
}

template <typename T>
struct HostScript : Script
{
    int kind, v;
    std::unique_ptr<hart::AudioTestBuilder<T>> h;
    Audio<T> got;
    HostScript (int kind, int v): kind (kind), v (v) {}

    std::string file (const char* end) { return workDir() + fmt ("/host-%d-%d-%d", kind, v, (int) sizeof (T)) + end; }

    std::string step (int i) override
    {
        const auto& k = settings[v];
        switch (i)
        {
            case 0: h.reset (new hart::AudioTestBuilder<T> (makeEffect<T> (kind == 0 ? 1 : kind == 1 ? 9 : kind == 2 ? 4 : 5, k.rate, length))); return "";
            case 1: h->withSampleRate (k.rate).withBlockSize (v ? 4 : 7).withDuration (length / k.rate).withInputChannels (k.channels).withOutputChannels (k.channels); h->withLabel (v ? "second" : "first"); return "";
            case 2:
                h->withInputSignal (*makeSignal<T> (kind == 0 ? 1 : kind == 1 ? 11 : kind == 2 ? 13 : 6, k.rate, length, (unsigned) k.channels)).expectTrue (Capture<T> (&got));
                if (kind == 0) { h->expectTrue (hart::PeaksBelow<T> (v ? -3 : 3)); h->withValue (0, v ? -2.0 : 1.5); }
                if (kind == 1) h->expectTrue (hart::EqualsTo<T> (hart::WhiteNoise<T> (12345), v ? 5 : 1)).expectFalse (hart::PeaksBelow<T> (-20));
                if (kind == 2) h->assertFalse (hart::PeaksAt<T> (v ? -12 : -3, 0.5)).expectTrue (hart::PeaksBelow<T> (-13));
                if (kind == 3) h->saveOutputTo (file (".wav"), hart::Save::always, v ? hart::WavFormat::float32 : hart::WavFormat::pcm24).savePlotTo (file (".svg"), hart::Save::always).expectTrue (hart::PeaksAt<T> (-40));
                return "";
            case 3: { std::string s = reports ([&] { h->process(); }) + text (got); if (kind == 3) s += fmt (" %016llx %016llx", (unsigned long long) mc::Hash().add (readFile (file (".wav"))).h, (unsigned long long) mc::Hash().add (replaced (readFile (file (".svg")), workDir(), "@")).h); return s; }
            default:
            {
                std::string r;
                std::unique_ptr<hart::DSP<T>> back;
                // With another effect, and settings which are the default ones
                hart::AudioTestBuilder<T> other (makeEffect<T> (v ? 2 : 3, k.rate, length));
                other.withDuration (12 / 44100.0).withInputSignal (hart::WhiteNoise<T> (v ? 3 : 4)).expectTrue (Capture<T> (&got)).expectTrue (hart::PeaksBelow<T> (-30));
                r += reports ([&] { back = other.process(); }) + text (got) + shown (*back);
                h.reset();
                return r;
            }
        }
    }
};

template <typename T>
struct BufferScript : Script
{
    int v;
    std::unique_ptr<hart::AudioBuffer<T>> b;
    BufferScript (int v): v (v) {}

    std::string step (int i) override
    {
        const size_t channels = v ? 1 : 3, frames = v ? 4 : 2;
        switch (i)
        {
            case 0: b.reset (new hart::AudioBuffer<T> (channels, frames)); return text (*b);
            case 1: fill (*b, table<T> (3, 8), v ? 3 : 0); return text (*b);
            case 2: { hart::AudioBuffer<T> c (channels, 3); const auto r = text (c); fill (c, table<T> (3, 8), 2); b->appendFrom (c); return r + " / " + text (*b); }
            case 3: { hart::AudioBuffer<T> c (*b); c[0][1] = 7; auto e = hart::AudioBuffer<T>::emptyLike (*b); const auto r = text (c) + " / " + text (e) + " / " + text (*b); *b = c; return r; }
            default: { auto r = text (*b); b->clear(); r += " / " + text (*b); b.reset(); return r; }
        }
    }
};

template <typename T>
struct FileScript : Script
{
    int v;
    std::unique_ptr<hart::WavFile<T>> w;
    FileScript (int v): v (v) {}

    std::string path (int i) { return workDir() + fmt ("/file-%d-%d-%d.wav", v, i, (int) sizeof (T)); }
    void write (int i) { hart::AudioBuffer<T> b (v ? 2 : 1, v ? 9 : 5); fill (b, table<T> (2, 32), (size_t) i * 3); hart::WavWriter<T>::writeBuffer (b, path (i), v ? 22050 : 48000, v ? hart::WavFormat::pcm16 : hart::WavFormat::float32); }
    void open (int i) { w.reset (new hart::WavFile<T> (path (i))); w->resetWithDSPChain(); w->prepareWithDSPChain (v ? 22050 : 48000, v ? 2 : 1, 8); }
    std::string render (size_t n) { hart::AudioBuffer<T> b (v ? 2 : 1, n); w->renderNextBlockWithDSPChain (b); return text (b); }

    std::string step (int i) override
    {
        switch (i)
        {
            case 0: write (0); return fmt ("%016llx", (unsigned long long) mc::Hash().add (readFile (path (0))).h);
            case 1: write (1); w.reset (new hart::WavFile<T> (path (0), v ? hart::WavFile<T>::Loop::yes : hart::WavFile<T>::Loop::no)); w->resetWithDSPChain(); w->prepareWithDSPChain (v ? 22050 : 48000, v ? 2 : 1, 8); return shown (*w);
            case 2: return render (4);
            case 3: return render (3);
            default:
            {
                auto s = render (8);
                // Another file at the path of the first one, with the same size
                write (1);
                open (1);
                const auto elsewhere = render (6);
                w.reset();
                rename (path (1).c_str(), path (0).c_str());
                open (0);
                const auto replacing = render (6);
                w.reset();
                unlink (path (0).c_str());
                return s + " / " + replacing + (replacing == elsewhere ? "" : wrong);
            }
        }
    }
};

// A stream, on which numbers are printed
struct StreamScript : Script
{
    int v;
    std::unique_ptr<std::ostringstream> o;
    StreamScript (int v): v (v) {}

    std::string step (int i) override
    {
        using namespace hart;
        const double x = v ? 12.3456789 : 0.987654321;
        switch (i)
        {
            case 0: o.reset (new std::ostringstream); *o << x << ' '; return o->str();
            case 1: if (v) *o << secPrecision << x << ' '; else *o << linPrecision << x << ' '; return o->str();
            case 2: *o << x << ' ' << SineWave<float> (v ? 100 : 2000, v ? 1.0 : 0.5) << ' ' << x << ' '; return o->str();
            case 3: if (v) *o << hzPrecision << x << ' '; else *o << radPrecision << x << ' '; return o->str();
            default: { *o << x << ' ' << GainDb<float> (v ? 3 : -1.25) << ' ' << x << dbPrecision << x; const auto s = o->str(); o.reset(); return s; }
        }
    }
};

// Functions without an object
struct FunctionScript : Script
{
    int v;
    FunctionScript (int v): v (v) {}

    std::string step (int i) override
    {
        using namespace hart;
        switch (i)
        {
            case 0: return fmt ("%.12g %.9g", decibelsToRatio (v ? -3.5 : 20.0), (double) decibelsToRatio (v ? 1.0f : -90.0f));
            case 1: return fmt ("%.12g %.9g", ratioToDecibels (v ? 0.7 : 3.0), (double) ratioToDecibels (v ? 1e-3f : 2.0f));
            case 2: return fmt ("%.12g %.12g", wrapPhase (v ? 7.0 : -2.5), wrapPhase (v ? 1e3 : 0.25));
            case 3: return fmt ("%zu %d %d", roundToSizeT (v ? 7.49 : 3.5), (int) floatsEqual (1.0, v ? 1.1 : 1.0), clamp (5, v ? 1 : 6, v ? 4 : 9));
            default: return replaced (toAbsolutePath (v ? "a/b" : "/c"), workDir(), "@") + fmt (" %d", (int) isAbsolutePath (v ? "x" : "/x"));
        }
    }
};

// Signals, effects, envelopes, matchers, hosts, and one each of the others
constexpr int firstEffect = numSignals + 3, firstEnvelope = firstEffect + numEffects, firstMatcher = firstEnvelope + 2 * numEnvelopes, firstHost = firstMatcher + 4, firstOther = firstHost + 4, numKinds = firstOther + 4;

template <typename T>
static std::unique_ptr<Script> makeScript (int kind, int v)
{
    using P = std::unique_ptr<Script>;
    if (kind < firstEffect) return P (new SignalScript<T> (kind, v));
    if (kind < firstEnvelope) return P (new EffectScript<T> (kind - firstEffect, v));
    if (kind < firstMatcher) return P (new EnvelopeScript (kind - firstEnvelope, v));
    if (kind < firstHost) return P (new MatcherScript<T> (kind - firstMatcher, v));
    if (kind < firstOther) return P (new HostScript<T> (kind - firstHost, v));
    switch (kind - firstOther)
    {
        case 0: return P (new BufferScript<T> (v));
        case 1: return P (new FileScript<T> (v));
        case 2: return P (new StreamScript (v));
        default: return P (new FunctionScript (v));
    }
}

static std::string kindName (int kind, int v)
{
    std::string s;
    if (kind < firstEffect) s = kind < numSignals ? signalName (kind) : fmt ("signal with effects %d", kind - numSignals);
    else if (kind < firstEnvelope) s = effectName (kind - firstEffect);
    else if (kind < firstMatcher) s = fmt ("envelope %d", kind - firstEnvelope);
    else if (kind < firstHost) { static const char* names[] = { "EqualsTo", "EqualsTo with effects", "PeaksBelow", "PeaksAt" }; s = names[kind - firstMatcher]; }
    else if (kind < firstOther) s = fmt ("test %d", kind - firstHost);
    else { static const char* names[] = { "AudioBuffer", "wav files", "stream", "functions" }; s = names[kind - firstOther]; }
    return s + (v ? " (second)" : " (first)");
}

static std::unique_ptr<Script> makeScript (int kind, int v, bool wide) { return wide ? makeScript<double> (kind, v) : makeScript<float> (kind, v); }

// -- Tests with callbacks

// Called at each callback
static thread_local std::function<void()> onPoint;
static void point() { if (onPoint) onPoint(); }

template <typename T>
struct PointSignal : hart::Signal<T>
{
    hart::SineWave<T> sine { 700 };
    size_t count = 0;
    bool supportsNumChannels (size_t) const override { point(); return true; }
    bool supportsSampleRate (double) const override { point(); return true; }
    void prepare (double rate, size_t channels, size_t n) override { point(); sine.prepareWithDSPChain (rate, channels, n); }
    void renderNextBlock (hart::AudioBuffer<T>& b) override { point(); sine.renderNextBlockWithDSPChain (b); point(); b[0][0] += (T) count++; }
    void reset() override { point(); sine.resetWithDSPChain(); count = 0; }
    void represent (std::ostream& o) const override { o << "Point" << hart::hzPrecision; point(); o << 1.5 << "Signal"; }
    std::unique_ptr<hart::Signal<T>> copy() const override { point(); return std::unique_ptr<hart::Signal<T>> (new PointSignal (*this)); }
    std::unique_ptr<hart::Signal<T>> move() override { point(); return std::unique_ptr<hart::Signal<T>> (new PointSignal (std::move (*this))); }
};

template <typename T>
struct PointEffect : hart::DSP<T>
{
    double value = 1;
    void prepare (double, size_t, size_t, size_t) override { point(); }
    void process (const hart::AudioBuffer<T>& in, hart::AudioBuffer<T>& out, const hart::EnvelopeBuffers& e) override
    {
        const auto was = toAudio (in);
        point();
        for (size_t c = 0; c < out.getNumChannels(); ++c)
            for (size_t f = 0; f < out.getNumFrames(); ++f)
            {
                out[c][f] = (T) (in[c][f] * value * (e.count (0) ? e.at (0)[f] : 1));
                if (&in != &out && in[c][f] != was[c][f]) out[c][f] = 1000;
            }
        point();
    }
    void reset() override { point(); }
    void setValue (int, double v) override { point(); value = v; }
    double getValue (int) const override { return value; }
    bool supportsEnvelopeFor (int id) const override { return id == 0; }
    bool supportsChannelLayout (size_t, size_t) const override { point(); return true; }
    bool supportsSampleRate (double) const override { point(); return true; }
    void represent (std::ostream& o) const override { point(); o << "PointEffect " << value; }
    std::unique_ptr<hart::DSP<T>> copy() const override { point(); return std::unique_ptr<hart::DSP<T>> (new PointEffect (*this)); }
    std::unique_ptr<hart::DSP<T>> move() override { point(); return std::unique_ptr<hart::DSP<T>> (new PointEffect (std::move (*this))); }
};

struct PointEnvelope : hart::Envelope
{
    hart::SegmentedEnvelope e { 0.5 };
    PointEnvelope() { e.rampTo (2, 0.002); }
    void prepare (double rate, size_t n) override { point(); e.prepare (rate, n); }
    void renderNextBlock (size_t n, std::vector<double>& b) override { point(); static_cast<hart::Envelope&> (e).renderNextBlock (n, b); point(); }
    void reset() override { point(); e.reset(); }
    std::unique_ptr<hart::Envelope> copy() const override { point(); return std::unique_ptr<hart::Envelope> (new PointEnvelope (*this)); }
};

template <typename T>
struct PointMatcher : hart::Matcher<T>
{
    bool perBlock;
    int failAt, count = 0;
    Audio<T>* seen;
    PointMatcher (bool p, int f, Audio<T>* s): perBlock (p), failAt (f), seen (s) {}
    void prepare (double, size_t, size_t) override { point(); }
    bool match (const hart::AudioBuffer<T>& b) override { append (*seen, b); point(); append (*seen, b); return count++ != failAt; }
    bool canOperatePerBlock() override { point(); return perBlock; }
    void reset() override { point(); count = 0; }
    hart::MatcherFailureDetails getFailureDetails() const override { point(); hart::MatcherFailureDetails d; d.frame = 3; d.channel = 0; d.description = "Failed"; return d; }
    void represent (std::ostream& o) const override { o << hart::dbPrecision; point(); o << 2.25 << "PointMatcher"; }
    std::unique_ptr<hart::Matcher<T>> copy() const override { point(); return std::unique_ptr<hart::Matcher<T>> (new PointMatcher (*this)); }
    std::unique_ptr<hart::Matcher<T>> move() override { point(); return std::unique_ptr<hart::Matcher<T>> (new PointMatcher (*this)); }
};

constexpr int numOuter = 4;

template <typename T>
static std::string outer (int config)
{
    static int number = 0;
    const std::string file = workDir() + fmt ("/outer-%d.wav", ++number);
    std::string log;
    Audio<T> seen, block, end;
    log = reports ([&]
    {
        PointSignal<T> signal;
        PointEffect<T> effect;
        effect.withEnvelope (0, PointEnvelope());
        signal.followedBy (std::move (effect));
        if (config == 1) signal.followedBy (hart::GainDb<T> (-3.0));
        auto host = hart::processAudioWith (PointEffect<T>());
        host.withSampleRate (config == 2 ? 8000 : 44100).withBlockSize (config == 1 ? 2 : 5).withDuration (config == 3 ? 7 / 44100.0 : 12 / (config == 2 ? 8000.0 : 44100.0)).withLabel (fmt ("outer %d", config))
            .withInputSignal (signal).withValue (0, 0.75);
        if (config == 1) host.inStereo();
        host.expectTrue (PointMatcher<T> (true, config == 0 ? 1 : -1, &block)).expectTrue (PointMatcher<T> (false, config == 2 ? 0 : -1, &seen)).expectTrue (hart::PeaksBelow<T> (config == 1 ? -20 : 30)).expectTrue (Capture<T> (&end));
        if (config == 3) host.assertTrue (hart::EqualsTo<T> (PointSignal<T>(), 0.001));
        if (config == 2) host.saveOutputTo (file, hart::Save::always);
        auto back = host.process();
        log += shown (*back);
    });
    if (config == 2) { log += fmt (" %016llx", (unsigned long long) mc::Hash().add (readFile (file)).h); unlink (file.c_str()); }
    return log + text (seen) + text (block) + text (end);
}

static std::string outer (int config, bool wide) { return wide ? outer<double> (config) : outer<float> (config); }

// -- What each of them gives alone, in a process of its own

static Log alone[numKinds][2][2];
static std::string aloneOuter[numOuter][2];

static std::string aloneText (int kind, int v, bool wide)
{
    if (kind >= 1000) return outer (kind - 1000, wide);
    std::string s;
    auto script = makeScript (kind, v, wide);
    for (int i = 0; i < numSteps; ++i) s += script->step (i) + "\x1e";
    return s;
}

static std::string self;

static void findAlone (const std::string& scratch)
{
    struct Job { int kind, v; bool wide; };
    std::vector<Job> jobs;
    for (int kind = 0; kind < numKinds; ++kind)
        for (int v = 0; v < 2; ++v)
            for (int wide = 0; wide < 2; ++wide) jobs.push_back ({ kind, v, wide != 0 });
    for (int c = 0; c < numOuter; ++c)
        for (int wide = 0; wide < 2; ++wide) jobs.push_back ({ 1000 + c, 0, wide != 0 });
    auto file = [&] (const Job& j) { return scratch + fmt ("/alone-%d-%d-%d", j.kind, j.v, (int) j.wide); };
    size_t next = 0, running = 0;
    while (next < jobs.size() || running > 0)
    {
        if (next < jobs.size() && running < 8)
        {
            const auto& j = jobs[next++];
            const pid_t pid = fork();
            if (pid == 0)
            {
                execl (self.c_str(), self.c_str(), "--alone", std::to_string (j.kind).c_str(), std::to_string (j.v).c_str(), std::to_string ((int) j.wide).c_str(), file (j).c_str(), scratch.c_str(), (char*) nullptr);
                _exit (9);
            }
            ++running;
            continue;
        }
        int status = 0;
        wait (&status);
        --running;
    }
    for (auto& j : jobs)
    {
        std::string s = exists (file (j)) ? readFile (file (j)) : "died\x1e";
        if (j.kind >= 1000) { aloneOuter[j.kind - 1000][j.wide] = s; continue; }
        for (size_t at; (at = s.find ('\x1e')) != std::string::npos; s.erase (0, at + 1)) alone[j.kind][j.v][j.wide].push_back (s.substr (0, at));
    }
}

// -- The rest of the process

static std::string processState()
{
    std::string s;
    for (auto* o : { &std::cout, &std::cerr, &std::clog })
        s += fmt ("stream: flags %x precision %d width %d fill %d locale %s tie %d state %d; ", (unsigned) o->flags(), (int) o->precision(), (int) o->width(), (int) o->fill(), o->getloc().name().c_str(), (int) (o->tie() != nullptr), (int) o->rdstate());
    s += fmt ("locales %s %s; ", std::locale().name().c_str(), setlocale (LC_ALL, nullptr));
    char dir[4096];
    s += std::string ("directory ") + (getcwd (dir, sizeof dir) ? dir : "?") + "; ";
    const mode_t mask = umask (022);
    umask (mask);
    s += fmt ("umask %o rounding %d ", (unsigned) mask, fegetround());
#if defined (__x86_64__)
    s += fmt ("mxcsr %x ", (unsigned) (__builtin_ia32_stmxcsr() & ~0x3fu));
#endif
    for (int n : { SIGINT, SIGTERM, SIGFPE, SIGPIPE, SIGCHLD, SIGXFSZ })
    {
        struct sigaction a {};
        sigaction (n, nullptr, &a);
        s += fmt ("signal %d %p; ", n, (void*) a.sa_handler);
    }
    size_t variables = 0;
    for (char** e = environ; *e != nullptr; ++e) ++variables;
    s += fmt ("%zu variables; sync %d; terminate %d", variables, 0, (int) (std::get_terminate() != nullptr));
    return s;
}

// Numbers which the program gets from the C library must not change because HART took some
static int randomNumbers (bool start)
{
    if (start) { srand (4711); return 0; }
    return rand();
}

static void judgeProcess (Run& run, const std::string& before, const std::string& what)
{
    const int got = randomNumbers (false);
    static const int expected = [] { randomNumbers (true); return randomNumbers (false); }();
    const auto after = processState();
    MC_REQUIRE (run, after == before, "process", what + ": the state of the process was " + before + " and is " + after);
    MC_REQUIRE (run, got == expected, "rand", what + ": somebody took numbers from rand()");
}

static void judge (Run& run, const std::string& got, const std::string& want, const char* key, const std::string& what)
{
    MC_REQUIRE (run, got.find (wrong) == std::string::npos, key, what + ": a file which was replaced is played as before: " + got);
    if (got == want) return;
    size_t at = 0;
    while (at < got.size() && at < want.size() && got[at] == want[at]) ++at;
    at = at > 30 ? at - 30 : 0;
    MC_REQUIRE (run, false, key, what + ": '..." + got.substr (at, 80) + "' instead of '..." + want.substr (at, 80) + "'");
}

// -- Exploration

static const char* byteName[] = { "whatever it was", "zeros", "ones", "signalling" };
static void fillMemory (int which) { static const int bytes[] = { -1, 0, 255, 0x7f }; fillByte = bytes[which]; }

struct Junk
{
    std::vector<void*> blocks;
    explicit Junk (int n) { for (int i = 0; i < n; ++i) blocks.push_back (malloc ((size_t) (i % 7 + 1) * 40)); for (size_t i = 0; i < blocks.size(); i += 2) { free (blocks[i]); blocks[i] = nullptr; } }
    ~Junk() { for (void* p : blocks) free (p); }
};

// Two objects, all the ways of taking their steps in turn
static void pairs (Run& run)
{
    const int a = run.choose (numKinds, "a"), b = run.choose (numKinds, "b");
    const bool wide = (a == b || run.thorough) && run.flag ("double");
    fillMemory (0);
    const auto before = processState();
    randomNumbers (true);
    std::unique_ptr<Script> scripts[2] { makeScript (a, 0, wide), makeScript (b, 1, wide) };
    int done[2] = {};
    std::string order;
    while (done[0] < numSteps || done[1] < numSteps)
    {
        const int k = done[0] == numSteps ? 1 : done[1] == numSteps ? 0 : (int) run.flag ("second");
        order += k ? 'b' : 'a';
        const auto got = scripts[k]->step (done[k]);
        run.step();
        const auto& want = alone[k ? b : a][k][wide];
        judge (run, got, want.size() > (size_t) done[k] ? want[(size_t) done[k]] : "?", "pair", kindName (a, 0) + " as a, " + kindName (b, 1) + " as b, steps " + order + fmt (": step %d of %c", done[k], 'a' + k));
        ++done[k];
    }
    judgeProcess (run, before, kindName (a, 0) + " and " + kindName (b, 1));
    run.state (mc::Hash().add (a).add (b).add (order).add (wide));
}

// More of the same kind at once
static void three (Run& run)
{
    const int kind = run.choose (numKinds, "kind"), other = run.choose (numKinds, "other");
    fillMemory (0);
    const auto before = processState();
    randomNumbers (true);
    std::unique_ptr<Script> scripts[3] { makeScript (kind, 0, false), makeScript (kind, 1, false), makeScript (other, 0, false) };
    // In turn, in each order of the three, and the last of them may come late
    static const int orders[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
    const auto* order = orders[run.choose (6, "order")];
    const int late = run.choose (numSteps, "late");
    const int kinds[] = { kind, kind, other }, versions[] = { 0, 1, 0 };
    for (int turn = 0; turn < numSteps + late; ++turn)
        for (int k = 0; k < 3; ++k)
        {
            const int which = order[k], i = which == order[2] ? turn - late : turn;
            // Two which write the same files are not independent
            if (which == 2 && other == kind) continue;
            if (i < 0 || i >= numSteps) continue;
            const auto got = scripts[which]->step (i);
            run.step();
            judge (run, got, alone[kinds[which]][versions[which]][0][(size_t) i], "three", kindName (kind, 0) + ", " + kindName (kind, 1) + " and " + kindName (other, 0) + fmt (": step %d of %d", i, which));
        }
    judgeProcess (run, before, kindName (kind, 0) + " and " + kindName (other, 0));
    run.state (mc::Hash().add (kind).add (other).add (late).add (order[0]).add (order[1]));
}

// With other contents of fresh memory, and other addresses
static void memory (Run& run)
{
    const int kind = run.choose (numKinds + numOuter, "kind");
    const int v = kind < numKinds ? run.choose (2, "version") : 0;
    const bool wide = run.flag ("double");
    const int byte = run.choose (4, "memory"), junk = run.choose (3, "junk") * 50;
    Junk j (junk);
    fillMemory (byte);
    const auto before = processState();
    randomNumbers (true);
    const std::string what = (kind < numKinds ? kindName (kind, v) : fmt ("outer %d", kind - numKinds)) + " in memory of " + byteName[byte];
    if (kind >= numKinds) judge (run, outer (kind - numKinds, wide), aloneOuter[kind - numKinds][wide], "memory", what);
    else
    {
        auto script = makeScript (kind, v, wide);
        for (int i = 0; i < numSteps; ++i) { judge (run, script->step (i), alone[kind][v][wide][(size_t) i], "memory", what + fmt (": step %d", i)); run.step(); }
    }
    fillMemory (0);
    judgeProcess (run, before, what);
    run.state (mc::Hash().add (kind).add (v).add (byte).add (junk).add (wide));
}

// Another object used, or test run, within a callback of a test
static void nested (Run& run)
{
    const int config = run.choose (numOuter, "outer"), kind = run.choose (numKinds + numOuter, "inner");
    const bool wide = run.flag ("double");
    const int v = kind < numKinds ? run.choose (2, "version") : 0;
    fillMemory (0);
    const int numInner = run.thorough ? 2 : 1;
    for (long at = 1; at < 100000; ++at)
    {
        long second = 0;
        bool more = false;
        do
        {
            const auto before = processState();
            randomNumbers (true);
            long count = 0;
            bool reached = false, reachedSecond = false;
            Log got;
            std::string gotOuter;
            onPoint = [&]
            {
                ++count;
                if (count != at && count != at + second) return;
                (count == at ? reached : reachedSecond) = true;
                auto mine = std::move (onPoint);
                onPoint = nullptr;
                got.clear();
                if (kind >= numKinds) gotOuter = outer (kind - numKinds, wide);
                else { auto script = makeScript (kind, v, wide); for (int i = 0; i < numSteps; ++i) got.push_back (script->step (i)); }
                onPoint = std::move (mine);
            };
            const auto result = outer (config, wide);
            onPoint = nullptr;
            run.step();
            if (! reached) return;
            const std::string what = (kind < numKinds ? kindName (kind, v) : fmt ("outer %d", kind - numKinds)) + fmt (" within test %d, at callback %ld%s", config, at, second ? fmt (" and %ld", at + second).c_str() : "");
            judge (run, result, aloneOuter[config][wide], "nested", what + ": the test gave");
            if (kind >= numKinds) judge (run, gotOuter, aloneOuter[kind - numKinds][wide], "nested", what + ": the inner test gave");
            else for (int i = 0; i < numSteps; ++i) judge (run, got[(size_t) i], alone[kind][v][wide][(size_t) i], "nested", what + fmt (": step %d gave", i));
            judgeProcess (run, before, what);
            run.state (mc::Hash().add (config).add (kind).add (v).add (wide).add ((uint64_t) at).add ((uint64_t) second));
            more = numInner > 1 && (second == 0 || reachedSecond);
            second += 1;
        }
        while (more);
    }
}

// Two tests in two threads, one running at a time, which change at chosen callbacks
static void threads (Run& run)
{
    const int configs[2] = { run.choose (numOuter, "first"), run.choose (numOuter, "second") };
    const bool wide = run.flag ("double");
    constexpr int most = 80;
    const int numSwitches = run.thorough ? 3 : 2;
    std::vector<long> switches;
    for (int i = 0; i < numSwitches; ++i) switches.push_back (run.choose (most, "callbacks until the change"));
    fillMemory (0);
    const auto before = processState();
    randomNumbers (true);

    std::mutex mutex;
    std::condition_variable changed;
    int running = 0;
    bool ended[2] = {};
    size_t next = 0;
    long count = 0;
    std::string got[2];
    auto body = [&] (int me)
    {
        {
            std::unique_lock<std::mutex> lock (mutex);
            changed.wait (lock, [&] { return running == me; });
        }
        onPoint = [&, me]
        {
            std::unique_lock<std::mutex> lock (mutex);
            if (next >= switches.size() || count++ < switches[next] || ended[1 - me]) return;
            ++next;
            count = 0;
            running = 1 - me;
            changed.notify_all();
            changed.wait (lock, [&] { return running == me; });
        };
        got[me] = outer (configs[me], wide);
        onPoint = nullptr;
        std::unique_lock<std::mutex> lock (mutex);
        ended[me] = true;
        running = 1 - me;
        changed.notify_all();
    };
    workDir();
    std::thread first (body, 0), second (body, 1);
    first.join();
    second.join();
    run.step();
    std::string what = fmt ("tests %d and %d in two threads, changing after", configs[0], configs[1]);
    for (long n : switches) what += fmt (" %ld", n);
    for (int k = 0; k < 2; ++k) judge (run, got[k], aloneOuter[configs[k]][wide], "threads", what + fmt (" callbacks: number %d gave", k));
    MC_REQUIRE (run, hart::ExpectationFailureMessages::get().empty(), "threads", what + ": messages in another thread");
    judgeProcess (run, before, what);
    run.state (mc::Hash().add (configs[0]).add (configs[1]).add (wide).add ((uint64_t) next).add ((uint64_t) switches[0]).add ((uint64_t) switches[1]));
}

int main (int argc, char** argv)
{
    if (argc == 7 && std::string (argv[1]) == "--alone")
    {
        mc::scratchDir() = argv[6];
        Cli().apply();
        const auto s = aloneText (atoi (argv[2]), atoi (argv[3]), atoi (argv[4]) != 0);
        writeFile (argv[5], s);
        std::filesystem::remove_all (workDir());
        return 0;
    }

    self = "/proc/self/exe";
    char path[4096];
    const ssize_t n = readlink ("/proc/self/exe", path, sizeof path);
    if (n > 0) self.assign (path, (size_t) n);
    for (int i = 1; i + 1 < argc; ++i)
        if (std::string (argv[i]) == "--scratch") findAlone (argv[i + 1]);

    mc::Options o;
    o.id = "C25";
    o.unitDepthQuick = 3;
    o.unitDepthThorough = 3;
    return mc::main (argc, argv, o, [] (Run& run)
    {
        Cli().apply();
        hart::ExpectationFailureMessages::clear();
        switch (run.choose (5, "mode"))
        {
            case 0: return pairs (run);
            case 1: return three (run);
            case 2: return memory (run);
            case 3: return nested (run);
            default: return threads (run);
        }
    });
}
