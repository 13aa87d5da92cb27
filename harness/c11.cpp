// C11: effect chains apply every effect once, in order, whichever way they got attached
#include "stock.hpp"

using namespace stock;
using mc::Run;

static size_t audioCalls = 0;   // Of the spies below

// Adds a number which depends on the frame and channel; or refuses
template <typename T>
class Adder : public hart::DSP<T>
{
public:
    explicit Adder (int refusedThing = 0): refuses (refusedThing) {}
    void prepare (double, size_t, size_t, size_t) override {}
    void process (const hart::AudioBuffer<T>& input, hart::AudioBuffer<T>& output, const hart::EnvelopeBuffers&) override
    {
        ++audioCalls;
        for (size_t f = 0; f < output.getNumFrames(); ++f, ++position)
            for (size_t c = 0; c < output.getNumChannels(); ++c) output[c][f] = input[c][f] + (T) added (c, position);
    }
    static double added (size_t c, size_t f) { return (double) ((f % 16) + 3 * (c % 4) + 1) / 16; }
    void reset() override { position = 0; }
    void setValue (int, double) override {}
    double getValue (int) const override { return 0; }
    bool supportsChannelLayout (size_t in, size_t out) const override { return refuses != 1 && in == out; }
    bool supportsSampleRate (double) const override { return refuses != 2; }
    void represent (std::ostream& stream) const override { stream << "Adder()"; }
    std::unique_ptr<hart::DSP<T>> copy() const override { return std::unique_ptr<hart::DSP<T>> (new Adder (*this)); }
    std::unique_ptr<hart::DSP<T>> move() override { return std::unique_ptr<hart::DSP<T>> (new Adder (std::move (*this))); }
private:
    int refuses;
    size_t position = 0;
};

// A source which may refuse
template <typename T>
class Source : public hart::Signal<T>
{
public:
    explicit Source (int refusedThing = 0): refuses (refusedThing) {}
    bool supportsNumChannels (size_t) const override { return refuses != 1; }
    bool supportsSampleRate (double) const override { return refuses != 2; }
    void prepare (double, size_t, size_t) override {}
    void renderNextBlock (hart::AudioBuffer<T>& output) override
    {
        ++audioCalls;
        for (size_t f = 0; f < output.getNumFrames(); ++f, ++position)
            for (size_t c = 0; c < output.getNumChannels(); ++c) output[c][f] = (T) tableValue (c, position);
    }
    void reset() override { position = 0; }
    void represent (std::ostream& stream) const override { stream << "Source()"; }
    std::unique_ptr<hart::Signal<T>> copy() const override { return std::unique_ptr<hart::Signal<T>> (new Source (*this)); }
    std::unique_ptr<hart::Signal<T>> move() override { return std::unique_ptr<hart::Signal<T>> (new Source (std::move (*this))); }
private:
    int refuses;
    size_t position = 0;
};

constexpr int numKinds = 5;
constexpr int numStyles = 9;
constexpr double rate = 1024;
static const char* kindNames[] = { "GainLinear", "HardClip", "Adder", "GainDb", "GainLinear with envelope" };

static Curve chainCurve() { Curve c; c.start = 2; c.segments = { { false, -0.5, 5, Shape::linear }, { true, 0, 2, Shape::linear }, { false, 1.5, 3, Shape::linear } }; return c; }

static double applied (int kind, double x, size_t c, size_t f)
{
    switch (kind)
    {
        case 0: return x * -1.5;
        case 1: return std::min (std::max (x, -std::pow (10, -6 / 20.0)), std::pow (10, -6 / 20.0));
        case 2: return x + Adder<double>::added (c, f);
        case 3: return x * std::pow (10, 3 / 20.0);
        default: return x * chainCurve().at ((double) f + 1);
    }
}

template <typename T>
static Audio<T> expected (const std::vector<int>& chain, size_t channels, size_t frames)
{
    auto a = silence<T> (channels, frames);
    for (size_t c = 0; c < channels; ++c)
        for (size_t f = 0; f < frames; ++f)
        {
            double x = tableValue (c, f);
            for (int k : chain) x = applied (k, x, c, f);
            a[c][f] = (T) x;
        }
    return a;
}

template <typename T, typename D, typename Setter>
static void attachValue (hart::Signal<T>& s, D effect, int style, Setter spoil)
{
    switch (style)
    {
        case 0: { const hart::DSP<T>& e = effect; s.followedBy (e); spoil (effect); break; }
        case 1: s.followedBy (std::move (effect)); break;
        case 2: s.followedBy (effect); spoil (effect); break;
        case 3: s.followedBy (std::unique_ptr<hart::DSP<T>> (new D (effect))); break;
        case 4: s >> effect; spoil (effect); break;
        case 5: { const hart::DSP<T>& e = effect; s >> e; spoil (effect); break; }
        case 6: s >> std::move (effect); break;
        case 7: s >> effect.copy(); break;
        default: s.followedBy (effect.move()); break;
    }
}

template <typename T>
static void attach (hart::Signal<T>& s, int kind, int style)
{
    switch (kind)
    {
        case 0: return attachValue (s, hart::GainLinear<T> (-1.5), style, [] (hart::GainLinear<T>& e) { e.setValue (0, 50); });
        case 1: return attachValue (s, hart::HardClip<T> (-6), style, [] (hart::HardClip<T>& e) { e.setValue (0, -60); });
        case 2: return attachValue (s, Adder<T>(), style, [] (Adder<T>& e) { e = Adder<T> (1); });
        case 3: return attachValue (s, hart::GainDb<T> (3), style, [] (hart::GainDb<T>& e) { e.setValue (0, -100); e.withEnvelope (0, hart::SegmentedEnvelope (-50)); });
        default:
        {
            hart::GainLinear<T> g (77);
            g.withEnvelope (0, chainCurve().make (1 / rate));
            return attachValue (s, std::move (g), style, [] (hart::GainLinear<T>& e) { e.withEnvelope (0, hart::SegmentedEnvelope (9)); });
        }
    }
}

template <typename T> double tolerance() { return sizeof (T) == 4 ? 1e-5 : 1e-10; }

static std::string names (const std::vector<int>& chain) { std::string s = "Source"; for (int k : chain) s += std::string (" >> ") + kindNames[k]; return s; }

template <typename T>
static void verify (Run& run, hart::Signal<T>& s, const std::vector<int>& chain, size_t channels, size_t frames, size_t block, const std::string& how)
{
    const auto got = renderFresh (s, rate, channels, frames, block);
    run.step();
    const auto d = difference (got, expected<T> (chain, channels, frames), tolerance<T>());
    MC_REQUIRE (run, d.empty(), "chain", names (chain) + fmt (" on %zu channels in blocks of %zu (", channels, block) + how + "): " + d);
    mc::Hash h;
    for (int k : chain) h.add (k);
    run.state (h.add ((uint64_t) channels));
}

template <typename T>
static void through (Run& run, const hart::Signal<T>& s, const std::vector<int>& chain, size_t channels, size_t frames, size_t block, const std::string& how)
{
    Audio<T> got;
    hart::AudioTestBuilder<T> host { Through<T>() };
    host.withSampleRate (rate).withDuration ((double) frames / rate).withBlockSize (block).withInputChannels (channels).withOutputChannels (channels).withInputSignal (s).expectTrue (Capture<T> (&got)).process();
    run.step();
    const auto d = difference (got, expected<T> (chain, channels, frames), tolerance<T>());
    MC_REQUIRE (run, d.empty(), "host", names (chain) + fmt (" through the host on %zu channels in blocks of %zu (", channels, block) + how + "): " + d);
}

// All the chains of up to three effects, attached in all the ways
template <typename T>
static void chains (Run& run)
{
    const int count = run.choose (run.thorough ? 5 : 4, "effects");
    Source<T> s;
    std::vector<int> chain;
    std::string how;
    for (int i = 0; i < count; ++i)
    {
        const int kind = run.choose (numKinds, "effect");
        const int style = count == 4 ? (run.choose (3, "style") * 3 + i) % numStyles : run.choose (numStyles, "style");
        attach (s, kind, style);
        chain.push_back (kind);
        how += fmt ("%d ", style);
    }
    verify<T> (run, s, chain, 2, 9, 4, how);
    if (count <= 2)
    {
        for (size_t channels : { 1, 3, 8, 128 }) verify<T> (run, s, chain, channels, 9, 100, how);
        through<T> (run, s, chain, 3, 9, 2, how);
    }
    auto copy = s.copy();
    verify<T> (run, *copy, chain, 2, 9, 9, how + ", copied");
    auto moved = s.move();
    verify<T> (run, *moved, chain, 1, 9, 5, how + ", moved");
}

// Temporaries, as documentation shows
template <typename T>
static void temporaries (Run& run)
{
    const int first = run.choose (numKinds, "first"), second = run.choose (numKinds, "second");
    auto effect = [] (int kind) -> std::unique_ptr<hart::DSP<T>>
    {
        if (kind == 0) return std::unique_ptr<hart::DSP<T>> (new hart::GainLinear<T> (-1.5));
        if (kind == 1) return std::unique_ptr<hart::DSP<T>> (new hart::HardClip<T> (-6));
        if (kind == 2) return std::unique_ptr<hart::DSP<T>> (new Adder<T>());
        if (kind == 3) return std::unique_ptr<hart::DSP<T>> (new hart::GainDb<T> (3));
        auto g = std::unique_ptr<hart::DSP<T>> (new hart::GainLinear<T> (77));
        g->withEnvelope (0, chainCurve().make (1 / rate));
        return g;
    };
    const std::vector<int> chain { first, second };
    auto run1 = [&] (const hart::Signal<T>& s, const char* how) { for (size_t block : { 1, 4, 20 }) through<T> (run, s, chain, 2, 12, block, how); auto c = s.copy(); verify<T> (run, *c, chain, 2, 12, 5, how); };
    const auto e1 = effect (first), e2 = effect (second);
    const hart::DSP<T>& r1 = *e1;
    const hart::DSP<T>& r2 = *e2;
    run1 (Source<T>() >> r1 >> r2, "temporary >> reference >> reference");
    run1 (Source<T>() >> effect (first) >> effect (second), "temporary >> pointer >> pointer");
    run1 (Source<T>() >> r1 >> effect (second), "temporary >> reference >> pointer");
    run1 (Source<T>().followedBy (r1).followedBy (effect (second)), "temporary.followedBy (reference).followedBy (pointer)");
    run1 (Source<T>().followedBy (effect (first)) >> r2, "temporary.followedBy (pointer) >> reference");
    run.state (mc::Hash().add ("temporaries").add (first).add (second));
}

// Copies of a signal, and appending to one of them
template <typename T>
static void copies (Run& run)
{
    const int depth = run.thorough ? 6 : 5;
    std::unique_ptr<Source<T>> s[2] { std::unique_ptr<Source<T>> (new Source<T>()), std::unique_ptr<Source<T>> (new Source<T>()) };
    std::vector<int> model[2];
    std::string history;
    for (int i = 0; i < depth; ++i)
    {
        const int op = run.choose (14, "operation");
        if (op < 6)
        {
            const int slot = op & 1, kind = (op >> 1) == 0 ? 0 : (op >> 1) == 1 ? 2 : (i % 2 ? 1 : 4), style = (i * 4 + op) % numStyles;
            attach (*s[slot], kind, style);
            model[slot].push_back (kind);
            history += fmt ("%c followed by %s (style %d), ", 'a' + slot, kindNames[kind], style);
        }
        else if (op < 8) { const int from = op & 1; s[1 - from].reset (static_cast<Source<T>*> (s[from]->copy().release())); model[1 - from] = model[from]; history += fmt ("copy %c, ", 'a' + from); }
        else if (op < 10) { const int from = op & 1; *s[1 - from] = *s[from]; model[1 - from] = model[from]; history += fmt ("assign %c, ", 'a' + from); }
        else if (op < 12)
        {
            const int from = op & 1;
            s[1 - from].reset (i % 2 ? new Source<T> (std::move (*s[from])) : static_cast<Source<T>*> (s[from]->move().release()));
            model[1 - from] = model[from];
            s[from].reset (new Source<T>());
            model[from].clear();
            history += fmt ("move %c, ", 'a' + from);
        }
        else if (op == 12) { auto& same = *s[0]; *s[0] = same; history += "assign a to itself, "; }
        else
        {
            *s[1] = std::move (*s[0]);
            model[1] = model[0];
            s[0].reset (new Source<T>());
            model[0].clear();
            history += "move-assign a, ";
        }
        if (i + 2 >= depth) for (int k = 0; k < 2; ++k) verify<T> (run, *s[k], model[k], 2, 7, 3, history);
    }
}

// Something which is not supported anywhere in the chain
template <typename T>
static void refusals (Run& run)
{
    const int count = run.choose (4, "effects");
    const int bad = run.choose (count + 1, "refusing");   // Last one is the signal
    const int thing = run.choose (2, "thing") + 1;
    const size_t channels = run.pick ({ (size_t) 1, (size_t) 2, (size_t) 7 }, "channels");
    const int where = run.choose (3, "where");
    Source<T> s (bad == count ? thing : 0);
    for (int i = 0; i < count; ++i)
    {
        if (i % 2 && bad != i) s.followedBy (hart::GainLinear<T> (2));
        else s.followedBy (Adder<T> (bad == i ? thing : 0));
    }
    audioCalls = 0;
    Audio<T> got;
    const bool refused = throws ([&]
    {
        if (where == 2) { s.resetWithDSPChain(); s.prepareWithDSPChain (rate, channels, 4); return; }
        hart::AudioTestBuilder<T> host { Through<T>() };
        host.withSampleRate (rate).withDuration (8 / rate).withBlockSize (4).withInputChannels (channels).withOutputChannels (channels);
        if (where == 0) host.withInputSignal (s);
        else { host.withInputSignal (hart::Silence<T>()); host.expectTrue (hart::EqualsTo<T> (s, 100)); }
        host.process();
    });
    run.step();
    MC_REQUIRE (run, refused, "not-refused", fmt ("a signal with %d effects, of which number %d does not support the %s, is not refused", count, bad, thing == 1 ? "channel layout" : "sample rate"));
    MC_REQUIRE (run, audioCalls == 0, "audio", "audio was processed before the test was refused");
    run.state (mc::Hash().add ("refused").add (count).add (bad).add (thing).add ((uint64_t) channels).add (where));
}

// Stock effects which do not support a layout are refused as well, and long chains work
template <typename T>
static void longChains (Run& run)
{
    const int count = run.pick ({ 5, 16, 60 }, "effects");
    const size_t channels = run.pick ({ (size_t) 1, (size_t) 2, (size_t) 64 }, "channels");
    const int phase = run.choose (3, "phase");
    Source<T> s;
    std::vector<int> chain;
    for (int i = 0; i < count; ++i) { const int kind = (i * 2 + phase) % 3 == 0 ? 1 : (i + phase) % 3; attach (s, kind, (i + phase) % numStyles); chain.push_back (kind); }
    for (size_t block : { 1, 33, 1000 })
    {
        verify<T> (run, s, chain, channels, 200, block, "long");
        through<T> (run, s, chain, channels, 200, block, "long");
    }
}

template <typename T>
static void body (Run& run)
{
    switch (run.choose (5, "mode"))
    {
        case 0: return chains<T> (run);
        case 1: return temporaries<T> (run);
        case 2: return copies<T> (run);
        case 3: return refusals<T> (run);
        default: return longChains<T> (run);
    }
}

int main (int argc, char** argv)
{
    mc::Options o;
    o.id = "C11";
    o.unitDepthQuick = 4;
    o.unitDepthThorough = 4;
    return mc::main (argc, argv, o, [] (Run& run)
    {
        Cli().apply();
        if (run.flag ("double")) body<double> (run); else body<float> (run);
    });
}
