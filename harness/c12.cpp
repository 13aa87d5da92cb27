// C12: stock effects compute gain and clipping for every layout and parameter
#include "stock.hpp"

using namespace stock;
using mc::Run;

enum Kind { gainDb, gainLinear, hardClip };
static const char* kindNames[] = { "GainDb", "GainLinear", "HardClip" };

static double ratio (double dB) { return dB < -120 ? 0 : std::pow (10.0, dB / 20); }
static double strength (Kind k, double parameter) { return k == gainLinear ? parameter : ratio (parameter); }

template <typename T> double tolerance() { return sizeof (T) == 4 ? 1e-6 : 1e-12; }

// Empty, or what is wrong
template <typename T>
static std::string wrong (Kind k, T in, T out, double s)
{
    bool ok;
    if (k == hardClip)
    {
        const double x = in, margin = 1e-6 * std::max (s, 1e-30);
        if (std::abs (x) < s - margin) ok = out == in;
        else ok = std::abs ((double) out - std::copysign (std::min (std::abs (x), s), x)) <= 2 * margin || (double) out == std::copysign (s, x);
        if (std::abs (x) > s + margin && std::isfinite (s)) ok = ok && std::abs (std::abs ((double) out) - s) <= tolerance<T>() * std::max (s, 1e-30);
    }
    else
    {
        const double want = (double) in * s;
        if (std::isnan (want)) return {};
        if (std::abs (want) > std::numeric_limits<T>::max() * 0.999) return {};
        ok = std::isinf (want) ? (double) out == want : std::abs ((double) out - want) <= tolerance<T>() * std::abs (want) + 1e-37;
        if (s == 0) ok = out == 0;
    }
    return ok ? std::string() : fmt ("%.12g becomes %.12g with %.12g (linear)", (double) in, (double) out, s);
}

template <typename T>
static std::unique_ptr<hart::DSP<T>> make (Kind k, double parameter, bool byDefault = false)
{
    using P = std::unique_ptr<hart::DSP<T>>;
    if (byDefault) return k == gainDb ? P (new hart::GainDb<T>()) : k == gainLinear ? P (new hart::GainLinear<T>()) : P (new hart::HardClip<T>());
    return k == gainDb ? P (new hart::GainDb<T> (parameter)) : k == gainLinear ? P (new hart::GainLinear<T> (parameter)) : P (new hart::HardClip<T> (parameter));
}

static std::vector<double> parameters (Kind k)
{
    const double inf = std::numeric_limits<double>::infinity();
    if (k == gainLinear) return { 1, 0, -1, 0.5, -2.25, 3, 1e-7, 1e6 };
    return { 0, -6, 6, -120, -120.5, -1000, -119.5, 40, -inf };
}

template <typename T>
static std::vector<T> samples (Kind k, double s)
{
    std::vector<T> v { (T) 0, (T) 1, (T) -1, (T) 0.5, (T) -0.25, (T) 3, (T) -7.5, (T) 1e-7, (T) -1e-10, (T) 1000.25 };
    if (k == hardClip)
        for (double f : { 1.0, 0.999, 1.001, 0.99999, 1.00001, 2.0, 0.5 }) { v.push_back ((T) (s * f)); v.push_back ((T) (-s * f)); }
    if (k == hardClip) { v.push_back (std::numeric_limits<T>::infinity()); v.push_back (-std::numeric_limits<T>::infinity()); v.push_back (std::numeric_limits<T>::max()); }
    return v;
}

static bool reads (Kind k, double got, double parameter)
{
    if (k != gainLinear && parameter <= -120) return got <= -120 + 1e-9;
    return std::abs (got - parameter) <= 1e-9 * std::max (1.0, std::abs (parameter));
}

// Histories of setting parameters, attaching envelopes and running audio
template <typename T>
static void histories (Run& run)
{
    const Kind k = (Kind) run.choose (3, "effect");
    const auto params = parameters (k);
    const int created = run.choose (4, "created with");
    double current = created == 0 ? (k == gainLinear ? 1 : 0) : params[(size_t) created];
    auto d = make<T> (k, current, created == 0);
    std::string history = fmt ("%s (%g)", kindNames[k], current);
    bool enveloped = false;
    Curve curve;
    static const std::vector<std::pair<size_t, size_t>> layouts { { 1, 1 }, { 2, 2 }, { 1, 3 } };
    const double rate = 1024;

    for (int i = 0; i < (run.thorough ? 5 : 4); ++i)
    {
        const int op = run.choose (11, "operation");
        if (op < 4) { const double v = params[(size_t) (op * 2 + i) % params.size()]; d->setValue (0, v); current = v; history += fmt (", set 0 to %g", v); }
        else if (op == 4) { for (int id : { 1, -1, 2, 1000 }) d->setValue (id, 33); history += ", set others"; }
        else if (op == 5)
        {
            if (k == hardClip) return;
            curve = stock::envelope (i % 3, 10, k == gainDb);
            d->withEnvelope (0, curve.make (1 / rate));
            enveloped = true;
            history += ", envelope";
        }
        else if (op == 6) { d = d->copy(); history += ", copy"; }
        else if (op == 7) { d = d->move(); history += ", move"; }
        else
        {
            const auto layout = layouts[(size_t) (op - 8)];
            if (k == hardClip && layout.first != layout.second) return;
            const double s = strength (k, current);
            const auto values = samples<T> (k, s);
            auto input = silence<T> (layout.first, 2 * values.size());
            for (size_t c = 0; c < layout.first; ++c) for (size_t f = 0; f < input[c].size(); ++f) input[c][f] = values[(f * (c + 1) + c) % values.size()];
            const auto output = runEffect (*d, input, rate, layout.second, i % 2 ? 3 : 1000);
            run.step();
            for (size_t c = 0; c < layout.second; ++c)
                for (size_t f = 0; f < input[0].size(); ++f)
                {
                    const auto w = wrong<T> (k, input[layout.first == layout.second ? c : 0][f], output[c][f], enveloped ? strength (k, curve.at ((double) f + 1)) : s);
                    MC_REQUIRE (run, w.empty(), "audio", history + fmt (", %zu to %zu channels: channel %zu frame %zu: ", layout.first, layout.second, c, f) + w);
                }
            history += ", run";
        }

        MC_REQUIRE (run, reads (k, d->getValue (0), current), "value", history + fmt (": reads back as %.12g instead of %.12g", d->getValue (0), current));
        run.state (mc::Hash().add ((int) k).add (current).add (enveloped).add (op >= 8 ? op : 0));
    }
}

// Every parameter against every sample, and in place
template <typename T>
static void values (Run& run)
{
    const Kind k = (Kind) run.choose (3, "effect");
    auto params = parameters (k);
    if (k != gainLinear) { for (double p : { -0.1, 0.1, -3.0, -20.0, -60.0, -90.25, -119.99, -120.01, 12.0, 24.5, 100.0 }) params.push_back (p); if (k == hardClip) params.push_back (std::numeric_limits<double>::infinity()); }
    else for (double p : { 0.1, -0.1, 0.7071067811865476, 1e-12, 1e10, 2.0 }) params.push_back (p);
    const double p = run.pick (params, "parameter");
    const int how = run.choose (3, "set");     // by construction, by setting, through the host
    const double s = strength (k, p);
    const auto list = samples<T> (k, s);
    const size_t frames = list.size();
    Audio<T> input (2, list);
    std::reverse (input[1].begin(), input[1].end());

    for (int inPlace = 0; inPlace < 2; ++inPlace)
    {
        Audio<T> output;
        auto d = make<T> (k, how == 0 ? p : 5);
        if (how == 2)
        {
            if (inPlace)
            {
                Play<T> source (input);
                const hart::DSP<T>& effect = *(d = make<T> (k, p));
                source.followedBy (effect);
                hart::AudioTestBuilder<T> host { Through<T>() };
                host.inStereo().withSampleRate (8).withDuration (frames / 8.0).withBlockSize (5).withInputSignal (source).expectTrue (Capture<T> (&output)).process();
            }
            else
            {
                hart::AudioTestBuilder<T> host (std::move (d));
                host.withValue (0, 3).withValue (7, 99).withValue (0, p).inStereo().withSampleRate (8).withDuration (frames / 8.0).withBlockSize (5).withInputSignal (Play<T> (input)).expectTrue (Capture<T> (&output)).process();
            }
        }
        else
        {
            if (how == 1) d->setValue (0, p);
            if (inPlace)
            {
                d->resetWithEnvelopes();
                d->prepareWithEnvelopes (8, 2, 2, frames);
                hart::AudioBuffer<T> b (2, frames);
                fill (b, input);
                d->processWithEnvelopes (b, b);
                output = toAudio (b);
            }
            else output = runEffect (*d, input, 8, 2, 7);
        }
        run.step();
        for (size_t c = 0; c < 2; ++c)
            for (size_t f = 0; f < frames; ++f)
            {
                const auto w = wrong<T> (k, input[c][f], output[c][f], s);
                MC_REQUIRE (run, w.empty(), "values", fmt ("%s (%g), set %d: ", kindNames[k], p, how) + w);
            }
    }
    run.state (mc::Hash().add ("values").add ((int) k).add (p).add (how));
}

// Channel layouts and sizes
template <typename T>
static void layouts (Run& run)
{
    const Kind k = (Kind) run.choose (3, "effect");
    static const std::vector<size_t> counts { 1, 2, 3, 4, 5, 6, 7, 8, 16, 127, 128 };
    const size_t in = run.pick (counts, "inputs"), out = run.pick (counts, "outputs");
    const bool envelope = k != hardClip && run.flag ("envelope");
    const bool supported = in == out || (k != hardClip && in == 1);
    const double p = k == gainLinear ? 0.75 : -6;
    auto d = make<T> (k, p);
    Curve curve = stock::envelope (0, 16, k == gainDb);
    if (envelope) d->withEnvelope (0, curve.make (1.0 / 8));
    MC_REQUIRE (run, d->supportsChannelLayout (in, out) == supported, "supports", fmt ("%s reports %zu to %zu channels as %s", kindNames[k], in, out, supported ? "unsupported" : "supported"));

    auto input = table<T> (in, 20);
    Audio<T> output;
    const bool refused = throws ([&]
    {
        hart::AudioTestBuilder<T> host (d->copy());
        host.withInputChannels (in).withOutputChannels (out).withSampleRate (8).withDuration (20 / 8.0).withBlockSize (6).withInputSignal (Play<T> (input)).expectTrue (Capture<T> (&output)).process();
    });
    run.step();
    MC_REQUIRE (run, refused == ! supported, "refused", fmt ("%s with %zu to %zu channels is %s by the host", kindNames[k], in, out, refused ? "refused" : "not refused"));

    hart::AudioBuffer<T> a (in, 4), b (out, 4);
    d->resetWithEnvelopes();
    const bool thrown = throws ([&] { d->prepareWithEnvelopes (8, in, out, 4); d->processWithEnvelopes (a, b); });
    MC_REQUIRE (run, thrown == ! supported, "refused", fmt ("%s with %zu to %zu channels is %s", kindNames[k], in, out, thrown ? "refused" : "not refused"));

    if (supported)
        for (size_t c = 0; c < out; ++c)
            for (size_t f = 0; f < 20; ++f)
            {
                const auto w = wrong<T> (k, input[in == out ? c : 0][f], output[c][f], strength (k, envelope ? curve.at ((double) f + 1) : p));
                MC_REQUIRE (run, w.empty(), "layout-audio", fmt ("%s with %zu to %zu channels: channel %zu frame %zu: ", kindNames[k], in, out, c, f) + w);
            }
    run.state (mc::Hash().add ("layouts").add ((int) k).add ((uint64_t) in).add ((uint64_t) out).add (envelope));
}

// Long pieces: every frame of every channel
template <typename T>
static void large (Run& run)
{
    const Kind k = (Kind) run.choose (3, "effect");
    struct Size { size_t in, out, frames, block; };
    static const std::vector<Size> sizes { { 1, 1, 100000, 1024 }, { 1, 1, 100000, 100000 }, { 1, 4, 20000, 4096 }, { 8, 8, 5000, 777 }, { 1, 1, 300, 1 }, { 128, 128, 300, 64 } };
    const auto size = run.pick (sizes, "size");
    const bool envelope = run.flag ("envelope");
    if (k == hardClip && (envelope || size.in != size.out)) return;
    const double p = k == gainLinear ? -1.25 : -4;
    auto d = make<T> (k, p);
    Curve curve = stock::envelope (0, size.frames, k == gainDb);
    if (envelope) d->withEnvelope (0, curve.make (1.0 / 48000));
    const auto input = table<T> (size.in, size.frames);
    const auto output = runEffect (*d, input, 48000, size.out, size.block);
    run.step();
    for (size_t c = 0; c < size.out; ++c)
        for (size_t f = 0; f < size.frames; ++f)
        {
            const double s = strength (k, envelope ? curve.at ((double) f + 1) : p);
            const T x = input[size.in == size.out ? c : 0][f];
            if (envelope) { MC_REQUIRE (run, std::abs ((double) output[c][f] - (double) x * s) < 1e-5, "large", fmt ("%s with envelope: channel %zu frame %zu of %zu", kindNames[k], c, f, size.frames)); }
            else { const auto w = wrong<T> (k, x, output[c][f], s); MC_REQUIRE (run, w.empty(), "large", fmt ("%s: channel %zu frame %zu of %zu: ", kindNames[k], c, f, size.frames) + w); }
        }
    run.state (mc::Hash().add ("large").add ((int) k).add ((uint64_t) size.frames).add ((uint64_t) size.block).add (envelope));
}

template <typename T>
static void body (Run& run)
{
    switch (run.choose (4, "mode"))
    {
        case 0: return histories<T> (run);
        case 1: return values<T> (run);
        case 2: return layouts<T> (run);
        default: return large<T> (run);
    }
}

int main (int argc, char** argv)
{
    mc::Options o;
    o.id = "C12";
    o.unitDepthQuick = 4;
    o.unitDepthThorough = 4;
    return mc::main (argc, argv, o, [] (Run& run)
    {
        Cli().apply();
        if (run.flag ("double")) body<double> (run); else body<float> (run);
    });
}
