// C13: generated signals follow their definition
#include "stock.hpp"

using namespace stock;
using mc::Run;

template <typename T> double tolerance() { return sizeof (T) == 4 ? 1e-6 : 1e-8; }

// Renders into buffers which hold something else already
template <typename T>
static Audio<T> renderOver (hart::Signal<T>& signal, double rate, size_t channels, size_t frames, size_t blockSize)
{
    signal.resetWithDSPChain();
    signal.prepareWithDSPChain (rate, channels, blockSize);
    Audio<T> audio (channels);
    for (size_t n : uniformBlocks (frames, blockSize))
    {
        hart::AudioBuffer<T> block (channels, n);
        for (size_t c = 0; c < channels; ++c) for (size_t f = 0; f < n; ++f) block[c][f] = (T) 77;
        signal.renderNextBlockWithDSPChain (block);
        append (audio, block);
    }
    return audio;
}

// The same through the host
template <typename T>
static Audio<T> renderHosted (const hart::Signal<T>& signal, double rate, size_t channels, size_t frames, size_t blockSize)
{
    Audio<T> got;
    hart::processAudioWith (Through<T>()).withSampleRate (rate).withInputChannels (channels).withOutputChannels (channels).withDuration ((double) frames / rate)
        .withBlockSize (blockSize).withInputSignal (signal).expectTrue (Capture<T> (&got)).process();
    return got;
}

template <typename T>
static void judge (Run& run, const Audio<T>& got, const std::vector<double>& want, size_t channels, const std::string& what)
{
    run.step();
    MC_REQUIRE (run, got.size() == channels, "channels", what + fmt (": %zu channels", got.size()));
    for (size_t c = 0; c < channels; ++c)
    {
        MC_REQUIRE (run, got[c].size() == want.size(), "frames", what + fmt (": %zu frames", got[c].size()));
        for (size_t f = 0; f < want.size(); ++f)
            MC_REQUIRE (run, std::abs ((double) got[c][f] - want[f]) <= tolerance<T>(), "value", what + fmt (": channel %zu frame %zu is %.12g instead of %.12g", c, f, (double) got[c][f], want[f]));
    }
}

static const long double twoPiL = 6.283185307179586476925286766559L;

static std::vector<double> sineWanted (double frequency, double phase, double rate, size_t frames)
{
    std::vector<double> v;
    // The step is taken in double precision, as it is what its accumulation makes audible
    for (size_t f = 0; f < frames; ++f)
        v.push_back ((double) std::sin (std::fmod ((long double) phase + (long double) f * (twoPiL * frequency / rate), twoPiL)));
    return v;
}

struct Sweep
{
    double duration = 1, start = 20, end = 20e3;
    bool log = true, loop = false;
    double phase = 0;

    std::vector<double> wanted (double rate, size_t frames) const
    {
        const size_t length = (size_t) std::floor (duration * rate + 0.5);
        std::vector<double> v;
        long double p = phase;
        size_t position = 0;
        bool backwards = false, ended = length == 0 || duration < 1e-8;

        for (size_t f = 0; f < frames; ++f)
        {
            if (ended) { v.push_back (0); continue; }
            v.push_back ((double) std::sin (p));
            if (++position == length)
            {
                position = 0;
                if (loop) backwards = ! backwards; else ended = true;
            }
            long double portion = (long double) position / (long double) rate / (long double) duration;
            if (backwards) portion = 1 - portion;
            const long double frequency = log ? (long double) start * std::pow ((long double) end / (long double) start, portion) : (long double) start + ((long double) end - (long double) start) * portion;
            p = std::fmod (p + twoPiL * frequency / (long double) rate, twoPiL);
        }
        return v;
    }

    template <typename T> hart::SineSweep<T> make() const
    {
        using S = hart::SineSweep<T>;
        return S (duration, start, end, log ? S::SweepType::log : S::SweepType::linear, loop ? S::Loop::yes : S::Loop::no, phase);
    }

    std::string str() const { return fmt ("sweep(%.9g s, %g Hz to %g Hz, %s%s, phase %g)", duration, start, end, log ? "log" : "linear", loop ? ", looped" : "", phase); }
    mc::Hash hash() const { return mc::Hash().add (duration).add (start).add (end).add (log).add (loop).add (phase); }
};

static const std::vector<size_t>& blockSizes()
{
    static const std::vector<size_t> b { 1, 2, 3, 5, 7, 8, 13, 40, 64 };
    return b;
}

template <typename T>
static void sines (Run& run)
{
    const double rate = run.pick ({ 8.0, 44100.0, 48000.0, 22050.5, 192000.0, 1000.0 }, "rate");
    const double relative = run.pick ({ 1.0 / 4, 1.0 / 3.3, 1.0 / 1000, 0.49, 0.5, 1.0, 1.7, 5.25, 1e-7 }, "frequency/rate");
    const double phase = run.pick ({ 0.0, 1.0, -1.0, 3.14159265358979, 6.28318530717958, 6.2831853071796, -6.2831853071796, 7.0, -100.0, 1000.0, 1e-9 }, "phase");
    const size_t channels = run.pick ({ (size_t) 1, (size_t) 2, (size_t) 5, (size_t) 128 }, "channels");
    const double frequency = relative * rate;
    hart::SineWave<T> signal (frequency, phase);
    const auto want = sineWanted (frequency, phase, rate, 40);
    const std::string what = fmt ("SineWave (%.12g Hz, %.12g rad) at %g Hz", frequency, phase, rate);
    for (size_t b : blockSizes())
        judge (run, renderOver<T> (signal, rate, channels, 40, b), want, channels, what + fmt (" in blocks of %zu", b));
    judge (run, renderHosted<T> (signal, rate, channels, 40, 7), want, channels, what + " through the host");
    run.state (mc::Hash().add (rate).add (relative).add (phase).add ((uint64_t) channels).add ((int) sizeof (T)));

    if (phase == 1.0 && channels <= 2)
    {
        const size_t frames = run.thorough ? 2000000 : 150000;
        judge (run, renderOver<T> (signal, rate, channels, frames, 4096), sineWanted (frequency, phase, rate, frames), channels, what + ", long");
    }

    if (phase == 0.0)
    {
        hart::SineWave<T> same (frequency);
        judge (run, renderOver<T> (same, rate, channels, 40, 16), want, channels, what + ", phase by default");
    }
}

// Periods in frames of the given rate
template <typename T>
static void sweeps (Run& run)
{
    Sweep s;
    const double rate = run.pick ({ 8.0, 44100.0, 1000.0, 22050.5 }, "rate");
    const double length = run.pick ({ 0.0, 0.25, 0.5, 0.75, 1.0, 1.5, 2.0, 3.0, 5.25, 7.5, 16.0, 39.0, 40.0, 100.0 }, "frames");
    s.duration = length / rate;
    s.start = run.pick ({ 0.05, 0.2, 0.45, 1.3 }, "start") * rate;
    s.end = run.pick ({ 0.05, 0.2, 0.45, 1.3, 0.2004 }, "end") * rate;   // The last one is close to a start
    s.log = run.flag ("log");
    s.loop = run.flag ("loop");
    s.phase = run.pick ({ 0.0, 2.0, -1.0, 100.0 }, "phase");
    // A border of half a frame is a matter of rounding
    if (std::abs (length - std::floor (length) - 0.5) < 1e-9 && rate != 8) return;
    auto signal = s.make<T>();
    const auto want = s.wanted (rate, 50);
    for (size_t b : blockSizes())
        judge (run, renderOver<T> (signal, rate, 1 + b % 3, 50, b), want, 1 + b % 3, s.str() + fmt (" at %g Hz in blocks of %zu", rate, b));
    judge (run, renderHosted<T> (signal, rate, 2, 50, 9), want, 2, s.str() + fmt (" at %g Hz through the host", rate));
    run.state (s.hash().add (rate).add ((int) sizeof (T)));
}

template <typename T>
static void longSweeps (Run& run)
{
    Sweep s;
    const double rate = run.pick ({ 44100.0, 48000.0, 96000.0, 192000.0, 8000.0 }, "rate");
    s.duration = run.pick ({ 1.0, 0.1, 0.0313, 0.7501, 2.5 }, "duration");
    const int f = run.choose (5, "frequencies");
    s.start = f == 0 ? 20 : f == 1 ? 15000 : f == 2 || f == 4 ? 1000 : 0.5;
    s.end = f == 0 ? 20000 : f == 1 ? 50 : f == 2 ? 1000 : f == 4 ? 1000.1 : 3000;
    s.log = run.flag ("log");
    s.loop = run.flag ("loop");
    s.phase = run.pick ({ 0.0, 4.0 }, "phase");
    const size_t block = run.pick ({ (size_t) 1, (size_t) 1024, (size_t) 300000 }, "block size");
    const size_t frames = run.thorough ? 1000000 : 150000;
    auto signal = s.make<T>();
    judge (run, renderOver<T> (signal, rate, 1, frames, block), s.wanted (rate, frames), 1, s.str() + fmt (" at %g Hz in blocks of %zu", rate, block));
    run.state (s.hash().add (rate).add ((int) sizeof (T)).add ((uint64_t) block));
}

// Variants derived from variants, which leave those alone
template <typename T>
static void variants (Run& run)
{
    using S = hart::SineSweep<T>;
    const double rate = 1000;
    Sweep s;
    std::unique_ptr<S> signal;
    const int base = run.choose (3, "base");
    if (base == 0) signal.reset (new S());
    else
    {
        s.duration = 0.02; s.start = 400; s.end = 30; s.log = base == 1; s.loop = base == 1; s.phase = 1.5;
        signal.reset (new S (s.template make<T>()));
    }
    std::string history = s.str();
    const int count = run.choose (run.thorough ? 6 : 5, "count");
    for (int i = 0; i < count; ++i)
    {
        const Sweep before = s;
        std::unique_ptr<S> derived;
        const int op = run.choose (9, "variant");
        if (op == 0) { s.duration = i % 2 ? 0.012 : 0.035; derived.reset (new S (signal->withDuration (s.duration))); }
        if (op == 1) { s.start = i % 2 ? 90 : 310; derived.reset (new S (signal->withStartFrequency (s.start))); }
        if (op == 2) { s.end = i % 2 ? 55 : 222; derived.reset (new S (signal->withEndFrequency (s.end))); }
        if (op == 3) { s.log = true; derived.reset (new S (signal->withType (S::SweepType::log))); }
        if (op == 4) { s.log = false; derived.reset (new S (signal->withType (S::SweepType::linear))); }
        if (op == 5) { s.loop = true; derived.reset (new S (signal->withLoop (S::Loop::yes))); }
        if (op == 6) { s.loop = false; derived.reset (new S (signal->withLoop (S::Loop::no))); }
        if (op == 7) { s.phase = i % 2 ? 0.3 : -2; derived.reset (new S (signal->withPhase (s.phase))); }
        if (op == 8) { renderOver<T> (*signal, rate, 1, 23 + (size_t) i, 5); derived.reset (new S (*signal)); }
        history += ", " + s.str();
        if (run.fresh()) judge (run, renderOver<T> (*signal, rate, 1, 60, 13), before.wanted (rate, 60), 1, history + " (the origin)");
        signal = std::move (derived);
    }
    judge (run, renderOver<T> (*signal, rate, 2, 110, 13), s.wanted (rate, 110), 2, history);
    run.state (s.hash().add (base).add (count));
}

template <typename T>
static void noise (Run& run)
{
    static const std::vector<uint_fast32_t> seeds { 0, 1, 2, 3, 42, 12345, 5489, 0x7fffffff, 0xfffffffe, 0xffffffff };
    const auto seed = run.pick (seeds, "seed");
    const size_t channels = run.pick ({ (size_t) 1, (size_t) 2, (size_t) 6, (size_t) 128 }, "channels");
    const size_t frames = channels == 128 ? 2000 : 40000;
    Cli cli;
    cli.seed = 99;
    cli.apply();
    hart::WhiteNoise<T> signal (seed), other (seed);
    const auto first = renderOver<T> (signal, 44100, channels, frames, 1024);
    run.step();
    const std::string what = fmt ("white noise of seed %llu on %zu channels", (unsigned long long) seed, channels);

    size_t bins[10] = {};
    double correlation = 0;
    for (size_t c = 0; c < channels; ++c)
        for (size_t f = 0; f < frames; ++f)
        {
            const double x = first[c][f];
            MC_REQUIRE (run, x >= -1 && x <= 1, "range", what + fmt (": channel %zu frame %zu is %.12g", c, f, x));
            ++bins[std::min (9, (int) ((x + 1) * 5))];
            if (f > 0) correlation += x * first[c][f - 1];
        }
    const double n = (double) (channels * frames);
    for (size_t b : bins) MC_REQUIRE (run, std::abs ((double) b / n - 0.1) < 0.02, "distribution", what + " is not uniform");
    MC_REQUIRE (run, std::abs (correlation / n) < 0.03, "white", what + " is not white");
    for (size_t c = 1; c < channels; ++c) MC_REQUIRE (run, first[c] != first[0], "channels", what + " is the same on two channels");

    // The seed alone decides
    for (double rate : { 8000.0, 96000.0 })
        for (size_t b : { (size_t) 1, (size_t) 7, (size_t) 1024, (size_t) 100000 })
        {
            auto d = difference (renderOver<T> (other, rate, channels, frames, b), first);
            MC_REQUIRE (run, d.empty(), "determined", what + fmt (" at %g Hz in blocks of %zu: ", rate, b) + d);
            run.step();
        }
    auto d = difference (renderHosted<T> (signal, 44100, channels, 500, 33), [&] { auto a = first; for (auto& x : a) x.resize (500); return a; }());
    MC_REQUIRE (run, d.empty(), "hosted", what + " through the host: " + d);

    // The seed of the command line by default
    cli.seed = seed;
    cli.apply();
    hart::WhiteNoise<T> byDefault;
    cli.seed = 98;
    cli.apply();
    d = difference (renderOver<T> (byDefault, 44100, channels, frames, 512), first);
    MC_REQUIRE (run, d.empty(), "command line", what + " by command line: " + d);
    run.step();

    auto others = seeds;
    for (int bit = 0; bit < 32; ++bit) others.push_back (seed ^ ((decltype (seed + 0)) 1 << bit));
    for (auto s : others)
    {
        if (s == seed) continue;
        hart::WhiteNoise<T> different (s);
        const auto audio = renderOver<T> (different, 44100, channels, 500, 512);
        size_t same = 0;
        for (size_t c = 0; c < channels; ++c) for (size_t f = 0; f < 500; ++f) same += audio[c][f] == first[c][f];
        MC_REQUIRE (run, same < 5 * channels, "different", what + fmt (" is the same for seed %llu", (unsigned long long) s));
        run.step();
    }
    run.state (mc::Hash().add ((uint64_t) seed).add ((uint64_t) channels).add ((int) sizeof (T)));
}

template <typename T>
static void quiet (Run& run)
{
    const size_t channels = run.pick ({ (size_t) 1, (size_t) 2, (size_t) 128 }, "channels");
    const double rate = run.pick ({ 8.0, 44100.0 }, "rate");
    hart::Silence<T> signal;
    for (size_t b : blockSizes()) judge (run, renderOver<T> (signal, rate, channels, 50, b), std::vector<double> (50, 0.0), channels, "silence");
    judge (run, renderHosted<T> (signal, rate, channels, 50, 9), std::vector<double> (50, 0.0), channels, "silence through the host");
    run.state (mc::Hash().add (rate).add ((uint64_t) channels));
}

template <typename T>
static void refusals (Run& run)
{
    using S = hart::SineSweep<T>;
    const double bad = run.pick ({ 0.0, -0.0, -1.0, -1e-9, -1e9, -std::numeric_limits<double>::infinity() }, "value");
    const int what = run.choose (9, "what");
    const bool frequency = what < 5;
    if (! frequency && bad == 0) return;
    S good;
    const bool refused = throws ([&]
    {
        switch (what)
        {
            case 0: { hart::SineWave<T> x (bad); break; }
            case 1: { S x (1, bad); break; }
            case 2: { S x (1, 100, bad); break; }
            case 3: { S x = good.withStartFrequency (bad); break; }
            case 4: { S x = good.withEndFrequency (bad); break; }
            case 5: { S x (bad); break; }
            case 6: { S x = good.withDuration (bad); break; }
            case 7: { S x (bad, 100, 100, S::SweepType::linear, S::Loop::yes); break; }
            default: { S x (bad, 100, 200, S::SweepType::log, S::Loop::yes, 1); break; }
        }
    });
    MC_REQUIRE (run, refused, "accepted", fmt ("the value %g is accepted by %s %d", bad, frequency ? "frequency" : "duration", what));
    run.step();
    run.state (mc::Hash().add (bad).add (what));
}

// Initial phases which are many turns away, where an error of the number pi is all that matters
template <typename T>
static void turns (Run& run)
{
    const double phase = run.pick ({ -1e6, 1e6, -3e9, 3e9, -1e12, -1e20, 1e20, -1e300, 1e300 }, "phase");
    const double rate = run.pick ({ 8.0, 44100.0 }, "rate");
    const double frequency = run.pick ({ 1.0 / 3.3, 1.0 / 1000 }, "frequency/rate") * rate;
    const bool sweep = run.flag ("sweep");
    const size_t block = run.pick ({ (size_t) 1, (size_t) 7, (size_t) 40 }, "block size");
    const auto want = sineWanted (frequency, phase, rate, 40);
    const double allowed = tolerance<T>() + std::abs (phase) * 2e-16;
    hart::SineWave<T> wave (frequency, phase);
    hart::SineSweep<T> flat (100 / rate, frequency, frequency, hart::SineSweep<T>::SweepType::linear, hart::SineSweep<T>::Loop::no, phase);
    const auto got = sweep ? renderOver<T> (flat, rate, 2, 40, block) : renderOver<T> (wave, rate, 2, 40, block);
    run.step();
    for (size_t c = 0; c < 2; ++c)
        for (size_t f = 0; f < 40; ++f)
        {
            const double value = (double) got[c][f];
            const std::string what = fmt ("%s (%g Hz, %g rad) at %g Hz: channel %zu frame %zu is %.12g", sweep ? "SineSweep" : "SineWave", frequency, phase, rate, c, f, value);
            MC_REQUIRE (run, std::abs (value) <= 1, "range", what);
            MC_REQUIRE (run, std::abs (value - want[f]) <= allowed, "value", what + fmt (" instead of %.12g", want[f]));
        }
    run.state (mc::Hash().add (phase).add (rate).add (frequency).add (sweep).add ((uint64_t) block).add ((int) sizeof (T)));
}

template <typename T>
static void all (Run& run)
{
    switch (run.choose (8, "mode"))
    {
        case 0: return sines<T> (run);
        case 1: return sweeps<T> (run);
        case 2: return longSweeps<T> (run);
        case 3: return variants<T> (run);
        case 4: return noise<T> (run);
        case 5: return quiet<T> (run);
        case 6: return turns<T> (run);
        default: return refusals<T> (run);
    }
}

int main (int argc, char** argv)
{
    mc::Options o;
    o.id = "C13";
    o.unitDepthQuick = 4;
    o.unitDepthThorough = 5;
    return mc::main (argc, argv, o, [] (Run& run)
    {
        Cli().apply();
        if (run.flag ("double")) all<double> (run); else all<float> (run);
    });
}
