// C18: plots show every sample of every channel
#include "svg.hpp"
#include "stock.hpp"

using namespace stock;
using mc::Run;

template <typename T>
static std::string plot (const Audio<T>& input, const Audio<T>& output, double rate)
{
    hart::AudioBuffer<T> in (input.size(), input[0].size()), out (output.size(), output[0].size());
    fill (in, input);
    fill (out, output);
    const std::string path = workDir() + "/plot.svg";
    hart::plotData<T> (in, out, rate, path);
    return readFile (path);
}

template <typename T>
static void judge (Run& run, const std::string& text, const Audio<T>& input, const Audio<T>& output, double rate, const std::string& what)
{
    run.step();
    const auto wrong = svg::judge (text, input, output, rate);
    MC_REQUIRE (run, wrong.empty(), "plot", what + ": " + wrong);
}

static const std::vector<double>& alphabet()
{
    static const std::vector<double> a { 0, 1, -1, 0.5, -0.25, 0.123456789 };
    return a;
}

// All the short pieces, input and output by turns
template <typename T>
static void small (Run& run)
{
    const double rate = run.pick ({ 44100.0, 8.0, 1.0 }, "rate");
    const int layout = run.choose (3, "layout");   // mono to mono, mono to stereo, stereo to mono
    const size_t frames = 1 + (size_t) run.choose (run.thorough ? 5 : 4, "frames");
    if (rate != 8.0 && (layout != 0 || frames > 3) && ! run.thorough) return;
    const size_t count = layout == 0 ? 1 : 2;
    Audio<T> a = silence<T> (count, frames);
    std::string what = fmt ("%zu channels of", count);
    for (size_t c = 0; c < count; ++c)
        for (size_t f = 0; f < frames; ++f)
        {
            const size_t options = count == 2 ? (frames > 3 ? 3 : frames > 2 ? 4 : 6) : 6;
            a[c][f] = (T) alphabet()[(size_t) run.choose ((int) options, "value")];
            what += fmt (" %g", (double) a[c][f]);
        }
    Audio<T> other = silence<T> (1, frames);
    for (size_t f = 0; f < frames; ++f) other[0][f] = (T) (f == frames - 1 ? 0.75 : -0.125 * (double) f);
    if (layout == 2) judge (run, plot<T> (a, other, rate), a, other, rate, what + " as input");
    else judge (run, plot<T> (other, a, rate), other, a, rate, what + " as output");
    mc::Hash h;
    h.add (rate).add (layout);
    for (auto& c : a) h.add (c);
    run.state (h);
}

static const std::vector<std::pair<size_t, size_t>>& layouts()
{
    static const std::vector<std::pair<size_t, size_t>> l { { 1, 1 }, { 2, 2 }, { 1, 2 }, { 3, 2 }, { 2, 5 }, { 9, 9 }, { 1, 128 }, { 128, 127 } };
    return l;
}

template <typename T>
static Audio<T> piece (size_t channels, size_t frames, int shape, double level)
{
    auto a = table<T> (channels, frames);
    for (size_t c = 0; c < channels; ++c)
        for (size_t f = 0; f < frames; ++f)
        {
            double x = a[c][f];
            if (shape == 1) x = std::sin ((double) f * 0.01 * (double) (c + 1));
            if (shape == 2) x = 0;
            if (shape == 3) x = f == (c * 7 + 3) % frames ? (c % 2 ? -1 : 1) : 0;   // a single impulse
            if (shape == 4) x = (double) (c + 1) / (double) (channels + 1);
            if (shape == 5) x = f + 1 == frames ? 1 : f == 0 ? -0.5 : 0;
            a[c][f] = (T) (x * level);
        }
    return a;
}

// Layouts, lengths, levels and rates
template <typename T>
static void large (Run& run)
{
    const auto layout = run.pick (layouts(), "layout");
    const size_t frames = run.pick ({ (size_t) 1, (size_t) 2, (size_t) 3, (size_t) 17, (size_t) 1000, (size_t) 4410, (size_t) 4411, (size_t) 44100, (size_t) 100003 }, "frames");
    if (frames > 2000 && layout.second > 9 && ! run.thorough) return;
    const double rate = run.pick ({ 44100.0, 48000.0, 8000.0, 192000.0, 44.1 }, "rate");
    if (frames > 5000 && (rate < 8000 || (rate != 44100 && ! run.thorough))) return;
    const int shape = run.choose (6, "shape");
    if (frames > 5000 && layout.second > 3 && shape == 0 && ! run.thorough) return;
    const double level = frames > 5000 ? 0.7 : run.pick ({ 0.7, 1e-4, 25.0 }, "level");
    const auto input = piece<T> (layout.first, frames, (shape + 1) % 6, level), output = piece<T> (layout.second, frames, shape, level * 0.5);
    judge (run, plot<T> (input, output, rate), input, output, rate, fmt ("%zu to %zu channels, %zu frames at %g Hz, shape %d, level %g", layout.first, layout.second, frames, rate, shape, level));
    run.state (mc::Hash().add ((uint64_t) layout.first).add ((uint64_t) layout.second).add ((uint64_t) frames).add (rate).add (shape).add (level).add ((int) sizeof (T)));
}

// Through the host: what went in and what came out
template <typename T>
static void hosted (Run& run)
{
    const auto layout = run.pick (layouts(), "layout");
    const size_t frames = run.pick ({ (size_t) 1, (size_t) 2, (size_t) 12, (size_t) 50, (size_t) 1500 }, "frames");
    const size_t block = run.pick ({ (size_t) 1, (size_t) 5, (size_t) 64, (size_t) 4096 }, "block size");
    const double rate = run.pick ({ 44100.0, 8000.0, 96000.0 }, "rate");
    const int checks = run.choose (4, "checks");
    const bool chain = run.flag ("chain");
    if (frames > 100 && layout.second > 9) return;
    const std::string path = workDir() + "/hosted.svg";
    unlink (path.c_str());
    const auto source = piece<T> (layout.first, frames, 0, 0.5);
    auto input = source;
    if (chain) for (auto& c : input) for (auto& x : c) x *= (T) -0.5;
    auto output = silence<T> (layout.second, frames);
    for (size_t c = 0; c < layout.second; ++c) for (size_t f = 0; f < frames; ++f) output[c][f] = input[std::min (c, layout.first - 1)][f];
    Play<T> signal (source);
    if (chain) signal.followedBy (hart::GainLinear<T> (-0.5));
    auto host = hart::processAudioWith (Through<T>());
    host.withInputSignal (signal).withSampleRate (rate).withInputChannels (layout.first).withOutputChannels (layout.second).withDuration ((double) frames / rate).withBlockSize (block);
    host.savePlotTo (path, checks ? hart::Save::whenFails : hart::Save::always);
    if (checks == 1) host.expectTrue (hart::PeaksBelow<T> (-100));
    if (checks == 2) host.assertFalse (hart::PeaksBelow<T> (100));
    if (checks == 3) host.assertTrue (hart::PeaksBelow<T> (-100));
    throws ([&] { host.process(); });
    hart::ExpectationFailureMessages::clear();
    judge (run, readFile (path), input, output, rate, fmt ("plot of the host, %zu to %zu channels, %zu frames in blocks of %zu at %g Hz, checks %d%s", layout.first, layout.second, frames, block, rate, checks, chain ? ", with a chain" : ""));
    run.state (mc::Hash().add ((uint64_t) layout.first).add ((uint64_t) layout.second).add ((uint64_t) frames).add (rate).add ((uint64_t) block).add (checks).add (chain).add ((int) sizeof (T)));
}

// Any stock signal through any stock effect
template <typename T>
static void stockPipelines (Run& run)
{
    const int kind = run.choose (numSignals, "signal");
    const int effect = run.choose (numEffects, "effect");
    const unsigned channels = run.pick ({ 1u, 2u }, "channels");
    const size_t frames = run.pick ({ (size_t) 300, (size_t) 4000 }, "frames");
    const double rate = 44100;
    auto signal = makeSignal<T> (kind, rate, frames, channels);
    const auto input = renderFresh<T> (*signal, rate, channels, frames, frames);
    auto fx = makeEffect<T> (effect, rate, frames);
    const auto output = runEffect<T> (*fx, input, rate, channels, frames);
    const std::string path = workDir() + "/stock.svg";
    hart::AudioTestBuilder<T> (std::move (fx)).withInputSignal (*signal).withSampleRate (rate).withInputChannels (channels).withOutputChannels (channels)
        .withDuration ((double) frames / rate).withBlockSize (128).savePlotTo (path).process();
    judge (run, readFile (path), input, output, rate, std::string (signalName (kind)) + " through " + effectName (effect));
    run.state (mc::Hash().add (kind).add (effect).add ((uint64_t) channels).add ((uint64_t) frames).add ((int) sizeof (T)));
}

template <typename T>
static void all (Run& run)
{
    switch (run.choose (4, "mode"))
    {
        case 0: return small<T> (run);
        case 1: return large<T> (run);
        case 2: return hosted<T> (run);
        default: return stockPipelines<T> (run);
    }
}

int main (int argc, char** argv)
{
    mc::Options o;
    o.id = "C18";
    o.unitDepthQuick = 5;
    o.unitDepthThorough = 5;
    return mc::main (argc, argv, o, [] (Run& run)
    {
        Cli().apply();
        if (run.flag ("double")) all<double> (run); else all<float> (run);
    });
}
