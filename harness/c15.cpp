// C15: saved wav files hold the output audio in the requested format
#include "stock.hpp"

using namespace stock;
using mc::Run;
using hart::WavFormat;

struct Format { WavFormat format; const char* name; unsigned tag, bits; double scale; };
static const Format formats[] = { { WavFormat::pcm16, "pcm16", 1, 16, 32767.0 }, { WavFormat::pcm24, "pcm24", 1, 24, 8388607.0 }, { WavFormat::pcm32, "pcm32", 1, 32, 2147483647.0 }, { WavFormat::float32, "float32", 3, 32, 1 } };

template <typename T>
static void judge (Run& run, const std::string& path, const Format& format, double rate, const Audio<T>& audio, const std::string& what)
{
    bool there = false;
    const auto wav = parseWav (readFile (path, &there));
    run.step();
    MC_REQUIRE (run, there, "no file", what + ": there is no file");
    MC_REQUIRE (run, wav.ok, "invalid", what + ": " + wav.error);
    MC_REQUIRE (run, wav.format == format.tag && wav.bits == format.bits, "format", what + fmt (": format %u with %u bits", wav.format, wav.bits));
    MC_REQUIRE (run, wav.rate == rate, "rate", what + fmt (": sample rate %u instead of %g", wav.rate, rate));
    MC_REQUIRE (run, wav.channels == audio.size(), "channels", what + fmt (": %u channels instead of %zu", wav.channels, audio.size()));
    MC_REQUIRE (run, wav.frames == audio[0].size(), "frames", what + fmt (": %zu frames instead of %zu", wav.frames, audio[0].size()));
    for (size_t c = 0; c < audio.size(); ++c)
        for (size_t f = 0; f < audio[c].size(); ++f)
        {
            const double x = audio[c][f];
            if (format.tag == 3)
            {
                const float want = (float) x, got = wav.floats[c][f];
                MC_REQUIRE (run, want == got || (std::isnan (want) && std::isnan (got)), "float sample", what + fmt (": channel %zu frame %zu is %.9g instead of %.9g", c, f, got, want));
                continue;
            }
            if (std::isnan (x)) continue;
            const double want = std::min (std::max (x * format.scale, -format.scale), format.scale), got = (double) wav.codes[c][f];
            MC_REQUIRE (run, std::abs (got - want) <= 0.5 + 1e-6, "sample", what + fmt (": channel %zu frame %zu (%.12g) is stored as %.0f instead of %.3f", c, f, x, got, want));
        }
}

// As the host gets it back as a signal
template <typename T>
static void judgeReadBack (Run& run, const std::string& path, const Format& format, double rate, const Audio<T>& audio, const std::string& what)
{
    hart::WavFile<T> signal (path);
    const auto got = renderFresh<T> (signal, rate, audio.size(), audio[0].size(), 1000);
    run.step();
    const double precision = format.tag == 3 ? 0 : 2.0 / (format.scale + 1) + 1.2e-7;
    for (size_t c = 0; c < audio.size(); ++c)
        for (size_t f = 0; f < audio[c].size(); ++f)
        {
            double want = audio[c][f];
            if (std::isnan (want)) continue;
            if (format.tag == 3) want = (float) want; else want = std::min (std::max (want, -1.0), 1.0);
            MC_REQUIRE (run, want == (double) got[c][f] || std::abs ((double) got[c][f] - want) <= precision, "read back", what + fmt (": channel %zu frame %zu is read back as %.12g instead of %.12g", c, f, (double) got[c][f], want));
        }
}

template <typename T>
static void write (const Audio<T>& audio, const std::string& path, double rate, const Format& format)
{
    hart::AudioBuffer<T> b (audio.size(), audio[0].size());
    fill (b, audio);
    hart::WavWriter<T>::writeBuffer (b, path, rate, format.format);
}

// Around every step of the format (pcm16), and of the powers of two (the others)
template <typename T>
static void codes (Run& run)
{
    const auto& format = formats[run.choose (4, "format")];
    const int part = run.choose (16, "part");
    std::vector<T> values;
    const auto around = [&] (double code) { for (double d : { 0.0, 0.25, -0.25, 0.4375, -0.4375, 0.49, -0.49 }) values.push_back ((T) ((code + d) / format.scale)); };
    if (format.bits == 16) for (int i = 0; i < 4096; ++i) around (-32768 + part * 4096 + i);
    else
    {
        const int count = format.bits == 24 && run.thorough ? 1 << 20 : 1 << 14;
        const double stride = format.bits == 24 ? (1 << 20) / count : 16384;
        for (int i = 0; i < count; ++i) around (-std::pow (2.0, format.bits - 1) + (part * count + i) * stride);
        for (int b = 0; b < (int) format.bits; ++b) for (double d : { -2.0, -1.0, 0.0, 1.0, 2.0 }) { around (std::pow (2.0, b) + d); around (-std::pow (2.0, b) - d); }
    }
    for (T x : { (T) 1, (T) -1, (T) 0.99999999, (T) -0.99999999, (T) 1.0000001, (T) -1.0000001, (T) 1.5, (T) -1.5, (T) 2, (T) -2, (T) 1e10, (T) -1e10, (T) 1e30, (T) -1e30, (T) 1e-30, (T) -1e-30, (T) 0, std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), std::numeric_limits<T>::min(), std::numeric_limits<T>::denorm_min() })
        values.push_back (x);
    if (format.tag == 3)
        for (int e = -140; e < 126; ++e) for (double m : { 1.0, 1.1, 1.9999999, -1.3 }) values.push_back ((T) std::ldexp (m, e));
    const std::string path = workDir() + "/codes.wav";
    const Audio<T> audio { values };
    write (audio, path, 44100, format);
    judge (run, path, format, 44100, audio, format.name);
    if (part < 2) judgeReadBack (run, path, format, 44100, audio, format.name);
    run.state (mc::Hash().add ((int) format.bits).add (part).add ((int) format.tag).add ((int) sizeof (T)));
}

// Layouts, lengths, rates
template <typename T>
static void layouts (Run& run)
{
    const auto& format = formats[run.choose (4, "format")];
    const size_t channels = run.pick ({ (size_t) 1, (size_t) 2, (size_t) 3, (size_t) 5, (size_t) 16, (size_t) 127, (size_t) 128 }, "channels");
    const size_t frames = run.pick ({ (size_t) 1, (size_t) 2, (size_t) 3, (size_t) 7, (size_t) 64, (size_t) 1000, (size_t) 70001 }, "frames");
    if (channels > 16 && frames > 1000 && ! run.thorough) return;
    const auto audio = table<T> (channels, frames);
    const std::string path = workDir() + "/layout.wav";
    for (double rate : { 1.0, 8000.0, 22050.0, 44100.0, 48000.0, 96000.0, 192000.0 })
    {
        if (frames > 1000 && rate != 48000) continue;
        writeFile (path, std::string (frames % 2 ? 100 : 100000, 'x'));   // which is to be replaced
        write (audio, path, rate, format);
        const std::string what = fmt ("%s, %zu channels, %zu frames at %g Hz", format.name, channels, frames, rate);
        judge (run, path, format, rate, audio, what);
        judgeReadBack (run, path, format, rate, audio, what);
    }
    run.state (mc::Hash().add ((int) format.bits).add ((int) format.tag).add ((uint64_t) channels).add ((uint64_t) frames).add ((int) sizeof (T)));
}

// Through the host
template <typename T>
static void hosted (Run& run)
{
    const int f = run.choose (5, "format");
    const bool byDefault = f == 4;
    const auto& format = formats[byDefault ? 1 : f];
    struct Layout { size_t in, out; };
    const auto layout = run.pick ({ Layout { 1, 1 }, Layout { 2, 2 }, Layout { 1, 3 }, Layout { 3, 2 }, Layout { 1, 128 }, Layout { 16, 16 } }, "layout");
    const size_t frames = run.pick ({ (size_t) 1, (size_t) 5, (size_t) 12, (size_t) 300, (size_t) 5000 }, "frames");
    const size_t block = run.pick ({ (size_t) 1, (size_t) 4, (size_t) 5, (size_t) 64, (size_t) 1024, (size_t) 8192 }, "block size");
    const double rate = run.pick ({ 44100.0, 48000.0, 8000.0, 192000.0 }, "rate");
    const int checks = run.choose (4, "checks");
    if (! run.thorough && ((frames > 1000 && (layout.out > 3 || rate != 48000)) || (layout.out == 128 && frames > 12 && block < 64))) return;
    const std::string path = workDir() + "/hosted.wav";
    unlink (path.c_str());
    auto input = table<T> (layout.in, frames);
    for (auto& c : input) for (auto& x : c) x *= (T) 1.25;   // beyond full scale at times
    Audio<T> want = silence<T> (layout.out, frames);
    for (size_t c = 0; c < layout.out; ++c) want[c] = input[std::min (c, layout.in - 1)];
    auto host = hart::processAudioWith (Through<T>());
    host.withInputSignal (Play<T> (input)).withSampleRate (rate).withInputChannels (layout.in).withOutputChannels (layout.out).withDuration ((double) frames / rate).withBlockSize (block);
    if (byDefault) host.saveOutputTo (path); else host.saveOutputTo (path, hart::Save::always, format.format);
    if (checks == 1) host.expectTrue (hart::PeaksBelow<T> (-100));
    if (checks == 2) host.expectFalse (hart::PeaksBelow<T> (100));
    if (checks == 3) host.assertTrue (hart::PeaksBelow<T> (-100));
    throws ([&] { host.process(); });
    hart::ExpectationFailureMessages::clear();
    const std::string what = fmt ("%s by the host, %zu to %zu channels, %zu frames in blocks of %zu at %g Hz, checks %d", format.name, layout.in, layout.out, frames, block, rate, checks);
    judge (run, path, format, rate, want, what);
    if (checks == 0) judgeReadBack (run, path, format, rate, want, what);
    run.state (mc::Hash().add (f).add ((uint64_t) layout.in).add ((uint64_t) layout.out).add ((uint64_t) frames).add ((uint64_t) block).add (rate).add (checks).add ((int) sizeof (T)));
}

// Any stock signal saved and read back
template <typename T>
static void stockSignals (Run& run)
{
    const int kind = run.choose (numSignals, "signal");
    const auto& format = formats[run.choose (4, "format")];
    const unsigned channels = run.pick ({ 1u, 2u, 6u }, "channels");
    const double rate = 44100;
    const size_t frames = 3000;
    auto signal = makeSignal<T> (kind, rate, frames, channels);
    const auto audio = renderFresh<T> (*signal, rate, channels, frames, frames);
    const std::string path = workDir() + "/stock.wav";
    hart::processAudioWith (hart::GainDb<T> (0)).withInputSignal (*signal).withSampleRate (rate).withInputChannels (channels).withOutputChannels (channels).withDuration (frames / rate).withBlockSize (128)
        .saveOutputTo (path, hart::Save::always, format.format).process();
    const std::string what = std::string (signalName (kind)) + " as " + format.name;
    judge (run, path, format, rate, audio, what);
    judgeReadBack (run, path, format, rate, audio, what);
    run.state (mc::Hash().add (kind).add ((int) format.bits).add ((int) format.tag).add ((uint64_t) channels).add ((int) sizeof (T)));
}

template <typename T>
static void all (Run& run)
{
    switch (run.choose (4, "mode"))
    {
        case 0: return codes<T> (run);
        case 1: return layouts<T> (run);
        case 2: return hosted<T> (run);
        default: return stockSignals<T> (run);
    }
}

int main (int argc, char** argv)
{
    mc::Options o;
    o.id = "C15";
    o.unitDepthQuick = 4;
    o.unitDepthThorough = 4;
    return mc::main (argc, argv, o, [] (Run& run)
    {
        Cli().apply();
        if (run.flag ("double")) all<double> (run); else all<float> (run);
    });
}
