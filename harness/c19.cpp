// C19: invalid settings are refused and leave the configuration intact
#include "stock.hpp"

using namespace stock;
using mc::Run;

struct Seen
{
    double rate = 0;
    size_t in = 0, out = 0, block = 0, prepared = 0, frames = 0, calls = 0, wrongBlocks = 0;
    std::vector<std::pair<int, double>> values;
};

// Effect which supports some rates and layouts, and writes down what it gets
template <typename T>
class Spy : public Through<T>
{
public:
    explicit Spy (Seen* s, int p = 0): seen (s), picky (p) {}
    void prepare (double rate, size_t in, size_t out, size_t block) override { seen->rate = rate; seen->in = in; seen->out = out; seen->block = block; ++seen->prepared; }
    void process (const hart::AudioBuffer<T>& in, hart::AudioBuffer<T>& out, const hart::EnvelopeBuffers& e) override
    {
        ++seen->calls;
        seen->frames += in.getNumFrames();
        if (in.getNumFrames() > seen->block || in.getNumChannels() != seen->in || out.getNumChannels() != seen->out || out.getNumFrames() != in.getNumFrames()) ++seen->wrongBlocks;
        Through<T>::process (in, out, e);
    }
    void setValue (int id, double v) override { seen->values.emplace_back (id, v); }
    bool supportsSampleRate (double rate) const override { return rate != 12345 && rate < 200000 && ! (picky == 1 && rate == 44100); }
    bool supportsChannelLayout (size_t in, size_t out) const override { return (in == out || in == 1) && ! (picky == 2 && out == 1); }
    std::unique_ptr<hart::DSP<T>> copy() const override { return std::unique_ptr<hart::DSP<T>> (new Spy (*this)); }
    std::unique_ptr<hart::DSP<T>> move() override { return std::unique_ptr<hart::DSP<T>> (new Spy (*this)); }
private:
    Seen* seen;
    int picky;   // does not support: nothing more than usual, the default sample rate, the default layout
};

// Signal of a constant value which supports some rates and layouts
template <typename T>
class Constant : public hart::Signal<T>
{
public:
    Constant (double v, size_t channels): value (v), most (channels) {}
    bool supportsNumChannels (size_t n) const override { return n <= most; }
    bool supportsSampleRate (double rate) const override { return rate != 96000; }
    void prepare (double, size_t, size_t) override {}
    void renderNextBlock (hart::AudioBuffer<T>& b) override { for (size_t c = 0; c < b.getNumChannels(); ++c) for (size_t f = 0; f < b.getNumFrames(); ++f) b[c][f] = (T) value; }
    void reset() override {}
    void represent (std::ostream& s) const override { s << "Constant()"; }
    std::unique_ptr<hart::Signal<T>> copy() const override { return std::unique_ptr<hart::Signal<T>> (new Constant (*this)); }
    std::unique_ptr<hart::Signal<T>> move() override { return copy(); }
private:
    double value;
    size_t most;
};

struct Config
{
    double rate = 44100, duration = 0.1;
    size_t block = 1024, in = 1, out = 1;
    int signal = 0;   // none, the first, the second
    int picky = 0;
    std::vector<std::pair<int, double>> values;

    // True if the whole test has to be refused
    bool refused() const
    {
        const double frames = rate * duration;
        return frames < 0.5 || ! (in == out || in == 1) || signal == 0 || (signal == 2 && in > 4) || rate == 96000 || (picky == 1 && rate == 44100) || (picky == 2 && out == 1);
    }
    size_t frames() const { return (size_t) std::floor (rate * duration + 0.5); }
};

struct Operation { const char* name; bool valid; std::function<void (Config&)> model; };

template <typename T>
struct Setter
{
    std::string name;
    bool valid;
    std::function<void (hart::AudioTestBuilder<T>&)> real;
    std::function<void (Config&)> model;
};

template <typename T>
static std::vector<Setter<T>> setters (bool small)
{
    using H = hart::AudioTestBuilder<T>;
    std::vector<Setter<T>> s;
    const double inf = std::numeric_limits<double>::infinity();
    const auto rate = [&] (double v, bool ok) { s.push_back ({ fmt ("rate %g", v), ok, [v] (H& h) { h.withSampleRate (v); }, [v] (Config& c) { c.rate = v; } }); };
    const auto block = [&] (size_t v, bool ok) { s.push_back ({ fmt ("block %zu", v), ok, [v] (H& h) { h.withBlockSize (v); }, [v] (Config& c) { c.block = v; } }); };
    const auto duration = [&] (double v, bool ok) { s.push_back ({ fmt ("duration %g", v), ok, [v] (H& h) { h.withDuration (v); }, [v] (Config& c) { c.duration = v; } }); };
    const auto in = [&] (size_t v, bool ok) { s.push_back ({ fmt ("inputs %zu", v), ok, [v] (H& h) { h.withInputChannels (v); }, [v] (Config& c) { c.in = v; } }); };
    const auto out = [&] (size_t v, bool ok) { s.push_back ({ fmt ("outputs %zu", v), ok, [v] (H& h) { h.withOutputChannels (v); }, [v] (Config& c) { c.out = v; } }); };
    rate (8000, true); rate (0, false); rate (12345, false);
    block (7, true); block (0, false);
    duration (0.002, true); duration (0, true); duration (-0.001, false);
    in (2, true); in (0, false); in (129, false);
    out (3, true); out (0, false); out (129, false);
    s.push_back ({ "stereo", true, [] (H& h) { h.inStereo(); }, [] (Config& c) { c.in = c.out = 2; } });
    s.push_back ({ "signal 1", true, [] (H& h) { h.withInputSignal (Constant<T> (0.5, 128)); }, [] (Config& c) { c.signal = 1; } });
    s.push_back ({ "signal 2", true, [] (H& h) { h.withInputSignal (Constant<T> (-0.25, 4)); }, [] (Config& c) { c.signal = 2; } });
    if (small) return s;
    rate (44100, true); rate (96000, true); rate (192000, true); rate (1, true); rate (0.5, true); rate (-44100, false); rate (-1e-300, false); rate (-inf, false); rate (1e6, false); rate (-0.0, false);
    block (1, true); block (4096, true); block (100000, true); block (1024, true);
    duration (1, true); duration (0.49 / 44100, true); duration (0.51 / 44100, true); duration (1e-9, true); duration (-1e-300, false); duration (-inf, false); duration (-5, false); duration (-0.0, true);
    in (1, true); in (128, true); in (5, true); in (127, true); in (130, false); in (SIZE_MAX, false); in (1000, false);
    out (1, true); out (2, true); out (128, true); out (5, true); out (4, true); out (130, false); out (SIZE_MAX, false); out (1u << 20, false);
    s.push_back ({ "mono", true, [] (H& h) { h.inMono(); }, [] (Config& c) { c.in = c.out = 1; } });
    s.push_back ({ "mono in", true, [] (H& h) { h.withMonoInput(); }, [] (Config& c) { c.in = 1; } });
    s.push_back ({ "mono out", true, [] (H& h) { h.withMonoOutput(); }, [] (Config& c) { c.out = 1; } });
    s.push_back ({ "stereo in", true, [] (H& h) { h.withStereoInput(); }, [] (Config& c) { c.in = 2; } });
    s.push_back ({ "stereo out", true, [] (H& h) { h.withStereoOutput(); }, [] (Config& c) { c.out = 2; } });
    s.push_back ({ "value", true, [] (H& h) { h.withValue (3, 1.5); }, [] (Config& c) { c.values.emplace_back (3, 1.5); } });
    s.push_back ({ "other value", true, [] (H& h) { h.withValue (-1, -2); }, [] (Config& c) { c.values.emplace_back (-1, -2.0); } });
    s.push_back ({ "label", true, [] (H& h) { h.withLabel ("label"); }, [] (Config&) {} });
    return s;
}

template <typename T>
static void apply (Run& run, const Setter<T>& s, hart::AudioTestBuilder<T>& host, Config& config, std::string& history)
{
    history += ", " + s.name;
    const bool refused = throws ([&] { s.real (host); });
    run.step();
    const bool valid = s.valid && ! (config.picky == 1 && s.name == "rate 44100");
    MC_REQUIRE (run, refused == ! valid, "setting", history + (refused ? ": refused" : ": accepted"));
    if (valid) s.model (config);
}

// Returns whether the test took place
template <typename T>
static bool finish (Run& run, hart::AudioTestBuilder<T>& host, const Config& config, Seen& seen, std::string& history)
{
    seen = Seen();
    Audio<T> got;
    history += ", process";
    bool done = false;
    const bool refused = throws ([&] { auto dsp = host.process(); done = dsp != nullptr; });
    run.step();
    MC_REQUIRE (run, refused == config.refused(), "test", history + (refused ? ": refused" : ": accepted"));
    if (refused)
    {
        MC_REQUIRE (run, seen.calls == 0, "audio", history + ": refused after processing audio");
        return false;
    }
    MC_REQUIRE (run, done, "no effect", history + ": does not hand the effect back");
    MC_REQUIRE (run, seen.prepared == 1 && seen.rate == config.rate, "rate", history + fmt (": sample rate %g instead of %g", seen.rate, config.rate));
    MC_REQUIRE (run, seen.in == config.in && seen.out == config.out, "layout", history + fmt (": %zu to %zu channels instead of %zu to %zu", seen.in, seen.out, config.in, config.out));
    MC_REQUIRE (run, seen.block == config.block && seen.wrongBlocks == 0, "block", history + fmt (": block size %zu instead of %zu", seen.block, config.block));
    MC_REQUIRE (run, seen.frames == config.frames() && seen.calls == (config.frames() + config.block - 1) / config.block, "frames", history + fmt (": %zu frames in %zu blocks instead of %zu frames", seen.frames, seen.calls, config.frames()));
    MC_REQUIRE (run, seen.values == config.values, "values", history + ": other parameter values");
    return true;
}

template <typename T>
static void sequences (Run& run)
{
    const bool rich = run.flag ("all settings");
    static const auto small = setters<T> (true), all = setters<T> (false);
    const auto& ops = rich ? all : small;
    Seen seen;
    Config config;
    Audio<T> got;
    config.picky = run.choose (3, "effect");
    hart::AudioTestBuilder<T> host { Spy<T> (&seen, config.picky) };
    host.expectTrue (Capture<T> (&got));
    std::string history = config.picky == 0 ? "defaults" : config.picky == 1 ? "effect without 44100 Hz" : "effect without mono output";
    const int depth = (rich ? (run.thorough ? 3 : 2) : run.thorough ? 5 : 4) - (config.picky != 0 && ! rich);
    // Many sequences should end in a test which takes place
    if (run.flag ("with a signal")) { for (auto& s : small) if (s.name == "signal 1") apply (run, s, host, config, history); }
    const int count = run.choose (depth + 1, "count");
    for (int i = 0; i < count; ++i)
    {
        // The last option asks for the test too early, where that is refused
        const int op = run.choose ((int) ops.size() + 1, "setting");
        if (op < (int) ops.size()) { apply (run, ops[(size_t) op], host, config, history); continue; }
        if (! config.refused()) return;
        finish (run, host, config, seen, history);
    }
    if (finish (run, host, config, seen, history))
    {
        const double value = config.signal == 1 ? 0.5 : -0.25;
        MC_REQUIRE (run, got.size() == config.out, "channels", history + ": wrong output");
        for (auto& c : got)
        {
            MC_REQUIRE (run, c.size() == config.frames(), "length", history + ": wrong length of the output");
            for (auto x : c) MC_REQUIRE (run, (double) x == value, "signal", history + ": wrong input signal");
        }
    }
    run.state (mc::Hash().add (config.rate).add (config.duration).add ((uint64_t) config.block).add ((uint64_t) config.in).add ((uint64_t) config.out).add (config.signal));
}

// Every number of channels, each way
template <typename T>
static void channelCounts (Run& run)
{
    const size_t in = (size_t) run.choose (132, "inputs");
    for (size_t out = 0; out < 132; ++out)
    {
        Seen seen;
        Config config;
        config.duration = 0.0001;
        config.signal = 1;
        hart::AudioTestBuilder<T> host { Spy<T> (&seen) };
        host.withInputSignal (Constant<T> (0.5, 128)).withDuration (0.0001);
        const auto valid = [] (size_t n) { return n >= 1 && n <= 128; };
        const bool refusedIn = throws ([&] { host.withInputChannels (in); }), refusedOut = throws ([&] { host.withOutputChannels (out); });
        std::string history = fmt ("%zu to %zu channels", in, out);
        MC_REQUIRE (run, refusedIn != valid (in) && refusedOut != valid (out), "channels", history + ": wrongly refused or accepted");
        if (valid (in)) config.in = in;
        if (valid (out)) config.out = out;
        finish (run, host, config, seen, history);
        run.state (mc::Hash().add ((uint64_t) in).add ((uint64_t) out));
    }
}

// Durations around whole frames, block sizes around them
template <typename T>
static void durations (Run& run)
{
    const double rate = run.pick ({ 44100.0, 48000.0, 8000.0, 1.0, 0.5, 192000.0, 22050.7 }, "rate");
    const double frames = run.pick ({ 0.0, 0.25, 0.499, 0.501, 0.75, 1.0, 1.499, 1.501, 2.0, 9.0, 10.0, 10.499, 10.501, 100.0, 1024.0, 1025.0, 5000.3, 44100.0 }, "frames");
    for (size_t block : { (size_t) 1, (size_t) 2, (size_t) 9, (size_t) 10, (size_t) 11, (size_t) 1023, (size_t) 1024, (size_t) 1025, (size_t) 100000 })
    {
        if (frames / (double) block > 6000) continue;
        Seen seen;
        Config config;
        config.signal = 1;
        config.rate = rate;
        config.block = block;
        config.duration = frames / rate;
        hart::AudioTestBuilder<T> host { Spy<T> (&seen) };
        host.withInputSignal (Constant<T> (0.5, 128)).withDuration (config.duration).withBlockSize (block).withSampleRate (rate);
        std::string history = fmt ("%g frames at %g Hz in blocks of %zu", frames, rate, block);
        finish (run, host, config, seen, history);
        run.state (mc::Hash().add (rate).add (frames).add ((uint64_t) block));
    }
}

int main (int argc, char** argv)
{
    mc::Options o;
    o.id = "C19";
    o.unitDepthQuick = 6;
    o.unitDepthThorough = 7;
    return mc::main (argc, argv, o, [] (Run& run)
    {
        Cli().apply();
        switch (run.choose (5, "mode"))
        {
            case 0: return sequences<float> (run);
            case 1: return sequences<double> (run);
            case 2: return channelCounts<float> (run);
            case 3: return durations<float> (run);
            default: return durations<double> (run);
        }
    });
}
