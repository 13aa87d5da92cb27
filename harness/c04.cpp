// C04: rendered audio does not depend on how it is split into blocks
#include "stock.hpp"

using namespace stock;
using mc::Run;

static const std::vector<std::vector<int>>& chains()
{
    static const std::vector<std::vector<int>> c { {}, { 5 }, { 9 }, { 3 }, { 10, 4, 6 }, { 7, 11, 8 } };
    return c;
}

// Relative to the amplitude of about 1, with room for other ways to accumulate a phase
template <typename T> double tolerance() { return sizeof (T) == 4 ? 2e-6 : 1e-9; }

template <typename T>
static std::unique_ptr<hart::Signal<T>> build (int signal, const std::vector<int>& chain, double rate, size_t frames, unsigned channels)
{
    auto s = makeSignal<T> (signal, rate, frames, channels);
    for (int e : chain) s->followedBy (makeEffect<T> (e, rate, frames));
    return s;
}

template <typename T>
static Audio<T> throughHost (const hart::Signal<T>& signal, std::unique_ptr<hart::DSP<T>> effect, double rate, size_t frames, size_t in, size_t out, size_t block)
{
    Audio<T> audio;
    hart::AudioTestBuilder<T> host (std::move (effect));
    host.withSampleRate (rate).withDuration ((double) frames / rate).withBlockSize (block).withInputChannels (in).withOutputChannels (out).withInputSignal (signal)
        .expectTrue (Capture<T> (&audio)).process();
    return audio;
}

template <typename T>
static std::string describe (int signal, const std::vector<int>& chain, int effect)
{
    std::string s = signalName (signal);
    for (int e : chain) s += std::string (" >> ") + effectName (e);
    if (effect >= 0) s += std::string (" into ") + effectName (effect);
    return s;
}

static const std::vector<double> rates { 8, 44100, 96000 };

// The host, with every block size
template <typename T>
static void hosted (Run& run, bool large)
{
    const double rate = run.pick (rates, "rate");
    static const std::vector<size_t> lengths { 1, 2, 5, 7, 12 }, largeLengths { 1000, 4801 };
    const size_t frames = large ? run.pick (largeLengths, "frames") : run.pick (lengths, "frames");
    static const std::vector<std::pair<size_t, size_t>> layouts { { 1, 1 }, { 2, 2 }, { 1, 3 } };
    const auto layout = run.pick (layouts, "layout");
    const int signal = run.choose (numSignals, "signal");
    if (signal == 12 && large) return;
    int effect = 0;
    const std::vector<int>* chain = &chains()[0];
    const int what = run.choose (numEffects + (int) chains().size() - 1, "effect or chain");
    if (what < numEffects) effect = what;
    else chain = &chains()[(size_t) (what - numEffects + 1)];
    if ((effect == 3 || effect == 4) && layout.first != layout.second) return;
    if (large && run.thorough == false && rate == 96000 && layout.first == 2) return;

    auto s = build<T> (signal, *chain, rate, frames, (unsigned) layout.first);
    const auto whole = throughHost<T> (*s, makeEffect<T> (effect, rate, frames), rate, frames, layout.first, layout.second, frames);
    MC_REQUIRE (run, whole.size() == layout.second && whole[0].size() == frames, "size", "not the configured duration was rendered");
    run.state (mc::Hash().add (whole[0].size()).add ((uint64_t) signal).add ((uint64_t) what).add (whole[0].back()));

    std::vector<size_t> blocks;
    if (large)
    {
        blocks = { 1, 7, 64, 100, 127, 480, 499, 999, 1001, 1024, 4096, 100000 };
        blocks.push_back (frames - 1);
    }
    else
    {
        for (size_t b = 1; b <= frames + 2; ++b) if (b != frames) blocks.push_back (b);
        blocks.push_back (64);
    }

    for (size_t b : blocks)
    {
        if (b == 0) continue;
        auto same = build<T> (signal, *chain, rate, frames, (unsigned) layout.first);
        const auto split = throughHost<T> (*same, makeEffect<T> (effect, rate, frames), rate, frames, layout.first, layout.second, b);
        run.step();
        const auto d = difference (split, whole, tolerance<T>());
        MC_REQUIRE (run, d.empty(), "host", describe<T> (signal, *chain, effect) + fmt (" at %g Hz: %zu frames in blocks of %zu: ", rate, frames, b) + d);
    }
}

// Long renderings, which are hosted by a few blocks only
template <typename T>
static void lengthy (Run& run)
{
    const double rate = run.pick (std::vector<double> { 44100, 1234.5 }, "rate");
    const size_t frames = run.thorough ? 1200007 : 200003;
    const int signal = run.choose (numSignals, "signal");
    if (signal >= 12 && rate != 44100) return;   // Wav files have whole rates
    const auto& chain = run.pick (chains(), "chain");
    const unsigned channels = chain.size() == 1 ? 2 : 1;
    auto s = build<T> (signal, chain, rate, frames, channels);
    const auto whole = renderFresh (*s, rate, channels, frames, frames);
    run.state (mc::Hash().add (signal).add ((uint64_t) chain.size()).add (rate).add (whole[0].back()));
    // Phases may be accumulated in different ways
    const double allowed = tolerance<T>() * (sizeof (T) == 4 ? 4 : 200);

    for (size_t b : { (size_t) 1, (size_t) 127, (size_t) 1024, (size_t) 4096, (size_t) 65535, (size_t) 65536, (size_t) 65537, frames - 1 })
    {
        s->resetWithDSPChain();
        s->prepareWithDSPChain (rate, channels, b);
        const auto split = render (*s, channels, uniformBlocks (frames, b));
        run.step();
        const auto d = difference (split, whole, allowed);
        MC_REQUIRE (run, d.empty(), "lengthy", describe<T> (signal, chain, -1) + fmt (" at %g Hz: %zu frames in blocks of %zu: ", rate, frames, b) + d);
    }

    if (chain.empty())
        for (size_t b : { (size_t) 5000, (size_t) 65536, (size_t) 500000 })
        {
            const auto split = throughHost<T> (*s, makeEffect<T> (9, rate, frames), rate, frames, channels, channels, b);
            const auto all = throughHost<T> (*s, makeEffect<T> (9, rate, frames), rate, frames, channels, channels, frames);
            run.step();
            const auto d = difference (split, all, allowed);
            MC_REQUIRE (run, d.empty(), "lengthy", describe<T> (signal, chain, 9) + fmt (" at %g Hz: %zu frames in blocks of %zu: ", rate, frames, b) + d);
        }
}

static std::vector<size_t> composition (size_t frames, unsigned bits)
{
    std::vector<size_t> blocks { 1 };
    for (size_t i = 0; i + 1 < frames; ++i)
        if ((bits >> i) & 1) blocks.push_back (1); else ++blocks.back();
    return blocks;
}

// Rendering a signal in all the possible sequences of blocks
template <typename T>
static void direct (Run& run)
{
    const double rate = run.pick (std::vector<double> { 8, 44100, 96000, 22050.25 }, "rate");
    const size_t frames = run.thorough ? 12 : 9;
    const int signal = run.choose (numSignals, "signal");
    if (signal >= 12 && rate == 22050.25) return;   // Wav files have whole rates
    const auto& chain = run.pick (chains(), "chain");
    const unsigned channels = (unsigned) run.choose (2, "channels") + 1;
    auto s = build<T> (signal, chain, rate, frames, channels);
    const auto whole = renderFresh (*s, rate, channels, frames, frames);
    run.state (mc::Hash().add (signal).add ((uint64_t) chain.size()).add (rate).add (whole[0].back()));

    for (unsigned bits = 1; bits < 1u << (frames - 1); ++bits)
    {
        const auto blocks = composition (frames, bits);
        s->resetWithDSPChain();
        s->prepareWithDSPChain (rate, channels, frames);
        const auto split = render (*s, channels, blocks);
        run.step();
        const auto d = difference (split, whole, tolerance<T>());
        std::string list;
        if (! d.empty()) for (size_t b : blocks) list += fmt (" %zu", b);
        MC_REQUIRE (run, d.empty(), "direct", describe<T> (signal, chain, -1) + fmt (" at %g Hz in blocks of", rate) + list + ": " + d);
    }
}

// Running an effect, and an envelope alone, in all the possible sequences of blocks
template <typename T>
static void effects (Run& run)
{
    const double rate = run.pick (rates, "rate");
    const size_t frames = run.thorough ? 13 : 11;
    const int effect = run.choose (numEffects, "effect");
    static const std::vector<std::pair<size_t, size_t>> layouts { { 1, 1 }, { 3, 3 }, { 1, 2 } };
    const auto layout = run.pick (layouts, "layout");
    const bool replacing = run.flag ("replacing");
    if ((effect == 3 || effect == 4) && layout.first != layout.second) return;
    if (replacing && layout.first != layout.second) return;
    auto e = makeEffect<T> (effect, rate, frames);
    const auto input = table<T> (layout.first, frames);
    Audio<T> whole;

    for (unsigned bits = 0; bits < 1u << (frames - 1); ++bits)
    {
        const auto blocks = composition (frames, bits);
        e->resetWithEnvelopes();
        e->prepareWithEnvelopes (rate, layout.first, layout.second, frames);
        Audio<T> output;
        size_t offset = 0;

        for (size_t n : blocks)
        {
            hart::AudioBuffer<T> in (layout.first, n), out (layout.second, n);
            fill (in, input, offset);
            if (replacing) { fill (out, input, offset); e->processWithEnvelopes (out, out); }
            else e->processWithEnvelopes (in, out);
            append (output, out);
            offset += n;
        }

        run.step();
        if (bits == 0) { whole = output; continue; }
        const auto d = difference (output, whole, tolerance<T>());
        std::string list;
        if (! d.empty()) for (size_t b : blocks) list += fmt (" %zu", b);
        MC_REQUIRE (run, d.empty(), "effect", std::string (effectName (effect)) + fmt (" at %g Hz in blocks of", rate) + list + ": " + d);
    }

    run.state (mc::Hash().add (effect).add (rate).add ((uint64_t) layout.second).add (whole[0].back()));
}

int main (int argc, char** argv)
{
    mc::Options o;
    o.id = "C04";
    o.unitDepthQuick = 5;
    o.unitDepthThorough = 5;
    return mc::main (argc, argv, o, [] (Run& run)
    {
        Cli().apply();
        const int mode = run.choose (5, "mode");
        const bool wide = run.flag ("double");
        if (mode < 2) { if (wide) hosted<double> (run, mode == 1); else hosted<float> (run, mode == 1); }
        else if (mode == 2) { if (wide) direct<double> (run); else direct<float> (run); }
        else if (mode == 3) { if (wide) effects<double> (run); else effects<float> (run); }
        else { if (wide) lengthy<double> (run); else lengthy<float> (run); }
    });
}
