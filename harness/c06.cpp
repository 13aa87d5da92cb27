// C06: stock matchers accept exactly the audio which satisfies their condition
#include "stock.hpp"

using namespace stock;
using mc::Run;

static const double inf = std::numeric_limits<double>::infinity(), nan_ = std::numeric_limits<double>::quiet_NaN();

enum Kind { equals, below, at };

struct Setting { double level, tolerance; bool defaultTolerance; };   // level in dB

static const std::vector<Setting>& settings (Kind kind)
{
    static const std::vector<Setting> equal { { 0, 0.25, false }, { 0, 0, false }, { 0, 1e-5, true }, { 0, 1e-2, false } };
    static const std::vector<Setting> peaks { { 0, 0.25, false }, { 0, 0, false }, { 0, 1e-3, true }, { -6, 1e-3, true }, { 12, 0.5, false }, { -60, 1e-4, false }, { -inf, 1e-3, true }, { -130, 0.125, false } };
    return kind == equals ? equal : peaks;
}

static long double linear (double dB) { return dB < -120 ? 0.0L : std::pow (10.0L, (long double) dB / 20); }

// 1 accepted, 0 refused, -1 too close to the border to tell
template <typename T>
static int satisfied (Kind kind, const Setting& s, const Audio<T>& observed, const Audio<T>& reference)
{
    // Without rounding when level and tolerance are exact
    const bool exact = s.tolerance * 1024 == std::floor (s.tolerance * 1024) && (kind == equals || s.level == 0 || s.level < -120);
    const long double margin = exact ? 0 : (sizeof (T) == 4 ? 2e-6L : 1e-12L);
    const long double level = linear (s.level);
    long double peak = 0;
    int result = 1;

    for (size_t c = 0; c < observed.size(); ++c)
        for (size_t f = 0; f < observed[c].size(); ++f)
        {
            const long double x = observed[c][f];
            if (std::isnan (x)) return 0;

            if (kind == equals)
            {
                const long double y = reference[c][f];
                if (std::isnan (y)) return 0;
                if (x == y) continue;
                const long double d = std::abs (x - y) - s.tolerance;
                if (d > margin) return 0;
                if (margin > 0 && d > -margin) result = -1;
            }
            else peak = std::max (peak, std::abs (x));
        }

    if (kind == below)
    {
        const long double d = peak - level - s.tolerance;
        if (margin > 0 && std::abs (d) <= margin * std::max (1.0L, level)) return -1;
        return d <= 0;
    }

    if (kind == at)
    {
        const long double d = std::abs (peak - level) - s.tolerance;
        if (margin > 0 && std::abs (d) <= margin * std::max (1.0L, level)) return -1;
        return d <= 0;
    }

    return result;
}

template <typename T>
static std::unique_ptr<hart::Matcher<T>> make (Kind kind, const Setting& s, const Audio<T>& reference)
{
    using P = std::unique_ptr<hart::Matcher<T>>;
    switch (kind)
    {
        case equals: return s.defaultTolerance ? P (new hart::EqualsTo<T> (Play<T> (reference))) : P (new hart::EqualsTo<T> (Play<T> (reference), s.tolerance));
        case below: return s.defaultTolerance ? P (new hart::PeaksBelow<T> (s.level)) : P (new hart::PeaksBelow<T> (s.level, s.tolerance));
        default: return s.defaultTolerance ? P (new hart::PeaksAt<T> (s.level)) : P (new hart::PeaksAt<T> (s.level, s.tolerance));
    }
}

template <typename T>
static bool accepted (hart::Matcher<T>& m, const Audio<T>& observed, size_t block)
{
    const size_t channels = observed.size(), frames = observed[0].size();
    m.prepare (48000, channels, block);
    m.reset();
    size_t offset = 0;
    bool ok = true;
    for (size_t n : uniformBlocks (frames, block))
    {
        hart::AudioBuffer<T> b (channels, n);
        fill (b, observed, offset);
        offset += n;
        if (! m.match (b)) { ok = false; break; }
    }
    return ok;
}

template <typename T>
static std::string describe (Kind kind, const Setting& s, const Audio<T>& observed)
{
    std::string text = kind == equals ? fmt ("EqualsTo (tolerance %g)", s.tolerance) : fmt ("%s (%g dB, tolerance %g)", kind == below ? "PeaksBelow" : "PeaksAt", s.level, s.tolerance);
    if (observed.size() * observed[0].size() > 16) return text;
    text += " on";
    for (auto& c : observed) { text += " ["; for (auto x : c) text += fmt (" %.9g", (double) x); text += " ]"; }
    return text;
}

template <typename T>
static void compare (Run& run, Kind kind, const Setting& s, const Audio<T>& observed, const Audio<T>& reference, hart::Matcher<T>& m, size_t block, const std::string& extra = {})
{
    const int want = satisfied (kind, s, observed, reference);
    if (want < 0) return;
    const bool got = accepted (m, observed, block);
    run.step();
    MC_REQUIRE (run, got == (want == 1), want ? "refused" : "accepted", describe (kind, s, observed) + (got ? " was accepted" : " was refused") + extra);
}

// Values around the borders
template <typename T>
static std::vector<double> alphabet (Kind kind, const Setting& s, bool small, bool fine = false, bool finest = false)
{
    std::vector<double> v { 0, nan_, inf, -inf };
    if (kind == equals)
    {
        // The reference is 0.5 everywhere (and see below)
        for (double d : { 0.0, s.tolerance * 0.9, s.tolerance, s.tolerance * 1.1 + 1e-6 }) { v.push_back (0.5 + d); v.push_back (0.5 - d); }
        v.push_back (-0.5);
        if (fine) for (double r : { 0.99, 0.999, 0.9999, 1.0001, 1.001, 1.01 }) { v.push_back (0.5 + s.tolerance * r); v.push_back (0.5 - s.tolerance * r); }
        if (finest) for (double d : { s.tolerance, -s.tolerance }) { v.push_back (std::nextafter ((T) (0.5 + d), (T) 2)); if (d > 0) v.push_back (std::nextafter ((T) (0.5 + d), (T) -2)); }   // whose differences are exact
    }
    else
    {
        const double l = (double) linear (s.level);
        for (double d : { l, l + s.tolerance * 0.9, l + s.tolerance, l + s.tolerance * 1.1 + 1e-5, l - s.tolerance, l - s.tolerance * 1.1 - 1e-5, l / 2 }) { v.push_back (d); v.push_back (-d); }
        v.push_back (1e-30);
        if (fine) for (double r : { 0.99, 0.999, 0.9999, 1.0001, 1.001, 1.01 }) { v.push_back (l + s.tolerance * r); v.push_back (-l - s.tolerance * r); v.push_back (l - s.tolerance * r); v.push_back (-l + s.tolerance * r); }
        if (finest) for (double d : { s.tolerance, -s.tolerance }) { v.push_back (std::nextafter ((T) (l + d), (T) 8)); v.push_back (std::nextafter ((T) (l + d), (T) -8)); v.push_back (-std::nextafter ((T) (l + d), (T) 8)); }
    }
    v.push_back (-0.0);
    v.push_back (std::numeric_limits<T>::max());
    if (small) v.resize (std::min (v.size(), (size_t) 12));
    return v;
}

// All the buffers of few samples
template <typename T>
static void smallBuffers (Run& run, Kind kind)
{
    const Setting s = run.pick (settings (kind), "setting");
    static const std::vector<std::pair<size_t, size_t>> sizes { { 1, 1 }, { 1, 2 }, { 2, 1 }, { 1, 3 }, { 3, 1 }, { 2, 2 } };
    const auto size = run.pick (sizes, "size");
    const auto values = alphabet<T> (kind, s, false, size.first * size.second <= 2, size.first * size.second <= 2);
    const auto references = kind == equals ? std::vector<double> { 0.5, inf, -inf, nan_ } : std::vector<double> { 0 };
    const auto small = alphabet<T> (kind, s, size.first * size.second == 4 && ! run.thorough);
    const auto& use = size.first * size.second >= 4 ? small : values;
    const size_t n = size.first * size.second;
    const size_t first = (size_t) run.choose ((int) use.size(), "first sample");

    for (double r : references)
    {
        Audio<T> observed = silence<T> (size.first, size.second), reference (size.first, std::vector<T> (size.second, (T) 0.5));
        reference.back().back() = (T) r;
        auto m = make<T> (kind, s, reference);
        std::vector<size_t> digits (n, 0);
        digits[0] = first;

        for (;;)
        {
            for (size_t i = 0; i < n; ++i) observed[i % size.first][i / size.first] = (T) use[digits[i]];
            compare (run, kind, s, observed, reference, *m, size.second);
            size_t i = 1;
            while (i < n && ++digits[i] == use.size()) digits[i++] = 0;
            if (i >= n) break;
        }

        run.state (mc::Hash().add ((int) kind).add (s.level).add (s.tolerance).add ((uint64_t) n).add (r == r ? r : 7.0).add ((uint64_t) first).add ((uint64_t) sizeof (T)));
    }
}

// One sample which decides, anywhere
template <typename T>
static void positions (Run& run, Kind kind)
{
    const Setting s = run.pick (settings (kind), "setting");
    struct Size { size_t channels, frames; };
    static const std::vector<Size> sizes { { 1, 5 }, { 2, 9 }, { 3, 7 }, { 5, 4 }, { 1, 300 }, { 4, 260 }, { 128, 3 }, { 2, 5000 }, { 1, 100000 } };
    const Size size = run.pick (sizes, "size");
    const auto values = alphabet<T> (kind, s, false, true);
    const int which = run.choose ((int) values.size(), "value");

    // Everything else satisfies the condition as it is (except peaks at a level)
    Audio<T> reference = table<T> (size.channels, size.frames), observed;
    const double level = kind == equals ? 1 : (double) linear (s.level);
    observed = reference;
    if (kind != equals) for (auto& c : observed) for (auto& x : c) x = (T) (x * level * 0.25);

    const size_t total = size.channels * size.frames;
    std::vector<size_t> where;
    if (total <= 1100 && (total <= 40 || run.thorough || (which & 1) == 0 || which < 4)) for (size_t i = 0; i < total; ++i) where.push_back (i);
    else
        for (size_t f : { (size_t) 0, (size_t) 1, (size_t) 255, (size_t) 256, (size_t) 511, (size_t) 512, (size_t) 1023, (size_t) 1024, (size_t) 4095, (size_t) 4096, (size_t) 65535, (size_t) 65536, size.frames / 2, size.frames - 2, size.frames - 1 })
            for (size_t c = 0; c < size.channels; ++c)
                if (f < size.frames) where.push_back (f * size.channels + c);

    std::vector<size_t> blocks { size.frames };
    if (kind == equals || kind == below)
    {
        if (size.frames <= 10) for (size_t b = 1; b < size.frames; ++b) blocks.push_back (b);
        else if (size.frames <= 5000) { blocks.push_back (64); blocks.push_back (100); if (size.frames <= 300) blocks.push_back (1); }
        else blocks.push_back (1024);
    }

    std::string dir;
    auto m = make<T> (kind, s, reference);
    for (size_t i : where)
    {
        T& sample = observed[i % size.channels][i / size.channels];
        const T before = sample;
        // For the equality matcher the alphabet is around one half
        sample = kind == equals && std::isfinite (values[(size_t) which]) && std::abs (values[(size_t) which]) < 10 ? (T) (before + (values[(size_t) which] - 0.5)) : (T) values[(size_t) which];
        for (size_t b : blocks)
        {
            if (kind == at && b != size.frames) continue;
            compare (run, kind, s, observed, reference, *m, b, fmt (" (%zu channels, %zu frames, in blocks of %zu, the sample at channel %zu, frame %zu is %.9g)", size.channels, size.frames, b, i % size.channels, i / size.channels, (double) sample));
        }
        sample = before;
    }
    run.state (mc::Hash().add (100 + (int) kind).add (s.level).add (s.tolerance).add ((uint64_t) total).add (which).add ((uint64_t) sizeof (T)));

    // As it is, and repeatedly
    for (size_t b : blocks) compare (run, kind, s, observed, reference, *m, b);
}

// The reference signal may be any signal with any chain, which starts from its beginning at the sample rate of the test
template <typename T>
static void references (Run& run)
{
    const size_t frames = run.pick ({ (size_t) 5, (size_t) 32 }, "frames");
    const int signal = run.choose (numSignals, "signal");
    const int effect = run.choose (numEffects, "effect");
    const double rate = 8000;
    auto s = makeSignal<T> (signal, rate, frames, 2);
    s->followedBy (makeEffect<T> (effect, rate, frames));
    auto fresh = makeSignal<T> (signal, rate, frames, 2);
    fresh->followedBy (makeEffect<T> (effect, rate, frames));
    const auto expected = renderFresh (*fresh, rate, 2, frames, frames);
    // What the given object rendered before does not matter
    renderFresh (*s, rate, 2, 3, 3);
    hart::EqualsTo<T> m (*s, 1e-3);

    for (size_t b : { (size_t) 1, (size_t) 3, frames })
    {
        auto test = [&] (const Audio<T>& audio)
        {
            m.prepare (rate, 2, b);
            m.reset();
            size_t offset = 0;
            for (size_t n : uniformBlocks (frames, b))
            {
                hart::AudioBuffer<T> block (2, n);
                fill (block, audio, offset);
                offset += n;
                if (! m.match (block)) return false;
            }
            return true;
        };

        run.step();
        MC_REQUIRE (run, test (expected), "refused", fmt ("EqualsTo (%s >> %s) refuses that signal in blocks of %zu", signalName (signal), effectName (effect), b));
        for (size_t f = 0; f < frames; ++f)
            for (size_t c = 0; c < 2; ++c)
                for (double d : { 2e-3, -2e-3, 5e-4, -5e-4 })
                {
                    auto other = expected;
                    other[c][f] += (T) d;
                    run.step();
                    MC_REQUIRE (run, test (other) == (std::abs (d) < 1e-3), "reference", fmt ("EqualsTo (%s >> %s, 1e-3) %s audio which differs by %g at channel %zu frame %zu, in blocks of %zu", signalName (signal), effectName (effect), std::abs (d) < 1e-3 ? "refuses" : "accepts", d, c, f, b));
                }
    }
    run.state (mc::Hash().add (signal).add (effect).add ((uint64_t) frames).add (expected[1].back()));
}

int main (int argc, char** argv)
{
    mc::Options o;
    o.id = "C06";
    o.unitDepthQuick = 5;
    o.unitDepthThorough = 5;
    return mc::main (argc, argv, o, [] (Run& run)
    {
        Cli().apply();
        const bool wide = run.flag ("double");
        const int mode = run.choose (3, "mode");
        if (mode == 2) { if (wide) references<double> (run); else references<float> (run); return; }
        const Kind kind = (Kind) run.choose (3, "matcher");
        if (mode == 0) { if (wide) smallBuffers<double> (run, kind); else smallBuffers<float> (run, kind); }
        else { if (wide) positions<double> (run, kind); else positions<float> (run, kind); }
    });
}
