// C09: envelopes follow their curve, sample accurate at the rate of the host
#include "stock.hpp"

using namespace stock;
using mc::Run;

struct Timing { double unit, rate; };   // Seconds per unit of the curve, frames per second

// Would rounding of the time make a visible difference at `time`?
static bool nearJump (const Curve& c, double time, double width)
{
    double begin = 0;
    for (const auto& s : c.segments)
    {
        if (! s.hold && s.frames < 1e-3 && std::abs (time - begin) < width) return true;
        begin += s.frames;
    }
    return false;
}

static bool dyadic (double rate) { return rate == 8 || rate == 16 || rate == 1; }

static void judge (Run& run, const Curve& c, const Timing& t, const std::vector<double>& got, size_t from, double tolerance, const std::string& how)
{
    // Steep segments show the rounding of time
    double scale = std::abs (c.start);
    for (auto& s : c.segments) if (! s.hold) scale = std::max (scale, std::abs (s.target));
    if (scale == 0) scale = 1;

    for (size_t i = 0; i < got.size(); ++i)
    {
        const double time = (double) (from + i + 1) / (t.rate * t.unit);
        if (! (dyadic (t.rate) && t.unit == 0.125) && nearJump (c, time, 1e-6)) continue;
        const double want = c.at (time);
        MC_REQUIRE (run, std::abs (got[i] - want) <= tolerance * scale, "value",
            c.str() + fmt (" (unit %g s) at %g Hz, frame %zu: %.12g instead of %.12g, ", t.unit, t.rate, from + i, got[i], want) + how);
    }
}

static double durationOf (const Curve& c) { double d = 0; for (auto& s : c.segments) d += s.frames; return d; }

static void check (Run& run, const Curve& c, const Timing& t, const std::vector<size_t>& blockSizes, size_t extraFrames = 3)
{
    const size_t frames = (size_t) (durationOf (c) * t.unit * t.rate) + extraFrames;
    auto e = c.make (t.unit);
    for (size_t b : blockSizes)
    {
        e.prepare (t.rate, b);
        e.reset();
        size_t offset = 0;
        for (size_t n : uniformBlocks (frames, b))
        {
            std::vector<double> v (n, 123.0);
            static_cast<hart::Envelope&> (e).renderNextBlock (n, v);
            MC_REQUIRE (run, v.size() == n, "size", "wrong number of values");
            judge (run, c, t, v, offset, 1e-9, fmt ("in blocks of %zu", b));
            offset += n;
        }
        run.step();
    }
    mc::Hash h;
    h.add (c.start).add (t.rate).add (t.unit);
    for (auto& s : c.segments) h.add (s.hold).add (s.target).add (s.frames).add ((int) s.shape);
    run.state (h);
}

static bool valid (const Curve& c)
{
    double v = c.start;
    for (auto& s : c.segments)
    {
        if (s.hold) continue;
        if (s.shape == Shape::exponential && s.frames > 0 && ! (v * s.target > 0)) return false;
        v = s.target;
    }
    return true;
}

static std::vector<Segment> alphabet (const std::vector<double>& targets)
{
    std::vector<Segment> a;
    for (double d : { 0.0, 0.5, 1.0, 2.25, 3.0 }) a.push_back ({ true, 0, d, Shape::linear });
    for (double target : targets)
        for (double d : { 0.0, 0.5, 1.25, 2.0, 3.0 })
            for (Shape s : { Shape::linear, Shape::exponential, Shape::sCurve })
            {
                if (d == 0 && s != Shape::linear) continue;
                a.push_back ({ false, target, d, s });
            }
    return a;
}

static const std::vector<Timing>& timings()
{
    static const std::vector<Timing> t { { 0.125, 8 }, { 0.125, 16 }, { 0.125, 12 }, { 0.125, 8.4 }, { 0.125, 1 }, { 1.0 / 44100, 44100 }, { 1.0 / 48000, 44100 } };
    return t;
}

// All the sequences of up to three segments (thorough: four, with fewer kinds)
static void sequences (Run& run)
{
    Curve c;
    const auto t = run.pick (timings(), "timing");
    c.start = run.pick ({ 1.0, -2.0, 0.0 }, "start");
    const auto a = alphabet (c.start < 0 ? std::vector<double> { -0.5, -3 } : std::vector<double> { 0.25, 2.5 });
    const int count = run.choose (4, "segments");
    for (int i = 0; i < count; ++i) c.segments.push_back (run.pick (a, "segment"));
    if (! valid (c)) return;
    check (run, c, t, { 1, 3, 1000 });
}

// Ends close to each other or far apart, at all orders of magnitude, and segments of any length
static void ratios (Run& run)
{
    Curve c;
    const auto t = run.pick (timings(), "timing");
    c.start = run.pick ({ 1.0, 1e-6, 250.0, -1.0, -30.0 }, "start");
    const double ratio = run.pick ({ 1.0, 1.0 + 1e-12, 1.0 - 1e-8, 1.00001, 0.9999, 1.001, 0.995, 1.005, 1.02, 0.95, 1.1, 1.4, 7.0, 1e-3, 1e5 }, "ratio");
    const double duration = run.pick ({ 0.01, 0.3, 0.99, 2.5, 7.01, 40.3, 333.3 }, "duration");
    const Shape shape = run.pick ({ Shape::linear, Shape::exponential, Shape::sCurve }, "shape");
    if (run.flag ("held before")) c.segments.push_back ({ true, 0, 1.7, Shape::linear });
    c.segments.push_back ({ false, c.start * ratio, duration, shape });
    if (run.flag ("back again")) c.segments.push_back ({ false, c.start, duration, shape });
    check (run, c, t, { 1, 7, 1000 });
}

static void longer (Run& run)
{
    Curve c;
    const auto t = run.pick (timings(), "timing");
    c.start = 1;
    static const std::vector<Segment> a { { true, 0, 0, Shape::linear }, { true, 0, 1.5, Shape::linear }, { false, 2.5, 0, Shape::linear }, { false, -1, 1, Shape::linear }, { false, 0, 1.25, Shape::sCurve }, { false, 4, 0.75, Shape::exponential }, { false, 1, 2, Shape::sCurve } };
    for (int i = 0; i < (run.thorough ? 6 : 5); ++i) c.segments.push_back (run.pick (a, "segment"));
    if (! valid (c)) return;
    check (run, c, t, { 1, 4 });
}

// Many segments, long segments, extreme values
static void large (Run& run)
{
    const int what = run.choose (8, "curve");
    const double rate = run.pick ({ 8000.0, 44055.9, 44100.0, 48000.0, 96000.0, 192000.0 }, "rate");
    const size_t block = run.pick ({ (size_t) 1, (size_t) 100, (size_t) 1024, (size_t) 65536 }, "block");
    Curve c;
    Timing t { 1, rate };
    const double seconds = run.thorough ? 20 : 4;
    switch (what)
    {
        case 0: c.start = 0; c.segments = { { false, 1, seconds, Shape::linear } }; break;
        case 1: c.start = 1e-4; c.segments = { { false, 1, seconds, Shape::exponential }, { false, 1e-3, seconds / 3, Shape::exponential } }; break;
        case 2: c.start = -60; c.segments = { { true, 0, seconds / 2, Shape::linear }, { false, 6, seconds / 2, Shape::sCurve } }; break;
        case 3: c.start = 1; for (int i = 0; i < 3000; ++i) c.segments.push_back ({ i % 3 == 0, (double) (i % 5 + 1), 1.3 / rate, i % 2 ? Shape::linear : Shape::sCurve }); break;
        case 4: c.start = 1; for (int i = 0; i < 2000; ++i) c.segments.push_back ({ false, (double) (i % 7 + 1), i % 4 ? 0.0 : 2.7 / rate, i % 8 ? Shape::linear : Shape::exponential }); break;
        case 5: c.start = 5; for (int i = 0; i < 4000; ++i) c.segments.push_back ({ false, i % 2 ? 5.0 : -5.0, 0.3 / rate, Shape::linear }); break;
        case 6: c.start = 1e9; c.segments = { { false, 1e-9, 0.01, Shape::exponential }, { false, -1e6, 0.01, Shape::linear }, { false, -1e6, 0.005, Shape::exponential }, { true, 0, 0.1, Shape::linear } }; break;
        default: c.start = 0.3; for (int i = 0; i < 100; ++i) c.segments.push_back ({ i % 2 == 1, i % 4 ? 1.0 : 0.1, 0.0101, Shape::linear }); break;
    }

    const size_t frames = (size_t) (durationOf (c) * rate) + 50;
    auto e = c.make (1);
    e.prepare (rate, block);
    e.reset();
    size_t offset = 0, segment = 0;
    double begin = c.start, segmentStart = 0;
    for (size_t n : uniformBlocks (frames, block))
    {
        std::vector<double> v (n);
        static_cast<hart::Envelope&> (e).renderNextBlock (n, v);
        for (size_t i = 0; i < n; ++i)
        {
            // As Curve::at(), but remembers the segment
            const double time = (double) (offset + i + 1) / rate;
            while (segment < c.segments.size() && time >= segmentStart + c.segments[segment].frames)
            {
                if (! c.segments[segment].hold) begin = c.segments[segment].target;
                segmentStart += c.segments[segment].frames;
                ++segment;
            }
            double want = begin;
            bool near = false;
            if (segment < c.segments.size())
            {
                const auto& s = c.segments[segment];
                Curve one;
                one.start = begin;
                one.segments = { s };
                want = one.at (time - segmentStart);
                near = s.frames - (time - segmentStart) < 1e-3 / rate;
            }
            near = near || time - segmentStart < 1e-3 / rate;
            if (near && c.segments.size() > 100) continue;
            // Steep segments show the rounding of time
            const double tolerance = 1e-6;
            MC_REQUIRE (run, std::abs (v[i] - want) <= tolerance * std::max (std::abs (begin), std::max (1.0, std::abs (want))), "long", fmt ("curve %d at %g Hz in blocks of %zu, frame %zu (segment %zu): %.12g instead of %.12g", what, rate, block, offset + i, segment, v[i], want));
        }
        offset += n;
    }
    run.step();
    run.state (mc::Hash().add (what).add (rate).add ((uint64_t) block));
}

// Through the host, attached to an effect, and to an effect in a chain
template <typename T>
static void hosted (Run& run)
{
    const double rate = run.pick ({ 8.0, 16.0, 10.7, 22050.0, 44100.0, 48000.0, 96000.0, 192000.0 }, "rate");
    const size_t block = run.pick ({ (size_t) 1, (size_t) 2, (size_t) 5, (size_t) 64, (size_t) 1024 }, "block");
    const bool chain = run.flag ("in a chain");
    const bool decibels = run.flag ("decibels");
    static const std::vector<std::vector<Segment>> curves { {}, { { true, 0, 3, Shape::linear } }, { { false, 3, 4.5, Shape::linear } }, { { false, 0.5, 6, Shape::exponential }, { true, 0, 2, Shape::linear }, { false, 2, 3.25, Shape::sCurve } },
        { { true, 0, 1.25, Shape::linear }, { false, 0.25, 0, Shape::linear }, { false, 4, 5, Shape::exponential } }, { { false, 2, 0, Shape::linear } }, { { true, 0, 2, Shape::linear }, { false, 0.125, 2, Shape::sCurve }, { false, 1, 0, Shape::linear } } };
    for (auto& segments : curves)
    {
        Curve c;
        c.start = 1.5;
        c.segments = segments;
        const double unit = 1 / rate;
        const size_t frames = 20;
        Audio<T> got;
        std::unique_ptr<hart::DSP<T>> gain;
        if (decibels) gain.reset (new hart::GainDb<T>()); else gain.reset (new hart::GainLinear<T>());
        gain->withEnvelope (0, c.make (unit));
        Play<T> ones (Audio<T> (2, std::vector<T> (frames, (T) 1)));
        if (chain) ones.followedBy (gain->copy());
        hart::AudioTestBuilder<T> host (chain ? std::unique_ptr<hart::DSP<T>> (new Through<T>()) : std::move (gain));
        host.inStereo().withDuration (frames / rate).withBlockSize (block).withInputSignal (ones).withSampleRate (rate).expectTrue (Capture<T> (&got)).process();
        run.step();
        for (auto& channel : got)
        {
            std::vector<double> v (channel.begin(), channel.end());
            if (decibels) for (auto& x : v) x = 20 * std::log10 (x);
            Timing t { unit, rate };
            judge (run, c, t, v, 0, sizeof (T) == 4 ? 1e-5 : 1e-9, fmt ("through the host in blocks of %zu", block));
        }
        run.state (mc::Hash().add (rate).add ((uint64_t) block).add ((uint64_t) segments.size()).add (chain).add (decibels));
    }
}

int main (int argc, char** argv)
{
    mc::Options o;
    o.id = "C09";
    o.unitDepthQuick = 4;
    o.unitDepthThorough = 5;
    return mc::main (argc, argv, o, [] (Run& run)
    {
        Cli().apply();
        switch (run.choose (6, "mode"))
        {
            case 0: return sequences (run);
            case 1: return longer (run);
            case 2: return large (run);
            case 3: return hosted<float> (run);
            case 4: return ratios (run);
            default: return hosted<double> (run);
        }
    });
}
