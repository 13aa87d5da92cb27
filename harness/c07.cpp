// C07: the report of a failed check points at a real violating sample
#include "stock.hpp"

using namespace stock;
using mc::Run;

static const double inf = std::numeric_limits<double>::infinity(), nan_ = std::numeric_limits<double>::quiet_NaN();

// Fails at the block which has a given frame, and says so
template <typename T>
class Pointing : public hart::Matcher<T>
{
public:
    Pointing (size_t pointedChannel, size_t pointedFrame, const std::string& text, bool perBlockOk): channel (pointedChannel), frame (pointedFrame), description (text), perBlock (perBlockOk) {}
    void prepare (double, size_t, size_t) override {}
    bool match (const hart::AudioBuffer<T>& audio) override
    {
        const size_t start = seen;
        seen += audio.getNumFrames();
        if (frame < start || frame >= seen) return true;
        relative = frame - start;
        return false;
    }
    bool canOperatePerBlock() override { return perBlock; }
    void reset() override { seen = 0; }
    hart::MatcherFailureDetails getFailureDetails() const override
    {
        hart::MatcherFailureDetails d;
        d.frame = relative; d.channel = channel; d.description = description;
        return d;
    }
    void represent (std::ostream& stream) const override { stream << "Pointing (" << channel << ", " << frame << ")"; }
    std::unique_ptr<hart::Matcher<T>> copy() const override { return std::unique_ptr<hart::Matcher<T>> (new Pointing (*this)); }
    std::unique_ptr<hart::Matcher<T>> move() override { return std::unique_ptr<hart::Matcher<T>> (new Pointing (*this)); }

private:
    size_t channel, frame;
    std::string description;
    bool perBlock;
    size_t seen = 0, relative = 0;
};

struct Number { bool found = false; double value = 0; int decimals = 0; };

// The number which follows `label` in a text
static Number numberAfter (const std::string& text, const std::string& label, size_t from = 0, size_t* end = nullptr)
{
    Number n;
    size_t at = text.find (label, from);
    if (at == std::string::npos) return n;
    at += label.size();
    while (at < text.size() && text[at] == ' ') ++at;
    char* stop = nullptr;
    n.value = strtod (text.c_str() + at, &stop);
    const size_t stopAt = (size_t) (stop - text.c_str());
    if (stopAt == at) return n;
    n.found = true;
    const size_t dot = text.find ('.', at);
    n.decimals = dot < stopAt ? (int) (stopAt - dot) - 1 : 0;
    if (end) *end = stopAt;
    return n;
}

// Whether `n` is how `value` is printed with so many decimals
static bool prints (const Number& n, double value, int decimals, double relativeError = 1e-12)
{
    if (! n.found) return false;
    if (std::isnan (value)) return std::isnan (n.value);
    if (std::isinf (value)) return n.value == value;
    if (n.decimals != decimals) return false;
    return std::abs (n.value - value) <= 0.5 * std::pow (10.0, -decimals) * 1.000001 + relativeError * std::max (1.0, std::abs (value));
}

static double decibels (double ratio) { return ratio < 1e-6 ? -120 : 20 * std::log10 (ratio); }

struct Violation { size_t channel, frame; double value; };

enum Kind { equals, below, at, pointing };

template <typename T>
struct Case
{
    Kind kind;
    Audio<T> audio, reference;
    double level = 0, tolerance = 0.125;
    double rate = 44100;
    size_t block = 1024;
    std::string label;
    bool assertion = false, perBlock = true;
    Cli cli;
    size_t pointedChannel = 0, pointedFrame = 0;
    std::string description = "Custom description";

    size_t channels() const { return audio.size(); }
    size_t frames() const { return audio[0].size(); }

    std::unique_ptr<hart::Matcher<T>> make() const
    {
        using P = std::unique_ptr<hart::Matcher<T>>;
        if (kind == equals) return P (new hart::EqualsTo<T> (Play<T> (reference), tolerance));
        if (kind == below) return P (new hart::PeaksBelow<T> (level, tolerance));
        if (kind == at) return P (new hart::PeaksAt<T> (level, tolerance));
        return P (new Pointing<T> (pointedChannel, pointedFrame, description, perBlock));
    }

    bool violates (size_t c, size_t f, double peak) const
    {
        const double x = audio[c][f];
        if (kind == equals) return ! (std::abs (x - (double) reference[c][f]) <= tolerance) && ! (x == (double) reference[c][f]);
        if (kind == below) return ! (std::abs (x) <= std::pow (10, level / 20) + tolerance);
        if (kind == at) return std::isnan (x) || (! std::isnan (peak) && std::abs (x) == peak);
        return c == pointedChannel && f == pointedFrame;
    }

    bool describes (const std::string& report, size_t c, size_t f) const
    {
        const double x = audio[c][f];
        const double e = sizeof (T) == 4 ? 1e-5 : 1e-9;
        if (kind == pointing) return report.find (description) != std::string::npos;
        if (kind == at) return prints (numberAfter (report, "peaks at"), decibels (std::abs (x)), cli.db, e);
        if (kind == below) return prints (numberAfter (report, "peaks at at least"), decibels (std::abs (x)), cli.db, e);
        size_t end = 0, end2 = 0;
        const auto expected = numberAfter (report, "Expected sample value:", 0, &end);
        const auto expectedDb = numberAfter (report, "(", end);
        const auto difference = numberAfter (report, "difference:", 0, &end2);
        const auto differenceDb = numberAfter (report, "(", end2);
        const double y = reference[c][f], d = std::abs (x - y);
        return prints (expected, y, cli.lin, e) && prints (expectedDb, decibels (std::abs (y)), cli.db, e) && prints (difference, d, cli.lin, e) && (prints (differenceDb, decibels (d), cli.db, d < 1e-2 ? 1e-2 : 5e-5));
    }
};

template <typename T>
static void compare (Run& run, const Case<T>& k)
{
    k.cli.apply();
    auto inverted = k.audio;
    for (auto& c : inverted) for (auto& x : c) x = -x;

    hart::AudioTestBuilder<T> host { hart::GainLinear<T> (-1) };
    host.withSampleRate (k.rate).withDuration ((double) k.frames() / k.rate).withBlockSize (k.block).withInputChannels (k.channels()).withOutputChannels (k.channels()).withInputSignal (Play<T> (inverted));
    if (! k.label.empty()) host.withLabel (k.label);
    auto matcher = k.make();
    std::ostringstream condition;
    condition << *matcher;

    auto add = [&] (auto&& m)
    {
        using M = typename std::decay<decltype (m)>::type;
        M copy (m);
        if (k.assertion) host.assertTrue (std::move (copy)); else host.expectTrue (std::move (copy));
    };
    if (k.kind == equals) add (static_cast<hart::EqualsTo<T>&> (*matcher));
    if (k.kind == below) add (static_cast<hart::PeaksBelow<T>&> (*matcher));
    if (k.kind == at) add (static_cast<hart::PeaksAt<T>&> (*matcher));
    if (k.kind == pointing) add (static_cast<Pointing<T>&> (*matcher));

    std::string report;
    hart::ExpectationFailureMessages::clear();
    try { host.process(); }
    catch (const hart::TestAssertException& e) { report = e.what(); }
    catch (const std::exception& e) { run.fail ("error", std::string ("ended with another error: ") + e.what()); }
    run.step();

    const auto& messages = hart::ExpectationFailureMessages::get();
    if (! k.assertion)
    {
        MC_REQUIRE (run, messages.size() == 1, "reports", fmt ("%zu reports", messages.size()));
        report = messages[0];
    }

    const std::string shape = fmt ("%s %zu channels, %zu frames in blocks of %zu at %g Hz; the report is:\n", condition.str().c_str(), k.channels(), k.frames(), k.block, k.rate) + report;
    MC_REQUIRE (run, report.compare (0, 17, k.assertion ? "assertTrue() fail" : "expectTrue() fail") == 0, "kind", "the kind of check is not named: " + shape);
    MC_REQUIRE (run, report.find (condition.str()) != std::string::npos, "condition", "the condition is not shown: " + shape);
    MC_REQUIRE (run, k.label.empty() ? report.find (" at \"") == std::string::npos : report.find ("\"" + k.label + "\"") != std::string::npos, "label", "the label is not shown: " + shape);

    const auto channel = numberAfter (report, "\nChannel:"), frame = numberAfter (report, "\nFrame:"), timestamp = numberAfter (report, "\nTimestamp:");
    size_t end = 0;
    const auto value = numberAfter (report, "\nSample value:", 0, &end);
    const auto level = numberAfter (report, "(", end);
    MC_REQUIRE (run, channel.found && frame.found && timestamp.found && value.found && level.found, "incomplete", "something is missing: " + shape);
    MC_REQUIRE (run, channel.value >= 0 && channel.value < (double) k.channels(), "channel", "no such channel: " + shape);

    double peak = 0;
    if (k.kind == at)
        for (auto& c : k.audio) for (auto x : c) peak = std::isnan (x) || std::isnan (peak) ? nan_ : std::max (peak, (double) std::abs (x));

    // Some sample has to agree with everything
    const size_t c = (size_t) channel.value;
    size_t best = 0;
    static const char* why[] = { "there is no sample at this time", "the sample at this time does not break the condition", "the frame number is not relative to the audio handed to the check", "the sample value is another one", "the level is another one", "the description does not fit the sample", "" };

    for (size_t f = 0; f < k.frames(); ++f)
    {
        size_t agrees = 0;
        const double x = k.audio[c][f];
        const bool perBlock = k.kind == equals || k.kind == below || (k.kind == pointing && k.perBlock);
        if (prints (timestamp, (double) f / k.rate, k.cli.sec))
        {
            ++agrees;
            if (k.violates (c, f, peak)) { ++agrees;
            if (frame.value == (double) (perBlock ? f % k.block : f)) { ++agrees;
            if (prints (value, x, k.cli.lin, sizeof (T) == 4 ? 1e-6 : 1e-12)) { ++agrees;
            if (prints (level, decibels (std::abs (x)), k.cli.db, sizeof (T) == 4 ? 1e-5 : 1e-9)) { ++agrees;
            if (k.describes (report, c, f)) ++agrees; } } } }
        }
        best = std::max (best, agrees);
        if (best == 6) break;
    }

    MC_REQUIRE (run, best == 6, fmt ("wrong-%zu", best).c_str(), std::string (why[best]) + ": " + shape);
    run.state (mc::Hash().add ((int) k.kind).add (channel.value).add (timestamp.value).add (value.value == value.value ? value.value : 9.0).add ((uint64_t) k.block));
}

template <typename T>
static Case<T> quiet (Kind kind, size_t channels, size_t frames)
{
    Case<T> k;
    k.kind = kind;
    k.reference = table<T> (channels, frames);
    for (auto& c : k.reference) for (auto& x : c) x /= 2;
    k.audio = k.reference;
    k.level = kind == at ? -30 : 0;
    if (kind == at) k.tolerance = 0;
    return k;
}

template <typename T>
static void violate (Case<T>& k, size_t c, size_t f, double v)
{
    k.audio[c][f] = (T) v;
    if (k.kind == pointing) { k.pointedChannel = c; k.pointedFrame = f; }
}

static std::vector<Cli> decimals()
{
    std::vector<Cli> v (5);
    v[0].sec = 9; v[0].lin = 6; v[0].db = 4;
    v[1].sec = 12; v[1].lin = 9; v[1].db = 1;
    v[2].sec = 0; v[2].lin = 0; v[2].db = 0;
    v[3].sec = 3; v[3].lin = 6; v[3].db = 1;
    v[4].sec = 6; v[4].lin = 2; v[4].db = 7;
    return v;
}

template <typename T>
static void body (Run& run)
{
    const int mode = run.choose (6, "mode");
    const Kind kind = (Kind) run.choose (4, "matcher");
    static const std::vector<double> values { 1.5, -1.5, 7.25, 1.25, -100000.5, inf, -inf, nan_ };

    if (mode == 0)   // One or two violating samples anywhere, any block size
    {
        const size_t channels = (size_t) run.choose (3, "channels") + 1, frames = 7;
        const size_t first = (size_t) run.choose ((int) (channels * frames), "first");
        auto k = quiet<T> (kind, channels, frames);
        k.assertion = first % 2;
        k.cli = decimals()[0];
        const double rates[] = { 8, 44100.5, 1000, 96000, 7.3 };
        for (size_t block = 1; block <= frames + 1; ++block)
            for (size_t second = 0; second <= channels * frames; ++second)
            {
                auto one = k;
                one.rate = rates[(block + second) % 5];
                if (second < channels * frames && kind != pointing) violate (one, second % channels, second / channels, second % 2 ? -1.75 : 1.3);
                if (second < channels * frames && kind == pointing) one.perBlock = second % 2;
                violate (one, first % channels, first / channels, 1.5);
                one.block = block;
                compare (run, one);
            }
    }
    else if (mode == 1)   // Values, decimals, labels
    {
        const double v = run.pick (values, "value");
        const auto cli = decimals()[(size_t) run.choose (5, "decimals")];
        const std::string label = run.pick ({ std::string(), std::string ("My label"), std::string ("100% \"quoted\" %s\\n"), std::string (3000, 'x') }, "label");
        for (int assertion = 0; assertion < 2; ++assertion)
            for (size_t f = 0; f < 5; ++f)
                for (size_t block : { 1, 2, 3, 10 })
                {
                    auto k = quiet<T> (kind, 2, 5);
                    k.assertion = assertion;
                    k.cli = cli;
                    k.label = label;
                    k.block = block;
                    k.rate = 10;
                    k.perBlock = f % 2;
                    if (f == 4) k.description = "";
                    if (f == 3) k.description = "Several\nlines: 100%";
                    if (kind == equals) k.reference[1][f] = (T) (f == 0 ? 0 : f == 1 ? -0.25 : 0.5);
                    violate (k, 1, f, v);
                    compare (run, k);
                }
    }
    else if (mode == 2)   // Long signals, many channels
    {
        struct Size { size_t channels, frames; };
        static const std::vector<Size> sizes { { 1, 100000 }, { 2, 5000 }, { 128, 40 }, { 5, 3000 } };
        const auto size = run.pick (sizes, "size");
        const double rate = run.pick ({ 8000.0, 44100.0, 44055.94, 192000.0 }, "rate");
        for (size_t block : { (size_t) 64, (size_t) 100, (size_t) 1024, (size_t) 4096, size.frames, size.frames + 1 })
            for (size_t f : { (size_t) 0, (size_t) 39, (size_t) 99, (size_t) 100, (size_t) 1023, (size_t) 1024, (size_t) 2047, (size_t) 2999, (size_t) 4999, (size_t) 65536, size.frames - 1 })
                for (size_t c : { (size_t) 0, size.channels / 2, size.channels - 1 })
                {
                    if (f >= size.frames || (size.frames > 10000 && ! run.thorough && (block < 1000 || (f > 0 && f < 65536 && f != 1024)))) continue;
                    auto k = quiet<T> (kind, size.channels, size.frames);
                    k.cli = decimals()[0];
                    k.cli.sec = 9;
                    k.rate = rate;
                    k.block = block;
                    k.perBlock = f % 2;
                    violate (k, c, f, f % 2 ? 1.75 : -1.75);
                    compare (run, k);
                }
    }
    else if (mode == 4)   // Two violating samples which are nearly the same
    {
        const int ratio = run.choose (10, "ratio");
        const double ratios[] = { 1.01, 1.001, 1.0001, 1.00001, 1.000001, 0.999999, 0.99999, 0.9999, 0.999, 0.99 };
        for (size_t first = 0; first < 10; ++first)
            for (size_t second = 0; second < 10; ++second)
                for (size_t block : { 1, 2, 5, 6 })
                {
                    if (first == second) continue;
                    auto k = quiet<T> (kind, 2, 5);
                    k.cli = decimals()[first % 2 ? 0 : 1];
                    k.cli.db = 9;
                    k.rate = 10;
                    k.block = block;
                    violate (k, first % 2, first / 2, second % 3 ? -1.5 : 1.5);
                    violate (k, second % 2, second / 2, (first % 3 ? -1.5 : 1.5) * ratios[ratio]);
                    compare (run, k);
                }
    }
    else if (mode == 5)   // More frames than a float can count
    {
        if (sizeof (T) == 8 || kind == equals) return;
        const size_t f = run.pick ({ (size_t) 16777217, (size_t) 16777223 }, "frame");
        if (f == 16777223 && ! run.thorough) return;
        auto k = quiet<T> (kind, 1, 16777230);
        k.cli = decimals()[0];
        k.block = 1 << 20;
        k.perBlock = false;
        violate (k, 0, f, 1.5);
        compare (run, k);
    }
    else   // Inverted checks, and peaks which are too low
    {
        const auto cli = decimals()[(size_t) run.choose (5, "decimals")];
        const std::string label = run.pick ({ std::string(), std::string ("Label") }, "label");
        for (int assertion = 0; assertion < 2; ++assertion)
            for (size_t block : { 1, 3, 7, 10 })
            {
                auto k = quiet<T> (kind, 2, 7);
                k.cli = cli;
                k.label = label;
                k.block = block;
                if (kind == at) { k.level = 6; k.assertion = assertion; compare (run, k); continue; }
                if (kind == pointing) k.pointedFrame = 100;   // Holds
                k.cli.apply();
                hart::AudioTestBuilder<T> host { Through<T>() };
                host.withSampleRate (8).withDuration (7 / 8.0).withBlockSize (block).inStereo().withInputSignal (Play<T> (k.audio));
                if (! label.empty()) host.withLabel (label);
                auto matcher = k.make();
                std::ostringstream condition;
                condition << *matcher;
                auto add = [&] (auto&& m) { using M = typename std::decay<decltype (m)>::type; M copy (m); if (assertion) host.assertFalse (std::move (copy)); else host.expectFalse (std::move (copy)); };
                if (kind == equals) add (static_cast<hart::EqualsTo<T>&> (*matcher));
                if (kind == below) add (static_cast<hart::PeaksBelow<T>&> (*matcher));
                if (kind == pointing) add (static_cast<Pointing<T>&> (*matcher));
                std::string report;
                hart::ExpectationFailureMessages::clear();
                try { host.process(); } catch (const hart::TestAssertException& e) { report = e.what(); }
                run.step();
                if (! assertion) { MC_REQUIRE (run, hart::ExpectationFailureMessages::get().size() == 1, "reports", "not one report"); report = hart::ExpectationFailureMessages::get()[0]; }
                MC_REQUIRE (run, report.compare (0, 18, assertion ? "assertFalse() fail" : "expectFalse() fail") == 0, "kind", "the kind of check is not named: " + report);
                MC_REQUIRE (run, report.find (condition.str()) != std::string::npos, "condition", "the condition is not shown: " + report);
                MC_REQUIRE (run, label.empty() || report.find ("\"" + label + "\"") != std::string::npos, "label", "the label is not shown: " + report);
                run.state (mc::Hash().add ((int) kind).add (condition.str()).add (report));
            }
    }
}

int main (int argc, char** argv)
{
    mc::Options o;
    o.id = "C07";
    o.unitDepthQuick = 5;
    o.unitDepthThorough = 5;
    return mc::main (argc, argv, o, [] (Run& run) { if (run.flag ("double")) body<double> (run); else body<float> (run); });
}
