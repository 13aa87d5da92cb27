// C05: checks fail exactly when their condition is broken, and each failure is reported once
#include "stock.hpp"

using namespace stock;
using mc::Run;

// Holds when no sample of its channel exceeds one in magnitude
template <typename T>
class NoMark : public hart::Matcher<T>
{
public:
    NoMark (int checkNumber, size_t markedChannel, bool perBlockOk): number (checkNumber), channel (markedChannel), perBlock (perBlockOk) {}
    void prepare (double, size_t, size_t) override {}
    bool match (const hart::AudioBuffer<T>& audio) override
    {
        for (size_t f = 0; f < audio.getNumFrames(); ++f)
            if (std::abs (audio[channel][f]) > 1) { failedAt = f; return false; }
        return true;
    }
    bool canOperatePerBlock() override { return perBlock; }
    void reset() override {}
    hart::MatcherFailureDetails getFailureDetails() const override
    {
        hart::MatcherFailureDetails d;
        d.frame = failedAt; d.channel = channel; d.description = "marked";
        return d;
    }
    void represent (std::ostream& stream) const override { stream << "<Check " << number << ">"; }
    std::unique_ptr<hart::Matcher<T>> copy() const override { return std::unique_ptr<hart::Matcher<T>> (new NoMark (*this)); }
    std::unique_ptr<hart::Matcher<T>> move() override { return std::unique_ptr<hart::Matcher<T>> (new NoMark (*this)); }

private:
    int number;
    size_t channel, failedAt = 0;
    bool perBlock;
};

struct Check
{
    bool assertion, positive, perBlock;
    std::vector<size_t> marks;
    std::string name;            // Its representation has this
    bool holds = true;           // The condition
    size_t decided = 0;          // Number of the block after which its failure is known

    bool fails() const { return holds != positive; }
    std::string kind() const { return std::string (assertion ? "assert" : "expect") + (positive ? "True() failed" : "False() failed"); }
    std::string str() const
    {
        std::string s = std::string (assertion ? "assert" : "expect") + (positive ? "True " : "False ") + name + (perBlock ? " (per block)" : " (whole)") + (holds ? " holds" : " broken at");
        for (auto m : marks) s += fmt (" %zu", m);
        return s;
    }
};

template <typename T, typename M>
static void add (hart::AudioTestBuilder<T>& host, const Check& c, M&& matcher)
{
    if (c.assertion && c.positive) host.assertTrue (std::forward<M> (matcher));
    else if (c.assertion) host.assertFalse (std::forward<M> (matcher));
    else if (c.positive) host.expectTrue (std::forward<M> (matcher));
    else host.expectFalse (std::forward<M> (matcher));
}

static std::string describe (const std::vector<Check>& checks, size_t frames, size_t block)
{
    std::string s = fmt ("%zu frames in blocks of %zu: ", frames, block);
    for (auto& c : checks) s += c.str() + "; ";
    return s.size() > 1500 ? s.substr (0, 1500) + "..." : s;
}

static void judge (Run& run, std::vector<Check>& checks, size_t frames, size_t block, const std::vector<std::string>& messages, bool asserted, const std::string& assertion, const std::string& otherError)
{
    run.step();
    const size_t blocks = (frames + block - 1) / block;
    bool anyAssertion = false;
    size_t firstAssertion = SIZE_MAX, firstAssertionIndex = SIZE_MAX;

    for (size_t i = 0; i < checks.size(); ++i)
    {
        auto& c = checks[i];
        c.decided = c.positive && c.perBlock && ! c.marks.empty() ? c.marks[0] / block : blocks;
        if (c.assertion && c.fails())
        {
            anyAssertion = true;
            if (c.decided < firstAssertion) { firstAssertion = c.decided; firstAssertionIndex = i; }
        }
    }

    const std::string what = describe (checks, frames, block);
    MC_REQUIRE (run, otherError.empty(), "error", "ended with another error: " + otherError + ": " + what);
    MC_REQUIRE (run, asserted == anyAssertion, "assertion", std::string (asserted ? "an assertion failed although all of them are satisfied: " : "no assertion failed although one is broken: ") + what);

    if (asserted)
    {
        bool found = false;
        for (auto& c : checks) found |= c.assertion && c.fails() && assertion.find (c.name) != std::string::npos && assertion.compare (0, c.kind().size(), c.kind()) == 0;
        MC_REQUIRE (run, found, "assertion-report", "the assertion failure does not belong to a broken one: " + assertion + ": " + what);
    }

    // Checks which look the same share their reports
    const auto alike = [&] (size_t i, size_t j) { return checks[i].name == checks[j].name && checks[i].kind() == checks[j].kind(); };
    std::vector<int> reported (checks.size());
    for (auto& m : messages)
    {
        size_t match = SIZE_MAX;
        for (size_t i = checks.size(); i-- > 0;)
            if (m.find (checks[i].name) != std::string::npos && m.compare (0, checks[i].kind().size(), checks[i].kind()) == 0) match = i;
        MC_REQUIRE (run, match != SIZE_MAX, "unknown-report", "a report of no check: " + m + ": " + what);
        ++reported[match];   // Of the first one which looks like this
    }

    for (size_t i = 0; i < checks.size(); ++i)
    {
        auto& c = checks[i];
        bool first = true;
        for (size_t j = 0; j < i; ++j) first = first && ! alike (i, j);
        if (! first) continue;

        if (c.assertion) { MC_REQUIRE (run, reported[i] == 0, "assertion-recorded", "an assertion was recorded as an expectation: " + what); continue; }

        int most = 0, least = 0;
        for (size_t j = i; j < checks.size(); ++j)
        {
            const auto& d = checks[j];
            if (! alike (i, j) || ! d.fails()) continue;
            ++most;
            if (! anyAssertion || d.decided < firstAssertion || (d.decided == firstAssertion && j < firstAssertionIndex)) ++least;
        }

        MC_REQUIRE (run, reported[i] == 0 || most > 0, "false-report", c.str() + " was reported, but it is satisfied: " + what);
        MC_REQUIRE (run, reported[i] <= most, "repeated", c.str() + fmt (" was reported %d times instead of %d: ", reported[i], most) + what);
        MC_REQUIRE (run, reported[i] >= least, "missing", c.str() + fmt (" was reported %d times instead of %d: ", reported[i], least) + what);
    }

    mc::Hash h;
    for (auto& c : checks) h.add (c.kind()).add (c.fails()).add ((uint64_t) c.decided);
    run.state (h.add (asserted));
}

template <typename T>
static void perform (Run& run, hart::AudioTestBuilder<T>& host, std::vector<Check>& checks, size_t frames, size_t block)
{
    bool asserted = false;
    std::string assertion, error;
    hart::ExpectationFailureMessages::clear();
    try { host.process(); }
    catch (const hart::TestAssertException& e) { asserted = true; assertion = e.what(); }
    catch (const std::exception& e) { error = std::string ("exception ") + e.what(); }
    judge (run, checks, frames, block, hart::ExpectationFailureMessages::get(), asserted, assertion, error);
}

static void saving (Run& run, int save, const std::function<void (const std::string&, hart::Save)>& set)
{
    static const hart::Save modes[] = { hart::Save::never, hart::Save::always, hart::Save::whenFails };
    if (save) set (workDir() + "/out.wav", modes[save]);
}

// A matcher is handed over as a temporary or as an object which is destroyed later
template <typename T, typename M>
static void addBy (hart::AudioTestBuilder<T>& host, const Check& c, size_t way, M matcher)
{
    if (way % 2) add (host, c, matcher);
    else add (host, c, std::move (matcher));
}

// Lists of up to three checks
template <typename T>
static void lists (Run& run)
{
    const int count = run.choose (4, "checks");
    const size_t frames = 6;
    const size_t way = (size_t) run.choose (2, "handed over");
    static const std::vector<std::vector<size_t>> marks { {}, { 0 }, { 2 }, { 5 }, { 0, 5 } };
    std::vector<Check> checks;
    auto audio = table<T> ((size_t) std::max (count, 1), frames);

    for (int i = 0; i < count; ++i)
    {
        const int k = run.choose (8, "kind");
        Check c { (k & 1) != 0, (k & 2) == 0, (k & 4) == 0, run.pick (marks, "broken at"), fmt ("<Check %d>", i) };
        c.holds = c.marks.empty();
        for (auto m : c.marks) audio[(size_t) i][m] = i % 2 ? (T) 1.5 : (T) -1.5;
        checks.push_back (c);
    }

    for (size_t block : { 1, 2, 3, 4, 6, 100 })
        for (int save = 0; save < (block == 2 && count < 3 ? 3 : 1); ++save)
        {
            hart::AudioTestBuilder<T> host { Through<T>() };
            host.withSampleRate (8).withDuration (frames / 8.0).withBlockSize (block).withInputChannels (audio.size()).withOutputChannels (audio.size()).withInputSignal (Play<T> (audio));
            saving (run, save, [&] (const std::string& p, hart::Save mode) { host.saveOutputTo (p, mode); });
            for (int i = 0; i < count; ++i)
            {
                addBy (host, checks[(size_t) i], way + (size_t) i, NoMark<T> (i, (size_t) i, checks[(size_t) i].perBlock));
            }
            perform (run, host, checks, frames, block);
        }
}

// Checks which all look the same and judge the same audio, so that their reports are the same, too
template <typename T>
static void identical (Run& run)
{
    const int count = 2 + run.choose (3, "checks");
    const size_t frames = 6;
    const std::vector<size_t> marks = run.pick (std::vector<std::vector<size_t>> { {}, { 0 }, { 2 }, { 5 }, { 0, 5 } }, "broken at");
    const bool label = run.flag ("label");
    auto audio = table<T> (1, frames);
    for (auto m : marks) audio[0][m] = (T) 1.5;
    std::vector<Check> checks;
    for (int i = 0; i < count; ++i)
    {
        const int k = run.choose (count < 4 ? 8 : 4, "kind");
        checks.push_back ({ (k & 1) != 0, (k & 2) == 0, (k & 4) == 0, marks, "<Check 0>", marks.empty() });
    }
    for (size_t block : { 1, 2, 4, 6, 100 })
    {
        hart::AudioTestBuilder<T> host { Through<T>() };
        host.withSampleRate (8).withDuration (frames / 8.0).withBlockSize (block).withInputSignal (Play<T> (audio));
        if (label) host.withLabel ("same");
        for (size_t i = 0; i < checks.size(); ++i) addBy (host, checks[i], block + i, NoMark<T> (0, 0, checks[i].perBlock));
        perform (run, host, checks, frames, block);
    }
}

// Stock matchers, in pairs
template <typename T>
static void stockMatchers (Run& run)
{
    const bool large = run.flag ("large");
    const size_t frames = large ? 5000 : 7, channels = large ? 3 : 2;
    static const std::vector<std::vector<size_t>> marks { {}, { 0 }, { 3 }, { 6 }, { 1, 6 } }, largeMarks { {}, { 0 }, { 1023 }, { 1024 }, { 4999 }, { 100, 4999 } };
    const auto where = large ? run.pick (largeMarks, "broken at") : run.pick (marks, "broken at");
    const size_t markedChannel = (size_t) run.choose ((int) channels, "channel");
    const auto reference = table<T> (channels, frames);
    auto audio = reference;
    for (auto m : where) audio[markedChannel][m] = (T) (m % 2 ? 1.5 : -1.5);

    std::vector<Check> checks;
    std::vector<int> matchers;
    for (int i = 0; i < 2; ++i)
    {
        const int k = run.choose (4, "kind"), m = run.choose (4, "matcher");
        static const char* names[] = { "EqualsTo (", "PeaksBelow (", "PeaksAt (0.0_dB", "PeaksAt (3.5_dB" };
        Check c { (k & 1) != 0, (k & 2) == 0, m < 2, where, names[m] };
        c.holds = m == 3 ? ! where.empty() : where.empty();
        if (m == 3) c.marks.clear();
        checks.push_back (c);
        matchers.push_back (m);
    }
    if (matchers[0] == matchers[1]) return;   // Could not be told apart

    static const std::vector<size_t> blocks { 1, 2, 3, 5, 7, 8 }, largeBlocks { 100, 1000, 1024, 4999, 5000, 5001, 65536 };
    for (size_t block : large ? largeBlocks : blocks)
    {
        hart::AudioTestBuilder<T> host { Through<T>() };
        host.withSampleRate (44100).withDuration ((double) frames / 44100).withBlockSize (block).withInputChannels (channels).withOutputChannels (channels).withInputSignal (Play<T> (audio));
        for (size_t i = 0; i < 2; ++i)
        {
            if (matchers[i] == 0) addBy (host, checks[i], block + i, hart::EqualsTo<T> (Play<T> (reference)));
            if (matchers[i] == 1) addBy (host, checks[i], block + i, hart::PeaksBelow<T> (0.0));
            if (matchers[i] == 2) addBy (host, checks[i], block + i, hart::PeaksAt<T> (0.0, 0.1));
            if (matchers[i] == 3) addBy (host, checks[i], block + i, hart::PeaksAt<T> (3.5218, 0.1));
        }
        perform (run, host, checks, frames, block);
    }
}

// Many checks: a run of failing ones among satisfied ones, at most one of them an assertion
template <typename T>
static void many (Run& run)
{
    const int count = run.pick ({ 4, 5, 8, 16, 33, 100, 128 }, "checks");
    const size_t frames = 40;
    const size_t block = run.pick ({ (size_t) 1, (size_t) 7, (size_t) 40 }, "block");
    const int step = run.pick ({ 1, 2, 3 }, "failing"), phase = run.choose (step, "phase");
    const int kinds = run.choose (4, "kinds");
    const int assertionAt = run.pick ({ -1, 0, count / 2, count - 1 }, "assertion");
    const bool assertionFails = assertionAt >= 0 && run.flag ("assertion fails");
    std::vector<Check> checks;
    auto audio = table<T> ((size_t) count, frames);

    for (int i = 0; i < count; ++i)
    {
        const bool fails = i == assertionAt ? assertionFails : i % step == phase;
        const bool positive = kinds == 0 || kinds == 1 || (kinds == 3 && i % 2), perBlock = kinds == 0 || (kinds == 3 && i % 3);
        Check c { i == assertionAt, positive, perBlock, {}, fmt ("<Check %d>", i) };
        if (fails == positive) c.marks.push_back ((size_t) (i * 7) % frames);
        c.holds = c.marks.empty();
        for (auto m : c.marks) audio[(size_t) i][m] = (T) 2;
        checks.push_back (c);
    }

    hart::AudioTestBuilder<T> host { Through<T>() };
    host.withSampleRate (8).withDuration (frames / 8.0).withBlockSize (block).withInputChannels ((size_t) count).withOutputChannels ((size_t) count).withInputSignal (Play<T> (audio));
    for (int i = 0; i < count; ++i) addBy (host, checks[(size_t) i], block + (size_t) i, NoMark<T> (i, (size_t) i, checks[(size_t) i].perBlock));
    perform (run, host, checks, frames, block);
}

int main (int argc, char** argv)
{
    mc::Options o;
    o.id = "C05";
    o.unitDepthQuick = 4;
    o.unitDepthThorough = 4;
    return mc::main (argc, argv, o, [] (Run& run)
    {
        Cli().apply();
        const int mode = run.choose (4, "mode");
        const bool wide = run.flag ("double");
        if (mode == 0) { if (wide) lists<double> (run); else lists<float> (run); }
        else if (mode == 1) { if (wide) stockMatchers<double> (run); else stockMatchers<float> (run); }
        else if (mode == 3) { if (wide) identical<double> (run); else identical<float> (run); }
        else { if (wide) many<double> (run); else many<float> (run); }
    });
}
