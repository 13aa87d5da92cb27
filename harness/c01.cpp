// C01: the runner executes every selected task once, isolated, with the right verdict
//
// Every execution is a test program of its own: a child process registers a list of tasks, runs the library's main()
// and exits with its status. What it printed and which task bodies it entered is compared with the model.
#include "ref.hpp"
#include "runner.hpp"

using namespace ref;
using mc::Run;

struct Behaviour
{
    const char* name;
    bool fails;
    std::vector<const char*> messages;  // expected in the report of this task
    void (*act)();
};

static std::string currentName() { return runner::shared()->names[runner::shared()->current]; }
static std::string tag (const char* what) { return std::string (what) + "<" + currentName() + ">"; }

static void audio (bool assertion, bool shouldFail)
{
    auto host = hart::processAudioWith (hart::GainDb<float> (0.0));
    host.withInputSignal (hart::SineWave<float>()).withDuration (0.01).withLabel (tag ("audio"));
    const double level = shouldFail ? -20.0 : 0.0;
    if (assertion) host.assertTrue (hart::PeaksBelow<float> (level)); else host.expectTrue (hart::PeaksBelow<float> (level));
    host.process();
}

struct Weird {};

static const std::vector<Behaviour>& behaviours()
{
    static const std::vector<Behaviour> b {
        { "pass", false, {}, [] {} },
        { "expect", true, { "one" }, [] { hart::ExpectationFailureMessages::get().emplace_back (tag ("one")); } },
        { "assert", true, { "HART_ASSERT_TRUE() failed" }, [] { HART_ASSERT_TRUE (1 == 2); runner::fault ("continued after a failed assertion"); } },
        { "expect-macro-twice-and-pass", true, { "2 == 3", "3 == 4" }, [] { HART_EXPECT_TRUE (2 == 3); HART_EXPECT_TRUE (1 == 1); HART_EXPECT_TRUE (3 == 4); HART_ASSERT_TRUE (true); } },
        { "expect-then-assert", true, { "5 == 6", "bad-assert" }, [] { HART_EXPECT_TRUE (5 == 6); bool bad_assert = false; (void) bad_assert; throw hart::TestAssertException (tag ("bad-assert")); } },
        { "runtime-error", true, { "boom" }, [] { throw std::runtime_error (tag ("boom")); } },
        { "expect-then-int", true, { "one" }, [] { hart::ExpectationFailureMessages::get().emplace_back (tag ("one")); throw 42; } },
        { "audio-expect", true, { "audio", "PeaksBelow" }, [] { audio (false, true); } },
        { "audio-assert", true, { "audio", "PeaksBelow" }, [] { audio (true, true); runner::fault ("continued after a failed assertion"); } },
        { "audio-pass", false, {}, [] { audio (false, false); audio (true, false); HART_EXPECT_TRUE (true); HART_ASSERT_TRUE (true); } },
        { "configuration-error", true, { "conf" }, [] { throw hart::ConfigurationError (tag ("conf")); } },
        { "value-error", true, { "Sample rate" }, [] { hart::processAudioWith (hart::GainDb<float>()).withSampleRate (-1.0); } },
        { "fail", true, { "HART_FAIL_TEST()" }, [] { HART_FAIL_TEST(); } },
        { "fail-message", true, { "my message" }, [] { HART_FAIL_TEST_MSG ("my message"); } },
        { "swallowed", false, {}, [] { try { HART_ASSERT_TRUE (false); } catch (const hart::TestAssertException&) {} } },
        { "throws-struct", true, {}, [] { throw Weird(); } },
        { "prints", false, {}, [] { std::cout << "some output\n"; } },
        { "empty-assertion", true, {}, [] { throw hart::TestAssertException (""); } },
        { "empty-configuration-error", true, {}, [] { throw hart::ConfigurationError (""); } },
        { "empty-exception", true, {}, [] { throw std::runtime_error (""); } },
        { "empty-message", true, {}, [] { hart::ExpectationFailureMessages::get().emplace_back (""); } },
        { "derived-assertion", true, { "derived" }, [] { struct Derived : hart::TestAssertException { using hart::TestAssertException::TestAssertException; }; throw Derived (tag ("derived")); } },
        { "throws-text", true, {}, [] { throw "text"; } },
    };
    return b;
}

static std::vector<int> plan;   // behaviour of each task
static void taskBody (int index) { behaviours()[(size_t) plan[(size_t) index]].act(); }

static std::string describe (const std::vector<std::string>& names)
{
    std::string s;
    for (size_t i = 0; i < plan.size() && i < 12; ++i) s += names[i] + ":" + behaviours()[(size_t) plan[i]].name + " ";
    return s + fmt ("(%zu tasks)", plan.size());
}

static void check (Run& run, bool generators, bool decoys)
{
    std::vector<runner::Task> tasks;
    std::vector<std::string> names;
    const auto kind = generators ? hart::TaskCategory::generate : hart::TaskCategory::test;
    const auto otherKind = generators ? hart::TaskCategory::test : hart::TaskCategory::generate;

    for (size_t i = 0; i < plan.size(); ++i)
    {
        names.push_back (fmt ("Task %zu of many", i));
        tasks.push_back ({ names.back(), kind });
        if (decoys) tasks.push_back ({ fmt ("Decoy %zu", i), otherKind });
    }

    // Task index in the registry -> index in the plan
    std::vector<int> index;
    for (size_t i = 0, k = 0; i < tasks.size(); ++i) index.push_back (tasks[i].category == kind ? (int) k++ : -1);

    std::vector<std::string> args { "program" };
    if (generators) args.push_back ("-g");
    const auto result = runner::run (tasks, args, [&] (int i)
    {
        if (index[(size_t) i] < 0) { runner::fault ("ran a task of the other kind"); return; }
        taskBody (index[(size_t) i]);
    });

    run.step();
    const std::string what = describe (names);
    MC_REQUIRE (run, ! result.signalled, "crash", "the program died: " + what);
    MC_REQUIRE (run, result.fault.empty(), "fault", result.fault + ": " + what);

    std::vector<std::string> entered;
    for (auto& e : result.entered) entered.push_back (e);
    MC_REQUIRE (run, entered == names, "executions", fmt ("%zu task executions instead of %zu, or in another order: ", entered.size(), names.size()) + what);

    size_t failures = 0;
    mc::Hash h;
    for (int b : plan) { failures += behaviours()[(size_t) b].fails; h.add (b); }
    h.add (generators).add (decoys);
    run.state (h);
    MC_REQUIRE (run, (result.status != 0) == (failures != 0), "exit-status", fmt ("exit status %d with %zu failed tasks: ", result.status, failures) + what);

    // The report
    MC_REQUIRE (run, result.reports.size() == names.size(), "reports", fmt ("%zu verdicts printed for %zu tasks: ", result.reports.size(), names.size()) + what);
    for (size_t i = 0; i < names.size(); ++i)
    {
        const auto& report = result.reports[i];
        const auto& b = behaviours()[(size_t) plan[i]];
        MC_REQUIRE (run, report.name == names[i], "report-name", "a verdict is printed for " + report.name + " instead of " + names[i] + ": " + what);
        MC_REQUIRE (run, report.failed == b.fails, "verdict", names[i] + " was reported as " + (report.failed ? "failed" : "passed") + ": " + what);
        for (const char* m : b.messages)
        {
            const bool own = strcmp (m, "one") == 0 || strcmp (m, "boom") == 0 || strcmp (m, "conf") == 0 || strcmp (m, "bad-assert") == 0 || strcmp (m, "audio") == 0;
            const std::string expected = own ? std::string (m) + "<" + names[i] + ">" : std::string (m);
            size_t count = 0;
            for (size_t at = report.text.find (expected); at != std::string::npos; at = report.text.find (expected, at + 1)) ++count;
            MC_REQUIRE (run, count == 1, "message", "the message \"" + expected + "\" was printed " + fmt ("%zu", count) + " times in the report of " + names[i] + ": " + what);
        }

        // Nothing of others
        for (size_t k = 0; k < names.size() && names.size() < 20; ++k)
            if (k != i)
                MC_REQUIRE (run, report.text.find ("<" + names[k] + ">") == std::string::npos, "foreign-message", "the report of " + names[i] + " has a message of " + names[k] + ": " + what);

        if (! b.fails)
            for (const char* m : { "failed at", "HART_EXPECT", "HART_ASSERT", "Unexpected" })
                MC_REQUIRE (run, report.text.find (m) == std::string::npos, "foreign-message", std::string ("a passed task has a failure message: ") + what);
    }

    if (plan.empty())
    {
        MC_REQUIRE (run, result.passed <= 0 && result.failed <= 0, "totals", "totals printed without any task");
        return;
    }

    const long failed = (long) failures, total = (long) plan.size();
    MC_REQUIRE (run, result.passed == total - failed && result.passedOf == total, "totals", fmt ("%ld/%ld printed as passed instead of %ld/%ld: ", result.passed, result.passedOf, total - failed, total) + what);
    MC_REQUIRE (run, failed == 0 ? result.failed <= 0 : result.failed == failed && result.failedOf == total, "totals", fmt ("%ld/%ld printed as failed instead of %ld/%ld: ", result.failed, result.failedOf, failed, total) + what);
}

// Numerous, long and multi-line messages, in one task among others
static void messages (Run& run)
{
    const int count = run.pick ({ 0, 1, 2, 8, 9, 10, 16, 17, 31, 32, 33, 64, 100, 101, 128, 256, 257, 1000, 1025, 3000 }, "count");
    const int length = run.pick ({ 0, 1, 79, 80, 127, 255, 256, 511, 512, 1023, 1024, 4095, 4096, 5000 }, "length");
    if ((long) count * length > 2000000) return;
    const int kind = run.choose (4, "kind");        // of the messages: distinct, identical, of several lines, identical to the one of the ending
    const int ending = run.choose (4, "ending");    // of the task: by itself, failed assertion, other exception, configuration error
    const int position = run.choose (3, "position");

    auto text = [&] (const char* what, int i)
    {
        std::string s = kind == 1 ? std::string (what) : kind == 3 ? std::string ("message") : fmt ("%s %d ", what, i);
        for (int k = 0; k < length; ++k) s += kind == 2 && k % 60 == 59 ? '\n' : (char) ('a' + (k + i * (kind % 2 == 0)) % 26);
        return s + (kind % 2 == 1 ? ">>" : fmt (" %d>>", i));
    };

    const std::vector<runner::Task> tasks { { "Alpha", hart::TaskCategory::test }, { "Beta", hart::TaskCategory::test }, { "Gamma", hart::TaskCategory::test } };
    const auto result = runner::run (tasks, { "program" }, [&] (int i)
    {
        if (i != position) return;
        for (int k = 0; k < count; ++k) hart::ExpectationFailureMessages::get().emplace_back (text ("expectation", k));
        if (ending == 1) throw hart::TestAssertException (text ("ending", 0));
        if (ending == 2) throw std::runtime_error (text ("ending", 0));
        if (ending == 3) throw hart::ConfigurationError (text ("ending", 0));
    });
    run.step();
    run.state (mc::Hash().add (count).add (length).add (kind).add (ending).add (position));
    const std::string what = fmt ("a task with %d messages of %d characters (kind %d), ending %d", count, length, kind, ending);
    const bool fails = count > 0 || ending != 0;
    MC_REQUIRE (run, ! result.signalled && result.fault.empty(), "crash", "the program died: " + what);
    MC_REQUIRE (run, result.entered.size() == 3 && result.reports.size() == 3, "executions", fmt ("%zu tasks ran and %zu verdicts were printed for 3 tasks: ", result.entered.size(), result.reports.size()) + what);
    MC_REQUIRE (run, (result.status != 0) == fails, "exit-status", fmt ("exit status %d: ", result.status) + what);
    for (int i = 0; i < 3; ++i) MC_REQUIRE (run, result.reports[(size_t) i].failed == (fails && i == position), "verdict", "wrong verdict: " + what);

    const auto& report = result.reports[(size_t) position].text;
    auto occurrences = [&] (const std::string& s) { int n = 0; for (size_t at = report.find (s); at != std::string::npos; at = report.find (s, at + s.size())) ++n; return n; };
    if (kind == 3)
    {
        const int wanted = count + (ending != 0);
        MC_REQUIRE (run, wanted == 0 || occurrences (text ("", 0)) == wanted, "message", fmt ("%d messages printed: ", wanted ? occurrences (text ("", 0)) : 0) + what);
        return;
    }
    if (kind == 1) MC_REQUIRE (run, count == 0 || occurrences (text ("expectation", 0)) == count, "message", fmt ("%d messages printed: ", count ? occurrences (text ("expectation", 0)) : 0) + what);
    else
    {
        size_t at = 0;   // in the order of the failures, to stay linear; or else anywhere
        for (int k = 0; k < count; ++k)
        {
            const auto m = text ("expectation", k);
            const size_t next = report.find (m, at);
            if (next != std::string::npos) { at = next + m.size(); continue; }
            MC_REQUIRE (run, occurrences (m) == 1, "message", fmt ("message %d is missing: ", k) + what);
        }
        MC_REQUIRE (run, occurrences ("expectation ") == count, "message", fmt ("%d messages printed: ", occurrences ("expectation ")) + what);
    }
    MC_REQUIRE (run, ending == 0 || occurrences (text ("ending", 0)) == 1, "message", "the message of the exception is missing: " + what);
}

// Names of any kind, and one function registered with several of them
static void names (Run& run)
{
    static const std::vector<std::string> all { "Plain", "plain", "Plain ", "", "A \"quoted\" name, with \\ and %s %d %n", " - passed", "[   <3   ] Plain - failed", "T\xc3\xa4st \xe2\x99\xa5", std::string (300, 'x'), std::string (299, 'x') + "y",
        "Gain (-3_dB) >> HardClip (0_dB)", "1/2" };
    const bool generators = run.flag ("generators"), oneFunction = run.flag ("one function");
    const int a = run.choose ((int) all.size(), "first"), b = run.choose ((int) all.size(), "second"), c = run.pick ({ 0, 3, 5, 8 }, "third");
    if (a == b || a == c || b == c) return;
    const std::vector<std::string> wanted { all[(size_t) a], all[(size_t) b], all[(size_t) c] };
    const int outcomes = run.choose (8, "failing");
    const auto kind = generators ? hart::TaskCategory::generate : hart::TaskCategory::test;
    std::vector<runner::Task> tasks;
    for (auto& n : wanted) tasks.push_back ({ n, kind });
    const auto act = [&] (int)
    {
        const int n = runner::shared()->numEntered - 1;
        if (outcomes >> n & 1) hart::ExpectationFailureMessages::get().emplace_back (fmt ("message <%d>", n));
    };
    const auto result = runner::run (tasks, generators ? std::vector<std::string> { "program", "-g" } : std::vector<std::string> { "program" }, act, {}, [&]
    {
        for (size_t i = 0; i < 3; ++i) hart::TestRegistry::getInstance().add (tasks[i].name, "", kind, runner::table()[oneFunction ? 0 : i]);
    });
    run.step();
    run.state (mc::Hash().add (a).add (b).add (c).add (outcomes).add (generators).add (oneFunction));
    const std::string what = "tasks \"" + wanted[0] + "\", \"" + wanted[1] + "\" and \"" + wanted[2] + "\"" + (oneFunction ? " of one function" : "") + fmt (", failing: %d", outcomes);
    MC_REQUIRE (run, ! result.signalled && result.fault.empty(), "crash", "the program died: " + what);
    MC_REQUIRE (run, result.entered == (oneFunction ? std::vector<std::string> (3, wanted[0]) : wanted), "executions", fmt ("%zu tasks ran, or in another order: ", result.entered.size()) + what);
    MC_REQUIRE (run, result.reports.size() == 3, "reports", fmt ("%zu verdicts printed: ", result.reports.size()) + what);
    MC_REQUIRE (run, (result.status != 0) == (outcomes != 0), "exit-status", fmt ("exit status %d: ", result.status) + what);
    for (int i = 0; i < 3; ++i)
    {
        const auto& r = result.reports[(size_t) i];
        MC_REQUIRE (run, r.name == wanted[(size_t) i] && r.failed == (outcomes >> i & 1), "verdict", "\"" + r.name + "\" is reported as " + (r.failed ? "failed" : "passed") + ": " + what);
        for (int k = 0; k < 3; ++k)
            MC_REQUIRE (run, (r.text.find (fmt ("message <%d>", k)) != std::string::npos) == (k == i && r.failed), "message", fmt ("message %d: ", k) + what);
    }
}

int main (int argc, char** argv)
{
    mc::Options o;
    o.id = "C01";
    o.unitDepthQuick = 3;
    o.unitDepthThorough = 4;
    o.hangSeconds = 120;
    return mc::main (argc, argv, o, [] (Run& run)
    {
        plan.clear();

        const int scenario = run.choose (4, "scenario");
        if (scenario == 0)
        {
            // Every sequence of outcomes up to a length; longer ones use the most telling outcomes
            const bool generators = run.flag ("generators");
            const int n = (int) behaviours().size();
            const int length = run.choose (run.thorough ? 6 : 5, "length");
            const int few[] = { 0, 1, 4, 6, 8 };
            for (int i = 0; i < length; ++i)
            {
                if (length <= (run.thorough || ! generators ? 3 : 2)) plan.push_back (run.choose (n, "task"));
                else if (length == 3) plan.push_back (run.choose (5, "task"));
                else plan.push_back (few[run.choose (5, "task")]);
            }
            return check (run, generators, generators);
        }

        if (scenario == 1) return messages (run);
        if (scenario == 3) return names (run);

        // Many tasks, up to all of them failing (an exit status has eight bits only)
        const int total = run.pick ({ 255, 256, 257, 300, 512, 768, 1024 }, "total");
        const int failing = run.pick ({ 0, 1, 255, 256, 257, 512, 768, 1024 }, "failing");
        const int where = run.choose (3, "where");
        if (failing > total) return;
        const int outcome = run.pick ({ 1, 2, 5 }, "outcome");
        plan.assign ((size_t) total, 0);
        for (int i = 0; i < failing; ++i) plan[(size_t) (where == 0 ? i : where == 1 ? total - 1 - i : (int) ((long) i * total / failing))] = outcome;
        check (run, false, false);
    });
}
