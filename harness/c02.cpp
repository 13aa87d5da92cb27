// C02: selection, order, shuffling, refusal of duplicates, command line
#include "ref.hpp"
#include "runner.hpp"

using namespace ref;
using mc::Run;

// Registered by the macros, as users do; they are in the registry of every program below
static void enterStatic (int slot, const char* name)
{
    if (runner::shared() == nullptr) return;
    snprintf (runner::shared()->names[slot], 48, "%s", name);
    runner::enter (slot);
}

HART_TEST ("Static first") { enterStatic (2000, "Static first"); }
HART_GENERATE ("Static generator") { enterStatic (2001, "Static generator"); }
HART_TEST_WITH_TAGS ("Static tagged", "[a][b]") { enterStatic (2002, "Static tagged"); }
HART_GENERATE_WITH_TAGS ("Static tagged", "[a]") { enterStatic (2003, "Static tagged"); }

static const std::vector<std::string> staticTests { "Static first", "Static tagged" }, staticGenerators { "Static generator", "Static tagged" };

struct Registration { std::string name; bool generator; };

static runner::Result launch (const std::vector<Registration>& registrations, const std::vector<std::string>& args, std::vector<bool>* refused = nullptr, runner::TaskFunction f = [] (int) {})
{
    std::vector<runner::Task> tasks;
    for (auto& r : registrations) tasks.push_back ({ r.name, r.generator ? hart::TaskCategory::generate : hart::TaskCategory::test });

    auto result = runner::run (tasks, args, f, {}, [&]
    {
        for (size_t i = 0; i < tasks.size(); ++i)
        {
            try { hart::TestRegistry::getInstance().add (tasks[i].name, i % 2 ? "[tag]" : "", tasks[i].category, runner::table()[i]); }
            catch (const hart::ValueError&) { if (i < 64) runner::shared()->values[i] = 1; }
            catch (const std::exception&) { if (i < 64) runner::shared()->values[i] = 2; }
        }
    });

    if (refused)
        for (size_t i = 0; i < registrations.size() && i < 64; ++i) refused->push_back (result.values[i] != 0);

    return result;
}

static std::string join (const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += x + ", "; return s; }

static void expectedOrder (const std::vector<Registration>& registrations, std::vector<std::string>& tests, std::vector<std::string>& generators, std::vector<bool>& refused)
{
    tests = staticTests;
    generators = staticGenerators;
    for (auto& r : registrations)
    {
        auto& list = r.generator ? generators : tests;
        const bool duplicate = std::find (list.begin(), list.end(), r.name) != list.end();
        refused.push_back (duplicate);
        if (! duplicate) list.push_back (r.name);
    }
}

static void registrationSequences (Run& run)
{
    static const std::vector<Registration> alphabet { { "A", false }, { "A", true }, { "B", false }, { "B", true }, { "Static first", false }, { "Static first", true }, { "a", false }, { "A ", false }, { "", false }, { std::string (300, 'x') + "A", false }, { std::string (300, 'x') + "B", false } };
    const int length = run.choose (run.thorough ? 6 : 5, "length");
    std::vector<Registration> registrations;
    for (int i = 0; i < length; ++i) registrations.push_back (alphabet[(size_t) run.choose (length > 4 ? 5 : length == 4 ? 6 : (int) alphabet.size(), "register")]);

    std::vector<std::string> tests, generators;
    std::vector<bool> wantRefused, gotRefused, again;
    expectedOrder (registrations, tests, generators, wantRefused);
    std::string what;
    for (auto& r : registrations) what += r.name + (r.generator ? " (generator), " : " (test), ");

    for (int g = 0; g < 2; ++g)
    {
        gotRefused.clear();
        const std::vector<std::string> args = g == 0 ? std::vector<std::string> { "program" } : std::vector<std::string> { "program", length % 2 ? "-g" : "--run-generators" };
        const auto r = launch (registrations, args, &gotRefused);
        run.step();
        MC_REQUIRE (run, ! r.signalled && r.fault.empty(), "crash", "the program died: " + what);
        MC_REQUIRE (run, gotRefused == wantRefused, "duplicate", "duplicates were not refused, or other names were: " + what);
        const auto& want = g ? generators : tests;
        MC_REQUIRE (run, r.entered == want, "selection", "ran " + join (r.entered) + "instead of " + join (want) + "after registering " + what);
        MC_REQUIRE (run, r.status == 0, "status", fmt ("exit status %d", r.status));
        MC_REQUIRE (run, r.passed == (long) want.size() && r.passedOf == (long) want.size(), "totals", fmt ("%ld/%ld printed", r.passed, r.passedOf));
    }

    mc::Hash h;
    for (auto& t : tests) h.add (t);
    h.add (1);
    for (auto& t : generators) h.add (t);
    run.state (h);
}

static void shuffling (Run& run)
{
    const bool generators = run.flag ("generators");
    const int n = run.pick ({ 0, 1, 2, 3, 4, 6, 20, 100, 300 }, "tasks");
    std::vector<Registration> registrations;
    for (int i = 0; i < n; ++i)
    {
        registrations.push_back ({ fmt ("Task %d", i), generators });
        if (i % 3 == 0) registrations.push_back ({ fmt ("Other %d", i), ! generators });
    }

    std::vector<std::string> tests, others;
    std::vector<bool> refused;
    expectedOrder (registrations, tests, others, refused);
    const auto& want = generators ? others : tests;

    std::set<std::vector<std::string>> orders;
    std::vector<std::string> seeds { "0", "1", "2", "3", "42", "65536", "2147483647", "2147483648", "4294967295" };
    if (want.size() < 6) for (int i = 4; i < 24; ++i) seeds.push_back (std::to_string (i));   // an order which never changes is no chance then
    bool moved = false;

    for (const auto& seed : seeds)
    {
        std::vector<std::string> base { "program" };
        if (generators) base.push_back ("-g");
        auto with = [&] (std::vector<std::string> more) { auto a = base; a.insert (a.end(), more.begin(), more.end()); return a; };

        // No shuffling: the seed does not matter
        const auto plain = launch (registrations, with ({ "--seed", seed }));
        run.step();
        MC_REQUIRE (run, plain.entered == want && plain.status == 0, "order", "not in registration order with seed " + seed);

        const auto first = launch (registrations, with ({ "--shuffle", "--seed", seed }));
        const auto second = launch (registrations, with ({ "-s", seed, "--shuffle", "-d", "/tmp", "--db-decimals", "3" }));
        const auto third = launch (registrations, with ({ "--seed=" + seed, "--shuffle" }), nullptr, [] (int i) { if (i % 2) throw std::runtime_error ("x"); });
        run.step(); run.step(); run.step();
        MC_REQUIRE (run, first.entered == second.entered && first.entered == third.entered, "shuffle-determinism", "the same seed " + seed + " gives different orders: " + join (first.entered) + " / " + join (second.entered) + " / " + join (third.entered));
        auto a = first.entered, b = want;
        std::sort (a.begin(), a.end());
        std::sort (b.begin(), b.end());
        MC_REQUIRE (run, a == b, "shuffle-permutation", "shuffled with seed " + seed + ": " + join (first.entered));
        MC_REQUIRE (run, first.status == 0, "status", "nonzero exit status");
        orders.insert (first.entered);
        moved |= first.entered != want;
        mc::Hash h;
        for (auto& t : first.entered) h.add (t);
        run.state (h);

        // The seed 0 is the default one
        if (seed == "0")
        {
            const auto byDefault = launch (registrations, with ({ "--shuffle" }));
            MC_REQUIRE (run, byDefault.entered == first.entered, "shuffle-determinism", "no seed is not the same as seed 0");
        }
    }

    if (want.size() >= 2) MC_REQUIRE (run, moved && orders.size() >= 2, "shuffle-effect", fmt ("%zu different orders for %zu seeds", orders.size(), seeds.size()));
}

static void commandLines (Run& run)
{
    struct Case { std::vector<std::string> args; int kind; };  // 0: fine, 1: refused, 2: help
    static const std::vector<Case> cases {
        { {}, 0 }, { { "--no-such-option" }, 1 }, { { "-z" }, 1 }, { { "stray" }, 1 }, { { "--seed" }, 1 }, { { "--seed", "abc" }, 1 }, { { "--seed", "1.5x" }, 1 },
        { { "--db-decimals", "x" }, 1 }, { { "--lin-decimals" }, 1 }, { { "--data-root-path" }, 1 }, { { "-d" }, 1 }, { { "--shuffle", "stray" }, 1 }, { { "-g", "--bogus" }, 1 },
        { { "--sec-decimals", "2", "--hz-decimals", "-" }, 1 }, { { "--rad-decimals", "two" }, 1 }, { { "-t" }, 1 },
        { { "--help" }, 2 }, { { "-h" }, 2 }, { { "-t", "[x]" }, 0 }, { { "--tags", "[x]" }, 0 }, { { "-d", "/tmp" }, 0 }, { { "--data-root-path=/tmp/x y" }, 0 }, { { "--seed", "7" }, 0 },
        { { "--lin-decimals", "3", "--db-decimals", "4", "--sec-decimals", "5", "--hz-decimals", "2", "--rad-decimals", "7" }, 0 },
    };
    const auto& c = cases[(size_t) run.choose ((int) cases.size(), "case")];
    std::vector<std::string> args { "program" };
    args.insert (args.end(), c.args.begin(), c.args.end());
    const auto r = launch ({ { "A", false }, { "B", true } }, args, nullptr, [] (int)
    {
        auto& v = runner::shared()->values;
        auto& cli = hart::CLIConfig::getInstance();
        v[40] = cli.getRandomSeed(); v[41] = (uint64_t) cli.getLinDecimals(); v[42] = (uint64_t) cli.getDbDecimals(); v[43] = (uint64_t) cli.getSecDecimals();
        v[44] = (uint64_t) cli.getHzDecimals(); v[45] = (uint64_t) cli.getRadDecimals(); v[46] = mc::Hash().add (cli.getDataRootPath()).h;
    });
    run.step();
    run.state (mc::Hash().add (join (args)));
    MC_REQUIRE (run, ! r.signalled && r.fault.empty(), "crash", "the program died: " + join (args));

    if (c.kind != 0)
    {
        MC_REQUIRE (run, r.entered.empty(), "ran", "ran " + join (r.entered) + "with " + join (args));
        MC_REQUIRE (run, (r.status != 0) == (c.kind == 1), "status", fmt ("exit status %d with ", r.status) + join (args));
        return;
    }

    MC_REQUIRE (run, (r.entered == std::vector<std::string> { "Static first", "Static tagged", "A" }) && r.status == 0, "ran", "ran " + join (r.entered) + "with " + join (args));
    auto value = [&] (const std::string& longName, const std::string& shortName, const std::string& fallback)
    {
        for (size_t i = 1; i < args.size(); ++i)
        {
            if (args[i] == longName || args[i] == shortName) return args[i + 1];
            if (args[i].compare (0, longName.size() + 1, longName + "=") == 0) return args[i].substr (longName.size() + 1);
        }
        return fallback;
    };
    const char* numbers[][3] = { { "--seed", "-s", "0" }, { "--lin-decimals", "", "6" }, { "--db-decimals", "", "1" }, { "--sec-decimals", "", "3" }, { "--hz-decimals", "", "1" }, { "--rad-decimals", "", "1" } };
    for (size_t i = 0; i < 6; ++i)
    {
        const auto want = std::stoull (value (numbers[i][0], numbers[i][1], numbers[i][2]));
        MC_REQUIRE (run, r.values[40 + i] == want, "option", std::string (numbers[i][0]) + fmt (" is %llu instead of %llu with ", (unsigned long long) r.values[40 + i], want) + join (args));
    }
    MC_REQUIRE (run, r.values[46] == mc::Hash().add (value ("--data-root-path", "-d", ".")).h, "option", "data root path with " + join (args));
}

int main (int argc, char** argv)
{
    mc::Options o;
    o.id = "C02";
    o.unitDepthQuick = 3;
    o.unitDepthThorough = 3;
    o.hangSeconds = 120;
    return mc::main (argc, argv, o, [] (Run& run)
    {
        switch (run.choose (3, "scenario"))
        {
            case 0: return registrationSequences (run);
            case 1: return shuffling (run);
            case 2: return commandLines (run);
        }
    });
}
