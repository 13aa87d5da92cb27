// C24: command line options set exactly what they name
#include "stock.hpp"
#include "runner.hpp"

using namespace stock;
using mc::Run;

// What a task of the program sees of the options, by their effects as well
struct Seen
{
    uint64_t seed = 0, noise = 0, root = 0, path = 0, absolute = 0, generators = 0, shuffle = 0, text[5] = {}, decimals[5] = {}, messages = 0;

    void store (uint64_t* v) const { memcpy (v, this, sizeof *this); }
    void load (const uint64_t* v) { memcpy ((void*) this, v, sizeof *this); }
};

static uint64_t hashOf (const std::string& s) { return mc::Hash().add (s).h; }

static const double shown = 0.123456789012345678;

static std::string decimalsOf (double value, int n) { char b[400]; snprintf (b, sizeof b, "%.*f", n, value); return b; }

// The samples of noise which is given the seed explicitly (which ones they are is C13's business)
static uint64_t noiseOf (uint64_t seed)
{
    hart::WhiteNoise<double> noise ((uint_fast32_t) seed);
    noise.reset();
    noise.prepareWithDSPChain (8000, 1, 4);
    hart::AudioBuffer<double> b (1, 4);
    noise.renderNextBlockWithDSPChain (b);
    mc::Hash h;
    for (int i = 0; i < 4; ++i) h.add (b[0][i]);
    return h.h;
}

static void look (int)
{
    using namespace hart;
    auto& cli = CLIConfig::getInstance();
    Seen s;
    s.seed = cli.getRandomSeed();
    s.root = hashOf (cli.getDataRootPath());
    s.generators = cli.shouldRunGenerators();
    s.shuffle = cli.shouldShuffleTasks();
    s.path = hashOf (toAbsolutePath ("some/file.wav"));
    s.absolute = hashOf (toAbsolutePath ("/other/file.wav"));
    const int decimals[] = { cli.getLinDecimals(), cli.getDbDecimals(), cli.getSecDecimals(), cli.getHzDecimals(), cli.getRadDecimals() };
    std::ostream& (*manipulators[]) (std::ostream&) { linPrecision, dbPrecision, secPrecision, hzPrecision, radPrecision };
    for (int i = 0; i < 5; ++i)
    {
        s.decimals[i] = (uint64_t) decimals[i];
        std::ostringstream o;
        o << manipulators[i] << shown;
        s.text[i] = hashOf (o.str());
    }
    WhiteNoise<double> noise;
    noise.reset();
    noise.prepareWithDSPChain (8000, 1, 4);
    AudioBuffer<double> b (1, 4);
    noise.renderNextBlockWithDSPChain (b);
    mc::Hash h;
    for (int i = 0; i < 4; ++i) h.add (b[0][i]);
    s.noise = h.h;
    s.store (runner::shared()->values);
}

struct Settings
{
    std::string root = ".";
    uint64_t seed = 0;
    int decimals[5] = { 6, 1, 3, 1, 1 };
    bool generators = false, shuffle = false;
};

struct Option
{
    std::vector<std::string> args;
    int target;   // 0..4 decimals, 5 seed, 6 root, 7 tags, 8 generators, 9 shuffle
    std::string value;
};

static const char* decimalNames[] = { "--lin-decimals", "--db-decimals", "--sec-decimals", "--hz-decimals", "--rad-decimals" };
static const char* targetNames[] = { "lin", "db", "sec", "hz", "rad", "seed", "data root", "tags", "generators", "shuffle" };

// The first `few` of them stand for all
static std::vector<Option> alphabet (size_t& few)
{
    std::vector<Option> a;
    auto both = [&] (const std::string& name, int target, const std::string& value, int form)
    {
        if (form == 0) a.push_back ({ { name, value }, target, value });
        else if (form == 1) a.push_back ({ { name + "=" + value }, target, value });
        else a.push_back ({ { name + value }, target, value });
    };
    for (int d = 0; d < 5; ++d) both (decimalNames[d], d, std::to_string (2 + d * 2), d % 2);
    both ("--seed", 5, "7", 0);
    both ("-s", 5, "4294967295", 0);
    both ("--data-root-path", 6, "/some/where", 0);
    both ("-d", 6, "rel ative", 0);
    both ("--tags", 7, "[x]", 0);
    a.push_back ({ { "-g" }, 8, "" });
    a.push_back ({ { "--shuffle" }, 9, "" });
    few = a.size();
    for (int d = 0; d < 5; ++d)
    {
        for (int v : { 0, 1, 9, 15, 30 }) both (decimalNames[d], d, std::to_string (v), (d + v) % 2);
        both (decimalNames[d], d, "4", 0);
        both (decimalNames[d], d, "4", 1);
    }
    for (const char* v : { "0", "1", "2147483648", "65536", "4294967294" }) { both ("--seed", 5, v, 0); both ("--seed", 5, v, 1); both ("-s", 5, v, 0); both ("-s", 5, v, 2); }
    for (const char* v : { ".", "x", "/", "/a/b c", "../up", "tr/", "0", "a=b", "--", "\xc3\xa9" })
    {
        if (std::string (v) != "--") both ("--data-root-path", 6, v, 0), both ("-d", 6, v, 0);
        both ("--data-root-path", 6, v, 1);
        if (std::string (v) != "--") both ("-d", 6, v, 2);
    }
    both ("-t", 7, "x", 0);
    both ("--tags", 7, "seed", 1);
    both ("-t", 7, "9", 2);
    a.push_back ({ { "--run-generators" }, 8, "" });
    return a;
}

static std::string join (const std::vector<std::string>& v) { std::string s; for (auto& x : v) s += (s.empty() ? "" : " ") + (x.find (' ') != std::string::npos ? "'" + x + "'" : x); return s; }

static runner::Result launch (const std::vector<std::string>& args, int tasks = 4)
{
    std::vector<runner::Task> list;
    for (int i = 0; i < tasks; ++i) { list.push_back ({ fmt ("Test %d", i), hart::TaskCategory::test }); list.push_back ({ fmt ("Generator %d", i), hart::TaskCategory::generate }); }
    return runner::run (list, args, look);
}

static std::string differs (const Seen& s, const Settings& want, const runner::Result& r)
{
    for (int i = 0; i < 5; ++i)
    {
        if (s.decimals[i] != (uint64_t) want.decimals[i]) return fmt ("%s is %llu instead of %d", decimalNames[i], (unsigned long long) s.decimals[i], want.decimals[i]);
        if (s.text[i] != hashOf (decimalsOf (shown, want.decimals[i]))) return fmt ("numbers are not printed with %d decimals of %s", want.decimals[i], decimalNames[i]);
    }
    if (s.seed != want.seed) return fmt ("the seed is %llu instead of %llu", (unsigned long long) s.seed, (unsigned long long) want.seed);
    if (s.noise != noiseOf (want.seed)) return fmt ("noise does not use the seed %llu", (unsigned long long) want.seed);
    if (s.root != hashOf (want.root)) return "the data root is not " + want.root;
    if (s.path != hashOf (want.root + "/some/file.wav")) return "a relative path does not begin with " + want.root;
    if (s.absolute != hashOf ("/other/file.wav")) return "an absolute path is changed";
    if ((s.generators != 0) != want.generators) return want.generators ? "generators are not asked for" : "generators are asked for";
    if ((s.shuffle != 0) != want.shuffle) return want.shuffle ? "shuffling is not asked for" : "shuffling is asked for";
    std::vector<std::string> order;
    for (int i = 0; i < 4; ++i) order.push_back (fmt (want.generators ? "Generator %d" : "Test %d", i));
    auto got = r.entered;
    if (want.shuffle) std::sort (got.begin(), got.end());
    if (got != order) return "ran " + join (r.entered);
    if (r.status != 0 || r.passed != 4) return fmt ("exit status %d, %ld passed", r.status, r.passed);
    return "";
}

static void check (Run& run, const std::vector<const Option*>& options)
{
    std::vector<std::string> args { "program" };
    Settings want;
    int used[10] = {};
    bool repeated = false;
    for (auto* o : options)
    {
        args.insert (args.end(), o->args.begin(), o->args.end());
        if (o->target < 8 && used[o->target]++) repeated = true;
        if (o->target < 5) want.decimals[o->target] = atoi (o->value.c_str());
        if (o->target == 5) want.seed = std::stoull (o->value);
        if (o->target == 6) want.root = o->value;
        if (o->target == 8) want.generators = true;
        if (o->target == 9) want.shuffle = true;
    }
    const auto r = launch (args);
    run.step();
    MC_REQUIRE (run, ! r.signalled && r.fault.empty(), "crash", "the program died: " + join (args));
    if (repeated)
    {
        // An option given twice may be refused, or one of the two counts; the others are not touched in any case
        if (r.status != 0) { MC_REQUIRE (run, r.entered.empty(), "ran", "ran " + join (r.entered) + ": " + join (args)); return; }
        Seen s;
        s.load (r.values.data());
        std::string wrong = differs (s, want, r);
        for (size_t i = 0; i < options.size() && ! wrong.empty(); ++i)
        {
            Settings other;
            for (size_t k = 0; k < options.size(); ++k)
            {
                const auto* o = options[(i + k) % options.size()];
                if (o->target < 5) other.decimals[o->target] = atoi (o->value.c_str());
                if (o->target == 5) other.seed = std::stoull (o->value);
                if (o->target == 6) other.root = o->value;
                if (o->target == 8) other.generators = true;
                if (o->target == 9) other.shuffle = true;
            }
            if (differs (s, other, r).empty()) wrong.clear();
        }
        MC_REQUIRE (run, wrong.empty(), "repeated", wrong + ": " + join (args));
        return;
    }
    Seen s;
    s.load (r.values.data());
    const auto wrong = differs (s, want, r);
    MC_REQUIRE (run, wrong.empty(), "option", wrong + ": " + join (args));
    mc::Hash h;
    h.add (want.root).add (want.seed).add (want.generators).add (want.shuffle);
    for (int d : want.decimals) h.add (d);
    run.state (h);
}

// All sequences of options
static void sequences (Run& run)
{
    static size_t few;
    static const auto all = alphabet (few);
    const int length = run.choose (run.thorough ? 5 : 4, "length");
    const size_t n = length <= (run.thorough ? 2 : 1) ? all.size() : few;
    std::vector<const Option*> options;
    for (int i = 0; i < length; ++i) options.push_back (&all[(size_t) run.choose ((int) n, "option")]);
    check (run, options);
}

// Every option of the whole alphabet before and after each of the few
static void pairs (Run& run)
{
    static size_t few;
    static const auto all = alphabet (few);
    const auto* a = &all[(size_t) run.choose ((int) all.size(), "option")];
    const auto* b = &all[(size_t) run.choose ((int) few, "other")];
    if (run.flag ("after")) std::swap (a, b);
    check (run, { a, b });
}

// All at once, in every rotation and its reverse, with one of them missing or none
static void together (Run& run)
{
    static size_t few;
    static const auto all = alphabet (few);
    std::vector<const Option*> options;
    const int seedForm = run.choose (2, "seed form"), rootForm = run.choose (2, "root form");
    for (size_t i = 0; i < few; ++i)
        if (all[i].target != 5 && all[i].target != 6) options.push_back (&all[i]);
    options.push_back (&all[5 + (size_t) seedForm]);
    options.push_back (&all[7 + (size_t) rootForm]);
    const int missing = run.choose ((int) options.size() + 1, "missing");
    if (missing < (int) options.size()) options.erase (options.begin() + missing);
    std::rotate (options.begin(), options.begin() + run.choose ((int) options.size(), "rotation"), options.end());
    if (run.flag ("reversed")) std::reverse (options.begin(), options.end());
    check (run, options);
}

// Something wrong at each place among proper options: nothing runs
static void refused (Run& run)
{
    static size_t few;
    static const auto all = alphabet (few);
    std::vector<std::vector<std::string>> wrong;
    for (const char* d : decimalNames)
        for (const char* v : { "x", "", "1.5", "1x", "x1", "99999999999999999999", "--", "one", "1 2", "nan", "." })
        {
            if (*v == 0) wrong.push_back ({ std::string (d) + "=" });
            else wrong.push_back ({ d, v });
            if (*v != 0 && *v != '-') wrong.push_back ({ std::string (d) + "=" + v });
        }
    for (const char* v : { "x", "1.5", "1x", "99999999999999999999999", "seven", "nan" }) { wrong.push_back ({ "--seed", v }); wrong.push_back ({ "-s", v }); wrong.push_back ({ std::string ("--seed=") + v }); }
    for (const char* v : { "--sed", "--seeds", "-z", "-S", "-D", "-G", "--Shuffle", "--shuffled", "--lin-decimal", "--decimals", "--run", "--generators", "--data-root", "--data-root-path2", "-gz", "/s", "/g", "/shuffle", "/help", "--SHUFFLE", "-shuffle", "stray", "--no-shuffle-please", "-1", "7" }) wrong.push_back ({ v });
    const auto& w = wrong[(size_t) run.choose ((int) wrong.size(), "wrong")];
    const int count = run.choose (3, "proper options");
    const int place = run.choose (count + 1, "place");
    std::vector<std::string> args { "program" };
    bool tagsBefore = false;
    for (int i = 0; i <= count; ++i)
    {
        if (i == place) args.insert (args.end(), w.begin(), w.end());
        if (i < count)
        {
            const auto& o = all[(size_t) run.choose ((int) few, "option")];
            if (! w.empty() && w[0].find (o.args[0].substr (0, o.args[0].find ('='))) == 0 && o.target < 8) return;   // repeated
            args.insert (args.end(), o.args.begin(), o.args.end());
        }
    }
    (void) tagsBefore;
    const auto r = launch (args);
    run.step();
    run.state (hashOf (join (args)));
    MC_REQUIRE (run, ! r.signalled && r.fault.empty(), "crash", "the program died: " + join (args));
    MC_REQUIRE (run, r.entered.empty(), "ran", "ran " + join (r.entered) + ": " + join (args));
    MC_REQUIRE (run, r.status != 0, "status", "exit status 0: " + join (args));
    MC_REQUIRE (run, ! r.output.empty(), "message", "refused without a word: " + join (args));
}

// A value is missing at the end
static void missing (Run& run)
{
    static size_t few;
    static const auto all = alphabet (few);
    const char* names[] = { "--lin-decimals", "--db-decimals", "--sec-decimals", "--hz-decimals", "--rad-decimals", "--seed", "-s", "--data-root-path", "-d", "--tags", "-t" };
    const std::string name = names[run.choose (11, "name")];
    std::vector<std::string> args { "program" };
    const int count = run.choose (3, "proper options");
    for (int i = 0; i < count; ++i) { const auto& o = all[(size_t) run.choose ((int) few, "option")]; args.insert (args.end(), o.args.begin(), o.args.end()); }
    args.push_back (name);
    const auto r = launch (args);
    run.step();
    run.state (hashOf (join (args)));
    MC_REQUIRE (run, ! r.signalled && r.entered.empty() && r.status != 0, "missing-value", fmt ("exit status %d, ran ", r.status) + join (r.entered) + ": " + join (args));
}

// Help names all the options and runs nothing
static void help (Run& run)
{
    static size_t few;
    static const auto all = alphabet (few);
    const char* form = run.flag ("short") ? "-h" : "--help";
    const int count = run.choose (3, "options");
    const int place = run.choose (count + 1, "place");
    std::vector<std::string> args { "program" };
    std::set<int> targets;
    for (int i = 0; i <= count; ++i)
    {
        if (i == place) args.push_back (form);
        if (i < count)
        {
            const auto& o = all[(size_t) run.choose ((int) few, "option")];
            if (! targets.insert (o.target).second) return;
            args.insert (args.end(), o.args.begin(), o.args.end());
        }
    }
    const auto r = launch (args);
    run.step();
    run.state (hashOf (join (args)));
    MC_REQUIRE (run, ! r.signalled && r.entered.empty() && r.status == 0, "help", fmt ("exit status %d, ran ", r.status) + join (r.entered) + ": " + join (args));
    for (const char* name : { "--lin-decimals", "--db-decimals", "--sec-decimals", "--hz-decimals", "--rad-decimals", "--seed", "-s", "--data-root-path", "-d", "--tags", "-t", "--run-generators", "-g", "--shuffle" })
        MC_REQUIRE (run, r.output.find (name) != std::string::npos, "help", std::string ("no word about ") + name);
}

int main (int argc, char** argv)
{
    mc::Options o;
    o.id = "C24";
    o.unitDepthQuick = 3;
    o.unitDepthThorough = 4;
    o.hangSeconds = 120;
    return mc::main (argc, argv, o, [] (Run& run)
    {
        (void) targetNames;
        switch (run.choose (6, "scenario"))
        {
            case 0: return sequences (run);
            case 1: return pairs (run);
            case 2: return together (run);
            case 3: return refused (run);
            case 4: return missing (run);
            default: return help (run);
        }
    });
}
