// C20: text representations show the actual parameters at the configured decimals
#include "stock.hpp"

using namespace stock;
using mc::Run;

static const double inf = std::numeric_limits<double>::infinity(), nan_ = std::numeric_limits<double>::quiet_NaN();

enum Unit { lin, db, sec, hz, rad, whole };

// What a representation has to show: pieces of text, and numbers with their unit
struct Token { std::string text; double value = 0; Unit unit = whole; bool number = false; };
using Tokens = std::vector<Token>;

static Token text (const std::string& s) { Token t; t.text = s; return t; }
static Token number (double v, Unit u) { Token t; t.value = v; t.unit = u; t.number = true; return t; }
static Tokens operator+ (Tokens a, const Tokens& b) { a.insert (a.end(), b.begin(), b.end()); return a; }

static int decimalsOf (const Cli& cli, Unit u) { return u == lin ? cli.lin : u == db ? cli.db : u == sec ? cli.sec : u == hz ? cli.hz : u == rad ? cli.rad : 0; }

// Empty if `s` shows the tokens from `at` on, else what is wrong. Spaces outside of text in quotes do not count.
static std::string shows (const std::string& s, const Tokens& tokens, const Cli& cli, double relativeError, size_t* where = nullptr)
{
    size_t at = where ? *where : 0;
    auto skip = [&] { while (at < s.size() && s[at] == ' ') ++at; };

    for (const auto& t : tokens)
    {
        skip();
        if (! t.number)
        {
            size_t i = 0;
            bool quoted = false;
            while (i < t.text.size())
            {
                if (! quoted) { if (t.text[i] == ' ') { ++i; continue; } skip(); }
                if (at >= s.size() || s[at] != t.text[i]) return "\"" + t.text + "\" is missing at character " + std::to_string (at);
                if (t.text[i] == '"') quoted = ! quoted;
                ++i; ++at;
            }
            continue;
        }

        char* stop = nullptr;
        const bool odd = at < s.size() && (s[at] == '+' || (s[at] == '0' && at + 1 < s.size() && (s[at + 1] == 'x' || s[at + 1] == 'X')));
        const double v = strtod (s.c_str() + at, &stop);
        const size_t end = (size_t) (stop - s.c_str());
        const std::string shown = s.substr (at, end - at);
        if (end == at || odd) return fmt ("no number at character %zu instead of %.12g", at, t.value);
        at = end;
        if (std::isnan (t.value)) { if (! std::isnan (v)) return shown + " instead of nan"; continue; }
        if (std::isinf (t.value)) { if (v != t.value) return shown + fmt (" instead of %g", t.value); continue; }
        const int decimals = decimalsOf (cli, t.unit);
        const size_t dot = shown.find ('.');
        const int shownDecimals = dot == std::string::npos ? 0 : (int) (shown.size() - dot) - 1;
        if (shown.find_first_of ("eEpP") != std::string::npos) return shown + " is not in fixed point notation";
        if (shownDecimals != decimals) return shown + fmt (" has %d decimals instead of %d", shownDecimals, decimals);
        double error = std::abs (v - t.value);
        if (t.unit == rad) error = std::abs (std::remainder (error, 2 * M_PI));   // an equivalent phase will do
        if (! (error <= 0.5000001 * std::pow (10.0, -decimals) + relativeError * std::abs (t.value) + (t.unit == rad ? 1e-6 * (relativeError > 1e-10) + 1e-13 : 0))) return shown + fmt (" instead of %.12g", t.value);
    }

    if (where) { *where = at; return {}; }
    skip();
    return at == s.size() ? std::string() : "\"" + s.substr (at) + "\" is not expected";
}

static const std::vector<double>& numbers()
{
    static const std::vector<double> v { 0, 1, -1, 0.5, -6.25, 123456.789, 1e-7, -0.04, 9.96, 1.0 / 3, -120, -130.7, 1e9, 0.9999999, 2.5e-5 };
    return v;
}

template <typename T>
struct Item
{
    std::unique_ptr<hart::Signal<T>> signal;
    std::unique_ptr<hart::DSP<T>> dsp;
    std::unique_ptr<hart::Matcher<T>> matcher;
    Tokens tokens;

    void print (std::ostream& s) const { if (signal) s << *signal; else if (dsp) s << *dsp; else s << *matcher; }
};

// -- Objects of `kind`, with their parameters picked by `get(list)`

constexpr int numSignalKinds = 6, numEffectKinds = 3, numMatcherKinds = 3, numKinds = numSignalKinds + numEffectKinds + numMatcherKinds;

struct Args { double a = 0, b = 0, c = 0, d = 0; int flags = 0; };

template <typename T>
static Item<T> make (int kind, const Args& x)
{
    using namespace hart;
    Item<T> i;
    using S = SineSweep<T>;
    switch (kind)
    {
        case 0: i.signal.reset (new Silence<T>()); i.tokens = { text ("Silence()") }; break;
        case 1: i.signal.reset (new SineWave<T> (x.a, x.b)); i.tokens = { text ("SineWave ("), number (x.a, hz), text ("_Hz,"), number (x.b, rad), text ("_rad)") }; break;
        case 2:
            i.signal.reset (new S (x.c, x.a, x.b, x.flags & 1 ? S::SweepType::linear : S::SweepType::log, x.flags & 2 ? S::Loop::yes : S::Loop::no, x.d));
            i.tokens = { text ("SineSweep ("), number (x.c, sec), text ("_s,"), number (x.a, hz), text ("_Hz,"), number (x.b, hz), text ("_Hz,"), text (x.flags & 1 ? "SweepType::linear," : "SweepType::log,"),
                text (x.flags & 2 ? "Loop::yes," : "Loop::no,"), number (x.d, rad), text ("_rad)") };
            break;
        case 3:
        {
            const uint_fast32_t seed = (uint_fast32_t) x.a;
            i.signal.reset (new WhiteNoise<T> (seed));
            i.tokens = { text ("WhiteNoise ("), text (std::to_string (seed)), text (")") };
            break;
        }
        case 4:
        case 5:
        {
            const bool loop = x.flags & 2;
            const std::string path = wavFixture (2, 5, 44100);
            std::string shown = path;
            if (kind == 5)   // shown as it was written
            {
                shown = "relative dir.d/my, file (1).wav";
                mkdir ((workDir() + "/relative dir.d").c_str(), 0755);
                if (! exists (workDir() + "/" + shown)) writeFile (workDir() + "/" + shown, readFile (path));
            }
            i.signal.reset (new WavFile<T> (shown, loop ? WavFile<T>::Loop::yes : WavFile<T>::Loop::no));
            i.tokens = { text ("WavFile (\"" + shown + "\""), text (loop ? ", Loop::yes)" : ", Loop::no)") };
            break;
        }
        case 6: i.dsp.reset (new GainDb<T> (x.a)); i.tokens = { text ("GainDb ("), number (x.a, db), text ("_dB)") }; break;
        case 7: i.dsp.reset (new GainLinear<T> (x.a)); i.tokens = { text ("GainLinear ("), number (x.a, lin), text (")") }; break;
        case 8: i.dsp.reset (new HardClip<T> (x.a)); i.tokens = { text ("HardClip ("), number (x.a, db), text ("_dB)") }; break;
        case 9: i.matcher.reset (new PeaksAt<T> ((T) x.a, x.b)); i.tokens = { text ("PeaksAt ("), number (x.a, db), text ("_dB,"), number (x.b, lin), text (")") }; break;
        case 10: i.matcher.reset (new PeaksBelow<T> ((T) x.a, x.b)); i.tokens = { text ("PeaksBelow ("), number (x.a, db), text ("_dB,"), number (x.b, lin), text (")") }; break;
        default: break;
    }
    return i;
}

template <typename T>
static void makeEqualsTo (Item<T>& i, const hart::Signal<T>& reference, const Tokens& referenceTokens, double tolerance, bool byRvalue)
{
    i.tokens = Tokens { text ("EqualsTo (") } + referenceTokens + Tokens { text (","), number (tolerance, lin), text (")") };
    auto copy = reference.copy();
    // EqualsTo takes a signal of a concrete class
    auto take = [&] (auto* s) { if (s == nullptr || i.matcher) return; if (byRvalue) i.matcher.reset (new hart::EqualsTo<T> (std::move (*s), tolerance)); else i.matcher.reset (new hart::EqualsTo<T> (*s, tolerance)); };
    take (dynamic_cast<hart::Silence<T>*> (copy.get()));
    take (dynamic_cast<hart::SineWave<T>*> (copy.get()));
    take (dynamic_cast<hart::SineSweep<T>*> (copy.get()));
    take (dynamic_cast<hart::WhiteNoise<T>*> (copy.get()));
    take (dynamic_cast<hart::WavFile<T>*> (copy.get()));
}

template <typename T> static double epsilon() { return sizeof (T) == 4 ? 1.2e-7 : 1e-15; }

// States a stream may be left in by what was printed before
static void disturb (std::ostream& s, int how)
{
    switch (how)
    {
        case 0: break;
        case 1: s << std::scientific << std::setprecision (2); break;
        case 2: s << std::setprecision (0); break;
        case 3: s << std::hexfloat << std::setprecision (17); break;
        case 4: s << std::fixed << std::setprecision (11); break;
        case 5: s << hart::linPrecision << 1.5 << ' '; break;
        case 6: s << hart::dbPrecision << 1.5 << ' '; break;
        case 7: s << hart::secPrecision << 1.5 << ' '; break;
        case 8: s << hart::hzPrecision << 1.5 << ' '; break;
        case 9: s << hart::radPrecision << 1.5 << ' '; break;
        default: s << std::defaultfloat << std::setprecision (3); break;
    }
}
constexpr int numDisturbances = 11;

static Cli cliOf (const std::vector<int>& d)
{
    Cli c;
    c.lin = d[0]; c.db = d[1]; c.sec = d[2]; c.hz = d[3]; c.rad = d[4];
    c.root = workDir();
    return c;
}

template <typename T>
static void judge (Run& run, const Item<T>& item, std::ostringstream& stream, const Cli& cli, const std::string& how)
{
    const size_t from = stream.str().size();
    item.print (stream);
    run.step();
    const std::string got = stream.str().substr (from);
    const auto wrong = shows (got, item.tokens, cli, epsilon<T>());
    MC_REQUIRE (run, wrong.empty(), "representation", wrong + " in " + got + fmt (" with %d/%d/%d/%d/%d decimals (linear, dB, s, Hz, rad) %s", cli.lin, cli.db, cli.sec, cli.hz, cli.rad, how.c_str()));
    run.state (mc::Hash().add (got));
}

static Args argsOf (Run& run, int kind)
{
    Args x;
    static const std::vector<double> frequencies { 1000, 0.25, 440.05, 19999.96, 123456.789 }, phases { 0, 1.2345678, -2.05, 100 }, durations { 1, 0, 0.0125, 59.9996 };
    if (kind == 1) { x.a = run.pick (frequencies, "frequency"); x.b = run.pick (phases, "phase"); }
    if (kind == 2) { x.a = run.pick (frequencies, "start"); x.b = run.pick (frequencies, "end"); x.c = run.pick (durations, "duration"); x.d = run.pick (phases, "phase"); x.flags = run.choose (4, "flags"); }
    if (kind == 3) x.a = run.pick ({ 0.0, 1.0, 4294967295.0, 1234567.0 }, "seed");
    if (kind == 4 || kind == 5) x.flags = run.choose (2, "loop") * 2;
    if (kind >= 6) x.a = run.pick (numbers(), "value");
    if (kind == 9 || kind == 10) x.b = run.pick ({ 1e-3, 0.0, 0.5, 12.25, 1.0 / 3 }, "tolerance");
    return x;
}

// Any one object, with any arguments, decimals, and previous state of the stream, also after using and copying it
template <typename T>
static void single (Run& run)
{
    const int kind = run.choose (numKinds, "kind");
    static const std::vector<std::vector<int>> decimals { { 6, 1, 3, 1, 1 }, { 0, 0, 0, 0, 0 }, { 1, 2, 3, 4, 5 }, { 9, 8, 7, 6, 5 }, { 2, 7, 0, 5, 3 }, { 12, 3, 9, 0, 6 }, { 4, 0, 12, 2, 9 } };

    Cli initial;
    initial.root = workDir();
    initial.apply();
    Item<T> item;
    if (kind < numKinds - 1) item = make<T> (kind, argsOf (run, kind));
    else
    {
        const int reference = run.choose (numSignalKinds, "reference");
        auto r = make<T> (reference, argsOf (run, reference));
        makeEqualsTo (item, *r.signal, r.tokens, run.pick ({ 1e-5, 0.0, 0.25, 100.0 }, "tolerance"), run.flag ("rvalue"));
    }

    const bool deep = kind != 2 && kind != numKinds - 1;
    const auto all = [&] (const Item<T>& i, const std::string& how)
    {
        for (size_t d = 0; d < decimals.size(); ++d)
        {
            const auto cli = cliOf (decimals[d]);
            cli.apply();
            for (int before = 0; before < (deep || run.thorough ? numDisturbances : 3); ++before)
            {
                std::ostringstream stream;
                disturb (stream, before);
                judge (run, i, stream, cli, how + fmt (", stream left in state %d", before));
            }
        }
    };

    all (item, "as created");
    initial.apply();

    // Used, copied and moved
    if (item.signal)
    {
        Item<T> copy; copy.signal = item.signal->copy(); copy.tokens = item.tokens;
        all (copy, "copy");
        Item<T> moved; moved.signal = copy.signal->move(); moved.tokens = item.tokens;
        all (moved, "moved");
        if (kind != 5 && ! (kind == 4))
        {
            renderFresh (*moved.signal, 44100, 1, 40, 8);
            all (moved, "after rendering");
        }
        else { renderFresh (*moved.signal, 44100, 2, 40, 8); all (moved, "after rendering"); }
        moved.signal->resetWithDSPChain();
        all (moved, "after a reset");
    }
    else if (item.dsp)
    {
        Item<T> copy; copy.dsp = item.dsp->copy(); copy.tokens = item.tokens;
        all (copy, "copy");
        Item<T> moved; moved.dsp = copy.dsp->move(); moved.tokens = item.tokens;
        runEffect (*moved.dsp, table<T> (1, 20), 44100, 1, 8);
        all (moved, "moved, after processing");
    }
    else
    {
        Item<T> copy; copy.matcher = item.matcher->copy(); copy.tokens = item.tokens;
        all (copy, "copy");
        Item<T> moved; moved.matcher = copy.matcher->move(); moved.tokens = item.tokens;
        if (kind != numKinds - 1)
        {
            moved.matcher->reset();
            moved.matcher->prepare (44100, 1, 20);
            hart::AudioBuffer<T> audio (1, 20);
            fill (audio, table<T> (1, 20));
            if (! moved.matcher->match (audio)) moved.matcher->getFailureDetails();
        }
        all (moved, "moved, after matching");
    }
}

// All numbers of decimals for every unit
template <typename T>
static void everyDecimals (Run& run)
{
    const int kind = run.choose (numKinds, "kind");
    const auto d = [&] (const char* label) { return run.choose (run.thorough ? 7 : 4, label); };
    static const int choices[] = { 0, 1, 4, 10, 2, 7, 15 };
    std::vector<int> decimals;
    for (auto label : { "lin", "db", "sec", "hz", "rad" }) decimals.push_back (choices[d (label)]);
    const auto cli = cliOf (decimals);
    cli.apply();
    Args x;
    x.a = 440.0625; x.b = 2.3456789012; x.c = 0.1234567; x.d = -0.87654321;
    Item<T> item;
    if (kind < numKinds - 1) item = make<T> (kind, x);
    else
    {
        auto r = make<T> (2, x);
        r.signal->followedBy (hart::GainDb<T> (-3.14159)).followedBy (hart::GainLinear<T> (0.777777777));
        makeEqualsTo (item, *r.signal, r.tokens + Tokens { text (">> GainDb ("), number (-3.14159, db), text ("_dB) >> GainLinear ("), number (0.777777777, lin), text (")") }, 0.0123456789, false);
    }
    std::ostringstream stream;
    judge (run, item, stream, cli, "");
}

// Signals with effects
template <typename T>
static void chains (Run& run)
{
    const int kind = run.choose (numSignalKinds, "signal");
    Args x;
    x.a = 440.06; x.b = 2.3456; x.c = 0.25; x.d = -0.8765; x.flags = 2;
    const auto cli = run.choose (2, "decimals") ? cliOf ({ 5, 3, 2, 4, 0 }) : cliOf ({ 6, 1, 3, 1, 1 });
    cli.apply();
    auto item = make<T> (kind, x);
    const int way = run.choose (5, "way");
    const int length = run.choose (run.thorough ? 5 : 4, "length");
    bool copied = false;
    const int copyAt = run.choose (length + 2, "copy at");
    auto copyIfDue = [&] (int i) { if (i == copyAt) { auto c = item.signal->copy(); c->followedBy (hart::GainDb<T> (99)); copied = true; if (way % 2) item.signal = item.signal->copy(); } };

    for (int i = 0; i < length; ++i)
    {
        copyIfDue (i);
        const int e = run.choose (4, "effect");
        const double v = e == 3 ? -6.25 : 1.5 + i;
        if (e == 3)   // with an envelope, which is not part of the arguments
        {
            hart::GainDb<T> g (v);
            g.withEnvelope (0, hart::SegmentedEnvelope (-3).rampTo (2, 0.001));
            item.signal->followedBy (g);
            item.tokens = item.tokens + Tokens { text (">> GainDb ("), number (v, db), text ("_dB)") };
            continue;
        }

        auto one = make<T> (6 + e, Args { v });
        auto attach = [&] (auto effect)
        {
            if (way == 0) { const auto& c = effect; item.signal->followedBy (c); }
            else if (way == 1) item.signal->followedBy (std::move (effect));
            else if (way == 2) item.signal->followedBy (one.dsp->copy());
            else if (way == 3) { const auto& c = effect; *item.signal >> c; }
            else *item.signal >> std::move (effect);
        };
        if (e == 0) attach (hart::GainDb<T> (v));
        if (e == 1) attach (hart::GainLinear<T> (v));
        if (e == 2) attach (hart::HardClip<T> (v));
        item.tokens = item.tokens + Tokens { text (" >> ") } + one.tokens;
    }
    copyIfDue (length);

    for (int before = 0; before < numDisturbances; ++before)
    {
        std::ostringstream stream;
        disturb (stream, before);
        judge (run, item, stream, cli, fmt ("chain, stream left in state %d", before));
    }

    if (kind != 4 && kind != 5 && kind != 0) return;
    Item<T> m;
    makeEqualsTo (m, *item.signal, item.tokens, 0.25, false);
    std::ostringstream stream;
    judge (run, m, stream, cli, "as a reference");
}

// Several things printed into one stream, one after another
template <typename T>
static void sequences (Run& run)
{
    const auto cli = cliOf ({ 5, 3, 2, 4, 0 });
    cli.apply();
    Args x;
    x.a = 440.0625; x.b = 2.3456789012; x.c = 0.1234567; x.d = -0.87654321;
    std::vector<Item<T>> items;
    for (int k = 0; k < numKinds - 1; ++k) items.push_back (make<T> (k, x));
    items.emplace_back();
    makeEqualsTo (items.back(), *items[1].signal, items[1].tokens, 0.0123456789, false);
    items.emplace_back();
    items.back().signal = items[2].signal->copy();
    items.back().signal->followedBy (hart::HardClip<T> (-1.23456));
    items.back().tokens = items[2].tokens + Tokens { text (">> HardClip ("), number (-1.23456, db), text ("_dB)") };

    const int numOps = (int) items.size() + numDisturbances - 1;
    const int length = run.thorough ? 4 : 3;
    std::ostringstream stream;
    for (int i = 0; i < length; ++i)
    {
        const int op = run.choose (numOps, "print");
        if (op < (int) items.size()) { if (run.fresh()) judge (run, items[(size_t) op], stream, cli, fmt ("as number %d of a stream", i)); else items[(size_t) op].print (stream); }
        else disturb (stream, op - (int) items.size() + 1);
    }
}

// Failure reports
template <typename T>
static void reports (Run& run)
{
    static const int choices[] = { 0, 1, 3, 7, 11 };
    const int kind = run.choose (3, "matcher");
    const bool assertion = run.flag ("assertion");
    const int lists = assertion ? 0 : run.choose (2, "second check");   // (a failed assertion ends the test)
    std::vector<int> decimals;
    for (auto label : { "lin", "db", "sec" }) decimals.push_back (choices[run.choose (5, label)]);
    decimals.push_back (2); decimals.push_back (5);
    const auto cli = cliOf (decimals);
    cli.apply();

    const double a = 0.3125, reference = 0.0123456789;
    Audio<T> audio (1, std::vector<T> (9, (T) 0));
    audio[0][7] = (T) a;
    Audio<T> quiet (1, std::vector<T> (9, (T) 0));
    const double dbOf = 20 * std::log10 (a);
    using namespace hart;

    AudioTestBuilder<T> host { Through<T>() };
    host.withSampleRate (44100).withDuration (9 / 44100.0).withBlockSize (4).withInputSignal (Play<T> (audio));
    Tokens condition, description;
    auto check = [&] (auto m) { if (assertion) host.assertTrue (std::move (m)); else host.expectTrue (std::move (m)); };
    if (lists == 1) host.expectFalse (PeaksBelow<T> ((T) 20.04, 0.0));

    if (kind == 0)
    {
        auto one = make<T> (9, Args { -33.3333, 0.00123456789 });
        check (PeaksAt<T> ((T) -33.3333, 0.00123456789));
        condition = one.tokens;
        description = { text ("Observed audio peaks at"), number (dbOf, db), text ("dB") };
    }
    else if (kind == 1)
    {
        auto one = make<T> (10, Args { -33.3333, 0.00123456789 });
        check (PeaksBelow<T> ((T) -33.3333, 0.00123456789));
        condition = one.tokens;
        description = { text ("Observed audio peaks at at least"), number (dbOf, db), text ("dB") };
    }
    else
    {
        Audio<T> r = audio;
        r[0][7] = (T) reference;
        Play<T> p (r);
        p.followedBy (GainDb<T> (0));
        check (EqualsTo<T> (p, 0.001234));
        condition = { text ("EqualsTo (Play() >> GainDb ("), number (0, db), text ("_dB), "), number (0.001234, lin), text (")") };
        description = { text ("Expected sample value: "), number (reference, lin), text (" ("), number (20 * std::log10 (reference), db), text (" dB), difference: "), number (a - reference, lin), text ("("),
            number (20 * std::log10 (a - reference), db), text ("dB)") };
    }

    std::string report;
    ExpectationFailureMessages::clear();
    try { host.process(); }
    catch (const TestAssertException& e) { report = e.what(); }
    run.step();
    const auto& messages = ExpectationFailureMessages::get();
    MC_REQUIRE (run, messages.size() == (size_t) (assertion ? 0 : 1) + (lists == 1 ? 1 : 0), "reports", fmt ("%zu reports", messages.size()));

    if (lists == 1)
    {
        std::string inverted;
        for (auto& m : messages) if (m.find ("expectFalse") == 0) inverted = m;
        const size_t at = inverted.find ("PeaksBelow");
        MC_REQUIRE (run, at != std::string::npos, "condition", "the condition is missing: " + inverted);
        size_t where = at;
        const auto wrong = shows (inverted, make<T> (10, Args { 20.04, 0 }).tokens, cli, epsilon<T>(), &where);
        MC_REQUIRE (run, wrong.empty(), "decimals", wrong + " in " + inverted);
    }

    if (! assertion)
        for (auto& m : messages) if (m.find ("expectTrue") == 0) report = m;

    auto showsAfter = [&] (const std::string& label, const Tokens& tokens)
    {
        const size_t at = report.find (label);
        MC_REQUIRE (run, at != std::string::npos, "missing", "there is no " + label + " in " + report);
        size_t where = at;
        const auto wrong = shows (report, tokens, cli, 3e-6 * (sizeof (T) == 4) + 1e-12, &where);
        MC_REQUIRE (run, wrong.empty(), "decimals", wrong + fmt (" with %d/%d/%d decimals (linear, dB, s) in ", cli.lin, cli.db, cli.sec) + report);
    };

    showsAfter (kind == 0 ? "PeaksAt" : kind == 1 ? "PeaksBelow" : "EqualsTo", condition);
    showsAfter ("Timestamp:", { text ("Timestamp:"), number (7 / 44100.0, sec), text ("seconds") });
    showsAfter ("Sample value:", { text ("Sample value:"), number (a, lin), text ("("), number (dbOf, db), text ("dB)") });
    showsAfter (kind == 2 ? "Expected sample value" : "Observed audio", description);
    run.state (mc::Hash().add (report));
}

template <typename T>
static void body (Run& run)
{
    switch (run.choose (5, "mode"))
    {
        case 0: return single<T> (run);
        case 1: return everyDecimals<T> (run);
        case 2: return chains<T> (run);
        case 3: return sequences<T> (run);
        default: return reports<T> (run);
    }
}

int main (int argc, char** argv)
{
    mc::Options o;
    o.id = "C20";
    o.unitDepthQuick = 4;
    o.unitDepthThorough = 4;
    return mc::main (argc, argv, o, [] (Run& run) { if (run.choose (2, "type")) body<double> (run); else body<float> (run); });
}
