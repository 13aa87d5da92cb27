// C23: a test releases everything and leaves nothing behind, however it ends
//
// Fault enumeration: a scenario is run without a fault to count its fault points (callbacks into the user's objects, memory
// allocations), then once for every fault point, with the fault right there.
#include <cstddef>

namespace mem
{
void* allocate (std::size_t size);
void* reallocate (void* p, std::size_t size);
void release (void* p);
}

// The wav library
#define DRWAV_MALLOC(sz)      mem::allocate ((sz))
#define DRWAV_REALLOC(p, sz)  mem::reallocate ((p), (sz))
#define DRWAV_FREE(p)         mem::release ((p))

#include "stock.hpp"

#include <new>

using namespace stock;
using mc::Run;
using hart::Save;

namespace mem
{
static long live = 0, allocations = 0, failAt = 0;
static int quiet = 0;   // above zero: the check itself allocates
static bool failed = false;

struct Quiet { Quiet() { ++quiet; } ~Quiet() { --quiet; } };

static bool fails()
{
    if (quiet > 0) return false;
    if (++allocations != failAt) return false;
    failed = true;
    return true;
}

void* allocate (std::size_t size)
{
    if (fails()) return nullptr;
    void* p = malloc (size);
    if (p != nullptr) ++live;
    return p;
}

void* reallocate (void* old, std::size_t size)
{
    if (fails()) return nullptr;
    void* p = realloc (old, size);
    if (p != nullptr && old == nullptr) ++live;
    return p;
}

void release (void* p)
{
    if (p != nullptr) --live;
    free (p);
}
}

void* operator new (std::size_t size)
{
    void* p = mem::fails() ? nullptr : malloc (size > 0 ? size : 1);
    if (p == nullptr) throw std::bad_alloc();
    ++mem::live;
    return p;
}
void* operator new[] (std::size_t size) { return operator new (size); }
void* operator new (std::size_t size, const std::nothrow_t&) noexcept { try { return operator new (size); } catch (...) { return nullptr; } }
void* operator new[] (std::size_t size, const std::nothrow_t&) noexcept { try { return operator new (size); } catch (...) { return nullptr; } }
void operator delete (void* p) noexcept { if (p != nullptr) --mem::live; free (p); }
void operator delete[] (void* p) noexcept { operator delete (p); }
void operator delete (void* p, std::size_t) noexcept { operator delete (p); }
void operator delete[] (void* p, std::size_t) noexcept { operator delete (p); }
void operator delete (void* p, const std::nothrow_t&) noexcept { operator delete (p); }
void operator delete[] (void* p, const std::nothrow_t&) noexcept { operator delete (p); }

static int openFiles()
{
    int n = 0;
    for (int fd = 0; fd < 128; ++fd) n += fcntl (fd, F_GETFD) != -1;
    return n;
}

// -- Callbacks which throw

struct Foreign { int code; };

static const char* kindNames[] = { "a struct", "std::runtime_error", "hart::TestAssertException", "an int", "hart::ValueError", "std::bad_alloc" };
constexpr int numKinds = 6;

namespace points
{
static long calls = 0, throwAt = 0;
static int kind = 0;
static bool thrown = false;
static const char* where = "";
static std::set<const void*> alive;
static std::string broken;

static void point (const char* name)
{
    if (++calls != throwAt) return;
    mem::Quiet q;
    thrown = true;
    where = name;
    switch (kind)
    {
        case 0: throw Foreign { 42 };
        case 1: throw std::runtime_error ("from a callback");
        case 2: throw hart::TestAssertException ("from a callback");
        case 3: throw 42;
        case 4: throw hart::ValueError ("from a callback");
        default: throw std::bad_alloc();
    }
}

// Constructed and destroyed once each
struct Tracked
{
    Tracked() { enter(); }
    Tracked (const Tracked&) { enter(); }
    Tracked& operator= (const Tracked&) { return *this; }
    ~Tracked()
    {
        mem::Quiet q;
        if (alive.erase (this) == 0 && broken.empty()) broken = "an object is destroyed twice";
    }
    void enter()
    {
        mem::Quiet q;
        if (! alive.insert (this).second && broken.empty()) broken = "an object is constructed over another one";
    }
};
}

using points::point;
using points::Tracked;

// How something ended
static std::string ending (const std::function<void()>& f)
{
    try { f(); }
    catch (const Foreign& e) { mem::Quiet q; return "a struct: " + std::to_string (e.code); }
    catch (int e) { mem::Quiet q; return "an int: " + std::to_string (e); }
    catch (const std::bad_alloc&) { mem::Quiet q; return "std::bad_alloc"; }
    catch (const hart::TestAssertException& e) { mem::Quiet q; return std::string ("hart::TestAssertException: ") + e.what(); }
    catch (const hart::ValueError& e) { mem::Quiet q; return std::string ("hart::ValueError: ") + e.what(); }
    catch (const hart::IOError& e) { mem::Quiet q; return std::string ("hart::IOError: ") + e.what(); }
    catch (const std::runtime_error& e) { mem::Quiet q; return std::string (typeid (e) == typeid (std::runtime_error) ? "std::runtime_error: " : "hart error: ") + e.what(); }
    catch (const std::exception& e) { mem::Quiet q; return std::string ("std::exception: ") + e.what(); }
    catch (...) { mem::Quiet q; return "unknown"; }
    return "";
}

static std::string endingOf (int kind)
{
    switch (kind)
    {
        case 0: return "a struct: 42";
        case 1: return "std::runtime_error: from a callback";
        case 2: return "hart::TestAssertException: from a callback";
        case 3: return "an int: 42";
        case 4: return "hart::ValueError: from a callback";
        default: return "std::bad_alloc";
    }
}

template <typename T>
class SpySignal : public hart::Signal<T>
{
public:
    SpySignal() = default;
    SpySignal (const SpySignal& o): hart::Signal<T> (o), tracked (o.tracked), position (o.position) { point ("the copy constructor of the signal"); }
    SpySignal (SpySignal&& o): hart::Signal<T> (std::move (o)), tracked (o.tracked), position (o.position) {}
    bool supportsNumChannels (size_t) const override { point ("supportsNumChannels()"); return true; }
    bool supportsSampleRate (double) const override { point ("supportsSampleRate() of the signal"); return true; }
    void prepare (double, size_t, size_t) override { point ("prepare() of the signal"); }
    void renderNextBlock (hart::AudioBuffer<T>& b) override
    {
        point ("renderNextBlock() of the signal");
        for (size_t f = 0; f < b.getNumFrames(); ++f, ++position)
            for (size_t c = 0; c < b.getNumChannels(); ++c) b[c][f] = (T) tableValue (c, position);
    }
    void reset() override { point ("reset() of the signal"); position = 0; }
    void represent (std::ostream& s) const override { point ("represent() of the signal"); s << "SpySignal()"; }
    std::unique_ptr<hart::Signal<T>> copy() const override { return hart::make_unique<SpySignal> (*this); }
    std::unique_ptr<hart::Signal<T>> move() override { return hart::make_unique<SpySignal> (std::move (*this)); }
private:
    Tracked tracked;
    size_t position = 0;
};

class SpyEnvelope : public hart::Envelope
{
public:
    SpyEnvelope() = default;
    SpyEnvelope (const SpyEnvelope& o): tracked (o.tracked), position (o.position) { point ("the copy constructor of the envelope"); }
    using hart::Envelope::renderNextBlock;
    void renderNextBlock (size_t n, std::vector<double>& v) override { point ("renderNextBlock() of the envelope"); for (size_t i = 0; i < n; ++i) v[i] = (double) (position++ % 5) / 8; }
    void prepare (double, size_t) override { point ("prepare() of the envelope"); }
    void reset() override { point ("reset() of the envelope"); position = 0; }
    std::unique_ptr<hart::Envelope> copy() const override { return hart::make_unique<SpyEnvelope> (*this); }
private:
    Tracked tracked;
    size_t position = 0;
};

template <typename T>
class SpyDsp : public hart::DSP<T>
{
public:
    SpyDsp() = default;
    SpyDsp (const SpyDsp& o): hart::DSP<T> (o), tracked (o.tracked), value (o.value) { point ("the copy constructor of the effect"); }
    SpyDsp (SpyDsp&& o): hart::DSP<T> (std::move (o)), tracked (o.tracked), value (o.value) {}
    void prepare (double, size_t, size_t, size_t) override { point ("prepare() of the effect"); }
    void process (const hart::AudioBuffer<T>& in, hart::AudioBuffer<T>& out, const hart::EnvelopeBuffers& e) override
    {
        point ("process() of the effect");
        for (size_t c = 0; c < out.getNumChannels(); ++c)
            for (size_t f = 0; f < out.getNumFrames(); ++f)
                out[c][f] = in[std::min (c, in.getNumChannels() - 1)][f] * (T) (e.count (0) ? e.at (0)[f] : value);
    }
    void reset() override { point ("reset() of the effect"); value = 0.5; }
    void setValue (int, double v) override { point ("setValue()"); value = v; }
    double getValue (int) const override { return value; }
    bool supportsChannelLayout (size_t, size_t) const override { point ("supportsChannelLayout()"); return true; }
    bool supportsSampleRate (double) const override { point ("supportsSampleRate() of the effect"); return true; }
    bool supportsEnvelopeFor (int id) const override { point ("supportsEnvelopeFor()"); return id == 0; }
    void represent (std::ostream& s) const override { point ("represent() of the effect"); s << "SpyDsp()"; }
    std::unique_ptr<hart::DSP<T>> copy() const override { return hart::make_unique<SpyDsp> (*this); }
    std::unique_ptr<hart::DSP<T>> move() override { return hart::make_unique<SpyDsp> (std::move (*this)); }
private:
    Tracked tracked;
    double value = 0.5;
};

template <typename T>
class SpyMatcher : public hart::Matcher<T>
{
public:
    SpyMatcher (bool p, bool ok): perBlock (p), passes (ok) {}
    SpyMatcher (const SpyMatcher& o): tracked (o.tracked), perBlock (o.perBlock), passes (o.passes), frames (o.frames) { point ("the copy constructor of the matcher"); }
    SpyMatcher (SpyMatcher&& o): tracked (o.tracked), perBlock (o.perBlock), passes (o.passes), frames (o.frames) {}
    void prepare (double, size_t, size_t) override { point ("prepare() of the matcher"); }
    bool match (const hart::AudioBuffer<T>& b) override { point ("match()"); frames += b.getNumFrames(); return passes || frames <= 3; }
    bool canOperatePerBlock() override { point ("canOperatePerBlock()"); return perBlock; }
    void reset() override { point ("reset() of the matcher"); frames = 0; }
    hart::MatcherFailureDetails getFailureDetails() const override { point ("getFailureDetails()"); hart::MatcherFailureDetails d; d.frame = 0; d.channel = 0; d.description = "spy"; return d; }
    void represent (std::ostream& s) const override { point ("represent() of the matcher"); s << "SpyMatcher()"; }
    std::unique_ptr<hart::Matcher<T>> copy() const override { return hart::make_unique<SpyMatcher> (*this); }
    std::unique_ptr<hart::Matcher<T>> move() override { return hart::make_unique<SpyMatcher> (std::move (*this)); }
private:
    Tracked tracked;
    bool perBlock, passes;
    size_t frames = 0;
};

// Keeps the output without allocations of its own which could fail
template <typename T>
class Keep : public hart::Matcher<T>
{
public:
    explicit Keep (Audio<T>* a): audio (a) {}
    void prepare (double, size_t, size_t) override {}
    bool match (const hart::AudioBuffer<T>& b) override { mem::Quiet q; *audio = toAudio (b); return true; }
    bool canOperatePerBlock() override { return false; }
    void reset() override {}
    hart::MatcherFailureDetails getFailureDetails() const override { return {}; }
    void represent (std::ostream& stream) const override { stream << "Keep()"; }
    std::unique_ptr<hart::Matcher<T>> copy() const override { return std::unique_ptr<hart::Matcher<T>> (new Keep (*this)); }
    std::unique_ptr<hart::Matcher<T>> move() override { return copy(); }
private:
    Audio<T>* audio;
};

// -- Tests

struct Plan
{
    int signal = -1, effect = -1, ownership = 0, outcome = 0, saves = 0, chain = 1;
    bool retry = false;

    std::string str() const
    {
        static const char* outcomes[] = { "all checks pass", "a failed expectation per block", "a failed expectation on the whole", "a failed assertion per block", "a failed assertion on the whole", "a refused setting", "no input signal", "nothing to process", "an unsupported layout" };
        static const char* files[] = { "no files", "a wav file", "a plot", "both files when it fails", "a wav file in a missing directory", "a plot in a missing directory", "a wav file on a full device", "a plot on a full device" };
        return fmt ("%s >> %d effects, %s, ownership %d, %s, %s", signal < 0 ? "user's signal" : signalName (signal), chain, effect < 0 ? "user's effect" : effectName (effect), ownership, outcomes[outcome], files[saves]);
    }
};
constexpr int numOutcomes = 9, numSaves = 8;

template <typename T>
struct Result
{
    Audio<T> audio;
    std::string end;
    std::vector<std::string> messages;
    std::string wav, plot;
    bool handedBack = false;

    std::string differs (const Result& want) const
    {
        if (end != want.end) return "ended with \"" + end + "\" instead of \"" + want.end + "\"";
        if (messages != want.messages) return fmt ("%zu failed expectations, or other ones, instead of %zu", messages.size(), want.messages.size());
        const auto d = difference (audio, want.audio);
        if (! d.empty()) return "the output: " + d;
        if (wav != want.wav) return "another wav file";
        if (plot != want.plot) return "another plot";
        return handedBack == want.handedBack ? "" : "the effect is not handed back";
    }
};

static void fullDevice (const std::string& path) { unlink (path.c_str()); if (symlink ("/dev/full", path.c_str())) {} }

template <typename T>
static hart::AudioTestBuilder<T>* makeHost (const Plan& p, size_t frames, double rate)
{
    if (p.effect >= 0)
    {
        auto dsp = makeEffect<T> (p.effect, rate, frames);
        if (p.ownership == 2) return new hart::AudioTestBuilder<T> (std::move (dsp));
        return new hart::AudioTestBuilder<T> (dsp->copy());
    }

    SpyDsp<T> dsp;
    dsp.withEnvelope (0, SpyEnvelope());
    switch (p.ownership)
    {
        case 0: return new hart::AudioTestBuilder<T> (dsp);
        case 1: return new hart::AudioTestBuilder<T> (std::move (dsp));
        default:
        {
            auto owned = hart::make_unique<SpyDsp<T>> (std::move (dsp));
            return new hart::AudioTestBuilder<T> (std::move (owned));
        }
    }
}

static void disarm() { points::throwAt = 0; mem::failAt = 0; }
static bool fired() { return points::thrown || mem::failed; }

// One test from its objects to its end
template <typename T>
static void scenario (const Plan& p, Result<T>& r, Result<T>* second)
{
    constexpr size_t frames = 10;
    constexpr double rate = 8000;
    std::unique_ptr<hart::Signal<T>> signal;
    if (p.signal >= 0) signal = makeSignal<T> (p.signal, rate, frames, 2);
    else signal = hart::make_unique<SpySignal<T>>();

    for (int i = 0; i < p.chain; ++i)
    {
        if (p.signal >= 0 && i % 2 == 0) signal->followedBy (makeEffect<T> (5 + (i + p.signal) % 8, rate, frames));
        else
        {
            SpyDsp<T> effect;
            SpyEnvelope envelope;
            if (i == 0) effect.withEnvelope (0, envelope);
            if (i % 2) signal->followedBy (effect); else signal->followedBy (std::move (effect));
        }
    }

    std::unique_ptr<hart::AudioTestBuilder<T>> host (makeHost<T> (p, frames, rate));
    host->withSampleRate (rate).withBlockSize (4).inStereo().withDuration (p.outcome == 7 ? 0 : frames / rate).withValue (0, 0.25).withLabel ("a label of a test which is long enough to be allocated");
    if (p.outcome == 8) host->withInputChannels (3);
    if (p.outcome != 6) host->withInputSignal (*signal);
    Result<T>* current = &r;
    host->expectTrue (Keep<T> (&r.audio));
    if (p.signal < 0 || p.chain == 0) { SpyMatcher<T> m (true, true); host->expectTrue (m).assertFalse (SpyMatcher<T> (false, false)); }
    else { hart::EqualsTo<T> equals (*signal, 1000); host->expectTrue (equals).assertTrue (hart::EqualsTo<T> (*signal, 1000)).expectFalse (hart::PeaksBelow<T> (-100)); }
    if (p.outcome == 1) { host->expectTrue (SpyMatcher<T> (true, false)).expectTrue (hart::PeaksBelow<T> (-90)); }
    if (p.outcome == 2) { host->expectTrue (SpyMatcher<T> (false, false)).expectFalse (hart::PeaksBelow<T> (90)).expectTrue (hart::PeaksAt<T> (90)); }
    if (p.outcome == 3) { host->assertTrue (SpyMatcher<T> (true, false)); }
    if (p.outcome == 4) { host->expectFalse (hart::PeaksBelow<T> (90)).assertFalse (SpyMatcher<T> (false, true)); }
    if (p.outcome == 5) host->withBlockSize (0);

    const std::string wav = p.saves == 4 ? workDir() + "/missing/out.wav" : workDir() + "/out.wav", plot = p.saves == 5 ? workDir() + "/missing/out.svg" : workDir() + "/out.svg";
    if (p.saves == 1 || p.saves == 3 || p.saves == 4 || p.saves == 6) host->saveOutputTo (wav, p.saves == 3 ? Save::whenFails : Save::always, hart::WavFormat::pcm16);
    if (p.saves == 2 || p.saves == 3 || p.saves == 5 || p.saves == 7) host->savePlotTo (plot, p.saves == 3 ? Save::whenFails : Save::always);

    auto attempt = [&]
    {
        { mem::Quiet q; unlink ((workDir() + "/out.wav").c_str()); unlink ((workDir() + "/out.svg").c_str()); if (p.saves == 6) fullDevice (workDir() + "/out.wav"); if (p.saves == 7) fullDevice (workDir() + "/out.svg"); }
        auto dsp = host->process();
        current->handedBack = dsp != nullptr;
        if (! dsp) return;
        mem::Quiet q;
        if (p.saves < 4) { current->wav = readFile (workDir() + "/out.wav"); current->plot = readFile (workDir() + "/out.svg"); }
    };

    if (second == nullptr) { attempt(); return; }

    // Once more with the same host, after the fault is gone
    try { attempt(); }
    catch (...)
    {
        if (! fired()) throw;
        disarm();
        hart::ExpectationFailureMessages::clear();
        mem::Quiet q;
        r.audio.clear();
        current = second;
        second->end = ending ([&] { mem::Quiet* no = nullptr; (void) no; attempt(); });
        second->messages = hart::ExpectationFailureMessages::get();
        second->audio = r.audio;
        throw;
    }
}

// What an unrelated test gives
template <typename T>
static uint64_t probe()
{
    using namespace hart;
    mem::Quiet q;
    Audio<T> audio;
    ExpectationFailureMessages::clear();
    std::string text;
    {
        auto signal = SineWave<T> (1000, 1);
        signal.followedBy (GainDb<T> (-3));
        auto host = processAudioWith (GainLinear<T>().withEnvelope (GainLinear<T>::gainLinear, SegmentedEnvelope (0).rampTo (1, 0.001)));
        host.withSampleRate (8000).withBlockSize (5).withDuration (0.002).withInputSignal (signal).expectTrue (Keep<T> (&audio)).expectTrue (PeaksBelow<T> (-40)).expectTrue (EqualsTo<T> (signal));
        text = ending ([&] { host.process(); });
    }
    mc::Hash h;
    h.add (text).add ((uint64_t) ExpectationFailureMessages::get().size());
    for (auto& m : ExpectationFailureMessages::get()) h.add (m);
    for (auto& c : audio) h.add (c);
    ExpectationFailureMessages::clear();
    return h.h;
}

struct Balance
{
    long live;
    int files;
    Balance() { mem::Quiet q; std::vector<std::string>().swap (hart::ExpectationFailureMessages::get()); live = mem::live; files = openFiles(); }

    std::string differs()
    {
        mem::Quiet q;
        std::vector<std::string>().swap (hart::ExpectationFailureMessages::get());
        if (mem::live != live) return fmt ("%ld allocations more than before are not released", mem::live - live);
        if (openFiles() != files) return fmt ("%d files more than before are open", openFiles() - files);
        if (! points::broken.empty()) return points::broken;
        if (! points::alive.empty()) return fmt ("%zu of the user's objects are not destroyed", points::alive.size());
        return {};
    }
};

struct Fault { long call = 0, allocation = 0; int kind = 0; };

static std::string faultText (const Fault& f)
{
    if (f.call) return fmt ("%s thrown by callback %ld (%s)", kindNames[f.kind], f.call, points::where);
    return f.allocation ? fmt ("allocation %ld fails", f.allocation) : std::string ("no fault");
}

template <typename F>
static void withFault (const Fault& f, F&& work)
{
    { mem::Quiet q; points::where = ""; points::broken.clear(); }
    points::calls = 0; points::throwAt = f.call; points::kind = f.kind; points::thrown = false;
    mem::allocations = 0; mem::failAt = f.allocation; mem::failed = false;
    work();
    disarm();
}

// The text of what a test does has places and numbers in it which do not change
template <typename T>
static bool attempt (Run& run, const Plan& p, const Fault& f, const Result<T>& want, uint64_t wantProbe, bool learn, Result<T>* learned)
{
    std::string wrong, retried, end;
    end.reserve (4096);   // not to be taken for a leak
    bool hit = false;
    {
        Balance balance;
        {
            Result<T> r, second;
            withFault (f, [&]
            {
                std::function<void()> work;
                { mem::Quiet q; work = [&] { scenario<T> (p, r, p.retry ? &second : nullptr); }; }
                r.end = ending (work);
            });
            hit = fired();
            mem::Quiet q;
            r.messages = hart::ExpectationFailureMessages::get();
            end = r.end;
            if (learn) *learned = r;
            else if (! hit) wrong = r.differs (want);
            else if (f.call)
            {
                if (r.end != endingOf (f.kind)) wrong = "ended with \"" + r.end + "\"";
            }
            else if (r.end.empty())
            {
                // Formatted text may lack a part without an error
                if (r.messages.size() != want.messages.size()) wrong = fmt ("no error, and %zu failed expectations instead of %zu", r.messages.size(), want.messages.size());
                else if (! difference (r.audio, want.audio).empty()) wrong = "no error, and another output";
                else if (! want.end.empty()) wrong = "no error";
            }
            if (hit && p.retry && ! second.end.empty() + second.handedBack > 0) retried = second.differs (want);
        }
        if (learn) { mem::Quiet q; return hit; }
        if (wrong.empty()) wrong = balance.differs();
    }
    run.step();
    const std::string what = p.str() + ", " + faultText (f) + ": ";
    MC_REQUIRE (run, wrong.empty(), f.call ? "callback" : f.allocation ? "allocation" : "no fault", what + wrong);
    MC_REQUIRE (run, retried.empty(), "again", what + "processing again: " + retried);
    MC_REQUIRE (run, probe<T>() == wantProbe, "next", what + "the next test gives other results");
    run.state (mc::Hash().add (p.str()).add (f.call ? points::where : std::string()).add (f.kind).add (end));
    return hit;
}

template <typename T>
static void explore (Run& run, const Plan& p, bool callbacks)
{
    Cli().apply();
    Result<T> want, again;
    probe<T>();
    const uint64_t wantProbe = probe<T>();
    Plan plain = p;
    plain.retry = false;
    attempt<T> (run, plain, Fault(), want, wantProbe, true, &want);   // also what gets allocated once
    attempt<T> (run, plain, Fault(), want, wantProbe, false, nullptr);
    const bool refused = p.outcome >= 3 && p.outcome <= 8;
    const bool badFile = p.saves >= 4;
    MC_REQUIRE (run, want.end.empty() != (refused || badFile), "outcome", p.str() + ": ended with \"" + want.end + "\"");

    if (callbacks)
    {
        for (Fault f; f.kind < numKinds; ++f.kind)
            for (f.call = 1; attempt<T> (run, p, f, want, wantProbe, false, nullptr); ++f.call) {}
    }
    else
    {
        Fault f;
        for (f.allocation = 1; attempt<T> (run, p, f, want, wantProbe, false, nullptr); ++f.allocation) {}
    }
}

template <typename T>
static void tests (Run& run)
{
    Plan p;
    const bool callbacks = run.flag ("callbacks");
    if (callbacks)
    {
        p.chain = run.choose (3, "chain");
        p.ownership = run.choose (3, "ownership");
        p.outcome = run.choose (5, "outcome");
        p.saves = run.choose (run.thorough ? numSaves : 4, "saves");
        p.retry = run.flag ("again");
        return explore<T> (run, p, true);
    }

    p.signal = run.choose (numSignals + 1, "signal") - 1;
    p.effect = run.choose (numEffects + 1, "effect") - 1;
    if (p.signal > 0 && p.effect > 0 && ! run.thorough) return;
    p.outcome = run.choose (numOutcomes, "outcome");
    p.saves = run.choose (numSaves, "saves");
    p.chain = (p.signal + 1) % 3;
    if (p.outcome == 8 && (p.effect < 0 || makeEffect<T> (p.effect, 8000, 10)->supportsChannelLayout (3, 2))) return;
    // The plotting library, which is not part of HART, loses memory when it gets none
    if (p.saves == 2 || p.saves == 3 || p.saves == 5 || p.saves == 7) return;
    if (p.saves != 0 && p.signal > 1 && p.effect > 1) return;
    p.retry = run.flag ("again");
    p.ownership = p.effect < 0 ? run.choose (3, "ownership") : run.pick ({ 0, 2 }, "ownership");
    explore<T> (run, p, false);
}

// -- Single operations

template <typename T>
static std::vector<T> rendered (hart::Signal<T>& s)
{
    mem::Quiet q;
    s.resetWithDSPChain();
    s.prepareWithDSPChain (8000, 2, 4);
    std::vector<T> v;
    for (size_t n : { 4, 3, 4 })
    {
        hart::AudioBuffer<T> b (2, n);
        s.renderNextBlockWithDSPChain (b);
        for (size_t c = 0; c < 2; ++c) v.insert (v.end(), b[c], b[c] + n);
    }
    return v;
}

template <typename T>
static std::vector<T> content (const hart::AudioBuffer<T>& b)
{
    mem::Quiet q;
    std::vector<T> v { (T) b.getNumChannels(), (T) b.getNumFrames() };
    for (size_t c = 0; c < b.getNumChannels(); ++c) for (size_t f = 0; f < b.getNumFrames(); ++f) v.push_back (b[c][f]);
    return v;
}

constexpr int numOperations = 30;

// Two of everything, an operation on them, and what they are afterwards
template <typename T>
struct World
{
    using Sweep = hart::SineSweep<T>;
    hart::SineWave<T> sine { 1000, 0.5 }, otherSine { 700 }, bare { 300 };
    hart::GainLinear<T> bareGain { 0.5 };
    std::unique_ptr<hart::Signal<T>> wav = makeSignal<T> (13, 8000, 20, 2), made;
    hart::GainDb<T> gain { -3 }, otherGain { -6 };
    std::unique_ptr<hart::DSP<T>> madeEffect;
    hart::SegmentedEnvelope envelope { 0 };
    hart::AudioBuffer<T> a { 2, 3 }, b { 2, 5 };
    std::unique_ptr<hart::AudioBuffer<T>> madeBuffer;
    std::unique_ptr<hart::Matcher<T>> matcher;
    std::string text;

    World()
    {
        for (int i = 0; i < 2; ++i)
        {
            sine.followedBy (makeEffect<T> (5 + i, 8000, 11));
            otherSine.followedBy (makeEffect<T> (9 + i, 8000, 11));
            wav->followedBy (makeEffect<T> (6, 8000, 11));
        }
        envelope.rampTo (-3, 0.0005).hold (0.0003);
        gain.withEnvelope (0, hart::SegmentedEnvelope (1).rampTo (-6, 0.001));
        otherGain.withEnvelope (0, hart::SegmentedEnvelope (-30).hold (0.0005).rampTo (3, 0.001));
        fill (a, table<T> (2, 3));
        fill (b, table<T> (2, 8), 2);
    }

    void operate (int op)
    {
        switch (op)
        {
            case 0: made = hart::make_unique<hart::SineWave<T>> (sine); break;
            case 1: made = wav->copy(); break;
            case 2: static_cast<hart::Signal<T>&> (sine) = otherSine; break;
            case 3: { auto copy = otherSine; static_cast<hart::Signal<T>&> (sine) = std::move (copy); break; }
            case 4: sine.followedBy (otherGain); break;
            case 5: sine.followedBy (hart::GainLinear<T> (0.5)); break;
            case 6: sine.followedBy (otherGain.copy()); break;
            case 7: sine >> otherGain; break;
            case 8: static_cast<hart::DSP<T>&> (gain) = otherGain; break;
            case 9: gain.withEnvelope (0, envelope); break;
            case 10: gain.withEnvelope (0, hart::SegmentedEnvelope (0).rampTo (2, 0.001).hold (0.0001)); break;
            case 11: madeEffect = gain.copy(); break;
            case 12: { auto copy = gain; madeEffect = copy.move(); break; }
            case 13: { auto copy = envelope; copy.rampTo (4, 0.0002).hold (1); otherGain.withEnvelope (0, copy); break; }
            case 14: madeBuffer = hart::make_unique<hart::AudioBuffer<T>> (a); break;
            case 15: a = b; break;
            case 16: { hart::AudioBuffer<T> copy = b; a = std::move (copy); break; }
            case 17: a.appendFrom (b); break;
            case 18: a.appendFrom (a); break;
            case 19: { hart::AudioBuffer<T> copy = a; madeBuffer = hart::make_unique<hart::AudioBuffer<T>> (std::move (copy)); break; }
            case 20: madeBuffer = hart::make_unique<hart::AudioBuffer<T>> (hart::AudioBuffer<T>::emptyLike (a)); break;
            case 21: matcher = hart::EqualsTo<T> (sine, 0.5).copy(); break;
            case 22: { hart::EqualsTo<T> equals (*wav, 0.5); matcher = equals.move(); break; }
            case 23: made = Sweep (1, 100, 200).withType (Sweep::SweepType::linear).withLoop (Sweep::Loop::yes).copy(); break;
            case 24: made = std::unique_ptr<hart::Signal<T>> (new hart::WavFile<T> (wavFixture (2, 20, 8000))); break;
            case 25: made = std::unique_ptr<hart::Signal<T>> (new hart::WavFile<T> (workDir() + "/not-there.wav")); break;
            case 26: bareGain.withEnvelope (0, envelope); break;
            case 27: bareGain.withEnvelope (0, hart::SegmentedEnvelope (1).rampTo (2, 0.001)); break;
            case 28: bare.followedBy (static_cast<const hart::DSP<T>&> (otherGain)); break;
            default: static_cast<hart::Signal<T>&> (bare) = otherSine; break;
        }
    }

    uint64_t digest()
    {
        mem::Quiet q;
        mc::Hash h;
        h.add (rendered<T> (sine)).add (rendered<T> (otherSine)).add (rendered<T> (*wav)).add (rendered<T> (bare));
        if (made) h.add (rendered<T> (*made));
        for (hart::DSP<T>* dsp : { (hart::DSP<T>*) &gain, (hart::DSP<T>*) &otherGain, (hart::DSP<T>*) &bareGain, madeEffect.get() })
            if (dsp != nullptr)
            {
                hart::SineWave<T> s (900);
                s.followedBy (static_cast<const hart::DSP<T>&> (*dsp));
                h.add (rendered<T> (s));
            }
        h.add (content (a)).add (content (b));
        if (madeBuffer) h.add (content (*madeBuffer));
        std::ostringstream out;
        out << sine << otherSine << *wav << gain << otherGain << bare << bareGain;
        if (made) out << *made;
        if (matcher) { out << *matcher; matcher->prepare (8000, 2, 100); h.add (matcher->match (a)); }
        return h.add (out.str()).h;
    }
};

template <typename T>
static void operations (Run& run)
{
    const int op = run.choose (numOperations, "operation");
    const int next = run.choose (numOperations, "next");   // also fault free, to follow on what the fault left
    Cli().apply();
    const bool fails = op == 25, nextFails = next == 25;
    uint64_t want;
    { World<T> w; if (! fails) w.operate (op); if (! nextFails) w.operate (next); want = w.digest(); }
    { World<T> w; try { w.operate (25); } catch (...) {} }

    for (long k = 0;; ++k)
    {
        Balance balance;
        std::string wrong;
        bool hit;
        {
            std::unique_ptr<World<T>> w;
            { mem::Quiet q; w.reset (new World<T>); }
            std::string end;
            Fault f;
            f.allocation = k;
            withFault (f, [&]
            {
                std::function<void()> work;
                { mem::Quiet q; work = [&] { w->operate (op); }; }
                end = ending (work);
            });
            hit = fired();
            mem::Quiet q;
            if (! hit && end.empty() == fails) wrong = "ended with \"" + end + "\"";
            if (hit && end.empty()) wrong = "no error";
            if (wrong.empty())
            {
                w->digest();   // all can be used
                if (hit && ! fails) w->operate (op);
                const auto nextEnd = ending ([&] { w->operate (next); });
                if (nextEnd.empty() == nextFails) wrong = "the operation after it ended with \"" + nextEnd + "\"";
                else if (w->digest() != want) wrong = "after it was repeated successfully the objects are others than without the fault";
            }
        }
        if (wrong.empty()) wrong = balance.differs();
        run.step();
        MC_REQUIRE (run, wrong.empty(), "operation", fmt ("operation %d, then %d, allocation %ld fails: ", op, next, k) + wrong);
        run.state (mc::Hash().add (op).add (next).add ((uint64_t) k));
        if (k > 0 && ! hit) break;
    }
}

// -- Wav files, also damaged ones

template <typename T>
static void reading (Run& run)
{
    const int kind = run.choose (8, "kind");
    const unsigned bits = (unsigned) run.pick ({ 8, 16, 24, 32 }, "bits");
    const unsigned channels = (unsigned) run.pick ({ 1, 2, 5 }, "channels");
    const size_t frames = run.pick ({ (size_t) 0, (size_t) 1, (size_t) 50, (size_t) 3000 }, "frames");
    Cli().apply();
    const std::string path = workDir() + "/read.wav";
    rmdir (path.c_str());
    std::string data = makeWav (1, channels, 8000, bits, std::string (frames * channels * bits / 8, 'x'));
    bool missing = false;
    std::vector<size_t> lengths { data.size() };
    if (kind == 1) { lengths.clear(); for (size_t k = 0; k <= 60 && k <= data.size(); ++k) lengths.push_back (k); for (size_t k = 60; k < data.size() && k < 300; k += 7) lengths.push_back (k); }
    if (kind == 2) data[20] = 17;                       // ADPCM
    if (kind == 3) data[0] = 'X';
    if (kind == 4) data[22] = data[23] = 0;             // no channels
    if (kind == 5) data += "junk after the data";
    if (kind == 6) missing = true;
    if (kind == 7) data[12] = 'x';

    for (size_t length : lengths)
    {
        unlink (path.c_str());
        if (! missing) writeFile (path, data.substr (0, length));
        std::string plainEnd;
        for (int once = 0; once < 2; ++once)
        {
            const std::string e = ending ([&] { hart::WavFile<T> file (path); });
            MC_REQUIRE (run, once == 0 || e == plainEnd, "read", "another result the second time");
            plainEnd = e;
        }
        for (long k = 0;; ++k)
        {
            Balance balance;
            std::string wrong;
            bool hit;
            {
                std::unique_ptr<hart::WavFile<T>> file;
                std::string end;
                Fault f;
                f.allocation = k;
                withFault (f, [&]
                {
                    std::function<void()> work;
                    { mem::Quiet q; work = [&] { file = hart::make_unique<hart::WavFile<T>> (path); }; }
                    end = ending (work);
                });
                hit = fired();
                mem::Quiet q;
                if (! hit && end != plainEnd) wrong = "ended with \"" + end + "\" instead of \"" + plainEnd + "\"";
                if (hit && end.empty()) wrong = "no error";
                if (file && end.empty())
                {
                    file->reset();
                    file->prepareWithDSPChain (8000, channels, 64);
                    hart::AudioBuffer<T> b (channels, 64);
                    file->renderNextBlock (b);
                }
            }
            if (wrong.empty()) wrong = balance.differs();
            run.step();
            MC_REQUIRE (run, wrong.empty(), "read", fmt ("wav file of kind %d, %u bits, %u channels, %zu frames, cut at %zu bytes, allocation %ld fails: ", kind, bits, channels, frames, length, k) + wrong);
            run.state (mc::Hash().add (kind).add ((uint64_t) bits).add ((uint64_t) channels).add ((uint64_t) frames).add ((uint64_t) length).add ((uint64_t) k));
            if (k > 0 && ! hit) break;
        }
    }
    unlink (path.c_str());
}

// All the formats, written
template <typename T>
static void writing (Run& run)
{
    static const hart::WavFormat formats[] = { hart::WavFormat::pcm16, hart::WavFormat::pcm24, hart::WavFormat::pcm32, hart::WavFormat::float32 };
    const auto format = formats[run.choose (4, "format")];
    const size_t channels = run.pick ({ (size_t) 1, (size_t) 2, (size_t) 5, (size_t) 128 }, "channels");
    const size_t frames = run.pick ({ (size_t) 1, (size_t) 50, (size_t) 3000 }, "frames");
    const int target = run.choose (3, "target");
    Cli().apply();
    std::string path = workDir() + (target == 1 ? "/missing/write.wav" : "/write.wav");
    if (target == 2) fullDevice (path);
    hart::AudioBuffer<T> buffer (channels, frames);
    fill (buffer, table<T> (channels, frames));
    std::string complete;
    for (long k = -1;; ++k)
    {
        Balance balance;
        std::string wrong, end;
        bool hit;
        {
            Fault f;
            f.allocation = std::max (0l, k);
            withFault (f, [&]
            {
                std::function<void()> work;
                { mem::Quiet q; work = [&] { hart::WavWriter<T>::writeBuffer (buffer, path, 8000, format); }; }
                end = ending (work);
            });
            hit = fired();
        }
        mem::Quiet q;
        if (! hit && end.empty() != (target == 0)) wrong = "ended with \"" + end + "\"";
        { std::string ().swap (end); }
        if (k >= 0 && wrong.empty()) wrong = balance.differs();
        if (target == 0 && ! hit)
        {
            const auto got = readFile (path);
            if (k < 0) complete = got;
            else if (got != complete) wrong = "another file";
        }
        run.step();
        MC_REQUIRE (run, wrong.empty(), "write", fmt ("wav format %d, %zu channels, %zu frames, target %d, allocation %ld fails: ", (int) format, channels, frames, target, k) + wrong);
        run.state (mc::Hash().add ((int) format).add ((uint64_t) channels).add ((uint64_t) frames).add (target).add ((uint64_t) (k + 1)));
        if (k > 0 && ! hit) break;
    }
    unlink (path.c_str());
}

int main (int argc, char** argv)
{
    mc::Options o;
    o.id = "C23";
    o.unitDepthQuick = 4;
    o.unitDepthThorough = 5;
    o.hangSeconds = 120;
    return mc::main (argc, argv, o, [] (Run& run)
    {
        switch (run.choose (8, "mode"))
        {
            case 0: return tests<float> (run);
            case 1: return tests<double> (run);
            case 2: return operations<float> (run);
            case 3: return operations<double> (run);
            case 4: return reading<float> (run);
            case 5: return reading<double> (run);
            case 6: return writing<float> (run);
            default: return writing<double> (run);
        }
    });
}
