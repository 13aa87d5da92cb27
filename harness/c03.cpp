// C03: the protocol between the host and effects, signals, matchers and envelopes
#include "ref.hpp"

using namespace ref;
using mc::Run;

static Run* current = nullptr;

static void broken (const char* key, const std::string& message) { current->defer (key, message); }

// What the test is configured to
struct Config
{
    double sampleRate = 0;
    size_t frames = 0, block = 0, inputChannels = 0, outputChannels = 0;
    std::vector<std::pair<int, double>> values;
    double initial = -1;    // Of the parameters
    bool refuse = false;    // Something of the test does not support it: no audio at all
    size_t blocks() const { return (frames + block - 1) / block; }
    size_t blockLength (size_t k) const { return std::min (block, frames - k * block); }
};

static Config config;
static bool running = false;   // Inside process()

// What happened to one object
struct Life
{
    std::string name;
    bool original = false;     // The test has its own copy, so nothing may happen to this one
    bool supportsLayout = true, supportsRate = true, forbidden = false;
    bool askedLayout = false, askedRate = false, prepared = false, resetDone = false;
    size_t blocks = 0, frames = 0;
    long totalFrames = 0;

    void touched (const char* call) const { if (original) broken ("original", name + fmt (": %s() was called on the object which was given by copy", call)); }

    void startTest() { askedLayout = askedRate = prepared = resetDone = false; blocks = frames = 0; }

    void onPrepare (double sampleRate, bool exact, bool checkAsked)
    {
        touched ("prepare");
        if (checkAsked && ! (askedLayout && askedRate)) broken ("not-asked", name + " was prepared and has not been asked what it supports before");
        if (! supportsLayout || ! supportsRate) broken ("unsupported-prepared", name + " was prepared with settings it does not support");
        if (! exact || sampleRate != config.sampleRate) broken ("prepare-arguments", name + " was prepared with other settings than configured");
        prepared = true;
    }

    void onReset() { touched ("reset"); resetDone = true; }

    // One block of audio, counted by the object itself
    void onAudio (size_t length, bool wholePiece = false)
    {
        touched ("audio");
        if (config.refuse) broken ("refused-ran", name + " got audio although the test should have been refused");
        if (! prepared) broken ("not-prepared", name + " got audio before it was prepared");
        if (! resetDone) broken ("not-reset", name + " got audio before it was reset");
        const size_t want = wholePiece ? (blocks == 0 ? config.frames : 0) : blocks < config.blocks() ? config.blockLength (blocks) : 0;
        if (length != want) broken ("block-length", name + fmt (": block %zu has %zu frames instead of %zu", blocks, length, want));
        ++blocks;
        frames += length;
    }

    void finished()
    {
        if (frames != config.frames) broken ("duration", name + fmt (" got %zu frames instead of %zu", frames, config.frames));
    }
};

static std::vector<std::shared_ptr<Life>> lives;

static std::shared_ptr<Life> newLife (const Life& like)
{
    auto life = std::make_shared<Life> (like);
    life->original = false;
    life->startTest();
    lives.push_back (life);
    return life;
}

template <typename T> T signalSample (size_t c, size_t f, int salt) { return (T) tableValue (c + 7 * (size_t) salt, f); }

template <typename T>
class SpySignal : public hart::Signal<T>
{
public:
    SpySignal (const std::string& name, size_t* channels, int signalSalt): life (newLife (Life())), channelsToHave (channels), salt (signalSalt) { life->name = name; }
    SpySignal (const SpySignal& o): hart::Signal<T> (o), life (newLife (*o.life)), channelsToHave (o.channelsToHave), salt (o.salt), position (o.position) {}
    SpySignal (SpySignal&& o): hart::Signal<T> (std::move (o)), life (newLife (*o.life)), channelsToHave (o.channelsToHave), salt (o.salt), position (o.position) { o.life->original = true; }

    bool supportsNumChannels (size_t n) const override { if (n == *channelsToHave) life->askedLayout = true; return life->supportsLayout; }
    bool supportsSampleRate (double r) const override { if (r == config.sampleRate) life->askedRate = true; return life->supportsRate; }

    void prepare (double sampleRate, size_t channels, size_t block) override
    {
        life->onPrepare (sampleRate, channels == *channelsToHave && (block == config.block || (matcherFull && block == config.frames)), true);
    }

    void renderNextBlock (hart::AudioBuffer<T>& output) override
    {
        life->onAudio (output.getNumFrames(), matcherFull && output.getNumFrames() == config.frames);
        if (output.getNumChannels() != *channelsToHave) broken ("channels", life->name + " got another number of channels");
        for (size_t f = 0; f < output.getNumFrames(); ++f, ++position)
            for (size_t c = 0; c < output.getNumChannels(); ++c) output[c][f] = signalSample<T> (c, position, salt);
    }

    void reset() override { life->onReset(); position = 0; }
    void represent (std::ostream& stream) const override { stream << "SpySignal()"; }
    std::unique_ptr<hart::Signal<T>> copy() const override { auto p = std::unique_ptr<SpySignal> (new SpySignal (*this)); p->matcherFull = matcherFull; return p; }
    std::unique_ptr<hart::Signal<T>> move() override { return std::unique_ptr<hart::Signal<T>> (new SpySignal (std::move (*this))); }

    std::shared_ptr<Life> life;
    const size_t* channelsToHave;
    int salt;
    size_t position = 0;
    bool matcherFull = false;   // Reference signal of a matcher which may get the whole piece
};

static std::vector<std::weak_ptr<Life>> envelopeLives;

class SpyEnvelope : public hart::Envelope
{
public:
    explicit SpyEnvelope (double envelopeBase): life (newLife (Life())), base (envelopeBase) { life->name = fmt ("envelope %g", base); }
    SpyEnvelope (const SpyEnvelope& o): life (newLife (*o.life)), base (o.base), position (o.position) {}

    void prepare (double sampleRate, size_t block) override { life->onPrepare (sampleRate, block == config.block, false); }
    void reset() override { life->onReset(); position = 0; }
    std::unique_ptr<hart::Envelope> copy() const override { return std::unique_ptr<hart::Envelope> (new SpyEnvelope (*this)); }

    void renderNextBlock (size_t n, std::vector<double>& values) override
    {
        life->onAudio (n);
        if (values.size() < n) { broken ("envelope-buffer", "an envelope got a buffer which is too small"); return; }
        for (size_t i = 0; i < n; ++i) values[i] = base + (double) position++;
    }

    std::shared_ptr<Life> life;
    double base;
    size_t position = 0;
};

// Parameters 0 and 1; setting 2 sets both of them; 0 and 1 can be automated
template <typename T>
class SpyDsp : public hart::DSP<T>
{
public:
    SpyDsp (const std::string& name, bool testedEffect, int effectIndex): life (newLife (Life())), tested (testedEffect), index (effectIndex) { life->name = name; }
    SpyDsp (const SpyDsp& o): hart::DSP<T> (o), life (newLife (*o.life)), tested (o.tested), index (o.index), envelopes (o.envelopes), clears (o.clears), counter (o.counter) {}
    SpyDsp (SpyDsp&& o): hart::DSP<T> (std::move (o)), life (newLife (*o.life)), tested (o.tested), index (o.index), envelopes (o.envelopes), clears (o.clears), counter (o.counter) { o.life->original = true; }

    size_t inputs() const { return config.inputChannels; }
    size_t outputs() const { return tested ? config.outputChannels : config.inputChannels; }

    void prepare (double sampleRate, size_t in, size_t out, size_t block) override
    {
        life->onPrepare (sampleRate, in == inputs() && out == outputs() && block == config.block, true);
        if (clears & 2) parameters[0] = parameters[1] = -1;
    }

    void reset() override
    {
        life->onReset();
        counter = 0;
        if (clears & 1) parameters[0] = parameters[1] = -1;
    }

    void setValue (int id, double value) override
    {
        life->touched ("setValue");
        if (id == 0 || id == 1) parameters[id] = value;
        if (id == 2) parameters[0] = parameters[1] = value;
    }

    double getValue (int id) const override { return id == 0 || id == 1 ? parameters[id] : 0; }
    bool supportsChannelLayout (size_t in, size_t out) const override { if (in == inputs() && out == outputs()) life->askedLayout = true; return life->supportsLayout; }
    bool supportsSampleRate (double r) const override { if (r == config.sampleRate) life->askedRate = true; return life->supportsRate; }
    bool supportsEnvelopeFor (int id) const override { return id == 0 || id == 1; }

    void process (const hart::AudioBuffer<T>& input, hart::AudioBuffer<T>& output, const hart::EnvelopeBuffers& buffers) override
    {
        life->onAudio (input.getNumFrames());
        if (output.getNumFrames() != input.getNumFrames()) { broken ("block-length", life->name + ": input and output are not equally long"); return; }
        if (input.getNumChannels() != inputs() || output.getNumChannels() != outputs()) { broken ("channels", life->name + " got another number of channels"); return; }

        if (tested)
        {
            double want[2] = { config.initial, config.initial };
            for (auto& v : config.values)
            {
                if (v.first == 0 || v.first == 1) want[v.first] = v.second;
                if (v.first == 2) want[0] = want[1] = v.second;
            }
            for (int id = 0; id < 2; ++id)
                if (parameters[id] != want[id]) broken ("values", fmt ("parameter %d is %g instead of %g when processing", id, parameters[id], want[id]));
        }

        for (int id = 0; id < 2; ++id)
        {
            const bool has = buffers.count (id) > 0;
            if (has != ((envelopes >> id) & 1)) { broken ("envelope-keys", fmt ("%s: %s envelope values for parameter %d", life->name.c_str(), has ? "unexpected" : "no", id)); continue; }
            if (! has) continue;
            auto& v = buffers.at (id);
            if (v.size() != input.getNumFrames()) { broken ("envelope-buffer", fmt ("%zu envelope values for %zu frames", v.size(), input.getNumFrames())); continue; }
            for (size_t i = 0; i < v.size(); ++i)
                if (v[i] != 1000 * (id + 1) + (double) (counter + i)) { broken ("envelope-values", fmt ("frame %zu of parameter %d is %g", counter + i, id, v[i])); break; }
        }
        if (buffers.size() > 2) broken ("envelope-keys", "envelope values for more parameters than there are envelopes");

        // The input is what came before in the chain
        for (size_t f = 0; f < input.getNumFrames(); ++f)
            for (size_t c = 0; c < input.getNumChannels(); ++c)
            {
                const T want = signalSample<T> (c, counter + f, 0) + (T) index;
                if (input[c][f] != want) { broken ("input", fmt ("%s: input at channel %zu frame %zu is %g instead of %g", life->name.c_str(), c, counter + f, (double) input[c][f], (double) want)); f = input.getNumFrames() - 1; break; }
            }

        for (size_t f = 0; f < output.getNumFrames(); ++f)
            for (size_t c = 0; c < output.getNumChannels(); ++c)
                output[c][f] = outputSample (c, counter + f);

        counter += input.getNumFrames();
    }

    T outputSample (size_t c, size_t f) const { return tested ? (T) (10 + tableValue (c + 50, f)) : signalSample<T> (c, f, 0) + (T) (index + 1); }

    void represent (std::ostream& stream) const override { stream << "SpyDsp()"; }
    std::unique_ptr<hart::DSP<T>> copy() const override { return std::unique_ptr<hart::DSP<T>> (new SpyDsp (*this)); }
    std::unique_ptr<hart::DSP<T>> move() override { return std::unique_ptr<hart::DSP<T>> (new SpyDsp (std::move (*this))); }

    std::shared_ptr<Life> life;
    bool tested;
    int index;              // Number of effects before this one
    int envelopes = 0, clears = 1;
    double parameters[2] = { -1, -1 };
    size_t counter = 0;
};

template <typename T>
class SpyMatcher : public hart::Matcher<T>
{
public:
    SpyMatcher (const std::string& name, bool perBlockOk, int failingCall): life (newLife (Life())), perBlock (perBlockOk), failAt (failingCall) { life->name = name; }
    SpyMatcher (const SpyMatcher& o): life (newLife (*o.life)), perBlock (o.perBlock), failAt (o.failAt) {}
    SpyMatcher (SpyMatcher&& o): life (newLife (*o.life)), perBlock (o.perBlock), failAt (o.failAt) { o.life->original = true; }

    void prepare (double sampleRate, size_t channels, size_t block) override
    {
        preparedBlock = block;
        life->onPrepare (sampleRate, channels == config.outputChannels && (block == config.frames || (perBlock && block == config.block)), false);
    }

    bool match (const hart::AudioBuffer<T>& audio) override
    {
        const bool whole = ! perBlock || audio.getNumFrames() == config.frames;
        if (preparedBlock < audio.getNumFrames()) broken ("prepare-arguments", life->name + fmt (" got %zu frames after being prepared for %zu", audio.getNumFrames(), preparedBlock));
        life->onAudio (audio.getNumFrames(), whole);
        lastFailed = failAt >= 0 && (whole || calls == failAt);
        ++calls;
        if (audio.getNumChannels() != config.outputChannels) { broken ("channels", life->name + " got another number of channels"); return true; }
        for (size_t f = 0; f < audio.getNumFrames(); ++f, ++position)
            for (size_t c = 0; c < audio.getNumChannels(); ++c)
                if (audio[c][f] != (T) (10 + tableValue (c + 50, position))) { broken ("matcher-input", life->name + fmt (": channel %zu frame %zu is not what the effect wrote", c, position)); return true; }
        return ! lastFailed;
    }

    bool canOperatePerBlock() override { return perBlock; }
    void reset() override { life->onReset(); position = 0; calls = 0; lastFailed = false; }

    hart::MatcherFailureDetails getFailureDetails() const override
    {
        if (! lastFailed) broken ("details", life->name + ": failure details were requested, and its last match has not failed");
        hart::MatcherFailureDetails d;
        d.frame = 0; d.channel = 0; d.description = "spy";
        return d;
    }

    void represent (std::ostream& stream) const override { stream << "SpyMatcher()"; }
    std::unique_ptr<hart::Matcher<T>> copy() const override { return std::unique_ptr<hart::Matcher<T>> (new SpyMatcher (*this)); }
    std::unique_ptr<hart::Matcher<T>> move() override { return std::unique_ptr<hart::Matcher<T>> (new SpyMatcher (std::move (*this))); }

    std::shared_ptr<Life> life;
    bool perBlock;
    int failAt;
    int calls = 0;
    size_t position = 0, preparedBlock = 0;
    bool lastFailed = false;
};

struct Timing { double rate, duration; size_t frames; };

static const std::vector<Timing>& timings()
{
    static const std::vector<Timing> t {
        { 8, 1, 8 }, { 10, 0.26, 3 }, { 10, 0.24, 2 }, { 1, 1, 1 }, { 8000, 0.0007, 6 }, { 44100, 0.0001, 4 }, { 44100, 0.29, 12789 }, { 48000, 1.1, 52800 }, { 44100, 0.1, 4410 }, { 192000, 0.0104, 1997 },
        { 44100.5, 0.01, 441 }, { 11025, 0.0125, 138 } };
    return t;
}

struct Defect { const char* what; int object; bool layout; };   // object: 0 tested, 1 signal, 2 first, 3 second of the chain, 4 reference of the matcher

static std::vector<std::pair<int, double>> manyValues()
{
    std::vector<std::pair<int, double>> v;
    for (int i = 0; i < 300; ++i) v.push_back ({ i * 7 % 3, 0.5 * i });
    return v;
}

template <typename T>
static void body (Run& run)
{
    current = &run;
    static const std::vector<std::pair<size_t, size_t>> layouts { { 1, 1 }, { 2, 2 }, { 1, 2 }, { 2, 1 }, { 3, 5 }, { 16, 16 }, { 1, 126 }, { 127, 126 } };
    const bool large = run.flag ("large");
    const Timing timing = timings()[(size_t) (large ? 6 + run.choose (6, "timing") : run.choose (6, "timing"))];
    const size_t block = large ? run.pick ({ (size_t) 1, (size_t) 64, (size_t) 100, (size_t) 1024, (size_t) 4096, (size_t) 100000 }, "block")
                               : run.pick ({ (size_t) 1, (size_t) 2, (size_t) 3, (size_t) 5, (size_t) 8, (size_t) 1024 }, "block");
    const auto layout = layouts[(size_t) run.choose (large ? 8 : 5, "layout")];
    if (large) run.maxDeviations = std::min (run.maxDeviations, run.thorough ? 2 : 1);
    if (large && timing.frames * (layout.first + layout.second + (block == 1 ? 50 : 0)) > (run.thorough ? 2000000 : 250000)) return;
    const int ownership = run.dev (4, "ownership");   // lvalue, rvalue, pointer, pointer to base

    const int chain = run.dev (3, "chain");
    const int envelopes = run.dev (4, "envelopes");
    const int clears = run.dev (3, "clears") ^ 1;   // 1, 0, 3
    static const std::vector<std::vector<std::pair<int, double>>> valueSets { { { 0, 5 } }, {}, { { 0, 1 }, { 0, 2 }, { 1, 3 } }, { { 2, 7 }, { 0, 1 } }, { { 0, 1 }, { 2, 7 } }, { { 0, 1 }, { 2, 7 }, { 0, 2 } }, { { 2, 7 }, { 1, 4 }, { 2, 8 } }, { { 0, 9 }, { 0, 9 }, { 2, 3 }, { 0, 9 } }, manyValues(), { { 99, 1 }, { 1, 0 }, { -1, 2 } } };
    const auto values = run.devPick (valueSets, "values");
    const int valuesBefore = run.dev (2, "values set first");
    const int matchers = run.dev (10, "matchers");
    const int failing = run.dev (4, "failing");            // none, first block, second block, last block
    static const std::vector<Defect> defects { { "", -1, false }, { "effect: layout", 0, true }, { "effect: rate", 0, false }, { "signal: channels", 1, true }, { "signal: rate", 1, false },
        { "first of chain: layout", 2, true }, { "first of chain: rate", 2, false }, { "second of chain: layout", 3, true }, { "second of chain: rate", 3, false }, { "reference: channels", 4, true }, { "reference: rate", 4, false } };
    const auto defect = run.devPick (defects, "defect");
    const bool implicit = run.dev (2, "defaults left");    // settings which have their default value are not set at all
    const int again = run.dev (3, "again");                // Once, again with the returned effect, again with other settings

    lives.clear();
    hart::ExpectationFailureMessages::clear();

    std::unique_ptr<hart::DSP<T>> returned;
    std::shared_ptr<Life> keep;

    for (int round = 0; round <= (again ? 1 : 0); ++round)
    {
        config = Config();
        config.sampleRate = timing.rate;
        config.frames = timing.frames;
        config.block = block;
        config.inputChannels = layout.first;
        config.outputChannels = layout.second;
        config.values = values;
        double duration = timing.duration;

        if (round == 1 && again == 2)
        {
            config.sampleRate = timing.rate * 2;
            config.block = block + 3;
            config.inputChannels = layout.first + 1;
            config.outputChannels = layout.second + 2;
            config.values.push_back ({ 1, 12 });
            config.frames = 2 * config.frames;
            duration = (double) config.frames / config.sampleRate;
        }

        // Objects
        SpySignal<T> signal ("signal", &config.inputChannels, 0);
        SpySignal<T> reference ("reference signal", &config.outputChannels, 50);

        for (int i = 0; i < chain; ++i)
        {
            SpyDsp<T> effect (fmt ("effect %d of the chain", i), false, i);
            if (i == 1 && envelopes) { effect.envelopes = 1; effect.withEnvelope (0, SpyEnvelope (1000)); }
            if (defect.object == 2 + i) { (defect.layout ? effect.life->supportsLayout : effect.life->supportsRate) = false; config.refuse = true; }
            const SpyDsp<T>& constEffect = effect;
            effect.life->original = true;
            signal.followedBy (constEffect);
        }

        if (defect.object == 1) { (defect.layout ? signal.life->supportsLayout : signal.life->supportsRate) = false; config.refuse = true; }
        if (defect.object == 4) { (defect.layout ? reference.life->supportsLayout : reference.life->supportsRate) = false; config.refuse = matchers == 5 || matchers == 6; }

        for (auto& l : lives) l->startTest();

        std::unique_ptr<SpyDsp<T>> owned;
        const hart::DSP<T>* expectedBack = nullptr;

        if (round == 0)
        {
            owned.reset (new SpyDsp<T> ("tested effect", true, chain));
            owned->envelopes = envelopes;
            owned->clears = clears;
            if (envelopes & 1) owned->withEnvelope (0, SpyEnvelope (1000));
            if (envelopes & 2) { SpyEnvelope e (2000); owned->withEnvelope (1, e); }
            for (auto& l : lives) if (l->name.compare (0, 8, "envelope") == 0) l->startTest();
            if (defect.object == 0) (defect.layout ? owned->life->supportsLayout : owned->life->supportsRate) = false;
        }
        if (defect.object == 0) config.refuse = true;

        std::unique_ptr<hart::DSP<T>> base;
        bool threw = false, asserted = false;
        std::string what;

        auto test = [&] (hart::AudioTestBuilder<T>& host)
        {
            if (valuesBefore) for (auto& v : config.values) host.withValue (v.first, v.second);
            host.withInputSignal (signal);
            if (! implicit || duration != 0.1) host.withDuration (duration);
            if (! implicit || config.block != 1024) host.withBlockSize (config.block);
            if (! implicit || config.inputChannels != 1) host.withInputChannels (config.inputChannels);
            if (! implicit || config.outputChannels != 1) host.withOutputChannels (config.outputChannels);
            signal.life->original = true;
            if (! implicit || config.sampleRate != 44100) host.withSampleRate (config.sampleRate);
            if (! valuesBefore) for (auto& v : config.values) host.withValue (v.first, v.second);

            const int failAt = failing == 0 ? -1 : failing == 1 ? 0 : failing == 2 ? 1 : (int) config.blocks() - 1;
            SpyMatcher<T> perBlock ("per-block matcher", true, failAt), whole ("whole-piece matcher", false, failAt), inverted ("inverted matcher", true, -1);
            const int m = matchers == 6 ? 1 : matchers;
            if (m == 0 || m == 3) host.expectTrue (perBlock);
            if (m == 1 || m == 3) host.expectTrue (std::move (whole));
            if (m == 2 || m == 3) host.expectFalse (inverted);
            if (m == 4) host.expectTrue (SpyMatcher<T> ("per-block matcher", true, -1)).expectTrue (SpyMatcher<T> ("second per-block matcher", true, failAt)).assertTrue (SpyMatcher<T> ("asserting matcher", true, -1));
            if (m == 7) host.assertFalse (inverted);
            if (m == 8) host.assertTrue (perBlock);
            if (m == 9) host.expectFalse (inverted).assertFalse (SpyMatcher<T> ("asserting matcher", false, failAt));
            if (matchers == 5) host.expectTrue (hart::EqualsTo<T> (reference, 100));
            if (matchers == 6) { reference.matcherFull = true; host.expectFalse (hart::EqualsTo<T> (reference, 100)); }
            reference.life->original = true;
            perBlock.life->original = inverted.life->original = true;
            if (ownership == 0 && round == 0) owned->life->original = true;
            running = true;
            auto back = host.process();
            running = false;
            return back;
        };

        try
        {
            if (round == 1)
            {
                expectedBack = returned.get();
                hart::AudioTestBuilder<T> host (std::move (returned));
                returned = test (host);
            }
            else if (ownership == 0) { auto host = hart::processAudioWith (*owned); returned = test (host); }
            else if (ownership == 1) { auto host = hart::processAudioWith (std::move (*owned)); returned = test (host); }
            else if (ownership == 2) { expectedBack = owned.get(); auto host = hart::processAudioWith (std::move (owned)); returned = test (host); }
            else { expectedBack = owned.get(); base = std::move (owned); hart::AudioTestBuilder<T> host (std::move (base)); returned = test (host); }
        }
        catch (const hart::TestAssertException& e) { threw = true; what = e.what(); asserted = matchers >= 7; }
        catch (const std::exception& e) { threw = true; what = e.what(); }
        running = false;
        run.step();
        if (run.hasDeferred) return;

        if (asserted && ! config.refuse)
        {
            // What was done until then was right; the effect is gone
            run.state (mc::Hash().add ("asserted").add (matchers).add (failing));
            return;
        }

        if (config.refuse)
        {
            MC_REQUIRE (run, threw, "not-refused", std::string ("the test ran although there is something which does not support its settings: ") + defect.what);
            run.state (mc::Hash().add ("refused").add ((uint64_t) defect.object).add (defect.layout));
            return;
        }

        MC_REQUIRE (run, ! threw, "error", "the test ended with an error: " + what);
        MC_REQUIRE (run, returned != nullptr, "returned", "no effect is returned");
        if (expectedBack) MC_REQUIRE (run, returned.get() == expectedBack, "returned", "the effect which is returned is not the one which was given");
        auto* back = dynamic_cast<SpyDsp<T>*> (returned.get());
        MC_REQUIRE (run, back != nullptr && back->life->frames == config.frames, "returned", "the effect which is returned is not the one which processed the audio");

        size_t dsp = 0, sig = 0, chainRan = 0, env = 0, matched = 0;
        for (auto& l : lives)
        {
            if (l->frames == 0) continue;
            const bool matcher = l->name.find ("matcher") != std::string::npos;
            if (! (matcher && failing)) l->finished();
            if (l->name == "tested effect") ++dsp;
            else if (l->name == "signal") ++sig;
            else if (l->name.compare (0, 8, "envelope") == 0) ++env;
            else if (matcher || l->name == "reference signal") ++matched;
            else ++chainRan;
        }
        if (run.hasDeferred) return;
        MC_REQUIRE (run, dsp == 1 && sig == 1 && chainRan == (size_t) chain, "objects", fmt ("%zu effects, %zu signals and %zu effects of the chain got audio", dsp, sig, chainRan));
        MC_REQUIRE (run, env == (size_t) ((envelopes & 1) + (envelopes >> 1) + (chain == 2 && envelopes ? 1 : 0)), "objects", fmt ("%zu envelopes were rendered", env));
        const size_t wantMatched = matchers == 3 || matchers == 4 ? 3 : matchers == 6 || matchers == 9 ? 2 : 1;
        MC_REQUIRE (run, matched == wantMatched, "objects", fmt ("%zu matchers of %zu got audio", matched, wantMatched));

        mc::Hash h;
        for (auto& l : lives) h.add (l->name).add ((uint64_t) l->blocks).add ((uint64_t) l->frames).add (l->prepared);
        run.state (h.add (config.sampleRate).add ((uint64_t) config.block));
        for (auto& l : lives) l->startTest();
    }
}

int main (int argc, char** argv)
{
    mc::Options o;
    o.id = "C03";
    o.unitDepthQuick = 5;
    o.unitDepthThorough = 5;
    o.maxDeviationsQuick = 2;
    o.maxDeviationsThorough = 4;
    return mc::main (argc, argv, o, [] (Run& run) { if (run.flag ("double")) body<double> (run); else body<float> (run); });
}
