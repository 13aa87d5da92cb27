// C08: reset, reused and copied objects produce the same audio as fresh ones
#include "stock.hpp"

using namespace stock;
using mc::Run;

// An effect with a state of its own: adds the number of frames it has processed since its reset
template <typename T>
class Counter : public hart::DSP<T>
{
public:
    void prepare (double, size_t, size_t, size_t) override {}
    void process (const hart::AudioBuffer<T>& input, hart::AudioBuffer<T>& output, const hart::EnvelopeBuffers&) override
    {
        for (size_t f = 0; f < output.getNumFrames(); ++f, ++count)
            for (size_t c = 0; c < output.getNumChannels(); ++c) output[c][f] = input[c][f] + (T) count / 64;
    }
    void reset() override { count = 0; }
    void setValue (int, double) override {}
    double getValue (int) const override { return 0; }
    bool supportsChannelLayout (size_t in, size_t out) const override { return in == out; }
    void represent (std::ostream& stream) const override { stream << "Counter()"; }
    std::unique_ptr<hart::DSP<T>> copy() const override { return std::unique_ptr<hart::DSP<T>> (new Counter (*this)); }
    std::unique_ptr<hart::DSP<T>> move() override { return std::unique_ptr<hart::DSP<T>> (new Counter (std::move (*this))); }
private:
    size_t count = 0;
};

constexpr size_t length = 24;

struct Settings { double rate; size_t channels; };
static const Settings settings[2] = { { 48000, 2 }, { 8000, 1 } };

template <typename T> double tolerance() { return sizeof (T) == 4 ? 2e-6 : 1e-9; }

// The object under test, in a slot
struct Slot
{
    bool exists = false, prepared = false, ready = false;   // ready: prepared and reset
    int setting = 0;
    size_t position = 0;
};

// What the explored operations do with an object of some type
template <typename T, typename Object>
struct Ops
{
    std::function<std::unique_ptr<Object>()> create;
    std::function<void (Object&, int setting)> prepare;
    std::function<void (Object&)> reset;
    std::function<void (Object&, int setting, size_t position, size_t n, Audio<T>&)> render;
    std::function<std::unique_ptr<Object> (Object&)> copy, move;
    std::function<bool (Object&, Object&, bool moving)> assign;   // False if the type has no assignment
};

template <typename O>
static bool tryAssign (O& to, O& from, bool moving)
{
    if constexpr (std::is_copy_assignable<O>::value && std::is_move_assignable<O>::value)
    {
        if (moving) to = std::move (from); else to = from;
        return true;
    }
    return false;
}

template <typename T, typename Object>
static void histories (Run& run, const std::string& name, const Ops<T, Object>& ops, int depth, bool withAssignment)
{
    // What fresh objects render, with each of the settings
    std::vector<Audio<T>> expected;
    for (int s = 0; s < 2; ++s)
    {
        auto o = ops.create();
        ops.reset (*o);
        ops.prepare (*o, s);
        Audio<T> a;
        ops.render (*o, s, 0, length, a);
        expected.push_back (a);
    }

    struct Op { const char* name; int kind, slot; };
    static const std::vector<Op> all {
        { "render 1 of a", 0, 0 }, { "render 5 of a", 1, 0 }, { "render 3 of b", 2, 1 }, { "reset a", 3, 0 }, { "reset and prepare a", 4, 0 }, { "prepare with other settings and reset a", 5, 0 },
        { "reset and prepare b", 4, 1 }, { "reset b", 3, 1 }, { "copy a to b", 6, 0 }, { "copy b to a", 6, 1 }, { "move a to b", 7, 0 }, { "move b to a", 7, 1 },
        { "assign a to b", 8, 0 }, { "assign b to a", 8, 1 }, { "assign a to itself", 10, 0 }, { "move-assign a to b", 9, 0 }, { "move-assign b to a", 9, 1 } };

    std::unique_ptr<Object> objects[2];
    Slot slots[2];
    objects[0] = ops.create();
    objects[1] = ops.create();
    for (auto& s : slots) { s = Slot(); s.exists = true; }
    std::string history;
    // It always gets going with something rendered
    ops.reset (*objects[0]); ops.prepare (*objects[0], 0);
    slots[0].prepared = slots[0].ready = true;

    for (int i = 0; i < depth; ++i)
    {
        const auto& op = all[(size_t) run.choose ((int) all.size() - (withAssignment ? 0 : 5), "operation")];
        Slot& s = slots[op.slot];
        Slot& d = slots[1 - op.slot];
        Object* o = objects[op.slot].get();
        if (! s.exists) return;
        history += std::string (i ? ", " : "") + op.name;

        if (op.kind <= 2)
        {
            const size_t n = op.kind == 0 ? 1 : op.kind == 1 ? 5 : 3;
            if (! s.ready || s.position + n > length) return;
            Audio<T> got;
            ops.render (*o, s.setting, s.position, n, got);
            run.step();
            for (size_t c = 0; c < got.size(); ++c)
                for (size_t f = 0; f < n; ++f)
                    MC_REQUIRE (run, close ((double) got[c][f], (double) expected[(size_t) s.setting][c][s.position + f], tolerance<T>()), "audio",
                        name + fmt (": frame %zu of channel %zu is %.9g instead of %.9g as that of a fresh object, after: ", s.position + f, c, (double) got[c][f], (double) expected[(size_t) s.setting][c][s.position + f]) + history);
            s.position += n;
        }
        else if (op.kind == 3) { ops.reset (*o); s.ready = s.prepared; s.position = 0; }
        else if (op.kind == 4) { ops.reset (*o); ops.prepare (*o, s.setting); s.prepared = s.ready = true; s.position = 0; }
        else if (op.kind == 5) { s.setting = 1 - s.setting; ops.prepare (*o, s.setting); ops.reset (*o); s.prepared = s.ready = true; s.position = 0; }
        else if (op.kind == 6) { objects[1 - op.slot] = ops.copy (*o); d = Slot(); d.exists = true; d.setting = s.setting; }
        else if (op.kind == 7) { objects[1 - op.slot] = ops.move (*o); d = Slot(); d.exists = true; d.setting = s.setting; s.exists = false; }
        else if (op.kind == 10) { if (! ops.assign (*o, *o, false)) return; s.ready = s.prepared = false; }
        else
        {
            if (! d.exists) return;
            if (! ops.assign (*objects[1 - op.slot], *o, op.kind == 9)) return;
            d = Slot(); d.exists = true; d.setting = s.setting;
            if (op.kind == 9) s.exists = false;
        }

        mc::Hash h;
        h.add (name);
        for (auto& x : slots) h.add (x.exists).add (x.ready).add (x.prepared).add ((uint64_t) x.position).add (x.setting);
        run.state (h);
    }

    // Whatever happened, both of them are as good as new
    for (int k = 0; k < 2; ++k)
        if (slots[k].exists)
        {
            ops.reset (*objects[k]);
            ops.prepare (*objects[k], 0);
            Audio<T> got;
            ops.render (*objects[k], 0, 0, length, got);
            run.step();
            const auto d = difference (got, expected[0], tolerance<T>());
            MC_REQUIRE (run, d.empty(), "restart", name + fmt (": object %c differs from a fresh one when reset and prepared after: ", 'a' + k) + history + ": " + d);
        }
}

template <typename T>
static std::unique_ptr<hart::DSP<T>> chained (int which, int i)
{
    if (which == 1) return makeEffect<T> (5, settings[0].rate, length);
    if (i == 0) return makeEffect<T> (9, settings[0].rate, length);
    if (i == 1) return std::unique_ptr<hart::DSP<T>> (new Counter<T>());
    return makeEffect<T> (6, settings[0].rate, length);
}

template <typename T>
static void signals (Run& run)
{
    const int kind = run.choose (numSignals, "signal"), chain = run.choose (3, "chain");
    const bool wav = kind >= 12;
    using S = hart::Signal<T>;
    Ops<T, S> ops;
    ops.create = [=] { auto s = makeSignal<T> (kind, settings[0].rate, length, 2); for (int i = 0; i < (chain == 2 ? 3 : chain); ++i) s->followedBy (chained<T> (chain, i)); return s; };
    ops.prepare = [=] (S& s, int k) { s.prepareWithDSPChain (wav ? settings[0].rate : settings[k].rate, settings[k].channels, length); };
    ops.reset = [] (S& s) { s.resetWithDSPChain(); };
    ops.render = [] (S& s, int k, size_t, size_t n, Audio<T>& a) { hart::AudioBuffer<T> b (settings[k].channels, n); s.renderNextBlockWithDSPChain (b); a = toAudio (b); };
    ops.copy = [] (S& s) { return s.copy(); };
    ops.move = [] (S& s) { return s.move(); };
    ops.assign = [] (S&, S&, bool) { return false; };
    histories<T, S> (run, std::string (signalName (kind)) + fmt (" with chain %d", chain), ops, run.thorough ? 5 : 4, false);
}

// The same by value, for the types of signals which can be assigned
template <typename T, typename S>
static void signalValues (Run& run, const std::string& name, const S& sample)
{
    const int chain = run.choose (3, "chain");
    auto prototype = std::make_shared<S> (sample);
    for (int i = 0; i < (chain == 2 ? 3 : chain); ++i) prototype->followedBy (chained<T> (chain, i));
    Ops<T, S> ops;
    ops.create = [=] { return std::unique_ptr<S> (new S (*prototype)); };
    ops.prepare = [] (S& s, int k) { s.prepareWithDSPChain (settings[k].rate, settings[k].channels, length); };
    ops.reset = [] (S& s) { s.resetWithDSPChain(); };
    ops.render = [] (S& s, int k, size_t, size_t n, Audio<T>& a) { hart::AudioBuffer<T> b (settings[k].channels, n); s.renderNextBlockWithDSPChain (b); a = toAudio (b); };
    ops.copy = [] (S& s) { return std::unique_ptr<S> (new S (s)); };
    ops.move = [] (S& s) { return std::unique_ptr<S> (new S (std::move (s))); };
    ops.assign = tryAssign<S>;
    histories<T, S> (run, name + fmt (" with chain %d", chain), ops, run.thorough ? 5 : 4, std::is_copy_assignable<S>::value);
}

template <typename T, typename D>
static void effectValues (Run& run, const std::string& name, const D& sample, bool envelope, bool decibels)
{
    auto prototype = std::make_shared<D> (sample);
    const int kind = envelope ? run.choose (3, "envelope") : 0;
    if (envelope) prototype->withEnvelope (0, stock::envelope (kind, length, decibels).make (1 / settings[0].rate));
    const auto input = table<T> (2, length);
    Ops<T, D> ops;
    ops.create = [=] { return std::unique_ptr<D> (new D (*prototype)); };
    ops.prepare = [] (D& d, int k) { d.prepareWithEnvelopes (settings[k].rate, settings[k].channels, settings[k].channels, length); };
    ops.reset = [] (D& d) { d.resetWithEnvelopes(); };
    ops.render = [input] (D& d, int k, size_t position, size_t n, Audio<T>& a)
    {
        hart::AudioBuffer<T> in (settings[k].channels, n), out (settings[k].channels, n);
        fill (in, input, position);
        d.processWithEnvelopes (in, out);
        a = toAudio (out);
    };
    ops.copy = [] (D& d) { return std::unique_ptr<D> (new D (d)); };
    ops.move = [] (D& d) { return std::unique_ptr<D> (new D (std::move (d))); };
    ops.assign = tryAssign<D>;
    histories<T, D> (run, name + fmt (" envelope %d", envelope ? kind : -1), ops, run.thorough ? 5 : 4, true);
}

static void envelopes (Run& run)
{
    const bool decibels = run.flag ("decibels");
    const int kind = run.choose (4, "envelope");
    using E = hart::SegmentedEnvelope;
    Ops<double, E> ops;
    ops.create = [=] { return std::unique_ptr<E> (new E (stock::envelope (kind, length, decibels).make (1 / settings[0].rate))); };
    ops.prepare = [] (E& e, int k) { e.prepare (settings[k].rate, length); };
    ops.reset = [] (E& e) { e.reset(); };
    ops.render = [] (E& e, int, size_t, size_t n, Audio<double>& a) { std::vector<double> v (n); e.renderNextBlock (n, v); v.resize (n); a = { v }; };
    ops.copy = [] (E& e) { return std::unique_ptr<E> (new E (e)); };
    ops.move = [] (E& e) { return std::unique_ptr<E> (new E (std::move (e))); };
    ops.assign = tryAssign<E>;
    histories<double, E> (run, fmt ("envelope %d%s", kind, decibels ? " in dB" : ""), ops, run.thorough ? 5 : 4, std::is_copy_assignable<E>::value);
}

// Matchers: the audio is the verdict and where it failed
template <typename T>
static void matchers (Run& run)
{
    const int kind = run.choose (4, "matcher");
    using M = hart::Matcher<T>;
    // Block k of the observed audio is right, or wrong at a frame
    auto reference = table<T> (2, 4 * length);
    Ops<T, M> ops;
    ops.create = [=]
    {
        if (kind == 0) { hart::SineWave<T> s (1000.0); s.followedBy (makeEffect<T> (5, settings[0].rate, length)); return std::unique_ptr<M> (new hart::EqualsTo<T> (s)); }
        if (kind == 1) return std::unique_ptr<M> (new hart::EqualsTo<T> (Play<T> (reference), 0.25));
        if (kind == 2) return std::unique_ptr<M> (new hart::PeaksBelow<T> (-6));
        return std::unique_ptr<M> (new hart::PeaksAt<T> (-6, 0.25));
    };
    ops.prepare = [] (M& m, int k) { m.prepare (settings[k].rate, settings[k].channels, length); };
    ops.reset = [] (M& m) { m.reset(); };
    ops.render = [=] (M& m, int k, size_t position, size_t n, Audio<T>& a)
    {
        hart::SineWave<T> s (1000.0);
        s.followedBy (makeEffect<T> (5, settings[0].rate, length));
        const auto sine = renderFresh<T> (s, settings[k].rate, settings[k].channels, 4 * length, 4 * length);
        const auto& good = kind == 0 ? sine : reference;
        a.assign (3, std::vector<T> (n, 0));
        for (size_t i = 0; i < n; ++i)   // One frame at a time, so that any division into blocks is the same
        {
            hart::AudioBuffer<T> b (settings[k].channels, 1);
            fill (b, good, position + i);
            // Wrong, or almost as wrong as it may be
            T& last = b[settings[k].channels - 1][0];
            const size_t spoil = (position + i) % 4;
            if (spoil == 3) last = (T) 3;
            else if (spoil == 1 && kind == 1) last += (T) 0.24;
            else if (spoil == 1 && kind == 3) last = (T) std::pow (10, (-6 + 0.24) / 20);
            const bool ok = m.match (b);
            a[0][i] = ok;
            if (! ok) { const auto d = m.getFailureDetails(); a[1][i] = (T) d.channel; a[2][i] = (T) d.frame; }
        }
    };
    ops.copy = [] (M& m) { return m.copy(); };
    ops.move = [] (M& m) { return m.move(); };
    ops.assign = [] (M&, M&, bool) { return false; };
    if (kind == 2) ops.assign = [] (M& to, M& from, bool moving) { return tryAssign ((hart::PeaksBelow<T>&) to, (hart::PeaksBelow<T>&) from, moving); };
    if (kind == 3) ops.assign = [] (M& to, M& from, bool moving) { return tryAssign ((hart::PeaksAt<T>&) to, (hart::PeaksAt<T>&) from, moving); };
    histories<T, M> (run, fmt ("matcher %d", kind), ops, run.thorough ? 5 : 4, true);
}

// Tests with the same objects, one after another
template <typename T>
static void tests (Run& run)
{
    const int signal = run.choose (numSignals, "signal"), effect = run.choose (numEffects, "effect"), chain = run.choose (3, "chain");
    struct Test { size_t frames, block, channels; double rate; };
    static const std::vector<Test> all { { 20, 7, 2, 48000 }, { 20, 64, 1, 48000 }, { 9, 1, 2, 48000 }, { 33, 8, 2, 24000 } };
    const bool wav = signal >= 12;

    auto makeOne = [&] { auto s = makeSignal<T> (signal, 48000, length, 2); for (int i = 0; i < (chain == 2 ? 3 : chain); ++i) s->followedBy (chained<T> (chain, i)); return s; };
    const auto shared = makeOne();
    hart::EqualsTo<T> sharedMatcher (*makeOne(), 0.01);
    auto owned = makeEffect<T> (effect, 48000, length);
    const auto byReference = makeEffect<T> (effect, 48000, length);
    std::string history;

    for (int i = 0; i < 3; ++i)
    {
        const auto& t = run.pick (all, "test");
        const double rate = wav ? 48000 : t.rate;
        history += fmt ("%s%zu frames in blocks of %zu, %zu channels, %g Hz", i ? "; " : "", t.frames, t.block, t.channels, rate);
        auto perform = [&] (hart::AudioTestBuilder<T>&& host, const hart::Signal<T>& s, const hart::EqualsTo<T>& m, Audio<T>& audio, bool& equal)
        {
            hart::ExpectationFailureMessages::clear();
            hart::EqualsTo<T> copy (m);
            host.withSampleRate (rate).withDuration ((double) t.frames / rate).withBlockSize (t.block).withInputChannels (t.channels).withOutputChannels (t.channels).withInputSignal (s)
                .expectTrue (Capture<T> (&audio));
            host.expectTrue (copy);
            auto back = host.process();
            equal = hart::ExpectationFailureMessages::get().empty();
            return back;
        };

        Audio<T> want, got, gotCopy;
        bool wantEqual, equal, equalCopy;
        perform (hart::AudioTestBuilder<T> (makeEffect<T> (effect, 48000, length)), *makeOne(), hart::EqualsTo<T> (*makeOne(), 0.01), want, wantEqual);
        owned = perform (hart::AudioTestBuilder<T> (std::move (owned)), *shared, sharedMatcher, got, equal);
        perform (hart::AudioTestBuilder<T> (byReference->copy()), *shared, sharedMatcher, gotCopy, equalCopy);
        run.step();
        auto d = difference (got, want, tolerance<T>());
        const std::string what = fmt ("%s (chain %d) into %s: ", signalName (signal), chain, effectName (effect)) + history + ": ";
        MC_REQUIRE (run, d.empty(), "repeated-test", what + d);
        MC_REQUIRE (run, equal == wantEqual && equalCopy == wantEqual, "repeated-verdict", what + "another verdict than with fresh objects");
        d = difference (gotCopy, want, tolerance<T>());
        MC_REQUIRE (run, d.empty(), "repeated-test", what + d);
        run.state (mc::Hash().add (i).add (signal).add (effect).add (wantEqual).add (want[0].back()));
    }
}

template <typename T>
static void body (Run& run)
{
    switch (run.choose (5, "mode"))
    {
        case 0: return signals<T> (run);
        case 1:
            switch (run.choose (6, "type"))
            {
                case 0: return signalValues<T> (run, "SineWave", hart::SineWave<T> (1234.5, 0.5));
                case 1: return signalValues<T> (run, "WhiteNoise", hart::WhiteNoise<T> (77));
                case 2: return signalValues<T> (run, "Silence", hart::Silence<T>());
                case 3: return effectValues<T> (run, "GainDb", hart::GainDb<T> (-3), true, true);
                case 4: return effectValues<T> (run, "GainLinear", hart::GainLinear<T> (0.75), true, false);
                default: return effectValues<T> (run, "HardClip", hart::HardClip<T> (-9), false, false);
            }
        case 2: return envelopes (run);
        case 3: return matchers<T> (run);
        default: return tests<T> (run);
    }
}

int main (int argc, char** argv)
{
    mc::Options o;
    o.id = "C08";
    o.unitDepthQuick = 5;
    o.unitDepthThorough = 5;
    return mc::main (argc, argv, o, [] (Run& run)
    {
        Cli().apply();
        if (run.flag ("double")) body<double> (run); else body<float> (run);
    });
}
