// C10: attaching envelopes: the last one wins, copies are deep, effects get exactly the values of their envelopes
#include "stock.hpp"

using namespace stock;
using mc::Run;

// An effect with two parameters which can be automated (3 and -7), which remembers what it got
template <typename T>
class Automated : public hart::DSP<T>
{
public:
    void prepare (double, size_t, size_t, size_t) override {}
    void process (const hart::AudioBuffer<T>& input, hart::AudioBuffer<T>& output, const hart::EnvelopeBuffers& buffers) override
    {
        for (auto& b : buffers) { got[b.first].insert (got[b.first].end(), b.second.begin(), b.second.end()); if (b.second.size() != input.getNumFrames()) wrongSize = true; }
        keysPerBlock.push_back (buffers.size());
        for (size_t c = 0; c < output.getNumChannels(); ++c)
            for (size_t f = 0; f < output.getNumFrames(); ++f) output[c][f] = input[c][f];
    }
    void reset() override { got.clear(); keysPerBlock.clear(); wrongSize = false; }
    void setValue (int, double) override {}
    double getValue (int) const override { return 0; }
    bool supportsChannelLayout (size_t, size_t) const override { return true; }
    bool supportsEnvelopeFor (int id) const override { return id == 3 || id == -7; }
    void represent (std::ostream& stream) const override { stream << "Automated()"; }
    std::unique_ptr<hart::DSP<T>> copy() const override { return std::unique_ptr<hart::DSP<T>> (new Automated (*this)); }
    std::unique_ptr<hart::DSP<T>> move() override { return std::unique_ptr<hart::DSP<T>> (new Automated (std::move (*this))); }

    std::map<int, std::vector<double>> got;
    std::vector<size_t> keysPerBlock;
    bool wrongSize = false;
};

// Counts frames up from a start value
class Ramp : public hart::Envelope
{
public:
    explicit Ramp (double startValue): start (startValue) {}
    void prepare (double, size_t) override {}
    void reset() override { position = 0; }
    void renderNextBlock (size_t n, std::vector<double>& values) override { for (size_t i = 0; i < n; ++i) values[i] = start + (double) position++ / 256; }
    std::unique_ptr<Envelope> copy() const override { return std::unique_ptr<Envelope> (new Ramp (*this)); }
    double start;
    size_t position = 0;
};

constexpr double rate = 256;

struct Envelope
{
    bool exists = false;
    double start = 0;
    bool segmented = false;
    double at (size_t frame) const { return start + (segmented ? std::min ((double) (frame + 1), 4.0) : (double) frame) / 256; }
};

static hart::SegmentedEnvelope makeSegmented (double start)
{
    hart::SegmentedEnvelope e (start);
    e.rampTo (start + 4.0 / 256, 4 / rate);
    return e;
}

using Attached = std::map<int, Envelope>;

template <typename T>
static void verify (Run& run, Automated<T>& d, const Attached& want, const std::string& history, size_t max = 4, std::vector<size_t> blocks = { 4, 4, 1 })
{
    for (int id : { 3, -7, 0, 5 })
        MC_REQUIRE (run, d.hasEnvelopeFor (id) == (want.count (id) > 0), "has", fmt ("parameter %d: hasEnvelopeFor() is wrong after: ", id) + history);

    d.resetWithEnvelopes();
    d.prepareWithEnvelopes (rate, 1, 1, max);
    d.reset();
    size_t total = 0;
    for (size_t n : blocks)
    {
        hart::AudioBuffer<T> in (1, n), out (1, n);
        d.processWithEnvelopes (in, out);
        total += n;
        MC_REQUIRE (run, d.keysPerBlock.back() == want.size(), "keys", fmt ("values of %zu parameters instead of %zu, after: ", d.keysPerBlock.back(), want.size()) + history);
    }
    run.step();
    MC_REQUIRE (run, ! d.wrongSize, "size", "not one value per frame, after: " + history);
    for (auto& w : want)
    {
        MC_REQUIRE (run, d.got.count (w.first) && d.got[w.first].size() == total, "size", fmt ("parameter %d: not one value per frame, after: ", w.first) + history);
        for (size_t i = 0; i < total; ++i)
            MC_REQUIRE (run, std::abs (d.got[w.first][i] - w.second.at (i)) < 1e-9, "value", fmt ("parameter %d, frame %zu: %.9g instead of %.9g, after: ", w.first, i, d.got[w.first][i], w.second.at (i)) + history);
    }
}

template <typename T>
static void attach (Automated<T>& d, int id, double start, int how)
{
    switch (how)
    {
        case 0: { auto e = makeSegmented (start); d.withEnvelope (id, e); e.rampTo (99, 0); e.reset(); static_cast<hart::Envelope&> (e).renderNextBlock (3); break; }
        case 1: d.withEnvelope (id, makeSegmented (start)); break;
        case 2: { Ramp e (start); d.withEnvelope (id, e); e.start = 55; break; }
        case 3: { auto p = std::unique_ptr<Ramp> (new Ramp (start)); p->position = 1; const hart::Envelope& e = *p; d.withEnvelope (id, e); p->start = 44; break; }
        default: { Ramp e (start); d.withEnvelope (id, std::move (e)); e.start = 33; break; }
    }
}

template <typename T>
static void sequences (Run& run)
{
    std::unique_ptr<Automated<T>> d[2] { std::unique_ptr<Automated<T>> (new Automated<T>()), std::unique_ptr<Automated<T>> (new Automated<T>()) };
    Attached model[2];
    bool alive[2] { true, true };
    std::string history;
    const int depth = run.thorough ? 5 : 4;
    static const char* copies[] = { "copy", "copy()", "assign", "move", "move()", "move-assign" };

    for (int step = 0; step < depth; ++step)
    {
        const int op = run.choose (27, "operation");

        if (op < 12)
        {
            const int slot = op & 1, id = (op >> 1) & 1 ? 3 : -7, how = (op >> 2) == 0 ? 0 : (op >> 2) == 1 ? (step % 2 ? 1 : 4) : (step % 2 ? 2 : 3);
            if (! alive[slot]) return;
            attach (*d[slot], id, 10 * (step + 1), how);
            model[slot][id] = Envelope { true, 10.0 * (step + 1), how < 2 };
            history += fmt ("attach #%d to %d of %c, ", step, id, 'a' + slot);
        }
        else if (op < 24)
        {
            const int from = op & 1, to = 1 - from, how = (op - 12) >> 1;
            if (! alive[from] || (how % 3 == 2 && ! alive[to])) return;
            history += fmt ("%s %c to %c, ", copies[how], 'a' + from, 'a' + to);
            auto down = [] (std::unique_ptr<hart::DSP<T>> p) { return std::unique_ptr<Automated<T>> (static_cast<Automated<T>*> (p.release())); };
            switch (how)
            {
                case 0: d[to].reset (new Automated<T> (*d[from])); break;
                case 1: d[to] = down (d[from]->copy()); break;
                case 2: *d[to] = *d[from]; break;
                case 3: d[to].reset (new Automated<T> (std::move (*d[from]))); break;
                case 4: d[to] = down (d[from]->move()); break;
                default: *d[to] = std::move (*d[from]); break;
            }
            model[to] = model[from];
            alive[to] = true;
            if (how >= 3) { alive[from] = false; model[from].clear(); }
        }
        else if (op == 24)
        {
            if (! alive[0]) return;
            auto& same = *d[0];
            *d[0] = same;
            history += "assign a to itself, ";
        }
        else if (op == 25)
        {
            for (int slot = 0; slot < 2; ++slot)
                for (int id : { 0, 4, -1 })
                {
                    if (! alive[slot]) continue;
                    MC_REQUIRE (run, throws ([&] { attach (*d[slot], id, 77, step % 5); }), "accepted", fmt ("an envelope for parameter %d was accepted, after: ", id) + history);
                    run.step();
                }
            history += "attach to unsupported, ";
        }
        else
        {
            // A new object in place of a moved one
            if (alive[0] && alive[1]) return;
            const int slot = alive[0] ? 1 : 0;
            d[slot].reset (new Automated<T>());
            alive[slot] = true;
            model[slot].clear();
            history += fmt ("%c is a new one, ", 'a' + slot);
        }

        // Every other time the order is different, as rendering one must not affect the other
        for (int i = 0; i < 2; ++i) { const int slot = (step + i) % 2; if (alive[slot]) verify (run, *d[slot], model[slot], history); }

        mc::Hash h;
        for (int s = 0; s < 2; ++s) { h.add (alive[s]); for (auto& e : model[s]) h.add (e.first).add (e.second.start).add (e.second.segmented); }
        run.state (h);
    }
}

// Through the host, and after copies of signals with chains
template <typename T>
static void hosted (Run& run)
{
    Automated<T> effect;
    Attached model;
    std::string history;
    for (int i = 0; i < 2; ++i)
    {
        const int op = run.choose (5, "attach");
        if (op == 0) continue;
        attach (effect, op % 2 ? 3 : -7, 20 * i + op, op);
        model[op % 2 ? 3 : -7] = Envelope { true, 20.0 * i + op, op < 2 };
    }
    const size_t frames = run.pick ({ (size_t) 1, (size_t) 9, (size_t) 200 }, "frames");
    const size_t block = run.pick ({ (size_t) 1, (size_t) 4, (size_t) 64, (size_t) 1000 }, "block");
    const int repeat = run.choose (3, "repeat");

    hart::AudioTestBuilder<T> host (effect);
    std::unique_ptr<hart::DSP<T>> back = host.withSampleRate (rate).withDuration ((double) frames / rate).withBlockSize (block).withInputSignal (hart::Silence<T>()).process();
    for (int i = 0; i < repeat; ++i)
    {
        hart::AudioTestBuilder<T> next (std::move (back));
        back = next.withSampleRate (rate).withDuration ((double) frames / rate).withBlockSize (block + (size_t) i).withInputSignal (hart::Silence<T>()).process();
    }
    run.step();
    auto& ran = static_cast<Automated<T>&> (*back);
    for (size_t n : ran.keysPerBlock) MC_REQUIRE (run, n == model.size(), "keys", fmt ("the host hands over values of %zu parameters instead of %zu", n, model.size()));
    MC_REQUIRE (run, ! ran.wrongSize, "size", "not one value per frame through the host");
    for (auto& w : model)
    {
        MC_REQUIRE (run, ran.got[w.first].size() == frames, "size", "not one value per frame through the host");
        for (size_t i = 0; i < frames; ++i) MC_REQUIRE (run, std::abs (ran.got[w.first][i] - w.second.at (i)) < 1e-9, "value", fmt ("through the host: parameter %d, frame %zu: %.9g instead of %.9g", w.first, i, ran.got[w.first][i], w.second.at (i)));
    }
    verify (run, effect, model, "a test with a copy of it");
    verify (run, ran, model, "a test", 100, { 100, 100, 3 });
    run.state (mc::Hash().add ((uint64_t) frames).add ((uint64_t) block).add (repeat).add ((uint64_t) model.size()));
}

// Stock effects: only the gains can be automated
template <typename T>
static void stockEffects (Run& run)
{
    const int effect = run.choose (3, "effect");
    const int id = run.pick ({ 0, 1, -1, 2, 100, std::numeric_limits<int>::max(), std::numeric_limits<int>::min() }, "parameter");
    const bool before = run.flag ("with an envelope");
    std::unique_ptr<hart::DSP<T>> d;
    if (effect == 0) d.reset (new hart::GainDb<T> (6)); else if (effect == 1) d.reset (new hart::GainLinear<T> (2)); else d.reset (new hart::HardClip<T> (0));
    const bool supported = id == 0 && effect < 2;
    hart::SegmentedEnvelope first (effect == 0 ? -6 : 0.25), second (effect == 0 ? -12 : 0.125);
    if (before && effect < 2) d->withEnvelope (0, first);
    double gain = effect == 0 ? std::pow (10, 6 / 20.0) : effect == 1 ? 2 : 1;
    if (before && effect < 2) gain = effect == 0 ? std::pow (10, -6 / 20.0) : 0.25;
    MC_REQUIRE (run, d->supportsEnvelopeFor (id) == supported, "supports", fmt ("effect %d reports parameter %d wrong", effect, id));
    for (int how = 0; how < 2; ++how)
    {
        const bool refused = throws ([&] { if (how) d->withEnvelope (id, second); else d->withEnvelope (id, hart::SegmentedEnvelope (effect == 0 ? -12 : 0.125)); });
        run.step();
        MC_REQUIRE (run, refused == ! supported, "stock", fmt ("effect %d %s an envelope for parameter %d", effect, refused ? "refuses" : "accepts", id));
    }
    if (supported) gain = effect == 0 ? std::pow (10, -12 / 20.0) : 0.125;
    const auto input = table<T> (2, 10);
    const auto output = runEffect (*d, input, 48000, 2, 4);
    for (size_t f = 0; f < 10; ++f) MC_REQUIRE (run, close ((double) output[1][f], (double) input[1][f] * gain, 1e-6), "stock-audio", fmt ("effect %d after attaching to %d: gain is %g instead of %g", effect, id, (double) output[1][f] / (double) input[1][f], gain));
    MC_REQUIRE (run, d->hasEnvelopeFor (0) == (supported || (before && effect < 2)), "has", "hasEnvelopeFor() is wrong");
    if (id != 0) MC_REQUIRE (run, ! d->hasEnvelopeFor (id), "has", "hasEnvelopeFor() is wrong");
    run.state (mc::Hash().add (effect).add (id).add (before));
}

// Larger blocks and numbers
template <typename T>
static void large (Run& run)
{
    const size_t max = run.pick ({ (size_t) 1, (size_t) 64, (size_t) 1024, (size_t) 100000 }, "block");
    const int times = run.pick ({ 1, 2, 3, 100 }, "times");
    Automated<T> d;
    Attached model;
    for (int i = 0; i < times; ++i) { attach (d, i % 3 ? 3 : -7, i, i % 5); model[i % 3 ? 3 : -7] = Envelope { true, (double) i, i % 5 < 2 }; }
    for (int i = 0; i < 3; ++i)
    {
        Automated<T> copy (d);
        verify (run, copy, model, fmt ("%d attached, blocks of up to %zu", times, max), max, { max, max, (max + 1) / 2 });
        d = copy;
    }
    run.state (mc::Hash().add ((uint64_t) max).add (times));
}

template <typename T>
static void body (Run& run)
{
    switch (run.choose (4, "mode"))
    {
        case 0: return sequences<T> (run);
        case 1: return hosted<T> (run);
        case 2: return stockEffects<T> (run);
        default: return large<T> (run);
    }
}

int main (int argc, char** argv)
{
    mc::Options o;
    o.id = "C10";
    o.unitDepthQuick = 4;
    o.unitDepthThorough = 4;
    return mc::main (argc, argv, o, [] (Run& run)
    {
        Cli().apply();
        if (run.flag ("double")) body<double> (run); else body<float> (run);
    });
}
