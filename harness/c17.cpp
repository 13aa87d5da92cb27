// C17: audio buffers against plain two-dimensional arrays
#include "ref.hpp"
#include <optional>

using namespace ref;
using mc::Run;

template <typename T>
struct World
{
    using Buffer = hart::AudioBuffer<T>;
    Run& run;
    std::vector<std::unique_ptr<Buffer>> real;
    std::vector<Audio<T>> model;
    std::vector<size_t> modelFrames;   // an array with no channels still has a length
    int counter = 0;

    World (Run& r, const std::vector<std::pair<size_t, size_t>>& shapes): run (r)
    {
        for (auto& s : shapes)
        {
            real.emplace_back (new Buffer (s.first, s.second));
            model.push_back (silence<T> (s.first, s.second));
            modelFrames.push_back (s.second);
        }
        compare ("construction");
        for (size_t i = 0; i < real.size(); ++i) write (i);
        compare ("writing");
    }

    void write (size_t i)
    {
        for (size_t c = 0; c < model[i].size(); ++c)
            for (size_t f = 0; f < modelFrames[i]; ++f)
            {
                const T v = (T) ((++counter % 2 ? 1 : -1) * counter * 0.25);
                model[i][c][f] = v;
                if ((counter / 2) % 2) (*real[i])[c][f] = v;
                else real[i]->getArrayOfWritePointers()[c][f] = v;
            }
    }

    void compare (const char* op)
    {
        if (! run.fresh()) return;
        run.step();
        mc::Hash h;

        for (size_t i = 0; i < real.size(); ++i)
        {
            const Buffer& b = *real[i];
            MC_REQUIRE (run, b.getNumChannels() == model[i].size(), "channels", fmt ("after %s: buffer %zu has %zu channels instead of %zu", op, i, b.getNumChannels(), model[i].size()));
            MC_REQUIRE (run, b.getNumFrames() == modelFrames[i], "frames", fmt ("after %s: buffer %zu has %zu frames instead of %zu", op, i, b.getNumFrames(), modelFrames[i]));

            for (size_t c = 0; c < model[i].size(); ++c)
            {
                T peak = 0;
                for (size_t f = 0; f < modelFrames[i]; ++f)
                {
                    const T want = model[i][c][f];
                    MC_REQUIRE (run, b[c][f] == want, "content", fmt ("after %s: buffer %zu channel %zu frame %zu is %g instead of %g", op, i, c, f, (double) b[c][f], (double) want));
                    MC_REQUIRE (run, (*real[i])[c][f] == want && b.getArrayOfReadPointers()[c][f] == want && real[i]->getArrayOfWritePointers()[c][f] == want, "content", std::string ("after ") + op + ": accessors disagree");
                    peak = std::max (peak, (T) std::abs (want));
                    h.add (want);
                }
                if (modelFrames[i] > 0)
                    MC_REQUIRE (run, b.getMagnitude (c, 0, modelFrames[i]) == peak, "magnitude", std::string ("after ") + op + ": magnitude of a channel is wrong");
                h.add ((uint64_t) 77);
            }
            h.add ((uint64_t) modelFrames[i]).add ((uint64_t) model[i].size());
        }

        run.state (h);
    }

    void operation()
    {
        const size_t n = real.size();
        const int kind = run.choose (10, "op");
        const size_t i = (size_t) run.choose ((int) n, "target");
        const size_t j = kind == 0 || kind == 7 || kind == 9 ? i : (size_t) run.choose ((int) n, "source");
        char name[64];

        switch (kind)
        {
            case 0: snprintf (name, sizeof name, "write(%zu)", i); write (i); break;
            case 1:
            {
                snprintf (name, sizeof name, "append(%zu,%zu)", i, j);
                const bool error = throwsA<hart::ChannelLayoutError> ([&] { real[i]->appendFrom (*real[j]); });
                MC_REQUIRE (run, error == (model[i].size() != model[j].size()), "append-error", std::string (name) + (error ? " was refused" : " was not refused"));
                if (! error)
                {
                    const auto source = model[j];
                    for (size_t c = 0; c < source.size(); ++c) model[i][c].insert (model[i][c].end(), source[c].begin(), source[c].end());
                    modelFrames[i] += modelFrames[j];
                }
                break;
            }
            case 2:
            {
                snprintf (name, sizeof name, "copyAssign(%zu,%zu)", i, j);
                const bool error = throwsA<hart::ChannelLayoutError> ([&] { *real[i] = *real[j]; });
                MC_REQUIRE (run, error == (model[i].size() != model[j].size()), "assign-error", std::string (name) + (error ? " was refused" : " was not refused"));
                if (! error) { const auto s = model[j]; model[i] = s; modelFrames[i] = modelFrames[j]; }
                break;
            }
            case 3:
            {
                snprintf (name, sizeof name, "moveAssign(%zu,%zu)", i, j);
                const bool error = throwsA<hart::ChannelLayoutError> ([&] { *real[i] = std::move (*real[j]); });
                MC_REQUIRE (run, error == (model[i].size() != model[j].size()), "assign-error", std::string (name) + (error ? " was refused" : " was not refused"));
                if (! error && i != j) { model[i] = model[j]; modelFrames[i] = modelFrames[j]; empty (j); }
                break;
            }
            case 4:
            {
                snprintf (name, sizeof name, "copyConstruct(%zu,%zu)", i, j);
                std::unique_ptr<Buffer> b (new Buffer (*real[j]));
                real[i] = std::move (b);
                const auto s = model[j];
                model[i] = s;
                modelFrames[i] = modelFrames[j];
                break;
            }
            case 5:
            {
                snprintf (name, sizeof name, "moveConstruct(%zu,%zu)", i, j);
                std::unique_ptr<Buffer> b (new Buffer (std::move (*real[j])));
                const auto s = model[j];
                const size_t frames = modelFrames[j];
                if (i != j)
                {
                    // The one which was moved from has to be usable still
                    empty (j);
                }
                real[i] = std::move (b);
                model[i] = s;
                modelFrames[i] = frames;
                break;
            }
            case 6:
            {
                snprintf (name, sizeof name, "emptyLike(%zu,%zu)", i, j);
                real[i].reset (new Buffer (Buffer::emptyLike (*real[j])));
                model[i] = silence<T> (model[j].size(), modelFrames[j]);
                modelFrames[i] = modelFrames[j];
                break;
            }
            case 7: snprintf (name, sizeof name, "clear(%zu)", i); real[i]->clear(); empty (i); break;
            case 8:
            {
                // Append of a part, as hosts do
                snprintf (name, sizeof name, "appendNew(%zu,like %zu)", i, j);
                Buffer extra (model[j].size(), 2);
                for (size_t c = 0; c < model[j].size(); ++c) { extra[c][0] = (T) (++counter); extra[c][1] = (T) (++counter); }
                const auto part = toAudio (extra);
                const bool error = throwsA<hart::ChannelLayoutError> ([&] { real[i]->appendFrom (extra); });
                MC_REQUIRE (run, error == (model[i].size() != part.size()), "append-error", std::string (name) + (error ? " was refused" : " was not refused"));
                MC_REQUIRE (run, difference (toAudio (extra), part).empty(), "append-source", std::string (name) + ": the source was changed");
                if (! error)
                {
                    for (size_t c = 0; c < part.size(); ++c) model[i][c].insert (model[i][c].end(), part[c].begin(), part[c].end());
                    modelFrames[i] += 2;
                }
                break;
            }
            case 9:
            {
                static const std::vector<std::pair<size_t, size_t>> shapes { { 0, 0 }, { 1, 1 }, { 2, 2 }, { 3, 1 }, { 2, 0 } };
                const auto s = run.pick (shapes, "shape");
                snprintf (name, sizeof name, "construct(%zu,%zux%zu)", i, s.first, s.second);
                real[i].reset (new Buffer (s.first, s.second));
                model[i] = silence<T> (s.first, s.second);
                modelFrames[i] = s.second;
                break;
            }
        }

        run.note (name);
        compare (name);
    }

    void empty (size_t i)
    {
        for (auto& c : model[i]) c.clear();
        modelFrames[i] = 0;
    }
};

template <typename T>
void sequences (Run& run, const std::vector<std::pair<size_t, size_t>>& shapes, int depth)
{
    World<T> world (run, shapes);
    for (int d = 0; d < depth; ++d) world.operation();
}

template <typename T>
void ranges (Run& run)
{
    const size_t channels = (size_t) run.choose (4, "channels");
    const size_t frames = run.pick ({ (size_t) 0, (size_t) 1, (size_t) 2, (size_t) 3, (size_t) 5, (size_t) 300 }, "frames");
    const int shape = run.choose (6, "content");
    hart::AudioBuffer<T> b (channels, frames);
    auto model = silence<T> (channels, frames);
    for (size_t c = 0; c < channels; ++c)
        for (size_t f = 0; f < frames; ++f)
        {
            T v = (T) tableValue (c, f);
            if (shape == 1) v = -std::abs (v);
            if (shape == 2) v = (c + f) % 3 == 1 ? (T) -INFINITY : v;
            if (shape == 4) v *= std::numeric_limits<T>::min();   // Their squares are not representable
            if (shape == 5) v *= std::numeric_limits<T>::max() / 4;
            if (shape == 3) v = f == frames / 2 ? (T) (-2 - (int) c) : (T) 0;
            model[c][f] = b[c][f] = v;
        }

    std::vector<size_t> edges { 0, 1, 2, 3, 4, 5, 6, 299, 300, 301, SIZE_MAX, SIZE_MAX - 1, SIZE_MAX - 2, SIZE_MAX / 2, SIZE_MAX / 2 + 1, SIZE_MAX - 299 };
    const auto& constB = b;

    for (size_t start : edges)
        for (size_t count : edges)
        {
            if (count == 0) continue;
            const bool valid = start <= frames && count <= frames - start;
            T all = 0;

            for (size_t c = 0; c < channels + 2; ++c)
            {
                T want = 0, got = 0;
                const bool ok = valid && c < channels;
                if (ok) for (size_t f = start; f < start + count; ++f) want = std::max (want, (T) std::abs (model[c][f]));
                all = std::max (all, want);
                const bool error = throwsA<hart::IndexError> ([&] { got = constB.getMagnitude (c, start, count); });
                run.step();
                MC_REQUIRE (run, error == ! ok, "range-error", fmt ("magnitude of channel %zu, frames %zu + %zu of %zux%zu was %s", c, start, count, channels, frames, error ? "refused" : "not refused"));
                if (ok) MC_REQUIRE (run, got == want, "magnitude", fmt ("magnitude of channel %zu, frames %zu + %zu is %g instead of %g", c, start, count, (double) got, (double) want));
            }

            T got = 0;
            const bool error = throwsA<hart::IndexError> ([&] { got = constB.getMagnitude (start, count); });
            run.step();
            MC_REQUIRE (run, error == ! valid, "range-error", fmt ("magnitude of frames %zu + %zu of %zux%zu was %s", start, count, channels, frames, error ? "refused" : "not refused"));
            if (valid) MC_REQUIRE (run, got == all, "magnitude", fmt ("magnitude of frames %zu + %zu is %g instead of %g", start, count, (double) got, (double) all));
            run.state (mc::Hash().add ((uint64_t) channels).add ((uint64_t) frames).add (shape).add ((uint64_t) start).add ((uint64_t) count));
        }

    bool error = throwsA<hart::IndexError> ([&] { constB.getMagnitude (SIZE_MAX, 0, 1); });
    MC_REQUIRE (run, error, "range-error", "channel SIZE_MAX was not refused");
    MC_REQUIRE (run, difference (toAudio (b), model).empty(), "content", "a magnitude changed the buffer");
}

// Bigger buffers, built by appending as the host does
template <typename T>
void growing (Run& run)
{
    const size_t channels = run.pick ({ (size_t) 1, (size_t) 2, (size_t) 3, (size_t) 16, (size_t) 128 }, "channels");
    const size_t block = run.pick ({ (size_t) 1, (size_t) 7, (size_t) 64, (size_t) 1000, (size_t) 40000 }, "block");
    const size_t blocks = run.pick ({ (size_t) 1, (size_t) 2, (size_t) 3, (size_t) 30 }, "blocks");
    if (channels * block * blocks > 3000000) return;
    hart::AudioBuffer<T> sum (channels);
    auto model = table<T> (channels, block * blocks);

    for (size_t k = 0; k < blocks; ++k)
    {
        hart::AudioBuffer<T> part (channels, block);
        fill (part, model, k * block);
        sum.appendFrom (part);
        run.step();
        MC_REQUIRE (run, sum.getNumFrames() == (k + 1) * block, "frames", "wrong length after appending");
        run.state (mc::Hash().add ((uint64_t) channels).add ((uint64_t) block).add ((uint64_t) k));
    }

    auto d = difference (toAudio (sum), model);
    MC_REQUIRE (run, d.empty(), "content", d);
    hart::AudioBuffer<T> copy (sum);
    sum[channels - 1][block * blocks - 1] = (T) 9;
    d = difference (toAudio (copy), model);
    MC_REQUIRE (run, d.empty(), "content", d);
    hart::AudioBuffer<T> moved (std::move (copy));
    d = difference (toAudio (moved), model);
    MC_REQUIRE (run, d.empty(), "content", d);
    MC_REQUIRE (run, copy.getNumFrames() == 0 && copy.getNumChannels() == channels, "moved-from", "the moved-from buffer is not empty");
    copy.appendFrom (moved);
    d = difference (toAudio (copy), model);
    MC_REQUIRE (run, d.empty(), "content", d);
}

template <typename T>
void body (Run& run, int scenario)
{
    switch (scenario)
    {
        case 0: return sequences<T> (run, { { 1, 2 }, { 2, 3 }, { 2, 1 } }, run.thorough ? 4 : 3);
        case 1: return sequences<T> (run, { { 2, 2 }, { 2, 1 } }, 4);
        case 2: return ranges<T> (run);
        case 3: return growing<T> (run);
    }
}

int main (int argc, char** argv)
{
    mc::Options o;
    o.id = "C17";
    o.unitDepthQuick = 4;
    o.unitDepthThorough = 4;
    return mc::main (argc, argv, o, [] (Run& run)
    {
        const int scenario = run.choose (4, "scenario");
        const bool wide = run.flag ("double");
        if (wide) body<double> (run, scenario); else body<float> (run, scenario);
    });
}
