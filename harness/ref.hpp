// What the checks have in common: the library under test, spies, and boring reference models.
#pragma once

#define HART_IMPLEMENTATION
#include "hart.hpp"

#include "mc.hpp"

namespace ref
{

using mc::fmt;

template <typename T>
using Audio = std::vector<std::vector<T>>;  // [channel][frame]

template <typename T>
Audio<T> silence (size_t channels, size_t frames) { return Audio<T> (channels, std::vector<T> (frames, (T) 0)); }

template <typename T>
Audio<T> toAudio (const hart::AudioBuffer<T>& b)
{
    Audio<T> a (b.getNumChannels());
    for (size_t c = 0; c < b.getNumChannels(); ++c)
        if (b.getNumFrames() > 0) a[c].assign (b[c], b[c] + b.getNumFrames());
    return a;
}

template <typename T>
void fill (hart::AudioBuffer<T>& b, const Audio<T>& a, size_t offset = 0)
{
    for (size_t c = 0; c < b.getNumChannels(); ++c)
        for (size_t f = 0; f < b.getNumFrames(); ++f) b[c][f] = a[c][offset + f];
}

template <typename T>
void append (Audio<T>& a, const hart::AudioBuffer<T>& b)
{
    if (a.empty()) a.resize (b.getNumChannels());
    for (size_t c = 0; c < a.size() && c < b.getNumChannels(); ++c)
        if (b.getNumFrames() > 0) a[c].insert (a[c].end(), b[c], b[c] + b.getNumFrames());
}

inline bool close (double a, double b, double tolerance)
{
    if (std::isnan (a) || std::isnan (b)) return std::isnan (a) && std::isnan (b);
    if (a == b) return true;
    return std::abs (a - b) <= tolerance * std::max (1.0, std::abs (b));
}

// Empty if both are the same, else where they differ. Exact when tolerance is zero.
template <typename T>
std::string difference (const Audio<T>& got, const Audio<T>& want, double tolerance = 0)
{
    if (got.size() != want.size()) return fmt ("%zu channels instead of %zu", got.size(), want.size());

    for (size_t c = 0; c < want.size(); ++c)
    {
        if (got[c].size() != want[c].size()) return fmt ("channel %zu has %zu frames instead of %zu", c, got[c].size(), want[c].size());

        for (size_t f = 0; f < want[c].size(); ++f)
            if (! close ((double) got[c][f], (double) want[c][f], tolerance))
                return fmt ("channel %zu frame %zu is %.12g instead of %.12g", c, f, (double) got[c][f], (double) want[c][f]);
    }

    return {};
}

// Non-zero dyadic values in (-1, 1), different for neighbouring frames and channels
inline double tableValue (size_t channel, size_t frame)
{
    uint64_t x = (channel + 1) * 0x9e3779b97f4a7c15ull + (frame + 1) * 0xbf58476d1ce4e5b9ull;
    x ^= x >> 29; x *= 0x94d049bb133111ebull; x ^= x >> 32;
    const int v = (int) (x % 254) - 127;
    return (v >= 0 ? v + 1 : v) / 128.0;
}

template <typename T>
Audio<T> table (size_t channels, size_t frames)
{
    auto a = silence<T> (channels, frames);
    for (size_t c = 0; c < channels; ++c)
        for (size_t f = 0; f < frames; ++f) a[c][f] = (T) tableValue (c, f);
    return a;
}

// Plays what it is given (silence afterwards)
template <typename T>
class Play : public hart::Signal<T>
{
public:
    explicit Play (std::shared_ptr<const Audio<T>> a): audio (std::move (a)) {}
    explicit Play (const Audio<T>& a): audio (std::make_shared<Audio<T>> (a)) {}

    void prepare (double, size_t, size_t) override {}
    void renderNextBlock (hart::AudioBuffer<T>& output) override
    {
        for (size_t f = 0; f < output.getNumFrames(); ++f, ++position)
            for (size_t c = 0; c < output.getNumChannels(); ++c)
                output[c][f] = c < audio->size() && position < (*audio)[c].size() ? (*audio)[c][position] : (T) 0;
    }
    void reset() override { position = 0; }
    void represent (std::ostream& stream) const override { stream << "Play()"; }
    std::unique_ptr<hart::Signal<T>> copy() const override { return std::unique_ptr<hart::Signal<T>> (new Play (*this)); }
    std::unique_ptr<hart::Signal<T>> move() override { return std::unique_ptr<hart::Signal<T>> (new Play (std::move (*this))); }

private:
    std::shared_ptr<const Audio<T>> audio;
    size_t position = 0;
};

// Passes audio through (mono to any, or same number of channels, or the first channels)
template <typename T>
class Through : public hart::DSP<T>
{
public:
    void prepare (double, size_t, size_t, size_t) override {}
    void process (const hart::AudioBuffer<T>& input, hart::AudioBuffer<T>& output, const hart::EnvelopeBuffers&) override
    {
        for (size_t c = 0; c < output.getNumChannels(); ++c)
            for (size_t f = 0; f < output.getNumFrames(); ++f)
                output[c][f] = input[std::min (c, input.getNumChannels() - 1)][f];
    }
    void reset() override {}
    void setValue (int, double) override {}
    double getValue (int) const override { return 0; }
    bool supportsChannelLayout (size_t, size_t) const override { return true; }
    void represent (std::ostream& stream) const override { stream << "Through()"; }
    std::unique_ptr<hart::DSP<T>> copy() const override { return std::unique_ptr<hart::DSP<T>> (new Through (*this)); }
    std::unique_ptr<hart::DSP<T>> move() override { return std::unique_ptr<hart::DSP<T>> (new Through (std::move (*this))); }
};

// Matcher which gets the whole output and keeps a copy of it
template <typename T>
class Capture : public hart::Matcher<T>
{
public:
    explicit Capture (Audio<T>* a): audio (a) {}
    void prepare (double, size_t, size_t) override {}
    bool match (const hart::AudioBuffer<T>& observed) override { *audio = toAudio (observed); return true; }
    bool canOperatePerBlock() override { return false; }
    void reset() override {}
    hart::MatcherFailureDetails getFailureDetails() const override { return {}; }
    void represent (std::ostream& stream) const override { stream << "Capture()"; }
    std::unique_ptr<hart::Matcher<T>> copy() const override { return std::unique_ptr<hart::Matcher<T>> (new Capture (*this)); }
    std::unique_ptr<hart::Matcher<T>> move() override { return std::unique_ptr<hart::Matcher<T>> (new Capture (*this)); }

private:
    Audio<T>* audio;
};

// The command line options, set explicitly and all of them, as they stay in a process-wide object
struct Cli
{
    std::string root = ".";
    uint64_t seed = 0;
    int lin = 6, db = 1, sec = 3, hz = 1, rad = 1;

    void apply() const
    {
        auto& config = hart::CLIConfig::getInstance();
        static bool initialised = false;
        if (! initialised) config.initCommandLineArgs();
        initialised = true;
        std::vector<std::string> args { "check", "--data-root-path", root, "--seed", std::to_string (seed), "--lin-decimals", std::to_string (lin),
            "--db-decimals", std::to_string (db), "--sec-decimals", std::to_string (sec), "--hz-decimals", std::to_string (hz), "--rad-decimals", std::to_string (rad) };
        std::vector<char*> argv;
        for (auto& a : args) argv.push_back (&a[0]);
        config.getCLIApp().parse ((int) argv.size(), argv.data());
    }
};

// -- Envelopes

enum class Shape { linear, exponential, sCurve };

struct Segment { bool hold; double target; double frames; Shape shape; };  // duration in frames of the given rate

struct Curve
{
    double start = 0;
    std::vector<Segment> segments;

    // Value at `time` (in the unit of the durations). `*nearBorder` tells that rounding may move it across a border.
    double at (double time, bool* nearBorder = nullptr, double borderWidth = 1e-7) const
    {
        double begin = start, segmentStart = 0;
        if (nearBorder) *nearBorder = false;

        for (const auto& s : segments)
        {
            const double target = s.hold ? begin : s.target;
            const double end = segmentStart + s.frames;

            if (nearBorder && s.frames > 0 && borderWidth > 0 && std::abs (time - end) < borderWidth) *nearBorder = true;

            if (time < end)
            {
                const double t = (time - segmentStart) / s.frames;
                if (s.hold) return begin;
                if (s.shape == Shape::linear) return begin + (target - begin) * t;
                if (s.shape == Shape::sCurve) return begin + (target - begin) * (3 * t * t - 2 * t * t * t);
                return begin * std::pow (target / begin, t);
            }

            begin = target;
            segmentStart = end;
        }

        return begin;
    }

    // One frame lasts `secondsPerUnit` seconds
    hart::SegmentedEnvelope make (double secondsPerUnit) const
    {
        hart::SegmentedEnvelope e (start);

        for (const auto& s : segments)
        {
            if (s.hold) e.hold (s.frames * secondsPerUnit);
            else if (s.shape == Shape::linear) e.rampTo (s.target, s.frames * secondsPerUnit, hart::SegmentedEnvelope::Shape::linear);
            else if (s.shape == Shape::exponential) e.rampTo (s.target, s.frames * secondsPerUnit, hart::SegmentedEnvelope::Shape::exponential);
            else e.rampTo (s.target, s.frames * secondsPerUnit, hart::SegmentedEnvelope::Shape::sCurve);
        }

        return e;
    }

    std::string str() const
    {
        std::string s = fmt ("envelope(%g)", start);
        for (const auto& x : segments)
            s += x.hold ? fmt (".hold(%g)", x.frames) : fmt (".ramp(%g,%g,%s)", x.target, x.frames, x.shape == Shape::linear ? "linear" : x.shape == Shape::exponential ? "exponential" : "sCurve");
        return s;
    }
};

// -- Rendering

// Renders a signal in blocks of the given lengths; it has to be reset and prepared already
template <typename T>
Audio<T> render (hart::Signal<T>& signal, size_t channels, const std::vector<size_t>& blocks)
{
    Audio<T> audio (channels);
    for (size_t n : blocks)
    {
        hart::AudioBuffer<T> block (channels, n);
        signal.renderNextBlockWithDSPChain (block);
        append (audio, block);
    }
    return audio;
}

inline std::vector<size_t> uniformBlocks (size_t frames, size_t blockSize)
{
    std::vector<size_t> blocks;
    for (size_t done = 0; done < frames;)
    {
        blocks.push_back (std::min (blockSize, frames - done));
        done += blocks.back();
    }
    return blocks;
}

template <typename T>
Audio<T> renderFresh (hart::Signal<T>& signal, double sampleRate, size_t channels, size_t frames, size_t blockSize)
{
    signal.resetWithDSPChain();
    signal.prepareWithDSPChain (sampleRate, channels, blockSize);
    return render (signal, channels, uniformBlocks (frames, blockSize));
}

// Runs an effect on audio in uniform blocks
template <typename T>
Audio<T> runEffect (hart::DSP<T>& dsp, const Audio<T>& input, double sampleRate, size_t outputChannels, size_t blockSize)
{
    const size_t frames = input.empty() ? 0 : input[0].size();
    dsp.resetWithEnvelopes();
    dsp.prepareWithEnvelopes (sampleRate, input.size(), outputChannels, blockSize);
    Audio<T> output (outputChannels);
    size_t offset = 0;
    for (size_t n : uniformBlocks (frames, blockSize))
    {
        hart::AudioBuffer<T> in (input.size(), n), out (outputChannels, n);
        fill (in, input, offset);
        dsp.processWithEnvelopes (in, out);
        append (output, out);
        offset += n;
    }
    return output;
}

// -- Files

inline std::string readFile (const std::string& path, bool* exists = nullptr)
{
    std::string s;
    FILE* f = fopen (path.c_str(), "rb");
    if (exists) *exists = f != nullptr;
    if (f == nullptr) return s;
    char buf[65536];
    size_t n;
    while ((n = fread (buf, 1, sizeof buf, f)) > 0) s.append (buf, n);
    fclose (f);
    return s;
}

inline void writeFile (const std::string& path, const std::string& data)
{
    if (FILE* f = fopen (path.c_str(), "wb"))
    {
        fwrite (data.data(), 1, data.size(), f);
        fclose (f);
    }
}

inline bool exists (const std::string& path) { struct stat s; return stat (path.c_str(), &s) == 0; }

// A directory of this process, below the scratch directory of the run, made once per process
inline const std::string& workDir()
{
    static std::string dir;
    static pid_t owner = 0;
    if (owner != getpid())
    {
        owner = getpid();
        dir = mc::scratchDir() + fmt ("/work.%d", (int) getpid());
        mkdir (dir.c_str(), 0755);
    }
    return dir;
}

// A wav file, parsed without the library's help
struct Wav
{
    bool ok = false;
    std::string error;
    unsigned format = 0, channels = 0, rate = 0, bits = 0, blockAlign = 0, byteRate = 0;
    size_t frames = 0;
    std::vector<std::vector<int64_t>> codes;   // integer formats
    std::vector<std::vector<float>> floats;    // float format
};

inline uint32_t le (const std::string& s, size_t at, int bytes)
{
    uint32_t v = 0;
    for (int i = 0; i < bytes; ++i) v |= (uint32_t) (unsigned char) s[at + (size_t) i] << (8 * i);
    return v;
}

inline Wav parseWav (const std::string& s)
{
    Wav w;
    if (s.size() < 12 || s.compare (0, 4, "RIFF") != 0 || s.compare (8, 4, "WAVE") != 0) { w.error = "not a RIFF/WAVE file"; return w; }
    if (le (s, 4, 4) + 8 != s.size()) { w.error = fmt ("RIFF size is %u for a file of %zu bytes", le (s, 4, 4), s.size()); return w; }
    size_t at = 12;
    bool haveFormat = false, haveData = false;

    while (at + 8 <= s.size())
    {
        const std::string id = s.substr (at, 4);
        const size_t size = le (s, at + 4, 4);
        const size_t body = at + 8;
        if (body + size > s.size()) { w.error = "chunk " + id + " exceeds the file"; return w; }

        if (id == "fmt ")
        {
            if (size < 16) { w.error = "short fmt chunk"; return w; }
            w.format = le (s, body, 2); w.channels = le (s, body + 2, 2); w.rate = le (s, body + 4, 4);
            w.byteRate = le (s, body + 8, 4); w.blockAlign = le (s, body + 12, 2); w.bits = le (s, body + 14, 2);
            haveFormat = true;
        }
        else if (id == "data")
        {
            if (! haveFormat || haveData) { w.error = "unexpected data chunk"; return w; }
            haveData = true;
            if (w.channels == 0 || w.bits == 0 || w.bits % 8 != 0 || w.blockAlign != w.channels * w.bits / 8 || w.byteRate != w.rate * w.blockAlign) { w.error = "inconsistent fmt chunk"; return w; }
            if (size % w.blockAlign != 0) { w.error = "data is not a whole number of frames"; return w; }
            w.frames = size / w.blockAlign;
            const int bytes = (int) w.bits / 8;
            if (w.format == 1) w.codes.assign (w.channels, std::vector<int64_t> (w.frames));
            else if (w.format == 3 && w.bits == 32) w.floats.assign (w.channels, std::vector<float> (w.frames));
            else { w.error = "unknown format"; return w; }

            for (size_t f = 0; f < w.frames; ++f)
                for (size_t c = 0; c < w.channels; ++c)
                {
                    const uint32_t u = le (s, body + f * w.blockAlign + c * (size_t) bytes, bytes);
                    if (w.format == 3) memcpy (&w.floats[c][f], &u, 4);
                    else w.codes[c][f] = bytes == 4 ? (int64_t) (int32_t) u : (int64_t) (((int32_t) (u << (32 - w.bits))) >> (32 - w.bits));
                }
        }

        at = body + size + (size & 1);
    }

    if (! haveFormat || ! haveData) { w.error = "no fmt or data chunk"; return w; }
    w.ok = true;
    return w;
}

// Makes a wav file of raw little endian sample bytes, without the library's help
inline std::string makeWav (unsigned format, unsigned channels, unsigned rate, unsigned bits, const std::string& data)
{
    auto put = [] (uint32_t v, int bytes) { std::string s; for (int i = 0; i < bytes; ++i) s += (char) (v >> (8 * i)); return s; };
    std::string s = "RIFF" + put ((uint32_t) (36 + data.size() + (data.size() & 1)), 4) + "WAVEfmt " + put (16, 4) + put (format, 2) + put (channels, 2) + put (rate, 4)
        + put (rate * channels * bits / 8, 4) + put (channels * bits / 8, 2) + put (bits, 2) + "data" + put ((uint32_t) data.size(), 4) + data;
    if (data.size() & 1) s += '\0';
    return s;
}

template <typename T> const char* typeName();
template <> inline const char* typeName<float>() { return "float"; }
template <> inline const char* typeName<double>() { return "double"; }

// Calls `call`, returns whether it threw, and what
template <typename F>
bool throws (F&& call, std::string* what = nullptr)
{
    try { call(); }
    catch (const mc::Violation&) { throw; }
    catch (const mc::Skip&) { throw; }
    catch (const std::exception& e) { if (what) *what = e.what(); return true; }
    catch (...) { if (what) *what = "unknown exception"; return true; }
    return false;
}

template <typename E, typename F>
bool throwsA (F&& call)
{
    try { call(); }
    catch (const E&) { return true; }
    return false;
}

}  // namespace ref
