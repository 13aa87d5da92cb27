// C14: wav file signals play the file back, then loop or fall silent
#include "stock.hpp"

using namespace stock;
using mc::Run;

enum Format { pcm16, pcm24, pcm32, float32, pcm8 };
static const char* formatNames[] = { "16 bit", "24 bit", "32 bit", "float", "8 bit" };

// A sample of the test files
static double sample (size_t channel, size_t frame, size_t variant)
{
    if (frame % 11 == 10) return (channel + frame / 11) % 2 ? -1.0 : 127.0 / 128;
    return tableValue (channel + 131 * variant, frame);
}

// Extra chunks, before or after the audio
static std::string file (Format format, unsigned channels, unsigned rate, size_t frames, size_t variant = 0, int extra = 0)
{
    std::string data;
    for (size_t f = 0; f < frames; ++f)
        for (unsigned c = 0; c < channels; ++c)
        {
            const double x = sample (c, f, variant);
            if (format == float32)
            {
                const float y = (float) (x * 1.5);   // beyond full scale as well
                data.append (reinterpret_cast<const char*> (&y), 4);
                continue;
            }
            const int bytes = format == pcm16 ? 2 : format == pcm24 ? 3 : format == pcm32 ? 4 : 1;
            const int64_t v = format == pcm8 ? (int64_t) (x * 128) + 128 : (int64_t) (x * (double) (1ll << (8 * bytes - 1)));
            for (int i = 0; i < bytes; ++i) data += (char) (v >> (8 * i));
        }
    static const unsigned bits[] = { 16, 24, 32, 32, 8 };
    std::string s = makeWav (format == float32 ? 3 : 1, channels, rate, bits[format], data);
    const std::string chunk = std::string ("junk") + '\4' + '\0' + '\0' + '\0' + "data";
    if (extra == 1) s.insert (12, chunk);
    if (extra == 2) s.insert (36, chunk);
    if (extra == 3) s += chunk;
    if (extra != 0)
        for (int i = 0; i < 4; ++i) s[(size_t) (4 + i)] = (char) ((s.size() - 8) >> (8 * i));
    return s;
}

static double wanted (Format format, size_t channel, size_t frame, size_t variant) { return format == float32 ? sample (channel, frame, variant) * 1.5 : sample (channel, frame, variant); }

template <typename T>
static void judge (Run& run, const Audio<T>& got, Format format, size_t channels, size_t fileFrames, bool loop, size_t position, size_t frames, const std::string& what, size_t variant = 0)
{
    run.step();
    MC_REQUIRE (run, got.size() == channels, "channels", what + fmt (": %zu channels", got.size()));
    const double tolerance = format == pcm8 ? 0.01 : 1e-7;
    for (size_t c = 0; c < channels; ++c)
    {
        MC_REQUIRE (run, got[c].size() == frames, "frames", what + fmt (": %zu frames", got[c].size()));
        for (size_t f = 0; f < frames; ++f)
        {
            const size_t p = position + f;
            const double want = p < fileFrames || loop ? wanted (format, c, p % fileFrames, variant) : 0;
            MC_REQUIRE (run, std::abs ((double) got[c][f] - want) <= (p < fileFrames || loop ? tolerance : 0), "sample", what + fmt (": channel %zu frame %zu is %.12g instead of %.12g", c, p, (double) got[c][f], want));
        }
    }
}

template <typename T> static typename hart::WavFile<T>::Loop loopMode (bool loop) { return loop ? hart::WavFile<T>::Loop::yes : hart::WavFile<T>::Loop::no; }

template <typename T>
static Audio<T> renderOver (hart::Signal<T>& signal, size_t channels, const std::vector<size_t>& blocks)
{
    Audio<T> audio (channels);
    for (size_t n : blocks)
    {
        hart::AudioBuffer<T> block (channels, n);
        for (size_t c = 0; c < channels; ++c) for (size_t f = 0; f < n; ++f) block[c][f] = (T) 77;
        signal.renderNextBlockWithDSPChain (block);
        append (audio, block);
    }
    return audio;
}

template <typename T>
static Audio<T> renderHosted (const hart::Signal<T>& signal, double rate, size_t channels, size_t frames, size_t blockSize)
{
    Audio<T> got;
    hart::processAudioWith (Through<T>()).withSampleRate (rate).withInputChannels (channels).withOutputChannels (channels).withDuration ((double) frames / rate)
        .withBlockSize (blockSize).withInputSignal (signal).expectTrue (Capture<T> (&got)).process();
    return got;
}

static std::string scratchFile (const std::string& data)
{
    const std::string path = workDir() + "/file.wav";
    writeFile (path, data);
    return path;
}

// All the formats, layouts, lengths, and splits
template <typename T>
static void contents (Run& run)
{
    const auto format = (Format) run.choose (5, "format");
    const unsigned fileChannels = run.pick ({ 1u, 2u, 3u, 8u, 64u }, "channels");
    const size_t fileFrames = run.pick ({ (size_t) 1, (size_t) 2, (size_t) 3, (size_t) 7, (size_t) 8, (size_t) 23 }, "frames");
    const unsigned rate = run.pick ({ 44100u, 48000u, 8000u, 192000u, 12345u }, "rate");
    const int extra = run.choose (4, "extra chunk");
    const bool loop = run.flag ("loop");
    const size_t frames = fileFrames * 5 / 2 + 5;
    const std::string path = scratchFile (file (format, fileChannels, rate, fileFrames, 0, extra));
    hart::WavFile<T> signal (path, loopMode<T> (loop));
    unlink (path.c_str());   // all in memory by now
    const std::string what = fmt ("%s file of %zu frames, %u channels%s", formatNames[format], fileFrames, fileChannels, loop ? ", looped" : "");

    for (size_t channels = 1; channels <= fileChannels; channels = channels < 3 ? channels + 1 : channels * 2)
    {
        const size_t used = std::min ((size_t) fileChannels, channels);
        for (size_t block = 1; block <= frames + 2; block = block < 10 ? block + 1 : block * 2 + 1)
        {
            signal.resetWithDSPChain();
            signal.prepareWithDSPChain (rate, used, block);
            judge (run, renderOver<T> (signal, used, uniformBlocks (frames, block)), format, used, fileFrames, loop, 0, frames, what + fmt (", %zu channels in blocks of %zu", used, block));
        }
    }
    judge (run, renderHosted<T> (signal, rate, fileChannels, frames, 4), format, fileChannels, fileFrames, loop, 0, frames, what + " through the host");
    judge (run, renderHosted<T> (signal, rate, 1, frames, fileFrames), format, 1, fileFrames, loop, 0, frames, what + " through the host in mono");
    run.state (mc::Hash().add ((int) format).add ((uint64_t) fileChannels).add ((uint64_t) fileFrames).add ((uint64_t) rate).add (loop).add ((int) sizeof (T)).add (extra));
}

// Histories of blocks and resets
template <typename T>
static void histories (Run& run)
{
    const bool loop = run.flag ("loop");
    const size_t fileFrames = run.pick ({ (size_t) 1, (size_t) 3, (size_t) 4, (size_t) 6 }, "frames");
    static std::string path;
    static pid_t owner = 0;
    if (owner != getpid()) { owner = getpid(); path.clear(); }
    path = workDir() + fmt ("/history-%zu.wav", fileFrames);
    if (! exists (path)) writeFile (path, file (pcm16, 2, 1000, fileFrames));
    std::unique_ptr<hart::Signal<T>> signal (new hart::WavFile<T> (path, loopMode<T> (loop)));
    size_t channels = 2, position = 0;
    signal->prepareWithDSPChain (1000, channels, 8);
    std::string history = fmt ("%zu frames%s", fileFrames, loop ? ", looped" : "");
    for (int i = 0; i < (run.thorough ? 6 : 5); ++i)
    {
        const int op = run.choose (9, "operation");
        static const size_t lengths[] = { 1, 2, 3, 5, 8 };
        if (op < 5)
        {
            const auto audio = renderOver<T> (*signal, channels, { lengths[op] });
            history += fmt (", %zu frames", lengths[op]);
            if (run.fresh()) judge (run, audio, pcm16, channels, fileFrames, loop, position, lengths[op], history);
            position += lengths[op];
        }
        else if (op == 5) { signal->resetWithDSPChain(); position = 0; history += ", reset"; }
        else if (op == 6) { signal->resetWithDSPChain(); channels = 3 - channels; signal->prepareWithDSPChain (1000, channels, 8); position = 0; history += fmt (", %zu channels", channels); }
        else if (op == 7) { auto c = signal->copy(); renderOver<T> (*signal, channels, { 1 }); signal = std::move (c); signal->resetWithDSPChain(); position = 0; history += ", copy"; }
        else { signal = signal->move(); signal->resetWithDSPChain(); position = 0; history += ", move"; }
        run.state (mc::Hash().add (loop).add ((uint64_t) fileFrames).add ((uint64_t) channels).add ((uint64_t) (loop ? position % fileFrames : std::min (position, fileFrames))));
    }
}

template <typename T>
static void large (Run& run)
{
    struct Case { Format format; unsigned channels; size_t fileFrames, frames; };
    static const std::vector<Case> cases { { pcm16, 1, 100000, 150000 }, { pcm24, 2, 70000, 160000 }, { float32, 128, 1000, 2600 }, { pcm32, 127, 333, 1200 }, { pcm16, 128, 2, 5000 }, { pcm24, 1, 65536, 131073 }, { pcm16, 2, 44100, 88300 } };
    const auto& c = run.pick (cases, "case");
    const bool loop = run.flag ("loop");
    const size_t block = run.pick ({ (size_t) 1, (size_t) 100, (size_t) 1024, (size_t) 65536, (size_t) 200000 }, "block size");
    if (block == 1 && c.channels > 100 && ! run.thorough) return;
    hart::WavFile<T> signal (scratchFile (file (c.format, c.channels, 44100, c.fileFrames)), loopMode<T> (loop));
    for (int round = 0; round < 2; ++round)
    {
        signal.resetWithDSPChain();
        signal.prepareWithDSPChain (44100, c.channels, block);
        judge (run, renderOver<T> (signal, c.channels, uniformBlocks (c.frames, block)), c.format, c.channels, c.fileFrames, loop, 0, c.frames, fmt ("large file of %u channels, %zu frames in blocks of %zu", c.channels, c.fileFrames, block));
    }
    run.state (mc::Hash().add ((uint64_t) c.fileFrames).add ((uint64_t) c.channels).add (loop).add ((uint64_t) block).add ((int) sizeof (T)));
}

// An effect which counts
template <typename T>
class Counting : public Through<T>
{
public:
    explicit Counting (size_t* n): calls (n) {}
    void process (const hart::AudioBuffer<T>& in, hart::AudioBuffer<T>& out, const hart::EnvelopeBuffers& e) override { ++*calls; Through<T>::process (in, out, e); }
    std::unique_ptr<hart::DSP<T>> copy() const override { return std::unique_ptr<hart::DSP<T>> (new Counting (*this)); }
    std::unique_ptr<hart::DSP<T>> move() override { return std::unique_ptr<hart::DSP<T>> (new Counting (*this)); }
private:
    size_t* calls;
};

// More channels than there are, other rates
template <typename T>
static void mismatches (Run& run)
{
    const unsigned fileChannels = run.pick ({ 1u, 2u, 3u, 127u }, "file channels");
    const size_t channels = run.pick ({ (size_t) 1, (size_t) 2, (size_t) 3, (size_t) 4, (size_t) 127, (size_t) 128 }, "channels");
    const unsigned fileRate = run.pick ({ 44100u, 48000u, 8000u }, "file rate");
    const double rate = run.pick ({ 44100.0, 48000.0, 8000.0, 44101.0, 44100.5, 22050.0, 88200.0, 44099.0, 44100.001 }, "rate");
    const bool loop = run.flag ("loop");
    const bool fits = channels <= fileChannels && rate == fileRate;
    hart::WavFile<T> signal (scratchFile (file (pcm16, fileChannels, fileRate, 20)), loopMode<T> (loop));
    size_t calls = 0;
    Audio<T> got;
    const bool refused = throws ([&]
    {
        hart::processAudioWith (Counting<T> (&calls)).withSampleRate (rate).withInputChannels (channels).withOutputChannels (channels).withDuration (16 / rate).withBlockSize (5)
            .withInputSignal (signal).expectTrue (Capture<T> (&got)).process();
    });
    run.step();
    const std::string what = fmt ("file of %u channels at %u Hz for %zu channels at %.9g Hz", fileChannels, fileRate, channels, rate);
    MC_REQUIRE (run, refused == ! fits, "mismatch", what + (refused ? " is refused" : " is accepted"));
    if (fits) judge (run, got, pcm16, channels, 20, loop, 0, 16, what);
    else MC_REQUIRE (run, calls == 0 && got.empty(), "audio", what + " is refused after processing audio");
    const bool refusedDirectly = throws ([&] { signal.resetWithDSPChain(); signal.prepareWithDSPChain (rate, channels, 8); });
    MC_REQUIRE (run, refusedDirectly == ! fits, "mismatch directly", what + (refusedDirectly ? " is refused" : " is accepted"));
    if (! fits)
    {
        signal.resetWithDSPChain();
        signal.prepareWithDSPChain (fileRate, fileChannels, 8);
        judge (run, renderOver<T> (signal, fileChannels, { 8 }), pcm16, fileChannels, 20, loop, 0, 8, what + ", afterwards");
    }
    run.state (mc::Hash().add ((uint64_t) fileChannels).add ((uint64_t) channels).add ((uint64_t) fileRate).add (rate).add (loop));
}

// Data roots, directories and working directories with files of the same names
template <typename T>
static void paths (Run& run)
{
    const std::string top = workDir() + "/paths";
    static pid_t made = 0;
    // [ A/x.wav=1, A/sub/x.wav=2, B/x.wav=3, B/sub/x.wav=4, x.wav=5, sub/x.wav=6 ]
    static const char* places[] = { "A/x.wav", "A/sub/x.wav", "B/x.wav", "B/sub/x.wav", "x.wav", "sub/x.wav" };
    if (made != getpid())
    {
        made = getpid();
        for (const char* d : { "", "/A", "/A/sub", "/B", "/B/sub", "/sub" }) mkdir ((top + d).c_str(), 0755);
        for (size_t i = 0; i < 6; ++i) writeFile (top + "/" + places[i], file (pcm16, 1, 1000, 9, i + 1));
    }
    const int cwd = run.choose (3, "working directory");
    static const char* cwds[] = { "", "/A", "/B" };
    if (chdir ((top + cwds[cwd]).c_str()) != 0) run.fail ("chdir", "chdir");
    Cli cli;
    const int root = run.choose (8, "root");
    size_t base = 0;   // 0 is top, 1 is A, 2 is B
    switch (root)
    {
        case 0: cli.root = "."; base = (size_t) cwd; break;
        case 1: cli.root = top + "/A"; base = 1; break;
        case 2: cli.root = top + "/B"; base = 2; break;
        case 3: cli.root = top + "/A/"; base = 1; break;
        case 4: cli.root = top; base = 0; break;
        case 5: cli.root = cwd == 0 ? "B" : "../B"; base = 2; break;
        case 6: cli.root = cwd == 0 ? "./A" : "../A/."; base = 1; break;
        default: cli.root = top + "/nowhere"; base = 9; break;
    }
    cli.apply();
    const int what = run.choose (10, "path");
    std::string path;
    int want = -1;   // index of a file
    const auto under = [&] (size_t b, bool sub) { return b == 9 ? -1 : (int) (b == 0 ? 4 : b == 1 ? 0 : 2) + sub; };
    switch (what)
    {
        case 0: path = "x.wav"; want = under (base, false); break;
        case 1: path = "sub/x.wav"; want = under (base, true); break;
        case 2: path = "./x.wav"; want = under (base, false); break;
        case 3: path = "sub/../x.wav"; want = under (base, false); break;
        case 4: path = top + "/A/x.wav"; want = 0; break;
        case 5: path = top + "/B/sub/x.wav"; want = 3; break;
        case 6: path = top + "/x.wav"; want = 4; break;
        case 7: path = "y.wav"; break;
        case 8: path = top + "/A/y.wav"; break;
        default: path = "/x.wav"; want = exists ("/x.wav") ? -2 : -1; break;
    }
    const bool laterRoot = run.flag ("root changes afterwards");
    std::unique_ptr<hart::WavFile<T>> signal;
    std::string error;
    const bool refused = throws ([&] { signal.reset (new hart::WavFile<T> (path)); }, &error);
    if (laterRoot) { Cli other; other.root = top + "/sub"; other.apply(); }
    run.step();
    const std::string what2 = path + " with root " + cli.root + fmt (", working directory %d", cwd);
    MC_REQUIRE (run, refused == (want == -1), "resolved", what2 + (refused ? " is refused: " + error : " is found"));
    if (want >= 0)
    {
        signal->prepareWithDSPChain (1000, 1, 16);
        judge (run, renderOver<T> (*signal, 1, { 12 }), pcm16, 1, 9, false, 0, 12, what2, (size_t) want + 1);
    }
    run.state (mc::Hash().add (cwd).add (root).add (what));
}

// Files which are no wav files, and every incomplete one
template <typename T>
static void unreadable (Run& run)
{
    const int kind = run.choose (7, "kind");
    const std::string whole = file (kind == 1 ? pcm24 : kind == 2 ? float32 : pcm16, 2, 1000, 5);
    const std::string path = workDir() + "/unreadable.wav";
    bool mustFail = true;
    std::string data;
    std::string what;
    if (kind <= 2)
    {
        const int length = run.choose ((int) whole.size() + 1, "length");
        data = whole.substr (0, (size_t) length);
        mustFail = length < 44;
        what = fmt ("first %d bytes of a file of %zu", length, whole.size());
        if (length == (int) whole.size())
        {
            writeFile (path, data);
            hart::WavFile<T> signal (path);
            run.step();
            return;
        }
    }
    else if (kind == 3)
    {
        const int at = run.choose (16, "letter");
        const size_t position = (size_t) (at < 4 ? at : at < 8 ? 4 + at : at < 12 ? 4 + at : 24 + at);
        data = whole;
        data[position] = run.flag ("letter") ? 'x' : '\0';
        what = fmt ("wrong letter at %zu", position);
    }
    else if (kind == 4) { const int n = run.choose (5, "garbage"); data = n == 0 ? "" : n == 1 ? "hello" : n == 2 ? std::string (5000, '\0') : n == 3 ? std::string (5000, '\xff') : "<svg></svg>"; what = "garbage"; }
    else if (kind == 5) what = "directory";
    else what = "missing file";

    if (kind == 5) mkdir ((path + ".dir").c_str(), 0755);
    else if (kind < 5) writeFile (path, data);
    const std::string target = kind == 5 ? path + ".dir" : kind == 6 ? path + ".missing" : path;
    for (bool loop : { false, true })
    {
        std::unique_ptr<hart::WavFile<T>> signal;
        const bool refused = throws ([&] { signal.reset (new hart::WavFile<T> (target, loopMode<T> (loop))); });
        run.step();
        MC_REQUIRE (run, refused || ! mustFail, "accepted", what + " is accepted");
        if (! refused)
        {
            // Tolerated as long as what there is comes out right
            signal->prepareWithDSPChain (1000, 1, 5);
            Audio<T> audio { { (T) 0 } };
            throws ([&] { audio = renderOver<T> (*signal, 1, { 1 }); });
            const bool right = std::abs ((double) audio[0][0] - wanted (kind == 2 ? float32 : pcm16, 0, 0, 0)) < 1e-6 || audio[0][0] == 0;
            MC_REQUIRE (run, right, "wrong audio", what + " plays something else");
        }
    }
    run.state (mc::Hash().add (kind).add (what));
}

template <typename T>
static void all (Run& run)
{
    switch (run.choose (6, "mode"))
    {
        case 0: return contents<T> (run);
        case 1: return histories<T> (run);
        case 2: return large<T> (run);
        case 3: return mismatches<T> (run);
        case 4: return paths<T> (run);
        default: return unreadable<T> (run);
    }
}

int main (int argc, char** argv)
{
    mc::Options o;
    o.id = "C14";
    o.unitDepthQuick = 4;
    o.unitDepthThorough = 5;
    return mc::main (argc, argv, o, [] (Run& run)
    {
        Cli().apply();
        if (run.flag ("double")) all<double> (run); else all<float> (run);
    });
}
