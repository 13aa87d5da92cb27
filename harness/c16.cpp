// C16: output files are written exactly when requested, complete and at the right path
#include "svg.hpp"
#include "stock.hpp"

#include <dirent.h>

using namespace stock;
using mc::Run;
using hart::Save;

// Everything below a directory
static void snapshot (const std::string& dir, const std::string& prefix, std::map<std::string, std::string>& files)
{
    if (DIR* d = opendir (dir.c_str()))
    {
        while (auto* e = readdir (d))
        {
            const std::string name = e->d_name;
            if (name == "." || name == "..") continue;
            const std::string path = dir + "/" + name;
            struct stat s;
            if (lstat (path.c_str(), &s) != 0) continue;
            if (S_ISDIR (s.st_mode)) { files[prefix + name + "/"] = ""; snapshot (path, prefix + name + "/", files); }
            else files[prefix + name] = readFile (path);
        }
        closedir (d);
    }
}

static void clear (const std::string& dir)
{
    if (DIR* d = opendir (dir.c_str()))
    {
        while (auto* e = readdir (d))
        {
            const std::string name = e->d_name;
            if (name == "." || name == "..") continue;
            const std::string path = dir + "/" + name;
            struct stat s;
            if (lstat (path.c_str(), &s) != 0) continue;
            if (S_ISDIR (s.st_mode)) { clear (path); rmdir (path.c_str()); }
            else unlink (path.c_str());
        }
        closedir (d);
    }
}

struct Request { int path; Save mode; int format; };   // path: 0 empty

static const char* modeNames[] = { "always", "when fails", "never" };
static const char* outcomeNames[] = { "no checks", "passing checks", "expectation fails in the first block", "expectation fails in the last block", "inverted expectation fails", "assertion fails in the first block",
    "assertion fails in the last block", "inverted assertion fails", "whole signal expectation fails", "whole signal assertion fails", "one of several expectations fails", "expectation and assertion fail", "all kinds pass",
    "refused: no signal", "refused: layout" };
constexpr int numOutcomes = 15;

// Fails at a given frame
template <typename T>
class FailsAt : public hart::Matcher<T>
{
public:
    FailsAt (size_t frame, bool perBlock): failing (frame), blockwise (perBlock) {}
    void prepare (double, size_t, size_t) override {}
    bool match (const hart::AudioBuffer<T>& b) override { const size_t from = position; position += b.getNumFrames(); where = failing - from; return ! (from <= failing && failing < position); }
    bool canOperatePerBlock() override { return blockwise; }
    void reset() override { position = 0; }
    hart::MatcherFailureDetails getFailureDetails() const override { hart::MatcherFailureDetails d; d.frame = where; d.channel = 0; d.description = "here"; return d; }
    void represent (std::ostream& stream) const override { stream << "FailsAt()"; }
    std::unique_ptr<hart::Matcher<T>> copy() const override { return std::unique_ptr<hart::Matcher<T>> (new FailsAt (*this)); }
    std::unique_ptr<hart::Matcher<T>> move() override { return std::unique_ptr<hart::Matcher<T>> (new FailsAt (std::move (*this))); }
private:
    size_t failing, position = 0, where = 0;
    bool blockwise;
};

template <typename T>
static void test (Run& run)
{
    const int outcome = run.choose (numOutcomes, "outcome");
    const bool manyWavs = run.flag ("more wavs than plots");
    std::vector<Request> wavs, plots;
    const auto list = [&] (std::vector<Request>& l, int most)
    {
        const int count = run.choose (most + 1, "requests");
        for (int i = 0; i < count; ++i)
        {
            // Paths: empty, relative, absolute, in a subdirectory; for two requests also the same one twice
            const int path = run.choose (4, "path");
            if (path == 0) { l.push_back ({ 0, i % 2 ? Save::always : Save::never, 0 }); continue; }
            l.push_back ({ path, (Save) run.choose (3, "mode"), 0 });
        }
    };
    list (wavs, manyWavs ? 2 : 1);
    list (plots, manyWavs ? 1 : 2);
    if (manyWavs && wavs.size() < 2) return;   // part of the others
    if (wavs.size() + plots.size() > 2 || wavs.size() > 1 || plots.size() > 1) run.maxDeviations = run.thorough ? 1 : 0;

    const bool stale = run.devFlag ("stale files");
    const int root = run.dev (4, "root");
    const size_t block = run.devPick ({ (size_t) 5, (size_t) 1, (size_t) 12, (size_t) 40 }, "block size");
    const size_t frames = run.devPick ({ (size_t) 12, (size_t) 1, (size_t) 300 }, "frames");
    const auto layout = run.devPick (std::vector<std::pair<size_t, size_t>> { { 2, 2 }, { 1, 1 }, { 1, 3 }, { 16, 8 } }, "layout");
    const int formatDeviation = run.dev (4, "format");
    const bool plotsFirst = run.devFlag ("plots first");
    const int twice = run.dev (2, "history");
    if (! wavs.empty()) wavs.back().format = formatDeviation;

    const std::string top = workDir() + "/tree";
    clear (top);
    for (const char* d : { "", "/root", "/root/sub", "/elsewhere", "/cwd", "/cwd/sub" }) mkdir ((top + d).c_str(), 0755);
    if (chdir ((top + "/cwd").c_str()) != 0) run.fail ("chdir", "chdir");
    Cli cli;
    const char* rootName = "root/";
    if (root == 0) cli.root = top + "/root";
    if (root == 1) { cli.root = "."; rootName = "cwd/"; }
    if (root == 2) cli.root = "../root";
    if (root == 3) cli.root = top + "/root/";
    cli.apply();

    // Where a request ends up within the tree
    const auto place = [&] (const Request& r, const char* name)
    {
        return r.path == 1 ? rootName + std::string (name) : r.path == 2 ? std::string ("elsewhere/") + name : std::string (rootName) + "sub/" + name;
    };
    const auto path = [&] (const Request& r, const char* name)
    {
        return r.path == 0 ? std::string() : r.path == 1 ? std::string (name) : r.path == 2 ? top + "/elsewhere/" + name : std::string ("sub/") + name;
    };
    if (stale)
        for (const char* d : { "/root", "/root/sub", "/elsewhere", "/cwd", "/cwd/sub" })
            for (const char* name : { "out.wav", "out.svg", "other" }) writeFile (top + d + "/" + name, "stale " + std::string (20000, 'x'));

    const double rate = 8000;
    const auto input = table<T> (layout.first, frames);
    auto output = silence<T> (layout.second, frames);
    for (size_t c = 0; c < layout.second; ++c) output[c] = input[std::min (c, layout.first - 1)];

    std::string history = fmt ("%s, %zu frames in blocks of %zu", outcomeNames[outcome], frames, block);
    bool refused = outcome >= 13;
    const bool fails = (outcome >= 2 && outcome <= 11);
    const bool asserts = outcome == 5 || outcome == 6 || outcome == 7 || outcome == 9 || outcome == 11;
    const size_t last = frames - 1;
    using hart::PeaksBelow;

    class Mono : public Through<T> { public: bool supportsChannelLayout (size_t, size_t) const override { return false; } std::unique_ptr<hart::DSP<T>> copy() const override { return std::unique_ptr<hart::DSP<T>> (new Mono (*this)); } std::unique_ptr<hart::DSP<T>> move() override { return copy(); } };
    std::unique_ptr<hart::DSP<T>> dsp (new Through<T>());
    if (outcome == 14) dsp.reset (new Mono());

    if (twice)
    {
        // An earlier test of the same process, with requests of its own
        throws ([&] { hart::processAudioWith (Through<T>()).withInputSignal (hart::SineWave<T> (1000)).withDuration (7 / 44100.0).saveOutputTo (top + "/elsewhere/before.wav").savePlotTo (top + "/elsewhere/before.svg").expectTrue (FailsAt<T> (0, true)).process(); });
        hart::ExpectationFailureMessages::clear();
    }
    std::map<std::string, std::string> before, after;
    snapshot (top, "", before);

    {
        hart::AudioTestBuilder<T> host (std::move (dsp));
        const auto requestWavs = [&]
        {
            for (auto& r : wavs)
            {
                const std::string p = path (r, "out.wav");
                history += fmt (", wav %s %s", p.c_str(), modeNames[(int) r.mode]);
                if (r.format == 1) host.saveOutputTo (p, r.mode, hart::WavFormat::pcm16);
                else if (r.format == 2) host.saveOutputTo (p, r.mode, hart::WavFormat::float32);
                else if (r.mode == Save::always && r.format == 0) host.saveOutputTo (p);
                else host.saveOutputTo (p, r.mode);
            }
        };
        const auto requestPlots = [&]
        {
            for (auto& r : plots)
            {
                const std::string p = path (r, "out.svg");
                history += fmt (", plot %s %s", p.c_str(), modeNames[(int) r.mode]);
                if (r.mode == Save::always) host.savePlotTo (p); else host.savePlotTo (p, r.mode);
            }
        };
        if (plotsFirst) { requestPlots(); requestWavs(); } else { requestWavs(); requestPlots(); }
        host.withSampleRate (rate).withBlockSize (block).withInputChannels (layout.first).withOutputChannels (layout.second).withDuration ((double) frames / rate);
        if (outcome != 13) host.withInputSignal (Play<T> (input));
        switch (outcome)
        {
            case 1: host.expectTrue (FailsAt<T> (frames, true)); break;
            case 2: host.expectTrue (FailsAt<T> (0, true)); break;
            case 3: host.expectTrue (FailsAt<T> (last, true)); break;
            case 4: host.expectFalse (PeaksBelow<T> (20)); break;
            case 5: host.assertTrue (FailsAt<T> (0, true)); break;
            case 6: host.assertTrue (FailsAt<T> (last, true)); break;
            case 7: host.assertFalse (PeaksBelow<T> (20)); break;
            case 8: host.expectTrue (FailsAt<T> (last / 2, false)); break;
            case 9: host.assertTrue (FailsAt<T> (0, false)); break;
            case 10: host.expectTrue (PeaksBelow<T> (20)).expectTrue (FailsAt<T> (last, true)).expectTrue (FailsAt<T> (frames, true)).expectFalse (PeaksBelow<T> (-100)); break;
            case 11: host.expectTrue (FailsAt<T> (0, true)).assertFalse (PeaksBelow<T> (20)); break;
            case 12: host.expectTrue (PeaksBelow<T> (20)).expectFalse (PeaksBelow<T> (-100)).assertTrue (FailsAt<T> (frames, true)).assertFalse (FailsAt<T> (0, false)).expectTrue (FailsAt<T> (frames, false)); break;
            default: break;
        }
        const bool threw = throws ([&] { host.process(); });
        const bool recorded = ! hart::ExpectationFailureMessages::get().empty();
        hart::ExpectationFailureMessages::clear();
        run.step();
        MC_REQUIRE (run, threw == (asserts || refused), "outcome", history + (threw ? " throws" : " does not throw"));
        MC_REQUIRE (run, recorded == (fails && (! asserts || outcome == 11)), "recorded", history + (recorded ? " records a failure" : " records no failure"));
    }

    snapshot (top, "", after);
    std::map<std::string, int> expected;   // 1: wav, 2: plot
    const Request* wav = nullptr;
    const Request* plotRequest = nullptr;
    for (auto& r : wavs) if (r.path) wav = &r;
    for (auto& r : plots) if (r.path) plotRequest = &r;
    const auto due = [&] (const Request* r) { return r != nullptr && ! refused && (r->mode == Save::always || (r->mode == Save::whenFails && fails)); };
    if (due (wav)) expected[place (*wav, "out.wav")] = 1;
    if (due (plotRequest)) expected[place (*plotRequest, "out.svg")] = 2;

    for (auto& f : before)
    {
        MC_REQUIRE (run, after.count (f.first), "removed", history + ": " + f.first + " is gone");
        if (! expected.count (f.first)) MC_REQUIRE (run, after[f.first] == f.second, "changed", history + ": " + f.first + " got changed");
    }
    for (auto& f : after)
        MC_REQUIRE (run, before.count (f.first) || expected.count (f.first), "created", history + ": " + f.first + " got created");
    for (auto& e : expected)
    {
        MC_REQUIRE (run, after.count (e.first), "missing", history + ": " + e.first + " is missing");
        const auto& data = after[e.first];
        if (e.second == 2)
        {
            const auto wrong = svg::judge (data, input, output, rate);
            MC_REQUIRE (run, wrong.empty(), "plot", history + ": " + wrong);
            continue;
        }
        const auto w = parseWav (data);
        static const unsigned bits[] = { 24, 16, 32, 24 };
        static const double scales[] = { 8388607, 32767, 1, 8388607 };
        const int format = wav->format;
        MC_REQUIRE (run, w.ok, "wav", history + ": " + w.error);
        MC_REQUIRE (run, w.bits == bits[format] && w.format == (format == 2 ? 3u : 1u) && w.rate == rate && w.channels == layout.second, "wav format", history + ": wrong format");
        MC_REQUIRE (run, w.frames == frames, "wav length", history + fmt (": the wav file has %zu frames", w.frames));
        for (size_t c = 0; c < layout.second; ++c)
            for (size_t f = 0; f < frames; ++f)
            {
                const double got = format == 2 ? (double) w.floats[c][f] : (double) w.codes[c][f] / scales[format];
                MC_REQUIRE (run, std::abs (got - (double) output[c][f]) < 1e-4, "wav sample", history + fmt (": channel %zu frame %zu is %.9g", c, f, got));
            }
    }

    mc::Hash h;
    h.add (outcome).add (stale).add (root).add ((uint64_t) block).add ((uint64_t) frames).add ((uint64_t) layout.first).add ((uint64_t) layout.second);
    for (auto& r : wavs) h.add (r.path).add ((int) r.mode).add (r.format);
    h.add ((uint64_t) wavs.size());
    for (auto& r : plots) h.add (r.path).add ((int) r.mode);
    run.state (h);
}

int main (int argc, char** argv)
{
    mc::Options o;
    o.id = "C16";
    o.unitDepthQuick = 5;
    o.unitDepthThorough = 6;
    o.maxDeviationsQuick = 1;
    o.maxDeviationsThorough = 2;
    return mc::main (argc, argv, o, [] (Run& run)
    {
        if (run.flag ("double")) test<double> (run); else test<float> (run);
    });
}
