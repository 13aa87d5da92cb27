// C22: a file which cannot be written completely is reported as an error
#include "runner.hpp"
#include "svg.hpp"
#include "stock.hpp"

#include <sys/resource.h>
#include <sys/socket.h>
#include <sys/un.h>

using namespace stock;
using mc::Run;
using hart::Save;
using hart::WavFormat;

// The process may not make files larger than this, as if the device was full
struct SizeLimit
{
    rlimit old;
    explicit SizeLimit (size_t bytes)
    {
        signal (SIGXFSZ, SIG_IGN);
        getrlimit (RLIMIT_FSIZE, &old);
        rlimit l = old;
        l.rlim_cur = bytes;
        setrlimit (RLIMIT_FSIZE, &l);
    }
    ~SizeLimit() { setrlimit (RLIMIT_FSIZE, &old); }
};

// No file can be opened any more
struct NoFiles
{
    rlimit old;
    NoFiles() { getrlimit (RLIMIT_NOFILE, &old); rlimit l = old; l.rlim_cur = 0; setrlimit (RLIMIT_NOFILE, &l); }
    ~NoFiles() { setrlimit (RLIMIT_NOFILE, &old); }
};

static const char* outcomeNames[] = { "no checks", "a failing expectation", "a failing expectation, files when it fails", "a passing expectation", "a failing assertion" };

struct Job
{
    bool wav = false, plot = false, plotFirst = false;
    WavFormat format = WavFormat::pcm24;
    size_t inputs = 1, outputs = 1, frames = 5;
    int outcome = 0;
    std::string wavPath, plotPath;

    std::string str() const { return fmt ("%s%s%s, %zu to %zu channels, %zu frames, %s", wav ? "wav file" : "", wav && plot ? " and " : "", plot ? "plot" : "", inputs, outputs, frames, outcomeNames[outcome]); }
};

// Whether an error was raised
template <typename T>
static bool save (const Job& job)
{
    hart::AudioTestBuilder<T> host { Through<T>() };
    const Save mode = job.outcome == 2 ? Save::whenFails : Save::always;
    if (job.plot && job.plotFirst) host.savePlotTo (job.plotPath, mode);
    if (job.wav) host.saveOutputTo (job.wavPath, mode, job.format);
    if (job.plot && ! job.plotFirst) host.savePlotTo (job.plotPath, mode);
    host.withSampleRate (8000).withBlockSize (job.frames > 100 ? 4096 : 7).withInputChannels (job.inputs).withOutputChannels (job.outputs).withDuration ((double) job.frames / 8000).withInputSignal (Play<T> (table<T> (job.inputs, job.frames)));
    if (job.outcome == 1 || job.outcome == 2) host.expectTrue (hart::PeaksBelow<T> (-100));
    if (job.outcome == 3) host.expectTrue (hart::PeaksBelow<T> (20));
    if (job.outcome == 4) host.assertTrue (hart::PeaksBelow<T> (-100));
    return throws ([&] { host.process(); });
}

// Empty if the files are complete
template <typename T>
static std::string incomplete (const Job& job)
{
    auto input = table<T> (job.inputs, job.frames);
    auto output = silence<T> (job.outputs, job.frames);
    for (size_t c = 0; c < job.outputs; ++c) output[c] = input[std::min (c, job.inputs - 1)];

    if (job.wav)
    {
        const auto w = parseWav (readFile (job.wavPath));
        if (! w.ok) return "the wav file: " + w.error;
        if (w.frames != job.frames || w.channels != job.outputs) return fmt ("the wav file has %zu frames and %u channels", w.frames, w.channels);
    }

    return job.plot ? svg::judge (readFile (job.plotPath), input, output, 8000) : std::string();
}

// The device is full after any number of bytes
template <typename T>
static void limits (Run& run)
{
    static const WavFormat formats[] = { WavFormat::pcm24, WavFormat::pcm16, WavFormat::pcm32, WavFormat::float32 };
    Job job;
    const int what = run.choose (4, "files");
    job.wav = what != 1;
    job.plot = what != 0;
    job.plotFirst = what == 3;
    const int size = run.choose (3, "size");
    job.outcome = run.choose (5, "outcome");
    if (job.wav && ! job.plot && size < 2) job.format = formats[run.choose (4, "format")];
    static const std::vector<std::pair<size_t, size_t>> layouts { { 1, 1 }, { 2, 2 }, { 1, 3 } };
    const auto layout = size == 2 || (job.plot && job.outcome) ? std::make_pair ((size_t) 2, (size_t) 2) : run.pick (layouts, "layout");
    job.inputs = layout.first;
    job.outputs = layout.second;
    job.frames = size == 0 ? (size_t) (job.plot ? run.pick ({ 1, 12 }, "frames") : run.pick ({ 1, 2, 7, 40 }, "frames")) : size == 1 ? 701 : job.plot ? 3000 : 20001;
    job.wavPath = workDir() + "/out.wav";
    job.plotPath = workDir() + "/out.svg";
    Cli().apply();
    unlink (job.wavPath.c_str());
    unlink (job.plotPath.c_str());

    auto take = [&] (std::vector<std::string>& files) { files.clear(); for (auto& p : { job.wavPath, job.plotPath }) files.push_back (readFile (p)); };
    std::vector<std::string> complete, got;
    const bool threw = save<T> (job);
    MC_REQUIRE (run, threw == (job.outcome == 4), "unlimited", job.str() + ": fails without a fault");
    hart::ExpectationFailureMessages::clear();
    take (complete);
    auto wrong = incomplete<T> (job);
    MC_REQUIRE (run, wrong.empty(), "unlimited", job.str() + ": " + wrong);
    const size_t largest = std::max (complete[0].size(), complete[1].size());

    // Where to stop: at every byte of small files, around every block of larger ones
    std::vector<size_t> at;
    if (size == 0 && (run.thorough || ! job.plot || job.outcome == 0)) for (size_t k = 0; k <= largest + 2; ++k) at.push_back (k);
    else
    {
        const size_t grid = run.thorough ? (size == 2 ? 512 : 8) : size == 0 ? 61 : job.plot ? (size == 1 ? 1021 : 8192) : (size == 1 ? 64 : 4096);
        for (size_t k = 0; k <= largest + grid; k += grid) { at.push_back (k); if (size == 2 || run.thorough) { at.push_back (k + 1); if (k) at.push_back (k - 1); } }
        for (auto& c : complete) for (size_t k = c.size() < 50 ? 0 : c.size() - 50; k <= c.size() + 2; ++k) at.push_back (k);
        for (size_t k = 0; k < 60; ++k) at.push_back (k);
        std::sort (at.begin(), at.end());
        at.erase (std::unique (at.begin(), at.end()), at.end());
    }

    for (size_t i = 0; i < at.size(); ++i)
    {
        const size_t k = at[i];
        const bool stale = i % 2;   // over what is left from before, or into a new file
        if (! stale) { unlink (job.wavPath.c_str()); unlink (job.plotPath.c_str()); }
        bool error;
        {
            SizeLimit limit (k);
            error = save<T> (job);
        }
        run.step();
        const size_t recorded = hart::ExpectationFailureMessages::get().size();
        hart::ExpectationFailureMessages::clear();
        const std::string shape = job.str() + fmt (", files limited to %zu of %zu and %zu bytes", k, complete[0].size(), complete[1].size());
        take (got);
        const bool same = got == complete;
        if (job.outcome == 1 || job.outcome == 2) MC_REQUIRE (run, recorded == 1, "recorded", shape + fmt (": %zu failed expectations are recorded", recorded));
        if (job.outcome == 4) { MC_REQUIRE (run, error, "assertion", shape + ": no error is raised for a failed assertion"); }
        else if (! error) MC_REQUIRE (run, same, "unreported", shape + fmt (": no error is raised, and the files have %zu and %zu bytes", got[0].size(), got[1].size()));
        else MC_REQUIRE (run, k < largest, "spurious", shape + ": an error is raised");
        run.state (mc::Hash().add (what).add ((uint64_t) k).add (error).add (got[0]).add (got[1]));
    }

    // When there is room again
    MC_REQUIRE (run, save<T> (job) == (job.outcome == 4), "afterwards", job.str() + ": fails after the fault is gone");
    hart::ExpectationFailureMessages::clear();
    take (got);
    MC_REQUIRE (run, got == complete, "afterwards", job.str() + ": is not complete after the fault is gone");
}

constexpr int numTargets = 13;
static const char* targetNames[] = { "a new file", "an existing file", "a link to a new file", "a link to an existing file", "a missing directory", "a directory", "a file as a directory", "a too long name", "a full device",
    "a looping link", "a link into a missing directory", "a socket", "no files left" };

static std::string target (int kind, const char* extension)
{
    const std::string dir = workDir() + "/targets";
    mkdir (dir.c_str(), 0755);
    const std::string p = dir + fmt ("/target-%d%s", kind, extension);
    rmdir (p.c_str());
    unlink (p.c_str());
    const std::string real = dir + fmt ("/real-%d%s", kind, extension);
    switch (kind)
    {
        case 1: writeFile (p, std::string (100000, 'x')); return p;
        case 2: unlink (real.c_str()); if (symlink (real.c_str(), p.c_str())) {} return p;
        case 3: writeFile (real, std::string (100000, 'x')); if (symlink (real.c_str(), p.c_str())) {} return p;
        case 4: return dir + "/missing/out" + extension;
        case 5: mkdir (p.c_str(), 0755); return p;
        case 6: writeFile (p, "x"); return p + "/out" + extension;
        case 7: return dir + "/" + std::string (300, 'n') + extension;
        case 8: if (symlink ("/dev/full", p.c_str())) {} return p;
        case 9: if (symlink (p.c_str(), p.c_str())) {} return p;
        case 10: if (symlink ((dir + "/missing/out").c_str(), p.c_str())) {} return p;
        case 11:
        {
            const int s = socket (AF_UNIX, SOCK_STREAM, 0);
            sockaddr_un a;
            memset (&a, 0, sizeof a);
            a.sun_family = AF_UNIX;
            if (p.size() < sizeof a.sun_path) { strcpy (a.sun_path, p.c_str()); if (bind (s, (sockaddr*) &a, sizeof a)) {} }
            else mkdir (p.c_str(), 0755);
            close (s);
            return p;
        }
        default: return p;
    }
}

// Targets which cannot be written at all
template <typename T>
static void targets (Run& run)
{
    Job job;
    Cli cli;
    cli.root = workDir();
    cli.apply();
    const int wavTarget = run.choose (numTargets + 1, "wav target") - 1, plotTarget = run.choose (numTargets + 1, "plot target") - 1;
    if (wavTarget < 0 && plotTarget < 0) return;
    job.wav = wavTarget >= 0;
    job.plot = plotTarget >= 0;
    job.plotFirst = run.flag ("plot first");
    job.outcome = run.choose (5, "outcome");
    job.frames = run.pick ({ (size_t) 5, (size_t) 500 }, "frames");
    const bool relative = run.flag ("relative");
    const bool none = wavTarget == 12 || plotTarget == 12;
    if (job.wav) job.wavPath = target (wavTarget, ".wav");
    if (job.plot) job.plotPath = target (plotTarget, ".svg");
    const std::string absolute[] = { job.wavPath, job.plotPath };
    if (relative)
        for (auto p : { &job.wavPath, &job.plotPath }) if (! p->empty()) *p = p->substr (workDir().size() + 1);

    bool error;
    if (none) { NoFiles limit; error = save<T> (job); }
    else error = save<T> (job);
    run.step();
    const size_t recorded = hart::ExpectationFailureMessages::get().size();
    hart::ExpectationFailureMessages::clear();
    const bool faulty = wavTarget >= 4 || plotTarget >= 4;
    const std::string shape = job.str() + fmt (", wav file to %s, plot to %s", wavTarget < 0 ? "-" : targetNames[wavTarget], plotTarget < 0 ? "-" : targetNames[plotTarget]);
    if (job.outcome == 1 || job.outcome == 2) MC_REQUIRE (run, recorded == 1, "recorded", shape + fmt (": %zu failed expectations are recorded", recorded));
    MC_REQUIRE (run, ! faulty || error, "unreported", shape + ": no error is raised");
    MC_REQUIRE (run, faulty || error == (job.outcome == 4), "spurious", shape + ": an error is raised");
    job.wavPath = absolute[0];
    job.plotPath = absolute[1];
    if (! faulty) { const auto wrong = incomplete<T> (job); MC_REQUIRE (run, wrong.empty(), "incomplete", shape + ": " + wrong); }
    run.state (mc::Hash().add (wavTarget).add (plotTarget).add (job.plotFirst).add (job.outcome).add (relative).add ((uint64_t) job.frames));
}

// A file which is not wanted in the end cannot fail
template <typename T>
static void unwanted (Run& run)
{
    Cli().apply();
    const int t = run.choose (numTargets - 5, "target") + 4, how = run.choose (4, "how");
    const bool plot = run.flag ("plot");
    const std::string p = target (t, plot ? ".svg" : ".wav");
    hart::AudioTestBuilder<T> host { Through<T>() };
    const Save mode = how == 0 ? Save::never : how == 1 ? Save::whenFails : Save::always;
    if (plot) host.savePlotTo (p, mode); else host.saveOutputTo (p, mode);
    const std::string good = workDir() + "/good";
    if (how == 2) { if (plot) host.savePlotTo (good); else host.saveOutputTo (good); }
    if (how == 3) { if (plot) host.savePlotTo (p, Save::never); else host.saveOutputTo (p, Save::never); }
    host.withSampleRate (8000).withDuration (9 / 8000.0).withInputSignal (Play<T> (table<T> (1, 9))).expectTrue (hart::PeaksBelow<T> (20));
    if (how == 0) host.expectFalse (hart::PeaksBelow<T> (20));
    const bool error = throws ([&] { host.process(); });
    hart::ExpectationFailureMessages::clear();
    run.step();
    MC_REQUIRE (run, ! error, "spurious", fmt ("an error is raised for a file which is not to be written (to %s, request %d)", targetNames[t], how));
    run.state (mc::Hash().add (t).add (how).add (plot));
}

// What a test program makes of it
static void program (Run& run)
{
    const bool plot = run.flag ("plot");
    const int fault = run.choose (plot ? 30 : 20, "fault");
    const int position = run.choose (3, "position");
    const int outcome = run.choose (3, "outcome");
    Job job;
    job.wav = ! plot;
    job.plot = plot;
    job.outcome = outcome;
    const bool limited = fault >= numTargets - 1 - 4;
    const int t = limited ? 0 : fault + 4;
    const size_t limit = limited ? (size_t) (fault - (numTargets - 5)) * (plot ? 97 : 5) : 0;
    (plot ? job.plotPath : job.wavPath) = target (t, ".out");

    std::vector<runner::Task> tasks;
    for (int i = 0; i < 3; ++i) tasks.push_back ({ fmt ("Task %d", i), hart::TaskCategory::test });
    const auto r = runner::run (tasks, { "program" }, [&] (int i)
    {
        if (i != position) { hart::processAudioWith (hart::GainDb<float>()).withInputSignal (hart::Silence<float>()).expectTrue (hart::PeaksBelow<float> (0)).process(); return; }
        hart::AudioTestBuilder<float> host { Through<float>() };
        const Save mode = outcome == 2 ? Save::whenFails : Save::always;
        if (plot) host.savePlotTo (job.plotPath, mode); else host.saveOutputTo (job.wavPath, mode);
        host.withSampleRate (8000).withDuration (9 / 8000.0).withInputSignal (Play<float> (table<float> (1, 9)));
        if (outcome) host.expectTrue (hart::PeaksBelow<float> (-100));
        if (! limited) { host.process(); return; }
        SizeLimit l (limit);
        host.process();
    });
    run.step();
    const std::string shape = fmt ("%s to %s, %zu bytes, task %d, %s; output:\n", plot ? "plot" : "wav file", targetNames[t], limit, position, outcomeNames[outcome]) + r.output;
    job.frames = 9;
    const bool complete = limited && incomplete<float> (job).empty();
    MC_REQUIRE (run, ! r.signalled && r.reports.size() == 3, "reports", shape);
    for (int i = 0; i < 3; ++i)
        MC_REQUIRE (run, r.reports[(size_t) i].failed == (i == position && (! complete || outcome != 0)), "verdict", fmt ("task %d is reported as %s: ", i, r.reports[(size_t) i].failed ? "failed" : "passed") + shape);
    MC_REQUIRE (run, (r.status != 0) == r.reports[(size_t) position].failed, "status", fmt ("exit status %d: ", r.status) + shape);
    run.state (mc::Hash().add (fault).add (plot).add (position).add (outcome).add (complete));
}

int main (int argc, char** argv)
{
    mc::Options o;
    o.id = "C22";
    o.unitDepthQuick = 4;
    o.unitDepthThorough = 5;
    o.hangSeconds = 150;
    return mc::main (argc, argv, o, [] (Run& run)
    {
        switch (run.choose (7, "mode"))
        {
            case 0: return limits<float> (run);
            case 1: return limits<double> (run);
            case 2: return targets<float> (run);
            case 3: return targets<double> (run);
            case 4: return unwanted<float> (run);
            case 5: return unwanted<double> (run);
            default: return program (run);
        }
    });
}
