// Stateless model checker for sequential C++ code.
//
// A check is a function body(Run&). Every decision it takes goes through Run::choose()/dev(), and the explorer
// enumerates every sequence of decisions depth first, running the real code of /repo once per sequence.
//   choose(n): a free choice among n options - all of them get explored.
//   dev(n):    option 0 is the default; any other option is a deviation, and an execution has at most
//              `maxDeviations` of those. All the combinations within this bound get explored.
// The space is cut into units (all the sequences sharing their first `unitDepth` decisions); each unit runs in
// a process of its own, so that an execution's outcome only depends on its unit, a crash or a hang is attributed
// to the sequence which was running, and units can be explored in parallel.
#pragma once

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace mc
{

inline double now()
{
    timespec t;
    clock_gettime (CLOCK_MONOTONIC, &t);
    return (double) t.tv_sec + 1e-9 * (double) t.tv_nsec;
}

inline std::string fmt (const char* format, ...) __attribute__ ((format (printf, 1, 2)));
inline std::string fmt (const char* format, ...)
{
    char small[2048];
    va_list args;
    va_start (args, format);
    const int n = vsnprintf (small, sizeof small, format, args);
    va_end (args);

    if (n < (int) sizeof small)
        return std::string (small, n < 0 ? 0 : (size_t) n);

    std::string big ((size_t) n + 1, '\0');
    va_start (args, format);
    vsnprintf (&big[0], big.size(), format, args);
    va_end (args);
    big.resize ((size_t) n);
    return big;
}

// Directory for the files of this run, removed by the driver
inline std::string& scratchDir()
{
    static std::string dir;
    return dir;
}

// Hash of a canonical model state
struct Hash
{
    uint64_t h = 0x9e3779b97f4a7c15ull;

    Hash& add (uint64_t x)
    {
        h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
        h ^= h >> 30; h *= 0xbf58476d1ce4e5b9ull;
        h ^= h >> 27; h *= 0x94d049bb133111ebull;
        h ^= h >> 31;
        return *this;
    }

    Hash& add (double x) { uint64_t u; if (x == 0) x = 0; memcpy (&u, &x, 8); return add (u); }
    Hash& add (float x) { return add ((double) x); }
    Hash& add (int x) { return add ((uint64_t) (int64_t) x); }
    Hash& add (bool x) { return add ((uint64_t) x); }
    Hash& add (const std::string& s) { for (unsigned char c : s) add ((uint64_t) c); return add ((uint64_t) s.size()); }
    template <typename T> Hash& add (const std::vector<T>& v) { for (const auto& x : v) add (x); return add ((uint64_t) v.size()); }
};

struct Violation
{
    std::string key, message;
};

struct Skip {};  // Stops an execution when only its prefix is of interest

struct Options
{
    const char* id = "C00";
    int unitDepthQuick = 1;
    int unitDepthThorough = 2;
    int maxDeviationsQuick = 2;
    int maxDeviationsThorough = 3;
    double hangSeconds = 60;
};

class Run
{
public:
    struct Point { int choice; int arity; const char* label; };

    std::vector<int> script;       // decisions to be replayed
    std::vector<Point> points;     // decisions taken
    std::vector<std::string> notes;
    size_t prefixOnly = SIZE_MAX;  // throw Skip when this many decisions are taken
    int maxDeviations = 0;
    int deviations = 0;
    bool thorough = false;
    bool tracing = false;
    uint64_t steps = 0;
    std::vector<uint64_t>* stateSink = nullptr;
    bool hasDeferred = false;
    Violation deferred;
    std::function<void (const Run&)> onPoint;

    int choose (int n, const char* label)
    {
        if (n <= 0) { fprintf (stderr, "mc: empty choice %s\n", label); abort(); }
        if (points.size() >= prefixOnly) throw Skip();

        int c = 0;
        if (points.size() < script.size()) c = script[points.size()];
        if (c < 0 || c >= n) { fprintf (stderr, "mc: replayed choice %s=%d is out of range %d\n", label, c, n); _exit (3); }
        points.push_back ({ c, n, label });
        if (onPoint) onPoint (*this);
        if (tracing) notes.push_back (fmt ("%s=%d/%d", label, c, n));
        return c;
    }

    int dev (int n, const char* label)
    {
        const int c = choose (deviations >= maxDeviations ? 1 : n, label);
        if (c != 0) ++deviations;
        return c;
    }

    bool flag (const char* label) { return choose (2, label) == 1; }
    bool devFlag (const char* label) { return dev (2, label) == 1; }

    template <typename T>
    const T& pick (const std::vector<T>& v, const char* label) { return v[(size_t) choose ((int) v.size(), label)]; }
    template <typename T>
    T pick (std::initializer_list<T> v, const char* label) { return *(v.begin() + choose ((int) v.size(), label)); }
    template <typename T>
    const T& devPick (const std::vector<T>& v, const char* label) { return v[(size_t) dev ((int) v.size(), label)]; }
    template <typename T>
    T devPick (std::initializer_list<T> v, const char* label) { return *(v.begin() + dev ((int) v.size(), label)); }

    // One transition of the real code, compared with the model
    void step() { ++steps; }
    void state (uint64_t h) { if (stateSink) stateSink->push_back (h); }
    void state (const Hash& h) { state (h.h); }

    void note (const std::string& s) { if (tracing) notes.push_back (s); }

    [[noreturn]] void fail (const std::string& key, const std::string& message) { throw Violation { key, message }; }
    void require (bool ok, const char* key, const std::string& message) { if (! ok) fail (key, message); }
    void require (bool ok, const char* key) { if (! ok) fail (key, key); }

    // False while replaying decisions whose outcome an earlier execution of the same unit has compared already
    bool fresh() const { return points.size() >= freshFrom; }
    size_t freshFrom = 0;

    // To be used where an exception would travel through the code under test
    void defer (const std::string& key, const std::string& message)
    {
        if (! hasDeferred) { hasDeferred = true; deferred = { key, message }; }
    }
};

// As Run::require(), with a message which is only made when needed
#define MC_REQUIRE(run, condition, key, message) do { if (! (condition)) (run).fail ((key), (message)); } while (0)

using Body = std::function<void (Run&)>;

namespace detail
{

constexpr size_t maxPoints = 4096;
constexpr size_t maxJobs = 64;

struct Slot
{
    std::atomic<int> numPoints;
    std::atomic<double> startedAt, startedCpu, checkedAt;
    int choices[maxPoints];
    char key[256];
    char message[6000];
    std::atomic<int> hasViolation;
};

struct Shared
{
    std::atomic<uint64_t> executions, steps, maxDepth;
    std::atomic<double> deadline;
    Slot slots[maxJobs];
};

inline std::string jsonString (const std::string& s)
{
    std::string out = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { out += '\\'; out += (char) c; }
        else if (c == '\n') out += "\\n";
        else if (c == '\r') out += "\\r";
        else if (c == '\t') out += "\\t";
        else if (c < 0x20 || c >= 0x7f) out += fmt ("\\u%04x", c);
        else out += (char) c;
    }
    return out + "\"";
}

// Seconds of CPU time used by this process and its children
inline double usedCpu()
{
    double s = 0;
    for (int who : { RUSAGE_SELF, RUSAGE_CHILDREN })
    {
        rusage r;
        if (getrusage (who, &r) == 0) s += (double) (r.ru_utime.tv_sec + r.ru_stime.tv_sec) + 1e-6 * (double) (r.ru_utime.tv_usec + r.ru_stime.tv_usec);
    }
    return s;
}

inline void begins (Slot& slot, double cpu)
{
    slot.startedCpu = cpu;
    slot.checkedAt = 0;
    slot.startedAt = now();
}

// Whether an execution in this process group takes too long; one which waits for a busy processor, or for a
// sandbox which was suspended, does not
inline bool hangs (Slot& slot, pid_t group, double limit)
{
    const double t = now();
    if (t - slot.startedAt <= limit || t - slot.checkedAt < 1) return false;
    slot.checkedAt = t;
    if (t - slot.startedAt > 5 * limit) return true;
    double cpu = 0;
    bool busy = false;

    if (DIR* dir = opendir ("/proc"))
    {
        while (dirent* e = readdir (dir))
        {
            if (e->d_name[0] < '0' || e->d_name[0] > '9') continue;
            FILE* f = fopen ((std::string ("/proc/") + e->d_name + "/stat").c_str(), "r");
            if (f == nullptr) continue;
            char buf[1024];
            const size_t n = fread (buf, 1, sizeof buf - 1, f);
            fclose (f);
            buf[n] = 0;
            const char* p = strrchr (buf, ')');
            char state;
            int parent, pgrp;
            unsigned long long u, s;
            long long cu, cs;
            if (p == nullptr || sscanf (p + 1, " %c %d %d %*d %*d %*d %*u %*u %*u %*u %*u %llu %llu %lld %lld", &state, &parent, &pgrp, &u, &s, &cu, &cs) != 7 || pgrp != (int) group) continue;
            cpu += ((double) u + (double) s + (double) cu + (double) cs) / (double) sysconf (_SC_CLK_TCK);
            busy |= state == 'R' || state == 'D';
        }
        closedir (dir);
    }

    return ! busy || cpu - slot.startedCpu > 0.5 * limit;
}

struct Found
{
    std::vector<int> unit, seq;
    std::string key, message;
    bool hang = false, crash = false;
    int signal = 0;
};

class Explorer
{
public:
    Options options;
    Body body;
    bool thorough = false;
    int jobs = 8;
    double budgetSeconds = 600;
    std::string scratch;   // directory for this run's files
    Shared* shared = nullptr;

    void runBody (Run& run)
    {
        body (run);

        if (run.hasDeferred)
            throw run.deferred;
    }

    Run makeRun (const std::vector<int>& script) const
    {
        Run run;
        run.script = script;
        run.thorough = thorough;
        run.maxDeviations = thorough ? options.maxDeviationsThorough : options.maxDeviationsQuick;
        return run;
    }

    // Next sequence in depth first order, false if there are none below the fixed prefix
    static bool next (const std::vector<Run::Point>& points, size_t fixed, std::vector<int>& script)
    {
        for (size_t i = points.size(); i > fixed; --i)
        {
            if (points[i - 1].choice + 1 < points[i - 1].arity)
            {
                script.clear();
                for (size_t k = 0; k + 1 < i; ++k) script.push_back (points[k].choice);
                script.push_back (points[i - 1].choice + 1);
                return true;
            }
        }
        return false;
    }

    // Tells the parent about a unit to be explored
    static void emit (int fd, const std::vector<Run::Point>& points, int alternative)
    {
        std::string line;
        for (size_t i = 0; i + 1 < points.size(); ++i) line += fmt ("%d ", points[i].choice);
        line += fmt ("%d\n", alternative);
        if (write (fd, line.data(), line.size()) != (ssize_t) line.size()) _exit (4);
    }

    void record (Slot& slot, const Violation& v)
    {
        snprintf (slot.key, sizeof slot.key, "%s", v.key.c_str());
        snprintf (slot.message, sizeof slot.message, "%s", v.message.c_str());
        slot.hasViolation = 1;
    }

    // In a child process. Returns the exit code.
    // A unit is the first execution of its prefix, and those which share its first `unitDepth` decisions; the others below the prefix
    // are units of their own, to be written to `tasksPath`.
    int exploreUnit (const std::vector<int>& unit, Slot& slot, const std::string& statesPath, const std::string& samplePath, const std::vector<int>* stopAt, const std::string& tasksPath, double deadline)
    {
        const size_t unitDepth = (size_t) (thorough ? options.unitDepthThorough : options.unitDepthQuick);
        size_t fixed = unit.size();
        const int tasks = tasksPath.empty() ? -1 : open (tasksPath.c_str(), O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644);
        if (! tasksPath.empty() && tasks < 0) return 4;

        std::unordered_set<uint64_t> states;
        std::vector<uint64_t> sink;
        std::vector<int> script = unit;
        std::vector<uint64_t> fresh;
        int code = 0;
        bool first = true;

        while (true)
        {
            Run run = makeRun (script);
            run.stateSink = &sink;
            run.tracing = first && ! samplePath.empty();
            run.freshFrom = first ? 0 : script.size();
            slot.numPoints = 0;
            begins (slot, usedCpu());
            run.onPoint = [&slot, &unit, first, tasks, unitDepth] (const Run& r)
            {
                const size_t i = r.points.size() - 1;
                if (i < maxPoints) { slot.choices[i] = r.points[i].choice; slot.numPoints = (int) r.points.size(); }
                if (first && tasks >= 0 && i >= unit.size() && i < unitDepth)
                    for (int c = 1; c < r.points[i].arity; ++c) emit (tasks, r.points, c);
            };
            bool failed = false;
            Violation violation;

            try { runBody (run); }
            catch (const Skip&) {}
            catch (const Violation& v) { failed = true; violation = v; }
            catch (const std::exception& e) { failed = true; violation = { "unexpected-exception", std::string ("unexpected exception: ") + e.what() }; }

            ++shared->executions;
            shared->steps += run.steps;
            uint64_t depth = run.points.size(), seen = shared->maxDepth;
            while (depth > seen && ! shared->maxDepth.compare_exchange_weak (seen, depth)) {}

            for (uint64_t s : sink)
                if (states.insert (s).second) fresh.push_back (s);
            sink.clear();

            if (fresh.size() > 65536) flush (statesPath, fresh);

            if (run.tracing)
            {
                if (FILE* f = fopen (samplePath.c_str(), "w"))
                {
                    for (size_t i = 0; i < run.notes.size(); ++i)
                        fprintf (f, "%s%s", i ? "; " : "", run.notes[i].c_str());
                    fclose (f);
                }
            }

            if (failed) { record (slot, violation); code = 10; break; }
            if (stopAt != nullptr)
            {
                std::vector<int> done;
                for (auto& p : run.points) done.push_back (p.choice);
                if (done == *stopAt) break;
            }

            if (first) fixed = std::max (unit.size(), std::min (unitDepth, run.points.size()));
            first = false;
            if (! next (run.points, fixed, script)) break;
            if (now() > deadline || now() > shared->deadline) { code = 11; break; }
        }

        flush (statesPath, fresh);
        if (tasks >= 0) close (tasks);
        return code;
    }

    static void flush (const std::string& path, std::vector<uint64_t>& fresh)
    {
        if (path.empty() || fresh.empty()) { fresh.clear(); return; }
        if (FILE* f = fopen (path.c_str(), "ab"))
        {
            fwrite (fresh.data(), 8, fresh.size(), f);
            fclose (f);
        }
        fresh.clear();
    }

    pid_t spawn (const std::function<int()>& work, const std::string& stderrPath)
    {
        fflush (nullptr);
        const pid_t pid = fork();

        if (pid != 0) return pid;

        prctl (PR_SET_PDEATHSIG, SIGKILL);
        setpgid (0, 0);
        const int devNull = open ("/dev/null", O_RDWR);
        dup2 (devNull, 0);
        dup2 (devNull, 1);
        const int err = open (stderrPath.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        dup2 (err, 2);
        const int code = work();
        fflush (nullptr);
        _exit (code);
    }

    static std::string tail (const std::string& path)
    {
        std::string s;
        if (FILE* f = fopen (path.c_str(), "r"))
        {
            char buf[3000];
            const size_t n = fread (buf, 1, sizeof buf, f);
            s.assign (buf, n);
            fclose (f);
        }
        return s;
    }

    Found describe (const std::vector<int>& unit, Slot& slot, int status, bool hang, const std::string& stderrPath)
    {
        Found f;
        f.unit = unit;
        const int n = slot.numPoints;
        f.seq.assign (slot.choices, slot.choices + std::min (n, (int) maxPoints));

        if (hang)
        {
            f.hang = true;
            f.key = "hang";
            f.message = "an execution did not end";
        }
        else if (WIFEXITED (status) && WEXITSTATUS (status) == 10 && slot.hasViolation)
        {
            f.key = slot.key;
            f.message = slot.message;
        }
        else
        {
            f.crash = true;
            f.signal = WIFSIGNALED (status) ? WTERMSIG (status) : 0;
            f.key = "crash";
            f.message = fmt ("the process crashed (%s %d): ", WIFSIGNALED (status) ? "signal" : "exit", WIFSIGNALED (status) ? WTERMSIG (status) : WEXITSTATUS (status)) + tail (stderrPath).substr (0, 2500);
        }

        return f;
    }

    // Runs a piece of work in a child of its own. Returns true if it misbehaves, and describes how.
    bool misbehaves (const std::vector<int>& unit, const std::function<int (Slot&)>& work, double limit, Found& found)
    {
        Slot& slot = shared->slots[maxJobs - 1];
        slot.hasViolation = 0;
        slot.numPoints = 0;
        begins (slot, 0);
        const std::string err = scratch + "/confirm.err";
        const pid_t pid = spawn ([&] { return work (slot); }, err);
        int status = 0;
        bool hang = false;

        while (waitpid (pid, &status, WNOHANG) == 0)
        {
            usleep (2000);
            if (hangs (slot, pid, limit)) { kill (-pid, SIGKILL); kill (pid, SIGKILL); waitpid (pid, &status, 0); hang = true; break; }
        }

        kill (-pid, SIGKILL);
        if (! hang && WIFEXITED (status) && (WEXITSTATUS (status) == 0 || WEXITSTATUS (status) == 11)) return false;
        found = describe (unit, slot, status, hang, err);
        return true;
    }

    int runOne (const std::vector<int>& seq, Slot& slot, std::vector<std::string>* notes)
    {
        Run run = makeRun (seq);
        run.tracing = notes != nullptr;
        run.onPoint = [&slot] (const Run& r)
        {
            const size_t i = r.points.size() - 1;
            if (i < maxPoints) { slot.choices[i] = r.points[i].choice; slot.numPoints = (int) r.points.size(); }
        };
        int code = 0;
        try { runBody (run); }
        catch (const Violation& v) { record (slot, v); code = 10; }
        catch (const std::exception& e) { record (slot, { "unexpected-exception", std::string ("unexpected exception: ") + e.what() }); code = 10; }
        if (notes) *notes = run.notes;
        return code;
    }

    // Replays what was found, in fresh processes, before it gets reported
    bool confirm (Found& found)
    {
        const double limit = found.hang ? 1.5 * options.hangSeconds : std::max (60.0, options.hangSeconds);
        Found again;

        if (misbehaves (found.unit, [&] (Slot& slot) { return runOne (found.seq, slot, nullptr); }, limit, again) && again.key == found.key)
            return true;

        // Perhaps it depends on the executions which came before it in its unit
        for (int attempt = 0; attempt < 2; ++attempt)
            if (misbehaves (found.unit, [&] (Slot& slot) { return exploreUnit (found.unit, slot, "", "", found.hang ? nullptr : &found.seq, "", now() + 500); }, limit, again) && again.key == found.key)
            {
                found.message += "\n(needs the executions which come before it in its unit)";
                return true;
            }

        return false;
    }

    int explore (const std::string& resultPath, const std::string& replayDir)
    {
        const double t0 = now();
        std::vector<std::vector<int>> units { {} };
        const std::string tasksPath = scratch + "/tasks";
        close (open (tasksPath.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644));
        FILE* tasks = fopen (tasksPath.c_str(), "r");
        if (tasks == nullptr) return 2;
        std::string pending;
        const auto collectTasks = [&]
        {
            char buf[65536];
            size_t n;
            clearerr (tasks);
            while ((n = fread (buf, 1, sizeof buf, tasks)) > 0) pending.append (buf, n);
            size_t from = 0;
            for (size_t end = pending.find ('\n'); end != std::string::npos; end = pending.find ('\n', from))
            {
                std::istringstream in (pending.substr (from, end - from));
                std::vector<int> unit;
                int c;
                while (in >> c) unit.push_back (c);
                units.push_back (unit);
                from = end + 1;
            }
            pending.erase (0, from);
        };
        shared->deadline = t0 + budgetSeconds + 120;
        struct Job { pid_t pid = 0; size_t unit = 0; };
        std::vector<Job> running ((size_t) jobs);
        size_t nextUnit = 0, unitsDone = 0;
        bool capped = false;
        std::vector<Found> found;
        std::set<std::string> keys;
        double deadline = t0 + budgetSeconds;
        const std::set<size_t> sampleUnits { 0, 4, 15, 60, 250, 1000 };

        auto errPath = [&] (size_t j) { return scratch + fmt ("/job%zu.err", j); };

        while (true)
        {
            bool any = false;

            for (size_t j = 0; j < running.size(); ++j)
            {
                auto& job = running[j];

                if (job.pid != 0)
                {
                    int status = 0;
                    bool hang = false;
                    const pid_t p = waitpid (job.pid, &status, WNOHANG);

                    if (p == 0)
                    {
                        if (hangs (shared->slots[j], job.pid, options.hangSeconds))
                        {
                            kill (-job.pid, SIGKILL);
                            kill (job.pid, SIGKILL);
                            waitpid (job.pid, &status, 0);
                            hang = true;
                        }
                        else { any = true; continue; }
                    }

                    kill (-job.pid, SIGKILL);
                    job.pid = 0;

                    if (! hang && WIFEXITED (status) && (WEXITSTATUS (status) == 0 || WEXITSTATUS (status) == 11))
                    {
                        if (WEXITSTATUS (status) == 11) capped = true; else ++unitsDone;
                    }
                    else
                    {
                        auto f = describe (units[job.unit], shared->slots[j], status, hang, errPath (j));
                        if (found.size() < 64 && keys.insert (f.key).second) found.push_back (f);
                        deadline = std::min (deadline, now() + 15);   // enough to be reported
                        shared->deadline = std::min ((double) shared->deadline, now() + 20);
                    }
                }

                if (job.pid == 0 && nextUnit < units.size() && found.size() < 8)
                {
                    any = true;
                    if (now() > deadline) { capped = true; nextUnit = units.size(); continue; }
                    const size_t u = nextUnit++;
                    auto& slot = shared->slots[j];
                    slot.hasViolation = 0;
                    slot.numPoints = 0;
                    begins (slot, 0);
                    job.unit = u;
                    job.pid = spawn ([&, u, j] { return exploreUnit (units[u], shared->slots[j], scratch + fmt ("/states.%zu", j), sampleUnits.count (u) ? scratch + fmt ("/sample.%zu", u) : std::string(), nullptr, tasksPath, deadline + 120); }, errPath (j));
                }
            }

            collectTasks();
            if (! any && (nextUnit >= units.size() || found.size() >= 8)) break;
            usleep (1000);
        }

        // Replay before report
        std::vector<Found> confirmed, unconfirmed;
        for (auto& f : found)
            (confirm (f) ? confirmed : unconfirmed).push_back (f);

        bool rerunOk = true;
        for (auto& f : unconfirmed)
            if (! f.hang && f.signal != SIGKILL)
            {
                f.message += "\n(did not happen again when replayed: depends on something outside of the harness' control)";
                confirmed.push_back (f);
                rerunOk = false;
            }

        std::vector<uint64_t> states;
        for (size_t j = 0; j < running.size(); ++j)
        {
            if (FILE* f = fopen ((scratch + fmt ("/states.%zu", j)).c_str(), "rb"))
            {
                std::vector<uint64_t> buf (1 << 16);
                size_t n;
                while ((n = fread (buf.data(), 8, buf.size(), f)) > 0)
                    states.insert (states.end(), buf.begin(), buf.begin() + (long) n);
                fclose (f);
            }
        }
        std::sort (states.begin(), states.end());
        const size_t numStates = (size_t) (std::unique (states.begin(), states.end()) - states.begin());

        std::string out = "{\n";
        out += fmt (" \"executions\": %llu,\n \"steps\": %llu,\n \"states\": %zu,\n \"units\": %zu,\n \"units_done\": %zu,\n \"max_decisions\": %llu,\n \"max_deviations\": %d,\n \"capped\": %s,\n \"replays_ok\": %s,\n \"seconds\": %.3f,\n",
            (unsigned long long) shared->executions, (unsigned long long) shared->steps, numStates, units.size(), unitsDone, (unsigned long long) shared->maxDepth,
            thorough ? options.maxDeviationsThorough : options.maxDeviationsQuick, capped ? "true" : "false", rerunOk ? "true" : "false", now() - t0);
        out += " \"samples\": [";
        bool firstSample = true;
        for (size_t u : sampleUnits)
        {
            const std::string s = tail (scratch + fmt ("/sample.%zu", u)).substr (0, 1500);
            if (s.empty()) continue;
            out += (firstSample ? "\n  " : ",\n  ") + jsonString (s);
            firstSample = false;
        }
        out += "],\n \"violations\": [";

        for (size_t i = 0; i < confirmed.size(); ++i)
        {
            auto& f = confirmed[i];
            const std::string path = replayDir + "/" + options.id + fmt ("-%zu.replay", i + 1);
            if (FILE* file = fopen (path.c_str(), "w"))
            {
                fprintf (file, "check %s\ntier %s\nunit", options.id, thorough ? "thorough" : "quick");
                for (int c : f.unit) fprintf (file, " %d", c);
                fprintf (file, "\nchoices");
                for (int c : f.seq) fprintf (file, " %d", c);
                fprintf (file, "\nkey %s\nmessage %s\n", f.key.c_str(), f.message.c_str());
                fclose (file);
            }
            out += fmt ("%s\n  {\"key\": %s, \"message\": %s, \"replay\": %s}", i ? "," : "", jsonString (f.key).c_str(), jsonString (f.message).c_str(), jsonString (path).c_str());
        }

        out += "],\n \"lost\": " + fmt ("%zu", unconfirmed.size() - (size_t) std::count_if (unconfirmed.begin(), unconfirmed.end(), [] (const Found& f) { return ! f.hang && f.signal != SIGKILL; })) + "\n}\n";

        if (FILE* f = fopen (resultPath.c_str(), "w"))
        {
            fwrite (out.data(), 1, out.size(), f);
            fclose (f);
        }

        return confirmed.empty() ? 0 : 1;
    }

    int replay (const std::string& path)
    {
        std::vector<int> unit, seq;
        if (FILE* f = fopen (path.c_str(), "r"))
        {
            char line[65536];
            while (fgets (line, sizeof line, f))
            {
                std::istringstream in (line);
                std::string word;
                int c;
                in >> word;
                if (word == "tier") { in >> word; thorough = word == "thorough"; }
                else if (word == "unit") { while (in >> c) unit.push_back (c); }
                else if (word == "choices") { while (in >> c) seq.push_back (c); break; }
            }
            fclose (f);
        }
        Found found;
        found.unit = unit;
        found.seq = seq;
        bool bad = misbehaves (unit, [&] (Slot& slot)
            {
                std::vector<std::string> notes;
                const int code = runOne (seq, slot, &notes);
                if (FILE* f = fopen ((scratch + "/notes").c_str(), "w")) { for (auto& n : notes) fprintf (f, "%s\n", n.c_str()); fclose (f); }
                return code;
            }, 180, found);
        printf ("%s\n", tail (scratch + "/notes").c_str());

        if (! bad)
            bad = misbehaves (unit, [&] (Slot& slot) { return exploreUnit (unit, slot, "", "", &seq, "", now() + 500); }, 180, found);

        if (bad) printf ("REPRODUCED %s: %s\n", found.key.c_str(), found.message.c_str());
        else printf ("not reproduced\n");
        return bad ? 1 : 0;
    }
};

}  // namespace detail

// Command line: --result FILE --scratch DIR --replays DIR [--thorough] [--jobs N] [--budget SECONDS] | --replay FILE
inline int main (int argc, char** argv, const Options& options, const Body& body)
{
    detail::Explorer e;
    e.options = options;
    e.body = body;
    std::string result = "/dev/null", replays = "/tmp", replayFile;

    for (int i = 1; i < argc; ++i)
    {
        const std::string a = argv[i];
        if (a == "--thorough") e.thorough = true;
        else if (i + 1 < argc && a == "--result") result = argv[++i];
        else if (i + 1 < argc && a == "--scratch") e.scratch = argv[++i];
        else if (i + 1 < argc && a == "--replays") replays = argv[++i];
        else if (i + 1 < argc && a == "--jobs") e.jobs = std::min (atoi (argv[++i]), (int) detail::maxJobs - 2);
        else if (i + 1 < argc && a == "--budget") e.budgetSeconds = atof (argv[++i]);
        else if (i + 1 < argc && a == "--replay") replayFile = argv[++i];
        else { fprintf (stderr, "unknown argument %s\n", a.c_str()); return 2; }
    }

    e.shared = static_cast<detail::Shared*> (mmap (nullptr, sizeof (detail::Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (e.shared == MAP_FAILED || e.scratch.empty()) { fprintf (stderr, "no shared memory or no scratch directory\n"); return 2; }
    scratchDir() = e.scratch;
    return replayFile.empty() ? e.explore (result, replays) : e.replay (replayFile);
}

}  // namespace mc
