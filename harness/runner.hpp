// Runs a test program made of a list of tasks in a child process, and parses its output.
#pragma once

#include "ref.hpp"

namespace runner
{

struct Task { std::string name; hart::TaskCategory category; };

struct Shared
{
    int current;
    int numEntered;
    char names[2100][48];
    int entered[8192];
    char fault[256];
    uint64_t values[64];
};

inline Shared*& shared()
{
    static Shared* s = nullptr;
    return s;
}

inline void fault (const char* what)
{
    if (shared()->fault[0] == 0) snprintf (shared()->fault, sizeof shared()->fault, "%s", what);
}

using TaskFunction = std::function<void (int)>;
inline TaskFunction*& function() { static TaskFunction* f = nullptr; return f; }

inline void enter (int index)
{
    auto* s = shared();
    s->current = index;
    if (s->numEntered < 8192) s->entered[s->numEntered++] = index;
    (*function()) (index);
}

// A distinct plain function for each task, as the registry wants them
template <int I> void entry() { enter (I); }

template <int... I>
inline void fillTable (void (**table)(), std::integer_sequence<int, I...>) { void (*t[])() = { &entry<I>... }; for (size_t i = 0; i < sizeof...(I); ++i) table[i] = t[i]; }

constexpr int maxTasks = 1040;
inline void (**table())()
{
    static void (*t[maxTasks])();
    static bool made = false;
    if (! made) { fillTable (t, std::make_integer_sequence<int, maxTasks>()); made = true; }
    return t;
}

struct Report { std::string name; bool failed; std::string text; };

struct Result
{
    bool signalled = false;
    int status = 0;
    std::string output, fault;
    std::vector<std::string> entered;
    std::vector<Report> reports;
    long passed = -1, passedOf = -1, failed = -1, failedOf = -1;
    std::vector<uint64_t> values;
};

inline int programMain (int argc, char** argv)
{
    HART_RUN_ALL_TESTS (argc, argv);
}

// What a terminal shows of a line
inline std::string visible (const std::string& line)
{
    const size_t at = line.find_last_of ('\r');
    return at == std::string::npos ? line : line.substr (at + 1);
}

inline void parse (Result& r)
{
    std::istringstream in (r.output);
    std::string raw;

    while (std::getline (in, raw))
    {
        const std::string line = visible (raw);
        const auto ends = [&] (const char* s) { const size_t n = strlen (s); return line.size() >= n && line.compare (line.size() - n, n, s) == 0; };
        const bool pass = line.compare (0, 1, "[") == 0 && line.find ("<3") != std::string::npos && line.find ("</3") == std::string::npos && ends (" - passed");
        const bool fail = line.compare (0, 1, "[") == 0 && line.find ("</3") != std::string::npos && ends (" - failed");
        long a, b;

        if (pass || fail)
        {
            const size_t begin = line.find ("] ") + 2;
            r.reports.push_back ({ line.substr (begin, line.size() - begin - 9), fail, {} });
        }
        else if (sscanf (line.c_str(), "[ PASSED ] %ld/%ld", &a, &b) == 2) { r.passed = a; r.passedOf = b; }
        else if (sscanf (line.c_str(), "[ FAILED ] %ld/%ld", &a, &b) == 2) { r.failed = a; r.failedOf = b; }
        else if (! r.reports.empty()) r.reports.back().text += line + "\n";
    }
}

// `before` runs in the child after the registration
inline Result run (const std::vector<Task>& tasks, const std::vector<std::string>& args, TaskFunction f, std::function<void()> before = {}, std::function<void()> registration = {})
{
    static pid_t owner = 0;   // the memory is shared with the program only, not with other explorer processes
    if (owner != getpid())
        shared() = static_cast<Shared*> (mmap (nullptr, sizeof (Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));

    owner = getpid();
    auto* s = shared();
    memset (s, 0, sizeof *s);
    for (size_t i = 0; i < tasks.size(); ++i) snprintf (s->names[i], sizeof s->names[i], "%s", tasks[i].name.c_str());

    int pipes[2];
    Result r;
    if (pipe (pipes) != 0) { r.fault = "no pipe"; return r; }
    fflush (nullptr);
    table();
    const pid_t pid = fork();

    if (pid == 0)
    {
        dup2 (pipes[1], 1);
        dup2 (pipes[1], 2);
        close (pipes[0]);
        close (pipes[1]);
        function() = &f;
        int status = 99;
        if (registration) registration();
        else
            for (size_t i = 0; i < tasks.size(); ++i)
                hart::TestRegistry::getInstance().add (tasks[i].name, "", tasks[i].category, table()[i]);
        if (before) before();
        std::vector<std::string> storage = args;
        std::vector<char*> argv;
        for (auto& a : storage) argv.push_back (&a[0]);
        argv.push_back (nullptr);
        status = programMain ((int) storage.size(), argv.data());
        std::cout.flush();
        fflush (nullptr);
        _exit (status & 0xff);   // what the system makes of it
    }

    close (pipes[1]);
    char buf[65536];
    ssize_t n;
    while ((n = read (pipes[0], buf, sizeof buf)) > 0 || (n < 0 && errno == EINTR))
        if (n > 0) r.output.append (buf, (size_t) n);
    close (pipes[0]);
    int status = 0;
    waitpid (pid, &status, 0);
    r.signalled = WIFSIGNALED (status) || (WIFEXITED (status) && WEXITSTATUS (status) == 77);
    r.status = WIFEXITED (status) ? WEXITSTATUS (status) : -1;
    r.fault = s->fault;
    for (int i = 0; i < s->numEntered; ++i) r.entered.push_back ((size_t) s->entered[i] < tasks.size() ? tasks[(size_t) s->entered[i]].name : std::string (s->names[s->entered[i]]));
    r.values.assign (s->values, s->values + 64);
    parse (r);
    return r;
}

}  // namespace runner
