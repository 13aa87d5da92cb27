// C21: unit, level, phase and path conversions
#include "ref.hpp"

using namespace ref;
using mc::Run;

typedef long double L;
static const L piL = 3.14159265358979323846264338327950288L;

// One value of every conversion; `key` tells which one is wrong
template <typename T>
struct Judge
{
    Run& run;
    const L eps = std::numeric_limits<T>::epsilon();
    const L maximum = std::numeric_limits<T>::max();

    static std::string show (T x) { return fmt ("%.17g (%s)", (double) x, typeName<T>()); }

    void same (const char* what, T x, T got, L want, L relative, L absolute = 0)
    {
        if (std::abs ((L) got - want) <= relative * std::abs (want) + absolute) return;
        run.fail (what, fmt ("%s of ", what) + show (x) + " is " + show (got) + fmt (" instead of %.17Lg", want));
    }

    void levels (T x)
    {
        if (! std::isnan (x))
        {
            const T r = hart::decibelsToRatio (x);
            if (x < (T) -120) { if (r != 0) run.fail ("decibelsToRatio", "ratio of " + show (x) + " dB is " + show (r) + ", not silence"); }
            else if (std::isinf (x)) { if (! std::isinf (r)) run.fail ("decibelsToRatio", "ratio of infinite decibels is " + show (r)); }
            else
            {
                const L want = std::pow ((L) 10, (L) x / 20);
                const L relative = eps * (4 + 3 * std::abs ((L) x) / 20 * std::log ((L) 10));
                if (want * (1 + relative) >= maximum) { if (! (r >= maximum * (1 - relative))) run.fail ("decibelsToRatio", "ratio of " + show (x) + " dB is " + show (r)); }
                else
                {
                    same ("decibelsToRatio", x, r, want, relative);
                    const T back = hart::ratioToDecibels (r);
                    if (x > (T) -119.999) same ("decibels of the ratio", x, back, x, 8 * eps, 20 * (relative + eps) + 8 * eps);
                }
            }

            const T d = hart::ratioToDecibels (x);
            if (! (d >= -120)) run.fail ("ratioToDecibels", "decibels of " + show (x) + " are " + show (d));
            if ((L) x < 1e-6L) { if (! (d <= -120 + 20 * eps)) run.fail ("ratioToDecibels", "decibels of " + show (x) + " are " + show (d) + " instead of -120"); }
            else if (std::isinf (x)) { if (! std::isinf (d)) run.fail ("ratioToDecibels", "decibels of an infinite ratio are " + show (d)); }
            else
            {
                same ("ratioToDecibels", x, d, 20 * std::log10 ((L) x), 8 * eps, 16 * eps);
                const T back = hart::decibelsToRatio (d);
                // Where the last digits of a level matter to its ratio
                const L relative = eps * (16 + 16 * std::abs ((L) d));
                if ((L) x * (1 + relative) < maximum) same ("ratio of the decibels", x, back, x, relative, (L) x < 1.00001e-6L ? 1.1e-6L : 0.0L);
            }
        }
        run.step();
    }

    void phase (T x)
    {
        if (std::isfinite (x))
        {
            const T w = hart::wrapPhase (x);
            const T top = std::max ((T) hart::twoPi, (T) std::nextafter ((T) hart::twoPi, (T) 7));
            if (! (w >= 0 && w <= top)) run.fail ("wrapPhase", "phase " + show (x) + " is wrapped to " + show (w));
            // How far the value of pi moves a phase of so many turns
            const L tolerance = 2 * eps * std::max (std::abs ((L) x), 8.0L);
            if (tolerance < 3)
            {
                const L off = std::remainder ((L) w - (L) x, 2 * piL);
                if (! (std::abs (off) <= tolerance)) run.fail ("wrapPhase", "phase " + show (x) + " is wrapped to " + show (w) + fmt (", which is off by %.17Lg", off));
            }
        }
        run.step();
    }

    void rounding (T x)
    {
        if (x >= 0 && (L) x < 9.0e18L)
        {
            const size_t n = hart::roundToSizeT (x);
            if (! (std::abs ((L) n - (L) x) <= 0.5L)) run.fail ("roundToSizeT", show (x) + fmt (" is rounded to %zu", n));
        }
        run.step();
    }

    void comparing (T a, T b, T epsilon, bool useDefault)
    {
        const L d = std::abs ((L) a - (L) b), e = useDefault ? (L) (T) 1e-8 : (L) epsilon;
        const bool equal = useDefault ? hart::floatsEqual (a, b) : hart::floatsEqual (a, b, epsilon);
        const bool notEqual = useDefault ? hart::floatsNotEqual (a, b) : hart::floatsNotEqual (a, b, epsilon);
        run.step();
        const std::string shape = show (a) + " and " + show (b) + " within " + (useDefault ? std::string ("the default") : show (epsilon));
        if (equal == notEqual) run.fail ("comparison", shape + (equal ? " are equal and not equal" : " are neither equal nor not equal"));
        if (std::abs (d - e) <= 2 * eps * d) return;
        if (equal != (d < e)) run.fail ("comparison", shape + (equal ? " are equal" : " are not equal"));
    }

    void clamping (T x, T low, T high)
    {
        const T got = hart::clamp (x, low, high), want = x < low ? low : x > high ? high : x;
        run.step();
        if (got != want) run.fail ("clamp", show (x) + " clamped to " + show (low) + " .. " + show (high) + " is " + show (got));
    }

    void all (T x) { levels (x); phase (x); rounding (x); }
};

static float floatOf (uint32_t bits) { float f; memcpy (&f, &bits, 4); return f; }
static double doubleOf (uint64_t bits) { double d; memcpy (&d, &bits, 8); return d; }

// All floats (thorough), or those with up to 12 significant bits, and their neighbours
static void floats (Run& run)
{
    const uint32_t high = (uint32_t) run.choose (512, "sign and exponent");
    Judge<float> judge { run };
    if (run.thorough)
        for (uint32_t m = 0; m < (1u << 23); ++m) judge.all (floatOf (high << 23 | m));
    else
        for (uint32_t m = 0; m < (1u << 23); m += 1u << 11)
            for (int k = -1; k <= 1; ++k) judge.all (floatOf ((high << 23 | m) + (uint32_t) k));
    run.state (mc::Hash().add ((uint64_t) high));
}

// All doubles with up to 11 (thorough: 17) significant bits, and their neighbours
static void doubles (Run& run)
{
    const uint64_t high = (uint64_t) run.choose (4096, "sign and exponent");
    Judge<double> judge { run };
    const int bits = run.thorough ? 16 : 9;
    for (uint64_t m = 0; m < (1ull << bits); ++m)
        for (int k = -1; k <= 1; ++k) judge.all (doubleOf ((high << 52 | m << (52 - bits)) + (uint64_t) (int64_t) k));
    run.state (mc::Hash().add (high));
}

// Around what matters: levels in small steps, multiples of pi, halves
template <typename T>
static void special (Run& run)
{
    Judge<T> judge { run };
    const int part = run.choose (64, "part");
    auto around = [&] (T x) { T lo = x, hi = x; judge.all (x); for (int k = 0; k < 4; ++k) { lo = std::nextafter (lo, (T) -INFINITY); hi = std::nextafter (hi, (T) INFINITY); judge.all (lo); judge.all (hi); } };

    const int n = run.thorough ? 400000 : 40000;   // from -200 to 200 dB
    for (int i = part; i <= n; i += 64) around ((T) (-200.0 + 400.0 * i / n));
    for (int i = part; i <= n; i += 64) around ((T) ((i - n / 2) * (double) piL / 4));
    for (int i = part; i <= n; i += 64) around ((T) (i * 0.5));
    if (part == 0) for (T x : { (T) -120, (T) 1e-6, (T) 0, (T) 1, (T) 0.5, (T) 8388608, (T) 16777216, (T) 4503599627370496.0, (T) 9007199254740992.0, (T) hart::twoPi, (T) hart::pi, (T) 1e10, (T) 1e15, (T) 44100, (T) 192000 }) around (x);
    run.state (mc::Hash().add ((uint64_t) part).add ((int) sizeof (T)));
}

template <typename T>
static void pairs (Run& run)
{
    Judge<T> judge { run };
    std::vector<T> v { 0, 1, -1, (T) 0.5, (T) 2, (T) -7.25, (T) 1e-8, (T) 1e-9, (T) -1e-9, (T) 1.1e-8, (T) 3e-8, (T) 44100, (T) 44100.5, (T) 1e10, (T) 1e-30, (T) 120, (T) 48000 };
    for (T x : std::vector<T> (v)) { v.push_back (std::nextafter (x, (T) 1e30)); v.push_back (x + (T) 1e-9); v.push_back (x + (T) 1e-8); v.push_back (x - (T) 2e-8); }
    const T a = run.pick (v, "a");
    for (T b : v)
    {
        judge.comparing (a, b, 0, true);
        for (T e : { (T) 0, (T) 1e-8, (T) 1e-3, (T) 0.5, (T) 1, (T) 100, (T) 1e-12 }) judge.comparing (a, b, e, false);
        for (T c : v)
            if (b <= c) judge.clamping (a, b, c);
    }
    for (T b : v) { if (b <= INFINITY) { judge.clamping (a, b, (T) INFINITY); judge.clamping (a, (T) -INFINITY, b); judge.clamping ((T) INFINITY, std::min (a, b), std::max (a, b)); judge.clamping ((T) -INFINITY, std::min (a, b), std::max (a, b)); } }
}

template <typename I>
static void integers (Run& run)
{
    const std::vector<I> v { 0, 1, 2, 7, 100, std::numeric_limits<I>::max(), std::numeric_limits<I>::min(), (I) (std::numeric_limits<I>::max() - 1) };
    for (I a : v) for (I b : v) for (I c : v)
        if (b <= c)
        {
            run.step();
            const I got = hart::clamp (a, b, c), want = a < b ? b : a > c ? c : a;
            MC_REQUIRE (run, got == want, "clamp", std::to_string (a) + " clamped to " + std::to_string (b) + " .. " + std::to_string (c) + " is " + std::to_string (got));
        }
}

static void literals (Run& run)
{
    std::vector<L> values;
    std::vector<unsigned long long> wholes { 0, 1, 2, 3, 7, 10, 44, 90, 100, 180, 360, 1000, 44100, 192000, 4294967296ull, 9007199254740992ull, 9007199254740993ull, 18446744073709551615ull };
    for (int i = 0; i <= 4000; ++i) { values.push_back (i * 0.25L); values.push_back (i * 0.1L); wholes.push_back ((unsigned long long) i); }
    for (int e = -300; e <= 300; ++e) { values.push_back (std::pow (10.0L, e)); values.push_back (7 * std::pow (10.0L, e)); }

    auto check = [&] (const char* suffix, double got, L value, L factor)
    {
        run.step();
        const L want = value * factor;
        MC_REQUIRE (run, std::abs ((L) got - want) <= 4 * (L) std::numeric_limits<double>::epsilon() * std::abs (want) + 5e-324L, suffix, fmt ("%.17Lg%s is %.17g instead of %.17Lg", value, suffix, got, want));
    };
    #define BOTH(suffix, factor) \
        for (L x : values) check (#suffix, operator"" suffix (x), x, factor); \
        for (auto x : wholes) check (#suffix, operator"" suffix (x), (L) x, factor);
    BOTH (_s, 1) BOTH (_ms, 1e-3L) BOTH (_us, 1e-6L) BOTH (_dB, 1) BOTH (_Hz, 1) BOTH (_kHz, 1000) BOTH (_rad, 1) BOTH (_deg, piL / 180)

    check ("", 1.5_s, 1.5L, 1); check ("", 20_ms, 20, 1e-3L); check ("", -3_dB, -3, 1); check ("", -0.5_kHz, -500, 1); check ("", 180_deg, 180, piL / 180); check ("", 90.0_deg, 90, piL / 180);
    check ("pi", hart::pi, piL, 1); check ("twoPi", hart::twoPi, piL, 2); check ("halfPi", hart::halfPi, piL, 0.5L);
    check ("pi_rad", pi_rad, piL, 1); check ("twoPi_rad", twoPi_rad, piL, 2); check ("halfPi_rad", halfPi_rad, piL, 0.5L);
    for (double x : { hart::inf, hart::oo, inf_dB, oo_dB, (double) INFINITY }) MC_REQUIRE (run, std::isinf (x) && x > 0, "inf", fmt ("infinity is %g", x));
}

// A path with repeated separators is the same path
static std::string collapsed (const std::string& s)
{
    std::string t;
    for (char c : s) if (c != '/' || t.empty() || t.back() != '/') t += c;
    return t;
}

static void paths (Run& run)
{
    static const std::vector<std::string> roots { ".", "/data", "/", "data/sub dir", "/data/", "../x", "\\srv", "a" };
    static const char alphabet[] = { '/', '\\', '.', 'a', ':', 'C', ' ', '~' };
    Cli cli;
    cli.root = run.pick (roots, "root");
    cli.apply();
    const int length = run.choose (run.thorough ? 8 : 6, "length");
    std::vector<int> at ((size_t) length, 0);
    const int first = length > 0 ? run.choose (8, "first") : 0;
    if (length > 0) at[0] = first;

    for (;;)
    {
        std::string p;
        for (int i : at) p += alphabet[i];
        const bool absolute = ! p.empty() && (p[0] == '/' || p[0] == '\\');
        run.step();
        MC_REQUIRE (run, (bool) hart::isAbsolutePath (p) == absolute, "absolute", "\"" + p + (absolute ? "\" is not taken as absolute" : "\" is taken as absolute"));
        const std::string got = hart::toAbsolutePath (p), want = absolute ? p : cli.root + "/" + p;
        MC_REQUIRE (run, absolute ? got == want : collapsed (got) == collapsed (want), "path", "\"" + p + "\" becomes \"" + got + "\" with the root \"" + cli.root + "\"");

        int i = length - 1;
        while (i >= 1 && ++at[(size_t) i] == 8) at[(size_t) i--] = 0;
        if (i < 1) break;
    }
    run.state (mc::Hash().add (cli.root).add (length).add (first));
}

int main (int argc, char** argv)
{
    mc::Options o;
    o.id = "C21";
    o.unitDepthQuick = 2;
    o.unitDepthThorough = 2;
    o.hangSeconds = 150;
    return mc::main (argc, argv, o, [] (Run& run)
    {
        switch (run.choose (10, "mode"))
        {
            case 0: return floats (run);
            case 1: return doubles (run);
            case 2: return special<float> (run);
            case 3: return special<double> (run);
            case 4: return pairs<float> (run);
            case 5: return pairs<double> (run);
            case 6: return integers<int> (run);
            case 7: return integers<size_t> (run);
            case 8: return literals (run);
            default: return paths (run);
        }
    });
}
