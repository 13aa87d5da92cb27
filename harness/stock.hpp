// Stock signals, effects and envelopes to build pipelines of
#pragma once

#include "ref.hpp"

namespace stock
{

using namespace ref;

// A wav file with this many frames and channels, of 16 bit table values; returns its path
inline std::string wavFixture (unsigned channels, size_t frames, unsigned rate)
{
    const std::string path = workDir() + fmt ("/fixture-%u-%zu-%u.wav", channels, frames, rate);
    if (exists (path)) return path;
    std::string data;
    for (size_t f = 0; f < frames; ++f)
        for (unsigned c = 0; c < channels; ++c)
        {
            const int v = (int) (tableValue (c, f) * 32000);
            data += (char) v;
            data += (char) (v >> 8);
        }
    writeFile (path, makeWav (1, channels, rate, 16, data));
    return path;
}

// Signals meant for pieces of about `frames` frames at `rate`
constexpr int numSignals = 16;

inline const char* signalName (int kind)
{
    static const char* names[] = { "Silence", "SineWave", "SineWave with phase", "slow SineWave", "log SineSweep up", "linear SineSweep down", "log SineSweep looped", "linear SineSweep looped",
        "short SineSweep", "short SineSweep looped", "WhiteNoise", "WhiteNoise with seed", "WavFile", "WavFile looped", "short WavFile", "short WavFile looped" };
    return names[kind];
}

template <typename T>
std::unique_ptr<hart::Signal<T>> makeSignal (int kind, double rate, size_t frames, unsigned channels)
{
    using namespace hart;
    using S = SineSweep<T>;
    using P = std::unique_ptr<Signal<T>>;
    const double length = (double) frames / rate;
    const double tiny = 1.0 / 3.0 * length;
    switch (kind)
    {
        case 0: return P (new Silence<T>());
        case 1: return P (new SineWave<T> (rate / 7));
        case 2: return P (new SineWave<T> (rate / 3.3, 1.25));
        case 3: return P (new SineWave<T> (rate / 100, -2.5));
        case 4: return P (new S (length, rate / 40, rate / 4));
        case 5: return P (new S (length, rate / 4, rate / 50, S::SweepType::linear, S::Loop::no, 0.5));
        case 6: return P (new S (length * 0.6, rate / 40, rate / 5, S::SweepType::log, S::Loop::yes, 1));
        case 7: return P (new S (length * 0.45, rate / 30, rate / 3, S::SweepType::linear, S::Loop::yes));
        case 8: return P (new S (tiny, rate / 4, rate / 9, S::SweepType::log, S::Loop::no, 2));
        case 9: return P (new S (length / 5, rate / 9, rate / 5, S::SweepType::log, S::Loop::yes));
        case 10: return P (new WhiteNoise<T>());
        case 11: return P (new WhiteNoise<T> (12345));
        case 12: return P (new WavFile<T> (wavFixture (channels, frames + 3, (unsigned) rate), WavFile<T>::Loop::no));
        case 13: return P (new WavFile<T> (wavFixture (channels, frames - frames / 4, (unsigned) rate), WavFile<T>::Loop::yes));
        case 14: return P (new WavFile<T> (wavFixture (channels, frames - frames / 3, (unsigned) rate), WavFile<T>::Loop::no));
        default: return P (new WavFile<T> (wavFixture (channels, std::max ((size_t) 1, frames / 5), (unsigned) rate), WavFile<T>::Loop::yes));
    }
}

// Envelopes with borders within frames, and at frames
constexpr int numEnvelopes = 4;

inline Curve envelope (int kind, size_t frames, bool decibels)
{
    const double n = (double) frames;
    Curve c;
    if (decibels)
    {
        if (kind == 0) { c.start = -6; c.segments = { { false, 3, n * 0.45, Shape::linear }, { true, 0, n * 0.125, Shape::linear }, { false, -20, n * 0.25, Shape::sCurve } }; }
        if (kind == 1) { c.start = 0; c.segments = { { true, 0, 2, Shape::linear }, { false, -12, 0, Shape::linear }, { false, -3, 3.5, Shape::exponential } }; }
        if (kind == 2) { c.start = -130; c.segments = { { false, 6, n, Shape::linear } }; }
        if (kind == 3) { c.start = -2; }
    }
    else
    {
        if (kind == 0) { c.start = 0.25; c.segments = { { false, 2, n * 0.45, Shape::exponential }, { true, 0, n * 0.125, Shape::linear }, { false, -1, n * 0.25, Shape::sCurve } }; }
        if (kind == 1) { c.start = 1; c.segments = { { true, 0, 1, Shape::linear }, { false, 0.5, 1.5, Shape::linear }, { false, 0.75, 0, Shape::sCurve }, { false, 0, 2.25, Shape::sCurve } }; }
        if (kind == 2) { c.start = 0; c.segments = { { false, 1, n, Shape::linear } }; }
        if (kind == 3) { c.start = 0.5; }
    }
    return c;
}

constexpr int numEffects = 13;   // 0 to 4 have no envelope

inline const char* effectName (int kind)
{
    static const char* names[] = { "Through", "GainDb", "GainLinear", "HardClip", "strong HardClip", "GainDb envelope 0", "GainDb envelope 1", "GainDb envelope 2", "GainDb envelope 3",
        "GainLinear envelope 0", "GainLinear envelope 1", "GainLinear envelope 2", "GainLinear envelope 3" };
    return names[kind];
}

template <typename T>
std::unique_ptr<hart::DSP<T>> makeEffect (int kind, double rate, size_t frames)
{
    using namespace hart;
    using P = std::unique_ptr<DSP<T>>;
    switch (kind)
    {
        case 0: return P (new Through<T>());
        case 1: return P (new GainDb<T> (-4.5));
        case 2: return P (new GainLinear<T> (-1.75));
        case 3: return P (new HardClip<T> (-3));
        case 4: return P (new HardClip<T> (-12));
        default: break;
    }

    const int e = (kind - 5) % numEnvelopes;
    const bool db = kind - 5 < numEnvelopes;
    P p;
    if (db) p.reset (new GainDb<T> (1)); else p.reset (new GainLinear<T> (3));
    p->withEnvelope (0, envelope (e, frames, db).make (1.0 / rate));
    return p;
}

}  // namespace stock
