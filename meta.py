#!/usr/bin/env python3
"""Writes harness/checks.json and MANIFEST.json from what is said about the checks here."""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))

FAMILY = {
    'ops': 'stateless model checking: every operation sequence within the bounds runs on the real code in lockstep with a reference model',
    'config': 'stateless model checking: every configuration within the bounds (deviation-bounded where it says so) runs on the real code and is compared with a reference model',
    'proc': 'stateless model checking of whole program runs: every bounded sequence of task outcomes runs as a process of its own, compared with a reference model',
    'cleanup': 'stateless model checking with exhaustive fault injection: a throwing callback or a failed allocation at every single point of each bounded test, on the real code, compared with the run without the fault',
    'fault': 'stateless model checking with exhaustive fault injection: every write limit and every kind of unusable target is explored on the real code, and compared with a reference model',
}

# id: (family, covers, assumptions, level note)
C = {}

C['C01'] = ('proc',
    "All sequences of up to 3 tasks over 17 outcomes (up to 2 over 17 and 3 over 5 for generators), and of 4 tasks over 5 outcomes (thorough: also 3 over 17 for generators, and 5 over 5), for tests and for generators among tests; programs of up to 1024 tasks with up to 1024 failing ones. Each execution is a process of its own which runs the library's main function. A state is the sequence of outcomes.",
    ["Verdict lines are recognised by the words and symbols the documentation shows.", "Tasks are registered through the function behind the registration macros (the macros are used in C02).", "Crashes and exits of a task are out of scope: they end the program."],
    "Exhaustive for every task sequence up to the stated lengths over the stated outcome kinds; the real runner is executed as a separate process each time.")
C['C02'] = ('proc',
    "All sequences of up to 3 registrations over 8 name/kind pairs and 4 over 6 (thorough: 5 over 5) on top of four tasks registered by the macros, run with and without the generators option; shuffling of 0 to 300 tasks with 9 seeds, each in four processes; 24 command lines. A state is a pair of registered lists, an order of execution or a command line.",
    ["That shuffling has an effect is judged over the 9 seeds together, for lists of at least five tasks."],
    "Exhaustive over registration histories within bounds; seeds and command lines are a stated finite set.")
C['C03'] = ('config',
    "Spies for the effect, the signal, its chain, the matchers and the envelopes, each with an automaton of the documented life cycle which judges every call. Small core: 5 timings x 6 block sizes x 5 layouts with at most 2 deviations (thorough: 4) among 4 kinds of ownership, chains of 0 to 2 effects, envelopes, effects which lose their parameters on reset or prepare, parameter lists, order of settings, 7 sets of matchers, a failing call, 10 unsupported combinations, reuse of the objects; large core: 6 timings up to 52800 frames, blocks up to 100000, layouts up to 127/126 channels, with at most 1 deviation. A state is the sequence of calls seen.",
    ["The order of calls to different objects is only judged where the documentation fixes it (support queries before prepare, reset and prepare before audio, values before audio).", "Calling process() twice on one builder is out of scope: it gives its processor away."],
    "Every call the host makes in each enumerated configuration is checked against protocol automata; bounds are configurations, not call sequences (the host is deterministic).")
C['C04'] = ('config',
    "Hosted: every block size from 1 to N+2 for pieces of N = 1, 2, 5, 7, 12 frames and 13 block sizes for N = 1000 and 4801, over 16 signals x (13 effects and 5 chains) x 3 layouts x 3 sample rates, for float and double; rendering in every composition of 8 frames (thorough: 11), effects over every composition of 10 frames (thorough: 12), also in place. The audio of every split is compared with that of a single block, and of the model.",
    ["Noise is compared between splits, its values are judged in C13."],
    "Exhaustive over all splits of short pieces; long pieces use a stated list of block sizes.")
C['C05'] = ('config',
    "All lists of up to 3 checks over 8 kinds (true/false, expectation/assertion, per block/whole) x 5 positions of the breaking sample x 6 block sizes, with and without saved files, matchers given as temporaries or as objects; all lists of up to 4 checks which look the same; all pairs of stock matchers with levels around the peak; up to 128 checks; large pieces. Verdict, recorded messages and raised errors are compared with the model.",
    ["After a failed assertion, expectations which were decided before or in the same block must be recorded; those decided later need not be."],
    "Exhaustive over check lists up to length 3 with all their relative positions.")
C['C06'] = ('config',
    "All buffers of up to 4 samples over alphabets of the values around each boundary and of infinities and NaN, x settings x references, for the three stock matchers, float and double; one deciding sample at every stated position of buffers of up to 128 channels or 100000 frames, x block sizes; every stock signal as a reference. A state is a matcher, its settings, and a buffer.",
    ["Samples within rounding of a boundary (a few units in the last place) are not judged."],
    "Exhaustive over small buffers on boundary alphabets.")
C['C07'] = ('config',
    "One or two violating samples at every position of small pieces x all block sizes x 4 matchers; values (also infinities and NaN) x decimals x labels x kinds of check; pieces of up to 128 channels and 100000 frames; inverted checks. The numbers of every report are parsed and looked up in the audio.",
    ["Reports are recognised by the names of their fields.", "A report must fit some violating sample; which one of several is not prescribed, except for peaks-at, which must point at the peak."],
    "Exhaustive over positions of one or two violations in small pieces.")
C['C08'] = ('ops',
    "All histories of 4 operations (thorough: 5) out of 12 to 17 (render, reset, prepare at another rate or layout, copy, assign, move, append, automate, ...) on two objects, for all stock signals with 3 chains, effects with envelopes, envelopes, and matchers, value types included; sequences of 3 hosted tests with the same objects. After each history the audio is compared with that of a fresh object. A state is the model's state of both objects.",
    ["Objects are used again only after a reset and prepare, as the documentation asks for.", "Moved-from objects are only destroyed or assigned to."],
    "Exhaustive over operation histories up to the depth bound.")
C['C09'] = ('config',
    "All envelopes of up to 3 segments over an alphabet of holds and ramps of three shapes with durations of zero, fractions of a frame, whole frames and several frames x 6 start values and timings x block sizes, of 5 to 6 segments over a reduced alphabet; curves of up to 4000 segments and of 4 (thorough: 20) seconds; through the host as gains. Every value is compared with the curve evaluated at its time.",
    ["A value whose time is within rounding of a segment border may be the one of either side.", "Exponential ramps between values of different sign or zero are not judged."],
    "Exhaustive over segment lists up to 3; the oracle evaluates the mathematical curve in closed form.")
C['C10'] = ('ops',
    "All sequences of 4 operations (thorough: 5) out of 27 (attach by copy, by ownership, unsupported, twice; use, copy-construct, copy-assign, move, reset, prepare at another rate) on two automated spy effects; hosted configurations; stock effects x parameter ids; long blocks. Envelope buffers seen by the effects are compared with the model. A state is the model's envelopes of both effects.",
    ["Envelopes are compared through the values delivered to the effects."],
    "Exhaustive over operation sequences up to the depth bound.")
C['C11'] = ('ops',
    "All chains of up to 3 effects (thorough: 4) over 5 effects x 9 ways of attaching, temporaries, all copy/append sequences of 5 operations (thorough: 6) on several signals, refusals by the signal or by an effect at each position, chains of up to 60 effects, layouts up to 128 channels. The audio is compared with the effects applied one by one by the model.",
    ["Chains are rendered through the host and through the signal's own methods."],
    "Exhaustive over chains and copy/append histories within bounds.")
C['C12'] = ('ops',
    "All histories of 4 operations (thorough: 5) out of 11 (set value, unknown parameter, automate, process, reset, prepare, copy, move) for each stock effect, all values of a table x parameters x ways of setting them, the matrix of layouts up to 128 x 128 (documented subset), in place and out of place, large blocks. Output is compared with the formula.",
    ["Gains within rounding of -120 dB are not judged.", "Unsupported layouts must raise an error when hosted; direct use of an effect with them must not pass silently as audio."],
    "Exhaustive over operation histories and parameter tables.")
C['C13'] = ('config',
    "Sine: 6 rates x 9 relative frequencies x 11 phases x 4 channel counts x 9 block sizes, and 150000 frames (thorough: 2 million); sweeps: 4 rates x 14 lengths x 4x5 frequencies (some nearly the same) x types x looping x 4 phases x 9 block sizes, long ones of 150000 frames (thorough: 1 million); all sequences of up to 4 (thorough: 5) derived variants over 9 modifiers; noise with 10 seeds (and those which differ from them in one bit) x 4 channel counts, the command line seed, and its distribution; silence; refused parameters. Samples are compared with closed form phases in extended precision.",
    ["Generated samples may differ from the closed form by an accumulated rounding error, bounded per frame.", "That noise is different for different seeds, and spread over its range, is judged on the stated seeds."],
    "Exhaustive over the stated parameter grids; the oracle is closed form, not incremental.")
C['C14'] = ('ops',
    "Files in 5 formats x 5 channel counts x 6 lengths x 5 rates x 4 placements of extra chunks x looping x all small block sizes; all histories of 5 operations (thorough: 6) out of 9 on two objects; files of up to 128 channels and 100000 frames; a matrix of channel and rate mismatches; 3 working directories x 8 roots x 10 paths; every truncation of three files, wrong headers, garbage, directories, missing files. Files are made without the library.",
    ["A truncated file may either be refused or played as far as it goes, but never give other samples.", "Looping files without any frame are not judged."],
    "Exhaustive over small files, truncation points and operation histories within bounds.")
C['C15'] = ('config',
    "All 65536 codes of 16 bit files at 7 offsets from the rounding border, strided codes and powers of two for 24 bit (thorough: denser) and 32 bit, every exponent for floats, values beyond full scale; layouts of up to 128 channels and 70001 frames x 7 rates over files left from before; hosted: 5 requests x 6 layouts x lengths x blocks x rates x 4 outcomes; every stock signal saved and read back. Files are parsed without the library.",
    ["Samples which are not a number have no defined code in integer formats."],
    "Exhaustive over all 16 bit codes; grids for the wider formats.")
C['C16'] = ('config',
    "15 outcomes (passing, every way of failing, refused) x lists of wav requests x lists of plot requests (up to 2 of one and 1 of the other, over 10 kinds of request: path forms x save modes) with at most 1 deviation (thorough: 2) among files left from before, 4 forms of data root, block sizes, lengths, layouts, formats, order of the requests, an earlier test. A whole directory tree is compared before and after. A state is the configuration as the model sees it.",
    ["Files are looked for in the directories of the test's tree only."],
    "Exhaustive over outcomes and request lists within bounds; the rest by deviation bound.")
C['C17'] = ('ops',
    "All sequences of 3 operations on three buffers and of 4 operations on two buffers (thorough: 4 on three) out of write, append, assign, construct by copy or move, emptyLike, clear and construct, for float and double; all ranges of start and length from a table with overflowing values, with samples down to the smallest and up to the largest representable ones; growing by blocks up to 128 channels and 40000 frames. A state is the contents of all the buffers.",
    ["Buffers are accessed through their public interface only.", "A range of zero frames is not judged."],
    "Exhaustive over operation sequences up to the depth bound, with a two-dimensional array as the model.")
C['C18'] = ('config',
    "All pieces of up to 4 frames (thorough: 5) over 6 values (mono and stereo, as input or output); 8 layouts of up to 128 channels x 9 lengths of up to 100003 frames x 5 rates x 6 shapes x 3 levels; hosted tests x outcomes x chains; all 16 stock signals x 13 effects. The file is parsed as strict XML, and the affine maps from time and value to coordinates are recovered from it, and judged for every sample.",
    ["Coordinates may be rounded to what the file shows.", "Long lines may leave out samples only if the line still runs through them within that rounding.", "Samples which are not finite are not judged."],
    "Exhaustive over short pieces; the oracle is geometric and independent of how the plot is laid out.")
C['C19'] = ('ops',
    "All sequences of up to 4 settings (thorough: 5) over 17, with a premature process() among them, and up to 2 (thorough: 3) over 57 settings including invalid ones, with and without a signal; all 132 x 132 channel counts; durations around whole frames x rates x block sizes. What is in effect is seen by a spy effect. A state is the model's configuration.",
    ["That an error is raised is judged; for most of them not which class it has."],
    "Exhaustive over setting sequences up to the depth bound.")
C['C20'] = ('ops',
    "Every stock signal, effect and matcher with all arguments of a table, 7 settings of decimals, 11 states of the stream, as created, copied, moved, used; all combinations of 4 (thorough: 7) numbers of decimals for all 5 units; chains of up to 3 effects (thorough: 4) over 4 x 5 ways of attaching; all sequences of 3 (thorough: 4) things printed to one stream out of 23; failure reports with 5x5x5 numbers of decimals. Numbers are parsed out of the text and judged by value and decimals. A state is a text.",
    ["Spaces between arguments are free.", "A phase may be shown as an equivalent one within a turn.", "Envelopes are not part of an effect's representation."],
    "Exhaustive over print sequences and decimals within bounds.")
C['C21'] = ('config',
    "All floats with up to 12 significant bits and their neighbours (thorough: all 2^32 floats), all doubles with up to 9 (thorough: 16) mantissa bits and their neighbours for every sign and exponent, 40000 (thorough: 400000) levels, multiples of pi/4 and halves with their 8 neighbours; pairs and triples of a table of values for comparing and clamping; literals over 9000 values each; all paths of up to 5 (thorough: 7) characters over an alphabet of 8, with 8 data roots. Values are compared with extended precision arithmetic.",
    ["Results may be off by a few units in the last place, as much as rounding the argument of the function explains.", "Phases beyond the precision of their type are only judged by range.", "Negative values are not rounded to frames."],
    "Exhaustive over the stated lattices of floating point values (all floats in the thorough tier).")
C['C22'] = ('fault',
    "The process is not allowed to write beyond a number of bytes of a file: every number for small files, and every 64th to 8192nd and all around the ends for larger ones, for wav files in 4 formats, plots, and both, x layouts x lengths x 5 outcomes of the checks; 13 kinds of wav target x 13 kinds of plot target (new, existing, links, missing directory, directory, full device, too long a name, socket, no descriptors left, ...) x outcomes x order x path form; requests which are not due; whole programs with a task whose file cannot be written.",
    ["The failures are those of the write and open system calls; a device which fails only when synced or closed is not simulated."],
    "Exhaustive over byte positions of small files and over kinds of targets.")
C['C23'] = ('cleanup',
    "Every call into a user's object (24 kinds of callbacks of effect, signal, envelope and matcher, their copies, and the effects of a chain) throws, with 6 kinds of exceptions, in tests with chains of 0 to 2 effects, 3 ways of handing the effect over, 5 outcomes, 4 kinds of saved files (thorough: 8, also unusable targets), and processing once more with the same host afterwards; every memory allocation (operator new, and those of the wav library) fails in tests over all stock signals x the user's effect and all stock effects x the user's signal, 9 outcomes, 4 kinds of wav targets (thorough: all pairs); in 30 single operations each followed by each of the 30; in reading wav files of 8 kinds x 4 widths x 3 layouts x 4 lengths, also cut at every byte of their header; and in writing 4 formats x 4 layouts x 3 lengths x 3 targets. Judged: live allocations, open files, and constructions and destructions of the user's objects balance; the exception arrives as it was thrown; processing again gives what the test gives without a fault; an unrelated test gives the same audio and messages as ever.",
    ["Memory which the plotting library (not part of HART) loses when it gets none is not judged.", "Exceptions thrown by destructors or move constructors of the user's objects are not explored.", "When memory runs out while text is formatted a part of the text may be missing."],
    "Exhaustive over single faults at every callback and every allocation of the stated tests; no second fault.")
C['C24'] = ('proc',
    "All sequences of up to 3 (thorough: 4) options out of 12 forms of the 10 options, pairs of these with the 70 forms of the whole alphabet (long and short, value separate or attached, many values), all options at once in every rotation and its reverse with any one left out, 100 malformed or unknown options at every place among up to 2 proper ones, values missing at the end, help at every place. Each runs a whole program, whose tasks look at every setting and its effects: numbers printed per unit, the samples of the noise, absolute and relative paths, kinds of tasks run, their order.",
    ["An option given twice may be refused, or either of the two counts.", "Negative numbers of decimals and of seeds are not judged, nor which tags select which tasks (C02)."],
    "Exhaustive over option sequences within bounds.")
C['C25'] = ('ops',
    "Lives of 5 steps of 55 kinds of objects (all stock signals, also with effects, effects, envelopes, matchers, tests, buffers, wav files, streams, functions), in two versions with different parameters: for all ordered pairs of them, all 252 ways of taking the steps in turn (thorough: also all of them for double); three at once; each with 4 contents of fresh memory and 3 arrangements of addresses; each object or test used within every callback of 4 tests (thorough: within any two callbacks); two tests in two threads, all schedules with at most 2 changes (thorough: 3) at callbacks. Every step must give what it gives alone, in a process of its own. Locale, standard streams, rand(), directory, umask, floating point mode, signal handlers and environment must be as before.",
    ["Threads change at callbacks into the user's objects only; races at a finer grain are not explored.", "Global settings made by the command line apply to all, and are not changed in between."],
    "Exhaustive over interleavings of two scripts, nesting points, and schedules with bounded changes.")

RULE = {'C23': "One evaluation is one sequence of choices (kind of test, objects, outcome, files), and runs the real code once without a fault, then once for each callback x kind of exception, or for each memory allocation, with the fault at exactly that point, until the point lies behind the end. Counted as distinct are the tests x fault points (by callback and ending, or by number of the allocation).", 
        'C22': "One evaluation is one sequence of choices (files, format, layout, length, outcome, and target or position in the program), and runs the real code once for each write limit of its list. Counted as distinct and non-trivial are the outcomes with a different fault position, error verdict, or resulting file contents."}


# id: (oracle, what unit tests cannot reach)
WHY = {
    'C01': ("a list of tasks with their verdicts and messages, from which output, totals and status follow",
            "one test program is one sequence of verdicts; leaks from task to task, messages lost in combinations, and totals or statuses which overflow need others"),
    'C02': ("a list per kind with unique names; the orders seen in other processes",
            "a test program runs in one mode, with one seed, once"),
    'C03': ("an automaton of the documented life cycle per object, and the audio every object must get",
            "tests see results, not calls; wrong sizes, order or channel counts rarely change the result of the stock objects"),
    'C04': ("the same audio rendered in one block, and the model's audio",
            "tests use one block size per piece; state carried across block borders wrongly only shows at particular splits"),
    'C05': ("a model of each check's condition over the audio: verdict, record, stop",
            "combinations of several checks, levels and positions of the violation; tests have mostly one check which passes"),
    'C06': ("the condition, in extended precision",
            "one deciding sample in any channel, frame, sign and value around the boundary"),
    'C07': ("the numbers of the report, looked up in the audio",
            "reports only exist in failing tests, so no passing test sees them"),
    'C08': ("a fresh object",
            "bugs need a history: partial use, then reset, copy, move, or another rate"),
    'C09': ("the curve, evaluated in extended precision at the end of each frame",
            "combinations of segments, fractions of frames, accumulated time"),
    'C10': ("a map from parameter to envelope values for each effect",
            "histories of attaching, copying, moving and assigning"),
    'C11': ("the effects applied one by one to the bare signal",
            "ways of attaching, copies which share, refusals at a position of the chain"),
    'C12': ("the formula, with the value in force",
            "parameters changed, automated, copied in sequence; layouts beyond mono and stereo"),
    'C13': ("closed forms of phase and frequency in extended precision",
            "durations, fractions of frames, loops, variants of variants, long pieces"),
    'C14': ("the samples written into the file by the harness",
            "file lengths against block sizes, loops, resets half way, layouts, damaged files"),
    'C15': ("an independent parser of the file, and rounding in integer arithmetic",
            "every code and its rounding borders, full scale, large layouts"),
    'C16': ("the set of files which must exist afterwards, with their contents",
            "combinations of outcome, mode, path, request order and files left from before"),
    'C17': ("a vector of vectors",
            "operation sequences, self assignment and appending, moved-from objects, ranges with overflow"),
    'C18': ("the points (time, value) of every sample, under an affine map which is the same for the whole panel",
            "the plots are never read by a test"),
    'C19': ("the last valid value of each setting",
            "settings refused and repeated, in any order; a refused one must leave no trace"),
    'C20': ("name, arguments and units, with the decimals of their unit",
            "the state of the stream left by whatever was printed before; settings of decimals"),
    'C21': ("extended precision arithmetic; string rules",
            "special values, borders and neighbours of every exponent"),
    'C22': ("either an error, or complete files",
            "a full disk does not happen in a test"),
    'C23': ("the balance of memory, files and objects before the test, the exception thrown, and the same test without a fault",
            "tests do not fail in the middle, and leaks or left over state do not change their results"),
    'C25': ("the same steps taken alone, in a process of their own",
            "tests use one object after another, so that nothing which two of them share shows"),
    'C24': ("a record of settings, each set by its own option only",
            "options are parsed once per process; which of them disturb each other only shows in combinations"),
}


def main():
    checks, manifest = {}, []
    for cid, (family, covers, assumptions, note) in sorted(C.items()):
        level = 'fault_enumeration' if family in ('fault', 'cleanup') else 'model_checking'
        checks[cid] = {'level': level, 'covers': covers, 'assumptions': assumptions}
        if cid in RULE:
            checks[cid]['rule'] = RULE[cid]
        manifest.append({
            'property': cid, 'quick_cmd': f'python3 run.py {cid} quick', 'thorough_cmd': f'python3 run.py {cid} thorough',
            'technique': FAMILY[family], 'level': level, 'level_note': note,
        })
    with open(HERE + '/harness/checks.json', 'w') as f:
        json.dump(checks, f, indent=1)
        f.write('\n')
    with open(HERE + '/MANIFEST.json', 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'true', 'checks': manifest, 'not_applicable': []}, f, indent=1)
        f.write('\n')


def design():
    """DESIGN.md from design.in.md and the tables"""
    titles = {}
    with open(HERE + '/properties.jsonl') as f:
        for line in f:
            p = json.loads(line)
            titles[p['id']] = p['title']
    props = ''
    for cid, (family, covers, assumptions, note) in sorted(C.items()):
        oracle, why = WHY[cid]
        props += f"### {cid} {titles[cid]}\n\n*Explored.* {covers}\n\n*Oracle.* The model is {oracle}. {' '.join(assumptions)}\n\n*Beyond tests.* {why[0].upper() + why[1:]}.\n\n*Strength.* {note}\n\n"
    with open(HERE + '/known_findings.json') as f:
        fixed = json.load(f)['fixed']
    fixes = ''
    for line in fixed:
        cid, commit, what = line[len('fixed: property='):].split(' ', 2)
        fixes += f'* {cid} `{commit}`: {what}\n'
    seeds = '| Bug | Needs | First | Now |\n|---|---|---|---|\n'
    with open(HERE + '/seed_results.json') as f:
        for s in json.load(f):
            seeds += f"| {s['id']} | {s['needs']} | {s['first']} | {s['now']} |\n"
    with open(HERE + '/design.in.md') as f:
        text = f.read()
    text = text.replace('@@PROPS@@\n', props).replace('@@FIXES@@\n', fixes).replace('@@SEEDS@@\n', seeds)
    with open(HERE + '/DESIGN.md', 'w') as f:
        f.write(text)


main()
design()
