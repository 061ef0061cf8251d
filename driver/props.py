"""What the checks need to know about each property."""

WORKERS = 8
STALL = 300            # seconds without progress before a worker counts as hung
PREFIX_LIMIT = 300
MINIMISE_MS = 25000

DAG_REAL = ["pkg/dag (all of it, with its own goroutines, channels and selects; statements instrumented)"]
DAG_STUBS = ["goroutine scheduler, channels, select and map iteration order: simulator, decided by the seed",
             "clock: simulated"]
DAG_ASSUME = [
    "Preemption happens between statements of the code under test; accesses within a statement are judged by the race detector.",
    "Go's documented contract of the package: one thread changes a graph at a time, and none while a walk is in progress.",
]
SETS_REAL = ["pkg/dag Set (all of it; statements instrumented)"]


def dag(rule, quick=30, thorough=600, real=DAG_REAL):
    return dict(race=True, quick=quick, thorough=thorough, real=real, stubs=DAG_STUBS, assumptions=DAG_ASSUME, rule=rule)


ETX_REAL = ["pkg/etx (all of it; statements instrumented)",
            "participle v2 with its lexer (all of it; functions and loops instrumented, map iterations permuted)"]
ETX_STUBS = ["goroutine scheduler, mutexes and map iteration order: simulator, decided by the seed",
             "input streams: simulated devices whose read sizes, pauses, failures and ends the plan decides",
             "clock: simulated"]
ETX_ASSUME = [
    "Preemption happens between statements of pkg/etx and between functions and loop rounds of participle; accesses in between are judged by the race detector where it is on.",
    "The reference outcome of a document is what pkg/etx.ParseString gives for it when nothing else happens.",
]


def etx(rule, race=False, quick=40, thorough=600, det=4, **kw):
    return dict(race=race, quick=quick, thorough=thorough, real=ETX_REAL, stubs=ETX_STUBS, assumptions=ETX_ASSUME, rule=rule,
                det=det, **kw)


PROPS = {
    "G01": dag("Seeded graphs with walks read by several simulated threads at their own pace (stalls, yields, preemption); non-trivial: at least one fault (stall, refused operation) fired or more than two task switches happened."),
    "G02": dag("Seeded graphs with walks stopped at every kind of instant (before the first identifier, midway, with the walker waiting, after the last identifier, after the end, by a third thread), read on, left or abandoned; non-trivial: at least one stop, abandonment or stall fired or more than two task switches happened."),
    "G03": dag("Seeded histories with ordered listings, changes right after them and concurrent walks; non-trivial: more than two task switches or a fault."),
    "G04": dag("Seeded histories with many loop-closing attempts, deletions, reductions and cache-filling queries; non-trivial: at least one refused change or more than two task switches."),
    "G05": dag("Seeded histories of changes and queries over thirteen key and value types; non-trivial: at least one refused change or more than two task switches."),
    "G06": dag("Seeded histories interleaving cached reachability queries with changes; non-trivial: at least one refused change or more than two task switches."),
    "G07": dag("Seeded histories around transitive reductions, with and without filled caches, all map orders permuted; non-trivial: at least one refused change or more than two task switches."),
    "G08": dag("Seeded histories in which returned collections are overwritten while the graph is used and walked; non-trivial: at least one overwrite, stop or stall."),
    "G09": dag("Seeded walks read, stopped and abandoned by several threads while the owner queries, then changes after they ended; non-trivial: at least one fault or more than two task switches."),
    "G10": dag("Two to four graphs used by different threads at once; non-trivial: at least one fault or more than two task switches."),
    "G11": dag("Shared sets read by several threads at once that modify their own results, with failing and re-entrant callbacks; non-trivial: at least one fault (callback panic, re-entry, overwritten result) or more than two task switches.", real=SETS_REAL),
    "G12": dag("Seeded histories in which most operations must be refused, compared with the model before and after; non-trivial: at least one refused change."),
    "E01": etx("Seeded documents delivered by streams of every kind, with read sizes from empty to the whole, pauses, scribbles beyond the reported bytes and data together with the end, from one or several threads; non-trivial: at least one such delivery irregularity or more than two task switches."),
    "E02": etx("Seeded documents whose stream fails at a chosen byte with one of many errors (bare or with data, once or for good, or by a crash of the reader), followed by further parses; non-trivial: at least one read failure."),
    "E03": etx("Every run in a process of its own: several threads parse different and shared documents, the first parses of the process included, from strings, shared slices and streams; non-trivial: more than two task switches or a fault.", race=True, cold=True, quick=60),
    "E04": etx("Threads parse shared and own inputs, overwrite and reuse buffers and readers, and edit trees at will while the others' trees are compared; non-trivial: at least one overwrite, edit or more than two task switches.", race=True),
    "E05": etx("Clones of whole trees and of every part, edited and relinked by some threads while others read the originals, and the other way round; non-trivial: at least one edit, relink or more than two task switches.", race=True),
    "E06": etx("Threads print, clone, list and overwrite children lists of nodes of the same trees at once; non-trivial: at least one overwrite or more than two task switches.", race=True),
    "E07": etx("Damaged documents: cut, bits flipped, pieces lost, doubled, spliced or moved, tokens swapped, deep nesting, given in every way; non-trivial: at least one damage or fault."),
    "E08": etx("Streams that record who calls them and when, with failures, endings with data, pauses and extra capabilities, from several threads; non-trivial: at least one stream irregularity or more than two task switches.", race=True),
    "E09": etx("Histories of parses of valid, damaged and failing inputs with edits of earlier trees, under permuted map orders, compared with parses by a fresh process; non-trivial: at least one damage, failure or edit."),
}
