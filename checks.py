"""The registry: harnesses, and per property its text, its stages and its bounds.
bin/gen.py writes properties.jsonl and MANIFEST.json from it."""
HARNESSES = {}
CHECKS = {}


def harness(name, libs=("core", "sparql", "shim"), variant="plain", **kw):
    HARNESSES[name] = dict(src=kw.pop("src", [f"harness/{name}.cpp"]) + kw.pop("extra", []), libs=list(libs), variant=variant, **kw)


def prop(pid, title, statement, over, quant, why, files, mech, stages, level="exploration", rule="", bounds="", tech="", note="", assumptions=(), observe=()):
    assert len(title) <= 80, title
    CHECKS[pid] = dict(title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech,
                       stages=[dict(harness=s[0], args=list(s[1:])) if not isinstance(s, dict) else s for s in stages],
                       level=level, rule=rule, bounds=bounds, tech=tech, note=note, assumptions=list(assumptions), observe=list(observe))


SHIM = "KOGNAC (a dependency that is not in the repository and not in the sandbox) is replaced by a sequentially specified stand-in (/verif/shim)"

harness("kbquery")
harness("dict")
harness("loadfiles")
harness("sorter")
harness("graph", libs=("core", "shim", "analytics", "snap"))
harness("kbcard")
harness("kbiter")
harness("kbupdate")
harness("native")
harness("sparqlgrp")
harness("sparqlmod")
harness("sparqlbgp")
harness("strbuf")
harness("tree")
harness("schedload", libs=("core", "shim", "sched"))
harness("raceload", src=["harness/schedload.cpp"], libs=("core", "shim", "sched", "race"), variant="race")
harness("raceunit", src=["harness/schedunit.cpp"], libs=("core", "shim", "sched", "race"), variant="race")
harness("endpoint", libs=("core", "sparql", "server", "shim", "sched", "net"))
harness("raceendpoint", src=["harness/endpoint.cpp"], libs=("core", "sparql", "server", "shim", "sched", "net", "race"), variant="race")
harness("train", libs=("core", "ml", "shim", "sched"))
harness("subgraph", libs=("core", "ml", "shim"))
harness("http", libs=("core", "shim", "sched", "net"))
harness("schedunit", libs=("core", "shim", "sched"))

prop("C01", "A triple pattern returns exactly the matching triples, in index order",
     "For every loaded set of triples, every load configuration (number of permutations, aggregated or skipped tables, fixed or dynamic layouts) and every pattern whose constants form a prefix of a permutation, iterating that permutation yields each matching triple exactly once, in the order of the permutation, and nothing else.",
     ["inputs", "configurations"], "all triple sets over a bounded domain, all configurations, all patterns and all six permutations",
     "No existing test loads a knowledge base; the result must be right for every graph, layout and configuration.",
     ["src/trident/kb/querier.cpp", "src/trident/kb/inserter.cpp", "src/trident/kb/kb.cpp", "src/trident/loader.cpp", "src/trident/iterators/", "src/trident/binarytables/"],
     [("Querier::getIterator", "src/trident/kb/querier.cpp"), ("TableStorage / StorageStrat", "src/trident/binarytables")],
     [("kbquery", "--mode", "small"), ("kbquery", "--mode", "config"), ("kbquery", "--mode", "shape"), ("kbquery", "--mode", "groups")],
     rule="every subset of {0,1}^3, times every load configuration, times every pattern over the domain plus one absent term, times the permutations that admit it; table shapes (row, cluster, column; 1 to 5 byte columns) by systematically chosen group sizes and value widths. Outcomes are distinct result sequences.",
     bounds="2 terms per position (255 graphs) x 76 configurations; 1386 table shapes and 3812 sequences of group sizes around the counter-width boundaries, in 4 layouts", tech="exhaustive bounded enumeration of graphs, configurations and queries on the real loader and query engine, against a set model",
     note="Exhaustive within the bounds; data beyond the alphabet is not covered.", assumptions=[SHIM])

prop("C02", "Cardinalities, existence tests and graph primitives agree with the triples",
     "Counting, existence, emptiness, key lists, edge counting, grouping by one or two fields and positional access return exactly what the set of triples implies, for every pattern (also when a variable is repeated) and whatever indices are stored. Asking twice, or for another knowledge base in the same process, never changes an answer.",
     ["inputs", "configurations", "histories"], "all triple sets over a bounded domain, all index configurations, all patterns",
     "The existing tests exercise three graph files through SNAP and never call these primitives.",
     ["src/trident/kb/querier.cpp", "include/trident/kb/querier.h", "include/trident/iterators/filtersameitr.h"],
     [("Querier::getCard*, countEdges, edg_*, grp_*, cnt_grp_*, pos_*", "include/trident/kb/querier.h")],
     [("kbcard", "--what", "count"), ("kbcard", "--what", "edges"), ("kbcard", "--what", "same")],
     rule="every subset of {0,1}^3 times 8 index configurations times every pattern over {variables, 0, 1, absent}; outcome = (primitive, value)",
     bounds="255 graphs x 8 configurations, all patterns", tech="exhaustive bounded enumeration of graphs, configurations and queries on the real code, against a set model",
     note="Exhaustive within the bounds.", assumptions=[SHIM])

prop("C03", "Repositioning an iterator resumes exactly at the target",
     "From every position of every iterator over stored triples, moving forward to a pair or to a key resumes at the first remaining result that is not smaller than the target, stepping never skips, repeats or invents a result, and returning to a marked position replays exactly what followed it. This also holds when the last column is ignored, in which case each distinct prefix is reported once with its number of occurrences.",
     ["histories", "inputs", "configurations"], "all sequences of operations up to a bound, on all tables over a bounded domain, for every table layout and index configuration",
     "The result depends on hidden cursor state and on the physical layout; no existing test opens an iterator.",
     ["include/trident/binarytables/newrowtable.h", "include/trident/binarytables/newclustertable.h", "include/trident/binarytables/newcolumntable.h", "src/trident/iterators/"],
     [("moveto / gotoKey / mark / reset / ignoreSecondColumn", "include/trident/iterators/pairitr.h")],
     [("kbiter",), ("kbiter", "--mode", "ignore"), ("kbiter", "--mode", "large"), ("kbiter", "--mode", "terms")], level="model_checking",
     rule="", bounds="63 tables x 10 configurations x 6 permutations x prefixes; all sequences of 2 blocks (up to 3 next, then moveto / gotoKey / mark / reset; thorough: 3 blocks), then drained; tables of up to 900 pairs: 5 positions x all targets; key lists: all sequences of up to 6 (thorough 7) of next, getCount, mark, reset, gotoKey",
     tech="explicit enumeration of operation sequences on the real iterators, compared with a list model at every step",
     note="Exhaustive within the bounds; states = operation sequences run to the end, transitions = operations.", assumptions=[SHIM, "next() is only called after hasNext() said true, moveto/gotoKey directly after next(), as in all callers"])

prop("C04", "Updates and merges leave exactly the triples and terms the history implies",
     "After every history of additions, removals and merges on a stored knowledge base, reopening it shows exactly the base triples plus those added minus those removed later, in every pattern, permutation, count, key list and repositioned scan; known terms keep their numbers, new terms get fresh ones and read back unchanged.",
     ["histories", "inputs", "configurations"], "all histories of updates up to a depth, all base graphs and update sets over a bounded domain, several load configurations",
     "The answer depends on the whole history (re-added, removed, unknown or duplicate triples, merged deltas); no existing test applies an update.",
     ["src/trident/kb/updater.cpp", "src/trident/kb/diffindex.cpp", "src/trident/kb/kb.cpp", "src/trident/iterators/", "src/trident/kb/dictmgmt.cpp"],
     [("Updater::creatediffupdate, KB::mergeUpdates", "src/trident/kb/updater.cpp"), ("DiffIndex / RmItr / Composite*Itr", "src/trident/iterators")],
     [("kbupdate", "--mode", "seq", "--depth", "3", "--card", "1", "--iter", "2"), ("kbupdate", "--mode", "one", "--step", "19", "--card", "1", "--iter", "2"), ("kbupdate", "--mode", "parse"), ("kbupdate", "--mode", "long", "--card", "1"), ("kbupdate", "--mode", "config", "--card", "1"), ("kbupdate", "--mode", "big")],
     level="model_checking", bounds="all histories of 1-3 operations out of 9 from 3 bases; all words of up to 4 out of 5 operations repeated to histories of 5 to 23; one update of up to 2 (or 7-8) triples on every 19th of the 255 bases; update files of up to 3 of 6 lines; 11 load configurations x 5 update sets x 22 bases; 10 shapes of large tables (64-300 pairs, terms of 1-3 bytes) x 3 or 6 orders x 5 histories x 3 outcomes of rand()",
     tech="explicit enumeration of update histories run on the real code (update files, reopening, merging), compared with a set model after every history",
     note="Exhaustive within the bounds; histories start from a freshly loaded KB and are compared after reopening.", assumptions=[SHIM, "one process updates at a time; crashes during an update are not claimed"])

prop("C05", "Basic graph pattern queries return exactly the answers of the definition",
     "A SELECT query over a conjunction of triple patterns returns, with multiplicity (or once each with DISTINCT), exactly the projected assignments of terms to variables that make every pattern a stored triple: for every combination of shared, repeated, unused and unprojected variables and of known, unused and unknown constants, whatever the data distribution, the set of stored indices, or the updates applied, and hence whatever join order and join operators the optimizer picks.",
     ["inputs", "configurations"], "all queries of up to three patterns over a bounded vocabulary, all graphs over a bounded domain, structured larger graphs, several load configurations and updated KBs",
     "The plan depends on the query and on statistics of the data; no existing test runs a query.",
     ["rdf3x/src/cts/", "rdf3x/src/rts/", "src/layers/TridentLayer.cpp", "src/trident/sparql/"],
     [("PlanGen / CodeGen", "rdf3x/src/cts"), ("IndexScan, joins, HashGroupify, ResultsPrinter", "rdf3x/src/rts"), ("TridentScan", "src/layers/TridentLayer.cpp")],
     [("sparqlbgp", "--mode", "pats", "--step", "4"), ("sparqlbgp", "--mode", "absent", "--step", "6"), ("sparqlbgp", "--mode", "three", "--step", "17"), ("sparqlbgp", "--mode", "config", "--step", "29"), ("sparqlbgp", "--mode", "update", "--step", "85", "--tstep", "7"), ("sparqlbgp", "--mode", "shape"), ("sparqlbgp", "--mode", "wide")],
     rule="every canonical query of N patterns whose positions are variables or constants, times projections of all, one or two variables, times DISTINCT; outcome = set of answers",
     bounds="2 patterns: all, over every 4th (thorough: every) graph of {0,1}^3; 1-2 patterns with absent and unknown constants; 3 patterns with constant predicates; 6 index configurations; KBs after additions/removals; 53 structured graphs of up to 64 triples; 14 queries over 70 graphs of 60-3100 (thorough 238 of 5-9000) nodes, beyond the sizes at which hash tables grow",
     tech="exhaustive bounded enumeration of queries and graphs on the real parser, optimizer and operators, compared with the definition of the answers",
     note="Exhaustive within the bounds.", assumptions=[SHIM, "the data is not empty"])

prop("C06", "FILTER keeps exactly the solutions whose condition holds",
     "In a SELECT query a FILTER removes exactly the solutions for which its condition is not true, wherever the planner evaluates it: =, !=, <, <=, >, >= between numbers (integers, doubles, floats, negative ones too) and between plain strings, sameTerm, in(), NOT IN, bound, isIRI, isLITERAL, their negations, conjunctions and disjunctions over variables the group binds and known or unknown constants, and NOT EXISTS with one or more patterns sharing any number of variables with the group.",
     ["inputs"], "all conditions of a grammar up to depth 2, all queries of up to three patterns and all graphs over a bounded vocabulary",
     "Where a filter is evaluated and what is bound there depends on the plan; no existing test runs a query.",
     ["rdf3x/src/rts/Selection.cpp", "rdf3x/src/rts/Filter.cpp", "rdf3x/src/cts/PlanGen.cpp", "rdf3x/src/cts/CodeGen.cpp", "rdf3x/src/cts/SemanticAnalysis.cpp"],
     [("Selection predicates", "rdf3x/src/rts/Selection.cpp"), ("PlanGen::buildFilters, isUnused", "rdf3x/src/cts/PlanGen.cpp")],
     [("sparqlgrp", "--mode", "filter", "--step", "7"), ("sparqlgrp", "--mode", "exists", "--step", "1"), ("sparqlgrp", "--mode", "exists3", "--step", "5"), ("sparqlgrp", "--mode", "unionfilter", "--step", "4"), ("sparqlgrp", "--mode", "unknownfilter", "--step", "1"), ("sparqlgrp", "--mode", "rel", "--step", "13")],
     rule="every canonical query of N patterns over two predicates and variables, one FILTER; projections of all, the first, the last variable; with and without DISTINCT; outcome = set of answers",
     bounds="2 patterns x 35 atomic conditions, their negations and 100 and/or combinations; NOT EXISTS of 1-2 patterns, or two of them; filters in and over a UNION; terms the dictionary does not have; comparisons of 6 numbers and 6 strings with each other and with 24 constants, half of them not in the dictionary, over every 13th of 4095 graphs; every 7th (1st, 5th, 4th, 1st) of the 255 graphs over 2 nodes and 2 predicates; thorough: all",
     tech="exhaustive bounded enumeration of conditions, queries and graphs on the real engine, compared with a reference evaluator of the SPARQL algebra",
     note="Exhaustive within the bounds.", assumptions=[SHIM, "comparisons mention only variables that are bound in every solution", "the data is not empty"])

prop("C07", "UNION, VALUES and MINUS combine solutions as the algebra defines",
     "SELECT queries whose group combines triple patterns with UNION (of two or three groups, with filters, MINUS or NOT EXISTS inside a branch), VALUES blocks of one or two variables, and MINUS (one or several, with any number of shared variables, also none, and also against partially bound rows) return exactly the solutions of the SPARQL algebra with their multiplicities, also when they mention terms that the database has never seen, provided every variable on which a UNION or VALUES block is joined with the rest of the group is bound in all of its rows. OPTIONAL is not included.",
     ["inputs"], "all queries built from up to three patterns and these operators, all graphs over a bounded vocabulary",
     "Join order, operator and variable scoping interact; no existing test runs a query.",
     ["rdf3x/src/rts/Union.cpp", "rdf3x/src/rts/MergeUnion.cpp", "rdf3x/src/rts/Minus.cpp", "rdf3x/src/rts/ValuesScan.cpp", "rdf3x/src/cts/"],
     [("buildUnion, translateUnion", "rdf3x/src/cts"), ("MergeUnion, Minus, ValuesScan", "rdf3x/src/rts")],
     [("sparqlgrp", "--mode", "union", "--step", "2"), ("sparqlgrp", "--mode", "unionjoin", "--step", "5"), ("sparqlgrp", "--mode", "union3", "--step", "9"), ("sparqlgrp", "--mode", "minus", "--step", "3"), ("sparqlgrp", "--mode", "minus3", "--step", "9"), ("sparqlgrp", "--mode", "values", "--step", "1"), ("sparqlgrp", "--mode", "values2", "--step", "5"), ("sparqlgrp", "--mode", "unknown", "--step", "1"), ("sparqlgrp", "--mode", "known")],
     rule="every canonical query of N patterns over two predicates arranged as union, join with a union, nested union, minus, values; projections of all, the first, the last variable; with and without DISTINCT; outcome = set of answers",
     bounds="1-3 patterns; VALUES of up to 4 rows over 1-2 variables; every N-th of the 255 graphs over 2 nodes and 2 predicates (thorough: all)",
     tech="exhaustive bounded enumeration of queries and graphs on the real engine, compared with a reference evaluator of the SPARQL algebra",
     note="Exhaustive within the bounds; joins on variables that a UNION branch leaves unbound and OPTIONAL are recorded findings.", assumptions=[SHIM, "the data is not empty"])

prop("C08", "Aggregates, ordering, LIMIT/OFFSET and subselects follow the SPARQL definition",
     "COUNT, COUNT(DISTINCT), SUM, MIN, MAX and AVG over non-negative integer literals, without and with GROUP BY and HAVING, are computed over the solutions of the pattern or of a UNION with their multiplicities (without GROUP BY also over none; unbound values are skipped), DISTINCT and plain aggregates side by side; GROUP BY without aggregates gives every group once; ORDER BY (unbound first, then IRIs, then literals, each by their text; ASC and DESC, several keys) returns a correctly sorted permutation of the solutions; LIMIT and OFFSET return exactly the corresponding slice, also with DISTINCT; a subselect contributes exactly its own (possibly DISTINCT or aggregated) result.",
     ["inputs"], "all queries of up to two patterns with these modifiers, all graphs over a bounded vocabulary",
     "The operators work on counted, possibly pre-aggregated rows; no existing test runs a query.",
     ["rdf3x/src/rts/GroupBy.cpp", "rdf3x/src/rts/AggrFunctions.cpp", "src/trident/sparql/aggrhandler.cpp", "rdf3x/src/rts/Sort.cpp", "rdf3x/src/rts/DuplLimit.cpp", "rdf3x/src/rts/ResultsPrinter.cpp"],
     [("GroupBy / AggrFunctions / AggregateHandler", "rdf3x/src/rts"), ("Sort", "rdf3x/src/rts/Sort.cpp"), ("ResultsPrinter, DuplLimit", "rdf3x/src/rts")],
     [("sparqlmod", "--mode", "agg", "--step", "2"), ("sparqlmod", "--mode", "order", "--step", "5"), ("sparqlmod", "--mode", "sub", "--step", "1"), ("sparqlmod", "--mode", "union", "--step", "61"), ("sparqlmod", "--mode", "tie", "--step", "23"), ("sparqlmod", "--mode", "groups"), ("sparqlmod", "--mode", "known")],
     rule="every canonical query of 1-2 patterns x aggregate lists x grouping keys x HAVING; x projections x order keys and directions x LIMIT x OFFSET; x subselect projections; outcome = result",
     bounds="every 2nd (5th, 1st) of the 1023 graphs of 2 subjects, 3 numbers, 2 predicates (thorough: all); up to 3 variables; LIMIT and OFFSET up to 4; every 61st of them with a UNION of every two patterns; every 23rd of the 4095 graphs over 12 terms that are prefixes of each other; 16 (thorough: 48) graphs with 5-90 groups, one to three keys",
     tech="exhaustive bounded enumeration of queries and graphs on the real engine, compared with a reference computation on the solutions",
     note="Exhaustive within the bounds.", assumptions=[SHIM, "AVG is compared where the mean is an integer"])

prop("C09", "The dictionary trees map every key to the value last stored for it",
     "After any sequence of insertions (of terms, or of numbers with coordinates, in any order, also of keys already present, and with replaced coordinates), a B+-tree returns for every key exactly the value last stored and reports every other key as absent; iterating it yields every entry once in key order; all of this both while it is being written and after it is closed and reopened, whatever node size, cache size, value width and eviction order.",
     ["histories", "inputs", "configurations"], "all insertion orders up to a bound, key sets and value runs of every step, small and large nodes and caches",
     "Nodes are split, compressed, written out and evicted depending on order and sizes; the existing tests do not open a tree.",
     ["src/trident/tree/", "include/trident/tree/", "src/trident/files/filemanager.h"],
     [("Root / IntermediateNode / Leaf / Node", "src/trident/tree"), ("NodeManager, Cache", "src/trident/tree"), ("Coordinates", "include/trident/tree/coordinates.h")],
     [("tree", "--mode", "perm"), ("tree", "--mode", "grow"), ("tree", "--mode", "steps"), ("tree", "--mode", "sizes"), ("tree", "--mode", "again"), ("tree", "--mode", "dense"), ("tree", "--mode", "inner")], level="model_checking",
     bounds="all orders of 6 (thorough 7) keys; 7 (9) keys each placed before, amid or after 12 present ones; ascending runs of 15 steps between 1 and 70000; all orders of 8 one-letter terms; insertions into every position of every inner node; node capacities 4, 6, 8, evicting caches",
     tech="explicit enumeration of insertion histories on the real trees, compared with a map after every insertion and after reopening",
     note="Exhaustive within the bounds; states = histories, transitions = insertions.", assumptions=[SHIM, "a tree is written by one process, closed, then opened read-only (as the loader does)"])

prop("C10", "The string store returns every stored string at its position",
     "Strings (shorter than 64 KiB, the limit of a term) appended to the string buffer are returned byte for byte (by position, and by comparison against a given string) wherever block and entry boundaries fall, whether or not their block is still being written, has been compressed or evicted, during writing and after reopening.",
     ["histories", "inputs"], "all sequences of string lengths around the block boundaries up to a depth; all sequences of reads over more blocks than the cache holds",
     "The failing lengths are those at which a length prefix or a string ends exactly at a 64 KiB block boundary; no existing test opens a string buffer.",
     ["src/trident/tree/stringbuffer.cpp", "include/trident/tree/stringbuffer.h"],
     [("append / get / isEqual / compareTo / compressBlock / uncompressBlock", "src/trident/tree/stringbuffer.cpp")],
     [("strbuf", "--mode", "boundary", "--depth", "3"), ("strbuf", "--mode", "end"), ("strbuf", "--mode", "cache")], level="model_checking",
     bounds="all sequences of 3 (thorough 4) lengths from an alphabet around the block and length-prefix boundaries; last entry ending within +-6 bytes of a block end; all sequences of 4 (5) reads over 8 blocks with a cache of few",
     tech="explicit enumeration of append and read histories on the real string buffer, compared with a list of strings",
     note="Exhaustive within the bounds.", assumptions=["one writer; the interleaving of the writer with the compression thread is decided by the schedule checks"])

prop("C11", "Threads hand over work without losing, duplicating or racing on it",
     "Under every interleaving, the queue used between threads delivers every item exactly once and in the order of each producer, parallel loops visit every index of the range exactly once, parallel sorting returns a sorted permutation, and the string buffer with its compression thread returns every entry unchanged and shuts down; none of them deadlocks, loses a wake-up or has a data race.",
     ["schedules"], "all interleavings of the threads at their synchronisation operations up to a preemption bound, also with spurious wake-ups",
     "A lost wake-up or a race shows under one schedule in thousands; the existing tests run whatever schedule the machine happens to pick.",
     ["include/trident/utils/parallel.h", "src/trident/tree/stringbuffer.cpp"],
     [("ConcurrentQueue, parallel_for, sort_int", "include/trident/utils/parallel.h"), ("compressBlocks / compressLastBlock / destructor", "src/trident/tree/stringbuffer.cpp")],
     [("schedunit", "--mode", "queue"), ("schedunit", "--mode", "pfor"), ("schedunit", "--mode", "sort"), ("schedunit", "--mode", "strbuf"), ("raceunit", "--mode", "strbuf", "--less", "1"), ("raceunit", "--mode", "queue", "--less", "1"), ("raceunit", "--mode", "pfor"), ("raceunit", "--mode", "sort")], level="model_checking",
     bounds="up to 2 producers, 2 consumers, 7 items, 1-3 preemptions; ranges within [0,12), grains 1-20, 1-5 threads, 1 preemption; sizes 0-5000 around 1024, 1-5 threads; 16 append/read programs of up to 19 operations, 3 cache sizes, up to 2 preemptions (thorough: one more everywhere)",
     tech="stateless exploration of the real code under a controlled scheduler (preemption bounding), with a happens-before race detector on instrumented code",
     note="Exhaustive within the bounds; replay=<file> contains the schedule. States are scheduling decisions, transitions synchronisation steps.", assumptions=["sequential consistency; scheduling points are the synchronisation operations (plain accesses between them are covered by the race detector)"])

prop("C12", "Loading gives the same knowledge base under every thread schedule",
     "Whatever the number of threads and however they are scheduled, loading terminates and the resulting knowledge base holds exactly the input: every permutation lists exactly the triples, every term its coordinates, the dictionary every term; no two threads race on data.",
     ["schedules", "configurations"], "all schedules of all threads of a load up to a delay or preemption bound, for eleven thread and index configurations, with hand-over buffers of a few entries",
     "The loader overlaps sorting, merging, inserting, compressing and tree building in up to 70 threads; no existing test loads with threads.",
     ["src/trident/kb/loader.cpp", "src/trident/kb/permsorter.cpp", "src/trident/kb/inserter.cpp", "src/trident/tree/"],
     [("parallelmerge, insert, mergeTermCoordinates, processTermCoordinates", "src/trident/kb/loader.cpp"), ("sortChunks*", "src/trident/kb/permsorter.cpp")],
     [("schedload", "--mode", "delays"), ("schedload", "--mode", "preempt"), ("raceload", "--mode", "delays", "--budget", "0")], level="model_checking",
     bounds="10 triples, 7 terms; 1-8 threads, 1-2 readers, 3 or 6 indices, aggregated, skipped tables, in blocks, with monitor; merge buffers of 1-10 triples, coordinate buffers of 1-7 terms; one delay (all) or one preemption (five configurations); thorough: two delays, one preemption for all, races under every schedule",
     tech="stateless exploration of the real loader under a controlled scheduler (delay and preemption bounding), with a happens-before race detector on instrumented code",
     note="Exhaustive within the bounds.", assumptions=[SHIM, "sequential consistency; a hook (TRIDENT_LIMIT) shrinks the hand-over buffers"])

prop("C13", "The dictionary maps every term to its number and every number to its term",
     "After loading and after every update, each stored term has exactly its number and each number its text (by every lookup function), no other term or number is known, no two terms share a number; numbers given earlier never change; the relations' own numbers and texts are right when they are asked for. It survives closing and reopening.",
     ["inputs", "histories", "configurations"], "all ordered choices of terms from an alphabet with prefixes, high bytes and long terms; all assignments of terms to the dictionary files; families of up to tens of thousands of terms; all histories of small and large updates up to a depth; all three ways of building it",
     "Term trees, string buffer, number trees, update dictionaries and relation tables have to agree; which node splits, which range and which file a term falls in depends on all terms.",
     ["src/trident/kb/dictmgmt.cpp", "src/trident/kb/loader.cpp", "src/trident/kb/updater.cpp", "src/trident/tree/root.cpp", "src/trident/tree/stringbuffer.cpp"],
     [("DictMgmt", "src/trident/kb/dictmgmt.cpp"), ("Loader::insertDictionary, rewriteKG, loadKB_handleGraphTransformations", "src/trident/kb/loader.cpp"), ("Updater::compressUpdate, writeDict", "src/trident/kb/updater.cpp")],
     [("dict", "--mode", "load", "--alpha", "10", "--talpha", "12"), ("dict", "--mode", "size"), ("dict", "--mode", "rel"), ("dict", "--mode", "files"), ("dict", "--mode", "updates", "--depth", "3", "--tdepth", "4")], level="model_checking",
     bounds="up to 3 terms of 10 (thorough 12) in every order x 3 methods; 5 families of up to 2,500 (50,000) terms; every placement of 5 terms in the frequent and two sorted files; 6 triples x 4 relation dictionaries; histories of 3 (4) updates with up to 16,000 new terms each, merges",
     tech="exhaustive enumeration of dictionaries, placements and update histories on the real code against a map",
     note="Exhaustive within the bounds.", assumptions=[SHIM, "terms contain no newline (the input formats are line based)"])

prop("C14", "A knowledge base holds the union of its input files, however they are read",
     "Loading numbered triples from one or several files (compressed or not, any column separator, two or three columns, last line with or without a newline, repeated triples) with any number of loading and reading threads and any amount of memory gives exactly the union of the triples, in every permutation, and the dictionary spread over the dictionary files. The external sort never loses, repeats, changes or misplaces a triple.",
     ["inputs", "configurations"], "all distributions of triples over files and line forms, all thread and reader counts, all sizes of the sort buffer relative to the input, all orders of permutations, term magnitudes up to 2^40",
     "Chunking, padding, rounds and thread partitions only matter for inputs and machines larger than any test; the arithmetic is the same for small numbers.",
     ["src/trident/kb/loader.cpp", "src/trident/kb/permsorter.cpp"],
     [("Loader::createPermsAndDictsFromFiles, createPermsAndDictsFromFiles_seq", "src/trident/kb/loader.cpp"), ("PermSorter::sortChunks2, sortChunks2_fill, sortChunks2_permute, dumpPermutation", "src/trident/kb/permsorter.cpp")],
     [("loadfiles", "--mode", "spread"), ("loadfiles", "--mode", "threads"), ("loadfiles", "--mode", "two"), ("loadfiles", "--mode", "big"), ("sorter", "--mode", "small"), ("sorter", "--mode", "perms"), ("sorter", "--mode", "count"), ("sorter", "--mode", "many")],
     bounds="4 triples in up to 3 files (each triple in any non-empty set of them) x 16 line forms; 1-6 threads, 1-6 readers, 1-6 files, 3/4/6 indices; up to 64,000 lines; sort: 0-3 triples in each of up to 4 files, 1-4 threads, room for 1, 2, 3, 5 or all triples, sequences of up to 4 (thorough: 6) permutations",
     tech="exhaustive enumeration of inputs and configurations on the real loader and sorter against a set",
     note="Quick runs take every third (two files) or 23rd (three files) distribution.", assumptions=[SHIM, "the chunks KOGNAC makes of an input file end at line ends"])

prop("C15", "A graph's nodes list exactly their neighbours",
     "A graph loaded for analytics, directed or undirected, from pairs of numbers or from a SNAP file, has exactly the nodes and arcs it was given (undirected: both ways, once): number of nodes and edges, in- and out-degree, every i-th neighbour, neighbour tests, edge iteration and node iteration agree with the input.",
     ["inputs", "configurations"], "all graphs over small sets of node numbers, with repeated lines and either orientation; node numbers around every width boundary; both input forms; wide nodes",
     "Every node is read from a flat file with a reader per column width; a wrong width, offset, or a lost reverse arc only shows for particular numbers and degrees.",
     ["include/snap/", "src/snap/", "src/trident/kb/loader.cpp"],
     [("Loader::loadKB_handleGraphTransformations, createIndices, parseSnapFile", "src/trident/kb/loader.cpp"), ("TNode, TUNode", "include/snap/tnode.h"), ("SnapReaders", "src/snap/readers.cpp"), ("Trident_TNGraph, Trident_UTNGraph", "src/snap/directed.cpp")],
     [("graph", "--mode", "view")],
     bounds="all directed graphs with loops over 3 nodes from four sets of numbers (512 each), all undirected graphs over 4 nodes (quick: half), a sample of every 16th (thorough: all) directed graph over 4 nodes, stars of 100-1000 neighbours at 4 places; pairs and SNAP files; 1-2 threads",
     tech="exhaustive enumeration of small graphs loaded with the real loader and read through the real node views, against the list of arcs",
     note="", assumptions=[SHIM, "read-only mappings end at a guard page: a read past the end of a file is a failure"])
prop("C16", "The graph tasks compute what they are named after",
     "On every graph, PageRank, HITS, betweenness, clustering coefficients, numbers of triangles and triads, diameter, largest weakly and strongly connected component and shortest-path lengths, run through Analytics::run, put in the output file the values of their definitions, one line per node with the node's name.",
     ["inputs", "configurations"], "all small directed and undirected graphs with loops, isolated and high-numbered nodes; every task with explicit parameters",
     "The templates were adapted from SNAP to Trident's own node classes; loops, nodes without links and the difference of in and out lists go wrong in corner cases only.",
     ["include/snap/", "src/snap/", "snap/snap-core/"],
     [("Analytics::runTask, saveToFile", "include/snap/analytics.h"), ("NativeTasks", "include/snap/nativetasks.h"), ("GetPageRank_stl, GetHits_stl, GetBetweennessCentr_stl", "snap/snap-core/centr.h"), ("GetTriads, CountTriangles, GetClustCf", "snap/snap-core/triad.h"), ("GetMxWccSz, GetMxSccSz", "snap/snap-core/cncom.h")],
     [("graph", "--mode", "tasks")],
     bounds="all directed graphs with loops over 3 nodes, every third (thorough: every) loop-free directed graph over 4 nodes, all undirected graphs with loops over 4 nodes, half (thorough: all) of those over 5, samples with numbers 127-258, all SNAP files over three names; PageRank with 15 rounds and with a tolerance, HITS with 4 rounds",
     tech="exhaustive enumeration of small graphs through the real tasks, against textbook definitions computed independently",
     note="Not claimed: rw, mod, and the sampled variants (random by design).", assumptions=[SHIM, "clustering and triangles are those of the undirected graph without loops; the diameter is that of the directed distances; bfs follows links both ways"])

prop("C17", "The HTTP server answers every request once, whatever the network does",
     "The HTTP server passes every complete request to its handler exactly once and byte for byte, and sends the whole answer back on the same connection, in whatever pieces the request arrives and however few bytes a send takes, for one or several requests per connection, one or several clients and worker threads; a client that stalls or leaves at any point never causes a partial request to be handled, never disturbs other clients, and its connection is closed; idle connections are closed after their time; stop() ends the server.",
     ["schedules", "histories", "faults"], "all ways to cut requests, all points at which a client leaves, all schedules of the server's threads within a bound",
     "TCP delivers bytes in any pieces and at any time; no test talks to the server.",
     ["include/trident/utils/httpserver.h", "src/trident/utils/httpserver.cpp"],
     [("HttpServer::start, processRequest, waitForData, stop", "src/trident/utils/httpserver.cpp")],
     [("http", "--mode", "cuts"), ("http", "--mode", "leaves"), ("http", "--mode", "sched")], level="model_checking",
     bounds="46 requests (header and body lengths around the buffer size of 1024, four spellings of the length field) cut at every place that matters in two and three pieces and byte by byte; leaving and stalling at each of these places; reads interrupted by signals; answers up to 300000 bytes with sends of a few bytes to all; all timelines of six (thorough: seven) requests, departures and pauses of one second by three clients; 1-3 workers x 1-3 clients x 1-2 requests: all schedules with one (thorough: two) delays",
     tech="stateless model checking: the real server on a modelled TCP under a controlled scheduler, all schedules within a delay bound, all fragmentations and disconnections enumerated",
     note="Not claimed: several requests sent without waiting for the answers.", assumptions=["a segment is read in whole or up to the size of the buffer", "the socket calls follow POSIX"])

prop("C18", "The HTTP client returns exactly the response, and URLs survive escaping",
     "HttpClient::get and post send exactly the request that is asked for and return the header and the body of the response byte for byte, for responses with a length (in any spelling), chunked ones (with extensions and trailers) and ones that end with the connection, empty ones included, in whatever pieces they arrive; a response that ends too early and other status codes are reported as failures; escape and unescape are inverse, and unescape follows the rules of forms; URLs are split into host, port and path.",
     ["inputs", "faults"], "all ways to cut responses of every kind; every short text for escaping",
     "TCP delivers bytes in any pieces; no test opens a connection.",
     ["include/trident/utils/httpclient.h", "src/trident/utils/httpclient.cpp"],
     [("HttpClient::connect, get, post, getResponse", "src/trident/utils/httpclient.cpp"), ("HttpClient::escape, unescape", "src/trident/utils/httpclient.cpp")],
     [("http", "--mode", "client"), ("http", "--mode", "url")], level="model_checking",
     bounds="More than 153 responses (bodies up to 3000 bytes, binary ones included, three framings, chunks of 1-5000 bytes, headers around the buffer size of 1024) cut at every place that matters in two and three pieces and byte by byte, sends of 1, 2, 10, 50 bytes; all texts of two bytes and most of three; all texts over 8 significant characters up to length 6 (thorough 7)",
     tech="exhaustive enumeration of network deliveries to the real client over a modelled TCP, against the response that was sent",
     note="Exhaustive within the bounds; transitions = segments delivered.", assumptions=["the socket calls follow POSIX"])

prop("C19", "The SPARQL endpoint answers every query, lookup and page over HTTP correctly",
     "A query posted to /sparql, in any form encoding and with its parameters in any order, is answered by valid JSON with the variables of the query, exactly its solutions (none if print=false) with every term intact, and their number, whatever is asked at the same time by other clients; /lookup returns the text of the term with that number or an empty text; pages are sent from the directory of the pages and nothing outside of it is ever sent; languages and types of literals in queries count.",
     ["schedules", "inputs"], "all schedules of concurrent requests within a bound; all terms with special characters, encodings and parameter orders",
     "Escaping happens in four layers (form, query, dictionary, JSON), and several worker threads share one engine; no test runs the server.",
     ["src/trident/server/server.cpp", "include/trident/server/server.h", "src/trident/utils/json.cpp", "src/trident/sparql/sparql.cpp", "src/layers/TridentLayer.cpp"],
     [("TridentServer::processRequest", "src/trident/server/server.cpp"), ("JSON::write", "src/trident/utils/json.cpp"), ("SPARQLUtils::execSPARQLQuery", "src/trident/sparql/sparql.cpp"), ("TridentLayer::lookup", "src/layers/TridentLayer.cpp")],
     [("endpoint", "--mode", "seq"), ("endpoint", "--mode", "conc", "--budget", "1"), ("raceendpoint", "--mode", "conc", "--budget", "0", "--tbudget", "1")], level="model_checking",
     bounds="39 queries (one with more than 64 KB of answers) over 27 terms with special characters x 3 headers x 3 encodings x 5 orders of parameters; 33 lookups; 12 pages; 2-3 workers with 2-5 concurrent requests: all schedules with one delay; data races on the default schedule (thorough: all schedules with one delay)",
     tech="stateless model checking of the real server on a modelled network, plus a happens-before race detector; answers decoded by an independent strict JSON parser and compared with the definition of the query",
     note="Not claimed: queries with syntax errors (answered like queries without results), escapes inside literals of a query.", assumptions=[SHIM, "requests are not pipelined"])

prop("C20", "Training hands every triple to exactly one batch per epoch, in every schedule",
     "A batcher hands out every triple of the knowledge base exactly once per epoch (or exactly those matching its pattern), in batches of the asked size except the last, by number or in sequence, in columns or in one array, from a file or directly from the tables, with predicates numbered densely or by their own identifiers; training, validation and test sets partition the triples whatever the random choices; feedback leaves out exactly the triples it is defined to; and training processes every batch of every epoch exactly once and ends, under every thread schedule.",
     ["inputs", "schedules"], "all knowledge bases over eight triples; all batch sizes, patterns and layouts; all schedules within a bound",
     "A lost batch only shows as a slightly worse model; the readers depend on table layouts and byte widths, and the workers on a queue protocol that no test runs.",
     ["src/trident/ml/batch.cpp", "include/trident/ml/batch.h", "include/trident/ml/trainworkflow.h", "src/trident/ml/feedback.cpp", "include/trident/utils/parallel.h", "include/trident/binarytables/newcolumntable.h"],
     [("BatchCreator", "src/trident/ml/batch.cpp"), ("TrainWorkflow::train", "include/trident/ml/trainworkflow.h"), ("Feedback", "src/trident/ml/feedback.cpp"), ("s_getValue12AtRow", "include/trident/binarytables/newcolumntable.h")],
     [("train", "--mode", "batches", "--step", "2"), ("train", "--mode", "split"), ("train", "--mode", "feedback"), ("train", "--mode", "workflow")], level="model_checking",
     bounds="subsets of eight triples (2 subjects x 2 predicates x 2 objects) x 6 table layouts and identifier widths x 5 batch sizes x 2 epochs x all patterns; 12 (thorough 64) seeds x 6 split ratios; 81 feedback tables; workflow: 1-5 triples, batches of 1-3, 1-3 threads, 1-2 epochs, all schedules with one delay (two for small cases; thorough one more)",
     tech="stateless model checking of the real training workflow under a controlled scheduler; exhaustive enumeration of small knowledge bases for the batcher against the definition",
     note="KB-based batches are only supported by the code for row and column tables.", assumptions=[SHIM, "std::random_device is a choice of the environment (its first values are enumerated)"])
prop("C21", "Embedding models are trained, ranked and stored as defined",
     "One TransE step changes embeddings exactly as the margin loss with the given corrupted triples demands (with and without Adagrad, duplicates included); the ranks reported for TransE, DistMult and HolE models are the positions of the right answers by score, with any number of threads; circular correlation and convolution equal their definition; initialised parameters lie in their range or are normalised; a stored model is read back bit by bit with its statistics.",
     ["inputs"], "all batches of one or two triples with all corruptions; all small models",
     "Errors in gradients or ranks are silent, models still train; sorted index lists and per-thread ranges have many corner cases.",
     ["src/trident/ml/transe.cpp", "src/trident/ml/learner.cpp", "include/trident/ml/tester.h", "include/trident/ml/embeddings.h", "include/trident/ml/transetester.h", "include/trident/ml/distmultester.h", "include/trident/ml/holetester.h", "src/trident/utils/fft.cpp"],
     [("TranseLearner::process_batch_withnegs", "src/trident/ml/transe.cpp"), ("Learner::update_gradients", "src/trident/ml/learner.cpp"), ("Tester::test", "include/trident/ml/tester.h"), ("Embeddings", "include/trident/ml/embeddings.h"), ("ccorr", "src/trident/utils/fft.cpp")],
     [("train", "--mode", "transe"), ("train", "--mode", "ranks"), ("train", "--mode", "circular"), ("train", "--mode", "models")], rule="distinct outcomes",
     bounds="3 entities, 2 relations, 2 dimensions, 16 (thorough 64) embedding tables x 162 single triples with corruptions and every 13th (thorough all 26244) of their pairs; ranks: 1-12 entities, 64 (thorough 512) models, 1-3 threads; circular products up to length 20 (33); models of 1-5 x 1-64 parameters with 1-4 threads",
     tech="exhaustive enumeration of small batches and models, compared with a direct evaluation of the definitions",
     note="Not claimed: the gradients of DistMult and HolE, and how good a model gets.", assumptions=[SHIM, "floating point results are compared with a tolerance; steps within rounding distance of a case distinction are skipped"])

prop("C22", "The native query engine returns exactly the joins of its patterns",
     "For every list of triple patterns in which a variable occurs at most once per pattern, the native query engine (with and without reordering the patterns, nested merge joins or, where the patterns share one or two variables with the ones before, hash joins) returns for the projected variables exactly the rows, with their multiplicities, of the natural join of the patterns over the stored triples, in whatever layouts the tables are stored and also after updates. A single pattern returns all its variables in the order of subject, predicate and object.",
     ["inputs", "histories"], "all queries of one, two or three patterns over small graphs, and over larger ones in every layout",
     "The joins reuse iterators through marks, resets, jumps and back tracking: which rows are lost depends on the order of values in several patterns at once.",
     ["src/trident/sparql/tplan.cpp", "src/trident/sparql/joinplan.cpp", "src/trident/sparql/nesmeritr.cpp", "src/trident/sparql/hashjoinitr.cpp", "src/trident/sparql/sparqloperators.cpp", "src/trident/iterators/tuplekbiterator.cpp"],
     [("TridentQueryPlan::create", "src/trident/sparql/tplan.cpp"), ("NestedMergeJoinItr::executeJoin", "src/trident/sparql/nesmeritr.cpp"), ("NestedJoinPlan::prepare", "src/trident/sparql/joinplan.cpp"), ("HashJoinItr::execJoin", "src/trident/sparql/hashjoinitr.cpp")],
     [("native", "--mode", "small", "--n", "1", "--nodes", "2", "--preds", "-2"), ("native", "--mode", "small", "--n", "2", "--nodes", "2", "--preds", "-2", "--step", "2", "--tstep", "1"),
      ("native", "--mode", "small", "--n", "3", "--nodes", "1", "--preds", "2", "--step", "5", "--tstep", "1"), ("native", "--mode", "small", "--n", "3", "--nodes", "2", "--preds", "-1", "--step", "37", "--tstep", "3"),
      ("native", "--mode", "upd", "--n", "2", "--nodes", "2", "--preds", "-1", "--step", "3", "--tstep", "1"), ("native", "--mode", "upd", "--n", "3", "--nodes", "1", "--preds", "2", "--step", "37", "--tstep", "2"),
      ("native", "--mode", "big", "--n", "2", "--nodes", "2"), ("native", "--mode", "big", "--n", "3", "--step", "7", "--tstep", "1")], rule="distinct answers",
     bounds="all canonical queries of 1 and 2 patterns (2 node constants, 2 predicate constants, predicate variables) over every second (thorough: every) graph of 2 nodes and 2 predicates; 3 patterns over every 5th (1) and, with predicate variables, every 37th (3) graph; the same after an addition or a removal; 24 larger graphs of 8-90 nodes under default, aggregated, skipped/column and cluster layouts with answers up to 20000 rows",
     tech="exhaustive enumeration of queries and graphs, compared with a naive evaluation of the joins",
     note="Not claimed: patterns that repeat a variable, filters, and hash joins of patterns that share none or all three variables.", assumptions=[SHIM])

prop("C23", "Subgraph embeddings describe their groups and guide the search",
     "Creating subgraph embeddings stores, for each pair of a relation with an object (or a subject) that has more members than the minimum, exactly one group with its size and the mean (and sample variance) of its members' embeddings; reading the file back gives the same groups and distances. Searching or evaluating a query with TransE takes the given number of groups nearest to the translated entity, the group of the query excluded (for variances re-ranked by the second distance), and reports the first of them that contains the answer and their total size; the number of groups may be fixed, given per query or given per relation.",
     ["inputs"], "all graphs of three entities and a relation with a second one derived from it; larger graphs; all queries over their vocabulary",
     "Groups are cut while scanning two permutations: boundaries, the last group and members shared by groups go wrong silently, and the search only returns statistics.",
     ["src/trident/ml/subgraphs.cpp", "include/trident/ml/subgraphs.h", "src/trident/ml/subgraphhandler.cpp"],
     [("AvgSubgraphs::processItr", "src/trident/ml/subgraphs.cpp"), ("VarSubgraphs::processItr", "src/trident/ml/subgraphs.cpp"), ("Subgraphs::getDistanceToAllSubgraphs", "include/trident/ml/subgraphs.h"), ("SubgraphHandler::selectRelevantSubGraphs", "src/trident/ml/subgraphhandler.cpp"), ("SubgraphHandler::findAnswers", "src/trident/ml/subgraphhandler.cpp")],
     [("subgraph", "--step", "2", "--tstep", "1")], rule="distinct places, sizes and numbers of groups",
     bounds="every second (thorough: every) graph of 3 entities, 1 and 2 dimensions, minimum sizes 0-3, 18 queries each with 1, 2, 3 and 50 groups and with both dynamic choices; 6 (24) graphs of 6-31 entities and 3-5 dimensions",
     tech="exhaustive enumeration of small graphs and queries, compared with the definitions",
     note="Not claimed: the Kullback-Leibler distance, compressed (binarised) embeddings, rankings between groups at the same distance.", assumptions=[SHIM])

NOT_APPLICABLE = []
