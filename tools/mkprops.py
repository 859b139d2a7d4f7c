#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/mkprops.py > properties.jsonl)."""
import json
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

S = "src/"
prop("C01", "Set and tag matching follows the documented set algebra",
 "A rule targets exactly the readings whose tags satisfy its target set, where LIST elements are alternatives, a composite element needs all of its tags, OR, +, -, ^ and the other set operators mean what the manual says, and literal, case-insensitive, regular-expression, numeric, inverted and fail-fast tags each match as documented. The result depends only on the reading's own tags (plus its word form and the cohort's static tags where the manual says so), not on which readings, cohorts or rules were examined before.",
 ["inputs", "programs"], "every set expression over every tag kind, and every cohort with any readings, in any position of a multi-window stream",
 "Each fixed test checks one hand-written set on one text; matching goes through hash tries, bitmap pre-filters and per-reading result caches whose wrong answers only show for particular combinations of sets, tags and earlier lookups.",
 [S+"GrammarApplicator_matchSet.cpp", S+"Grammar.cpp", S+"Tag.cpp", S+"Set.cpp", S+"TagTrie.hpp", S+"bloomish.hpp", S+"MathParser.hpp"],
 [("doesSetMatchReading", S+"GrammarApplicator_matchSet.cpp"), ("doesTagMatchReading", S+"GrammarApplicator_matchSet.cpp"), ("set reindexing", S+"Grammar.cpp")], ["vislcg3 stdout"])

prop("C02", "Positional contextual tests mean what the manual says",
 "A contextual test holds exactly when the documented reading of its position holds: relative and absolute offsets, scanning with * and ** in either or both directions, careful C, NOT and NEGATE, BARRIER and CBARRIER, LINK chains, self S, marks X and x, no-pass-origin O and o, and offsets that leave the window. The outcome does not depend on the order in which a rule's tests are written or on tests evaluated earlier.",
 ["inputs", "programs"], "every chain of contextual tests over any sets, from any cohort of any window",
 "Positions combine freely (direction, scan kind, barrier, link, negation, carefulness), and tests sample a few dozen of the combinations on fixed sentences.",
 [S+"GrammarApplicator_runContextualTest.cpp", S+"GrammarApplicator_context.cpp", S+"ContextualTest.cpp", S+"TextualParser.cpp", S+"CohortIterator.cpp"],
 [("runContextualTest", S+"GrammarApplicator_runContextualTest.cpp"), ("runSingleTest", S+"GrammarApplicator_runContextualTest.cpp"), ("position parsing", S+"TextualParser.cpp")], ["vislcg3 stdout"])

prop("C03", "Disambiguation rules run in order, to a fixpoint, and never empty a cohort",
 "For SELECT, REMOVE and IFF grammars, the readings left in every cohort are those obtained by applying the rules in written order, cohort by cohort, once for BEFORE-SECTIONS and AFTER-SECTIONS and repeatedly for the growing list of SECTIONs until nothing changes. No rule without UNSAFE ever deletes the last reading of a cohort, and surviving readings are unaltered, in their input order.",
 ["inputs", "programs"], "every grammar of SELECT, REMOVE and IFF rules with context, in any arrangement of sections, on every window of ambiguous cohorts",
 "Rule scheduling is driven by indexes from tags to rules and rules to cohorts and by caches that are invalidated when readings go away; a stale entry changes the result only for particular rule and text interleavings.",
 [S+"GrammarApplicator_runRules.cpp", S+"GrammarApplicator.cpp", S+"GrammarApplicator_matchSet.cpp", S+"Grammar.cpp"],
 [("runRulesOnSingleWindow", S+"GrammarApplicator_runRules.cpp"), ("runGrammarOnSingleWindow", S+"GrammarApplicator_runRules.cpp"), ("index of rules by tag", S+"GrammarApplicator.cpp")], ["vislcg3 stdout"])

prop("C04", "Reading-editing rules change exactly the tags and readings they name",
 "ADD, MAP, REPLACE, SUBSTITUTE, APPEND, COPY, UNMAP, PROTECT and UNPROTECT produce exactly the documented tag lists and readings on exactly the readings that match, honouring EXCEPT, BEFORE and AFTER and the rule that mapped or protected readings are left alone. Later rules see the edited readings, including through indexes built from the original tags, and everything not targeted is untouched.",
 ["inputs", "programs"], "every sequence of editing and selecting rules with context on every window",
 "Each edit must update hashes, tag filters, mapping state and rule indexes together; a miss only shows when a later rule depends on the edited tag in a way the index no longer covers.",
 [S+"GrammarApplicator_runRules.cpp", S+"GrammarApplicator_reflow.cpp", S+"Reading.cpp", S+"Cohort.cpp"],
 [("rule action bodies", S+"GrammarApplicator_runRules.cpp"), ("addTagToReading/delTagFromReading/reflowReading", S+"GrammarApplicator_reflow.cpp")], ["vislcg3 stdout"])

prop("C05", "A compiled or rewritten grammar behaves exactly like its source",
 "A grammar loaded from its binary form, or from the text written by --grammar-out, produces the same output, tag for tag, on every input as the text grammar it came from. Compiling is deterministic, and a binary grammar stays loadable by the program that wrote it.",
 ["programs", "inputs"], "every grammar the parser accepts, using any mix of set kinds, tag kinds, rule types, flags, contexts, templates, sections, anchors and settings, on every input stream",
 "Every field of every grammar element has to survive the two serialisers; the fixed tests cover the field combinations that appear in their own grammars.",
 [S+"BinaryGrammar_write.cpp", S+"BinaryGrammar_read.cpp", S+"GrammarWriter.cpp", S+"TextualParser.cpp"],
 [("writeBinaryGrammar", S+"BinaryGrammar_write.cpp"), ("readBinaryGrammar", S+"BinaryGrammar_read.cpp"), ("writeGrammar", S+"GrammarWriter.cpp")], ["vislcg3 stdout", "cg-comp output"])

prop("C06", "Text that no rule touches passes through unchanged",
 "With a grammar whose rules match nothing, every cohort, reading, tag, sub-reading, static tag, dependency, relation and non-token line of a normal-form CG stream comes out unchanged and in order (dependencies within a window, relations between windows as near as --num-windows; relation and dependency numbers may be renumbered as long as they point to the same cohorts), and nothing is dropped, duplicated or invented. Windowing options, limits and buffer sizes never change this.",
 ["inputs", "configurations"], "every CG-format stream in the form the tool itself prints, with any tags, text between cohorts and stream commands, under any windowing configuration",
 "Losing or merging data depends on window boundaries, soft and hard limits, flush points and mapping tags falling at particular places of arbitrary text.",
 [S+"GrammarApplicator_runGrammar.cpp", S+"GrammarApplicator.cpp", S+"Window.cpp", S+"SingleWindow.cpp"],
 [("runGrammarOnText", S+"GrammarApplicator_runGrammar.cpp"), ("printReading/printCohort/printSingleWindow", S+"GrammarApplicator.cpp")], ["vislcg3 stdout"])

prop("C07", "Structured stream formats carry every analysis losslessly",
 "Converting a CG stream to the binary or JSON-lines format and back yields the same word forms, static tags, readings, tags, sub-readings, dependencies, inter-token text and stream commands, and in binary also the relations. Running a grammar with either as input or output gives the same analyses as running it on the CG text, divided into the same windows.",
 ["inputs", "configurations"], "every CG stream with any printable Unicode in word forms, baseforms, tags and text, and every pair of input and output format among them",
 "Escaping, lengths, flags and optional fields interact with arbitrary text, and the fixed tests only convert a handful of plain sentences.",
 [S+"BinaryApplicator.cpp", S+"JsonlApplicator.cpp", S+"FormatConverter.cpp"],
 [("BinaryApplicator", S+"BinaryApplicator.cpp"), ("JsonlApplicator", S+"JsonlApplicator.cpp")], ["cg-conv stdout", "vislcg3 stdout"])

prop("C08", "Apertium streams keep their blanks, escapes, lemmas and tags",
 "Running an Apertium-format stream through the processor with a grammar that matches nothing returns every word's surface form, lemma, tag sequence, joined parts and all text between words exactly, including superblanks and escaped characters. With a grammar, only the analyses the rules act on differ and the text between words still comes through in order.",
 ["inputs", "configurations"], "every well-formed Apertium stream with ambiguous, unknown, generated and multi-part words, blanks and escapes, with or without null-flush",
 "Characters are escaped and unescaped on the way through a streaming parser, so a loss depends on a particular character beside a particular delimiter; a few sentences are tested.",
 [S+"ApertiumApplicator.cpp", S+"cg-proc.cpp"],
 [("ApertiumApplicator::runGrammarOnText", S+"ApertiumApplicator.cpp"), ("printReading/printSingleWindow", S+"ApertiumApplicator.cpp")], ["cg-proc stdout", "cg-conv stdout"])

prop("C09", "Windows are cut exactly where delimiters, limits and commands say",
 "The stream is divided into windows right after each cohort matching DELIMITERS, after a SOFT-DELIMITERS cohort once the soft limit is reached, at the hard limit, at text delimiters and dependency restarts when asked for, and at flush commands, and nowhere else. Rules act on each window as if it had been given alone, unless a test spans windows, and spanning tests see exactly the neighbouring windows that the window buffer holds.",
 ["inputs", "configurations"], "every stream of cohorts, delimiter sets, soft and hard limits, buffer sizes and flush placements",
 "The cut position depends on counts crossing limits near delimiters and on look-ahead; tests use the defaults on short texts.",
 [S+"GrammarApplicator_runGrammar.cpp", S+"Window.cpp", S+"SingleWindow.cpp", S+"GrammarApplicator_runContextualTest.cpp"],
 [("window delimiting", S+"GrammarApplicator_runGrammar.cpp"), ("window shuffling", S+"Window.cpp")], ["vislcg3 stdout"])

prop("C10", "Dependency rules build the tree they describe and never a loop",
 "SETPARENT, SETCHILD, REMPARENT and SWITCHPARENT attach, detach and rotate exactly the cohorts their target and contextual target select, skipping to the next candidate when an attachment would create a loop. Without ALLOWLOOP the parent links of a window that started loop-free never form a cycle, every parent printed is a printed cohort of the same window, itself or the root, and parent, child, sibling, ancestor and descendant tests agree with those links.",
 ["inputs", "programs"], "every grammar of dependency rules and dependency tests on every window with or without an existing tree",
 "Loop freedom is an invariant over all rule sequences; the few dependency tests check final trees of single sentences.",
 [S+"GrammarApplicator_reflow.cpp", S+"GrammarApplicator_runRules.cpp", S+"GrammarApplicator_runContextualTest.cpp", S+"CohortIterator.cpp"],
 [("attachParentChild/wouldParentChildLoop", S+"GrammarApplicator_reflow.cpp"), ("runDependencyTest", S+"GrammarApplicator_runContextualTest.cpp")], ["vislcg3 stdout"])

prop("C11", "Relations are added, replaced, removed and queried as written",
 "ADDRELATION, SETRELATION, REMRELATION and their two-way forms leave each cohort with exactly the set of named links that the documented effect of the rules in order yields, and r:name and r:* tests see exactly those links. Printed relations always name cohorts by the identifiers printed on those cohorts (or the start of a window), and relations read from the input keep pointing at the same cohorts.",
 ["inputs", "programs"], "every sequence of relation rules and relation tests on every window with or without relations in the input",
 "The relation graph is a history-dependent state with overlapping names and directions; tests run a few fixed sequences.",
 [S+"GrammarApplicator_runRules.cpp", S+"Cohort.cpp", S+"GrammarApplicator_reflow.cpp", S+"GrammarApplicator_runContextualTest.cpp"],
 [("relation rule bodies", S+"GrammarApplicator_runRules.cpp"), ("addRelation/setRelation/remRelation", S+"Cohort.cpp")], ["vislcg3 stdout"])

prop("C12", "Cohort-moving rules keep every cohort exactly once, in the stated place",
 "ADDCOHORT, REMCOHORT, MOVE, SWITCH, COPYCOHORT, SPLITCOHORT and MERGECOHORTS insert, delete, reorder, duplicate, split and merge exactly the cohorts they name, at the stated positions, with the stated readings. All other cohorts keep their readings and relative order, no text between tokens is lost, and dependencies keep pointing at the same cohorts, with children of a removed cohort passing to its parent.",
 ["inputs", "programs"], "every sequence of cohort-changing rules on every window, with and without dependency trees",
 "Each change renumbers cohorts and rebuilds the per-rule cohort lists while rules are iterating over them; failures need a particular sequence of changes.",
 [S+"GrammarApplicator_runRules.cpp", S+"GrammarApplicator_reflow.cpp", S+"SingleWindow.cpp", S+"Window.cpp"],
 [("cohort rule bodies", S+"GrammarApplicator_runRules.cpp"), ("rebuildCohortLinks/rebuildSingleWindowLinks", S+"Window.cpp")], ["vislcg3 stdout"])

prop("C13", "Diagnostics never change the analysis",
 "Tracing, profiling, verbosity and rule-debugging options leave the analysis unchanged: removing the added trace marks and the deleted readings from a traced run gives exactly the untraced output. Every trace mark names a rule of the grammar by its type, line and name, the readings marked as deleted are exactly those missing from the untraced output, and profiling counts agree with the rules' traced effects.",
 ["inputs", "programs", "configurations"], "every grammar and stream under every combination of diagnostic options",
 "Diagnostics add branches inside the rule loop and the printers, so interference depends on what the rules do; tests that trace compare one expected output each.",
 [S+"GrammarApplicator.cpp", S+"GrammarApplicator_runRules.cpp", S+"Profiler.cpp", S+"Profiler.hpp"],
 [("trace printing", S+"GrammarApplicator.cpp"), ("profiler hooks", S+"GrammarApplicator_runRules.cpp")], ["vislcg3 stdout", "profile database"])

prop("C14", "Notation does not matter: equivalent grammars give equal results",
 "Rewriting a grammar without changing its meaning does not change its output: naming or inlining sets, moving a test into a template or back, reordering LIST elements or OR operands, renaming sets, templates and rules, adding definitions or rules that can never match, splitting a file with INCLUDE, and changing white space, comments, letter case of keywords or optional words. The same holds for splitting a LIST definition with += and for TARGET, IF and other noise words.",
 ["programs"], "every grammar in the language and every composition of these rewrites, on every input",
 "Each rewrite takes a different path through the parser and the set, tag and rule indexes; tests fix a single spelling.",
 [S+"TextualParser.cpp", S+"Grammar.cpp", S+"ContextualTest.cpp", S+"Set.cpp"],
 [("parser", S+"TextualParser.cpp"), ("set and tag allocation, reindex", S+"Grammar.cpp")], ["vislcg3 stdout"])

prop("C15", "Variables and stream commands take effect at their place in the stream",
 "SETVAR and REMVAR commands in the stream and SETVARIABLE and REMVARIABLE rules set and clear variables from their position onward, and VAR and LVAR tests see exactly the value in force for the window being tested. FLUSH, IGNORE, RESUME and EXIT act at their position: ignored stretches pass through untouched, everything before an exit is processed and printed, and no command line is lost from the output.",
 ["inputs", "histories"], "every interleaving of stream commands, variable rules and windows, at every look-ahead size",
 "The value in force is a function of the history of commands and the look-ahead state; tests use one short command sequence each.",
 [S+"GrammarApplicator_runGrammar.cpp", S+"GrammarApplicator_runRules.cpp", S+"GrammarApplicator_matchSet.cpp", S+"SingleWindow.hpp"],
 [("stream command handling", S+"GrammarApplicator_runGrammar.cpp"), ("variable tests", S+"GrammarApplicator_matchSet.cpp")], ["vislcg3 stdout"])

prop("C16", "Rule and section selection runs exactly the chosen rules",
 "Options that choose sections, rules by line, or rules by name, that skip BEFORE-SECTIONS, SECTIONs, AFTER-SECTIONS or mappings, or that bound the number of passes give the same output as a grammar from which the unselected rules were removed or in which the passes were cut at that bound. The command line, grammar-embedded defaults and overrides, and environment variables combine in the documented order of precedence.",
 ["configurations", "programs"], "every combination of these options with every sectioned grammar and input",
 "Option combinations multiply with section layouts; the tests use almost none of these options.",
 [S+"GrammarApplicator.cpp", S+"GrammarApplicator_runRules.cpp", S+"options_parser.hpp", S+"main.cpp", S+"TextualParser.cpp"],
 [("setOptions and index", S+"GrammarApplicator.cpp"), ("runGrammarOnSingleWindow", S+"GrammarApplicator_runRules.cpp")], ["vislcg3 stdout"])

prop("C17", "Malformed or hostile input never corrupts memory or hangs",
 "Whatever bytes are given as a stream in any input format or as a grammar text, and however a compiled grammar is cut short or of another kind or version, the tools either process them or end with an error message and a failure status. They do not read or write outside their data, crash, or run without end.",
 ["inputs"], "every byte string presented as a stream in each format or as a textual grammar; every truncation and header change of a compiled grammar",
 "Tests only feed well-formed data; the parsers index into raw buffers and any of an unbounded set of malformations may step outside them.",
 [S+"TextualParser.cpp", S+"BinaryGrammar_read.cpp", S+"GrammarApplicator_runGrammar.cpp", S+"BinaryApplicator.cpp", S+"JsonlApplicator.cpp", S+"ApertiumApplicator.cpp", S+"FSTApplicator.cpp", S+"NicelineApplicator.cpp", S+"PlaintextApplicator.cpp", S+"inlines.hpp", S+"uextras.cpp"],
 [("stream parsers", S+"*Applicator.cpp"), ("grammar parsers", S+"TextualParser.cpp")], ["exit status", "sanitizer reports"])

prop("C18", "The embedding library gives the same results as the command line",
 "Building sentences through the library interface, running a grammar on them and reading back cohorts, readings, sub-readings, tags and traces gives the same analyses as the command-line tool on the equivalent stream. Tags read back equal the tags put in for every encoding, and repeated runs over one grammar object are independent of each other.",
 ["histories", "inputs"], "every sequence of library calls that builds, runs, queries and frees sentences over one or several applicators",
 "The single library test performs one fixed call sequence; lifetime and state carry-over bugs need other sequences.",
 [S+"libcg3.cpp", S+"cg3.h", S+"GrammarApplicator.cpp"],
 [("C API", S+"libcg3.cpp")], ["library return values"])

prop("C19", "Unified sets and captured strings bind once per rule attempt",
 "For each reading a rule is tried on, a $$ set binds to the tag that matched first and an && set to the member set that matched first, and every later use in that rule only matches the same one; bindings never leak into the next reading or rule. Variable strings expand to exactly the text captured, with the documented case changes, wherever they are used.",
 ["inputs", "programs"], "every rule using unification or captures in target, tests and tag lists, on every window",
 "Bindings are held in state that must be reset and restored around every attempt and every failed branch; fixed tests see a handful of bindings.",
 [S+"GrammarApplicator_matchSet.cpp", S+"GrammarApplicator_runRules.cpp", S+"GrammarApplicator.cpp"],
 [("unification maps", S+"GrammarApplicator_matchSet.cpp"), ("generateVarstringTag", S+"GrammarApplicator_reflow.cpp")], ["vislcg3 stdout"])

prop("C20", "Relabelling, splitting and merging tools change only what they should",
 "Relabelling a grammar with an identity or reversible mapping leaves its behaviour on correspondingly relabelled input unchanged. Splitting multi-word readings yields the documented sequence of cohorts with all other cohorts and text untouched.",
 ["programs", "inputs"], "every grammar and relabelling list, and every stream with multi-word readings",
 "Relabelling rewrites every set of an arbitrary grammar and the existing tests exercise a few lists on tiny grammars.",
 [S+"Relabeller.cpp", S+"cg-relabel.cpp", S+"MweSplitApplicator.cpp", S+"cg-mwesplit.cpp"],
 [("Relabeller", S+"Relabeller.cpp"), ("splitMwe", S+"MweSplitApplicator.cpp")], ["cg-relabel output grammar", "cg-mwesplit stdout"])

prop("C21", "Containers and lookup structures agree with their textbook models",
 "The sorted vectors, sorted-interval sets, flat hash maps and sets and tag tries that the engine is built on behave, after any sequence of operations, like the ordinary set or map they stand for: same members, same sizes, same iteration contents and same lookup results.",
 ["histories"], "every sequence of insertions, deletions, lookups, range queries, swaps, copies and iterations, with any keys the engine can pass",
 "They have no unit tests; collisions, rehashing, deletion markers and interval merges only matter for particular operation sequences.",
 [S+"sorted_vector.hpp", S+"interval_vector.hpp", S+"flat_unordered_map.hpp", S+"flat_unordered_set.hpp", S+"TagTrie.hpp", S+"bloomish.hpp"],
 [("containers", S+"*.hpp")], ["container interface"])

prop("C22", "Sub-readings are addressed, tested and printed at their own depth",
 "A rule with SUB:N edits and tests exactly the N-th sub-reading counted from the front or, when negative, from the back, and only readings that have it; a test with /N looks at exactly that depth. Sub-readings keep their order and contents through every other operation and are removed and restored together with their parent reading.",
 ["inputs", "programs"], "every grammar using sub-reading addressing on readings with any number of levels",
 "Depth, sign and rule type combine freely; two fixed tests cover a few.",
 [S+"GrammarApplicator_runRules.cpp", S+"GrammarApplicator_runContextualTest.cpp", S+"GrammarApplicator_runGrammar.cpp", S+"Reading.cpp"],
 [("get_sub_reading", S+"GrammarApplicator_runRules.cpp")], ["vislcg3 stdout"])

prop("C23", "Output is a function of the grammar, the options and the stream",
 "Repeating a run gives byte-identical output, and the output does not depend on how the input bytes are chunked in time, on whether input comes from a file or a pipe, on other processes, the environment, memory layout or earlier windows beyond what the buffered windows and variables define.",
 ["inputs", "schedules", "configurations"], "every grammar and stream, every chunking of the input, every repetition and every prefix of unrelated windows",
 "A single passing run says nothing about other runs; hash seeds, pooled objects and stale caches carry state across windows.",
 [S+"GrammarApplicator_runGrammar.cpp", S+"pool.hpp", S+"Window.cpp", S+"uextras.cpp"],
 [("object pools", S+"pool.hpp"), ("cache resets", S+"GrammarApplicator_runRules.cpp")], ["vislcg3 stdout"])

prop("C24", "Parentheses are set aside and restored without losing anything",
 "With PARENTHESES pairs defined, rules first run as if the innermost text of each balanced pair were absent and then again with enclosures expanded one by one, with the enclosure-restricted rules seeing exactly the documented part. Afterwards every cohort is back in its original place, and unbalanced or absent parentheses change nothing.",
 ["inputs", "programs"], "every nesting and imbalance of parentheses in a window, with every kind of enclosure-restricted rule",
 "Nesting shapes are unbounded and the single existing test has one.",
 [S+"GrammarApplicator_runRules.cpp", S+"GrammarApplicator_reflow.cpp", S+"GrammarApplicator_runGrammar.cpp"],
 [("unpacking enclosures", S+"GrammarApplicator_runRules.cpp")], ["vislcg3 stdout"])

prop("C25", "External processors get the window and only their edits come back",
 "An external program named by a rule receives the protocol version and then each window it is called for, complete and in the documented encoding, and a reply that changes nothing changes nothing. Edits in a reply appear in the readings they were made to and nowhere else.",
 ["inputs", "histories"], "every stream of windows and every well-formed reply of an external program",
 "The protocol carries every field of arbitrary cohorts and the single test uses one external on one text.",
 [S+"GrammarApplicator_runRules.cpp", S+"process.hpp", S+"BinaryApplicator.cpp", S+"GrammarApplicator.cpp"],
 [("pipeOutSingleWindow/pipeInSingleWindow", S+"GrammarApplicator.cpp")], ["vislcg3 stdout", "external process stdin"])

for p in P:
    assert len(p["title"]) <= 80, p["title"]
    print(json.dumps(p, ensure_ascii=False))
