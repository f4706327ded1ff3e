#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the wording has one home)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                          "observe_at": observe, "hook_needed": hook}})

prop("C01", "Tokenizers sharing a dictionary never affect each other",
 "Tokenizers created from one loaded dictionary and used from different threads at the same time (each tokenizer by one thread) return for every call exactly the result - morphemes, offsets, forms, ids, on-demand splits, errors - that the same call returns when nothing else runs, and such use contains no data race. This also holds while other dictionaries are being loaded, built, printed or closed elsewhere in the process.",
 ["schedules", "inputs", "configurations"],
 "every interleaving, at statement granularity, of any number of threads that each own a tokenizer over one shared dictionary, or load/build/print/close other dictionaries",
 "No existing test tokenizes at all, let alone from two threads; a test run executes one OS-chosen interleaving out of an astronomically large set.",
 ["tokenizer.go", "dictionary.go", "lattice.go", "definputtextplugin.go", "joinnumericplugin.go", "mecaboovproviderplugin.go", "dictionary/lexiconset.go", "dictionary/dalexicon.go", "dictionary/grammar.go", "dartsclone/da.go", "numericparser.go"],
 [("per-tokenizer lattice", "tokenizer.go NewJapaneseTokenizer"), ("per-call input text and parser objects", "inputtext.go, joinnumericplugin.go Rewrite"), ("read-only mapped dictionary, copies on read", "dictionary/bytes.go, dictionary/dalexicon.go getWordInfo")],
 ["JapaneseDictionary.Create", "JapaneseTokenizer.Tokenize", "MorphemeList/Morpheme accessors", "Morpheme.Split"])

prop("C02", "A tokenizer's answer does not depend on its past calls",
 "What a tokenizer returns for a text and mode depends only on the loaded dictionary and settings: it is the same whatever was tokenized before with it or with its dictionary, in whatever order, lengths and modes. This includes calls that failed - an unanalysable text, a plugin returning an error, a debug-output writer that fails - after which the next call is answered as if the failed one had never been made.",
 ["histories", "fault_sequences", "inputs"],
 "every sequence of Tokenize calls (and interleaved other uses of the same dictionary), with failures injected into any of them",
 "Needs call sequences with failures in the middle; existing tests make no Tokenize call.",
 ["tokenizer.go", "lattice.go", "joinnumericplugin.go", "numericparser.go", "definputtextplugin.go", "mecaboovproviderplugin.go", "inputtext.go"],
 [("lattice emptied between texts", "lattice.go clear/resize, tokenizer.go Tokenize"), ("plugin objects hold configuration only", "definputtextplugin.go, joinnumericplugin.go")],
 ["JapaneseTokenizer.Tokenize"],
 [("lattice.endLists", "nodes ending at each byte, reused from text to text", "lattice.go")])

prop("C03", "Returned results never change afterwards",
 "The morpheme list returned for a text, every value read from it and every list split from it stay what they were when returned, whatever is later tokenized, split, loaded or closed by this or any other tokenizer in the process. Values already read remain intact even after the dictionary they came from has been closed.",
 ["histories", "schedules"],
 "every later sequence or interleaving of tokenizations, splits, dictionary loads and closes",
 "Tests look at a result at once and drop it; aliasing of reused or unmapped memory shows only later.",
 ["morpheme.go", "lattice.go", "tokenizer.go", "dictionary/dalexicon.go", "dictionary/lexiconset.go", "dictionary/bytes.go", "plugin.go"],
 [("fresh nodes and fresh word infos for every call", "tokenizer.go buildLattice, dictionary/dalexicon.go getWordInfo"), ("strings copied out of the mapping", "dictionary/bytes.go bufferToString")],
 ["MorphemeList", "Morpheme", "WordInfo"])

prop("C04", "gosudachicli output does not depend on how its input arrives",
 "gosudachicli's output is a function of the bytes of its input alone: every line, ended by LF, CR LF, CR or the end of a file, is analysed exactly once and in order, and printed as its morphemes followed by EOS. The sizes of the individual reads - short reads, reads that split a character or a CR LF pair, one byte at a time - and the way the input is given (standard input or files) make no difference.",
 ["schedules", "inputs"],
 "every division of every input into reads",
 "Chunking is decided by the kernel and the peer; the existing tests do not run the command.",
 ["gosudachicli/main.go"],
 [("newline normalising reader", "gosudachicli/main.go normalizer.Read"), ("line scanner over bufio", "gosudachicli/main.go lineScanner.Scan")],
 ["standard output / -o file of gosudachicli"],
 [("normalizer.lastChar", "last byte of the previous read", "gosudachicli/main.go")])

prop("C05", "gosudachicli never hides an input, analysis or output failure",
 "gosudachicli exits with status 0 only if all of its input was read and all output for it was delivered to its output; an unreadable input, a failing write, a full disk or (without -f) an unanalysable line makes it exit with non-zero status. What was delivered is then a prefix of the correct output, contains no analysis of a partly read line, and after a read or analysis failure is complete for all lines before the failing one; with -f only the unanalysable lines are missing.",
 ["fault_sequences", "inputs"],
 "every position of a read, open, write or close failure or analysis error in a run of the command",
 "Requires failing devices at chosen points; existing tests do not run the command.",
 ["gosudachicli/main.go", "tokenizer.go"],
 [("error returns of run/runFromReader", "gosudachicli/main.go"), ("exit status", "gosudachicli/main.go main")],
 ["exit status, standard output and -o file of gosudachicli"])

prop("C06", "Build sources and settings are never accepted half-read",
 "Reading lexicon CSV, connection matrix, character, rewrite and unknown-word definitions or settings JSON - through the library on any reader, through dicbuilder and userdicbuilder on files, or while a dictionary is loaded - gives the same result however the bytes are divided into reads. A read error is reported as a failure, wherever it strikes, and is never taken for the end of the source or of a line. (Settings are one JSON value: what follows it is not read.)",
 ["schedules", "fault_sequences", "inputs"],
 "every division of a source into reads and every position and kind (transient, persistent) of a read error",
 "Needs a reader that misbehaves at a chosen byte; existing tests use one in-memory settings string.",
 ["dictionary/dicbuilder.go", "internal/lnreader/lnreader.go", "dictionary/charcategory.go", "settingsjson.go", "dicbuilder/main.go", "userdicbuilder/main.go"],
 [("line readers over bufio.ReadSlice", "internal/lnreader/lnreader.go, dictionary/dicbuilder.go lexiconReader"), ("error returns", "dictionary/dicbuilder.go BuildLexicon, WriteGrammar")],
 ["DictionaryBuilder.BuildLexicon/WriteGrammar", "CharacterCategory.ReadCharacterDefinition", "SettingsJSON.ParseSettingsJSON", "exit status of dicbuilder/userdicbuilder"])

prop("C07", "Dictionary tools report success only for complete output",
 "dicbuilder, userdicbuilder, dicconv, printdic and printdicheader, and the library calls beneath them that take a writer, report success only if every byte of their output was accepted by the writer or file they write to. If any write, seek, sync, close or rename fails, or the disk fills up, the failure is reported: an error from the call, a non-zero status from the command.",
 ["fault_sequences", "inputs"],
 "every position and kind of an output failure in a build, conversion or print",
 "Needs a failing or filling disk at each of the output operations; existing tests write nothing.",
 ["dictionary/dicbuilder.go", "dictionary/dalexicon.go", "dictionary/grammar.go", "dictionary/dicprinter.go", "dicconv/main.go", "dicbuilder/main.go", "userdicbuilder/main.go", "printdic/main.go", "printdicheader/main.go"],
 [("error returns of every write", "dictionary/dicbuilder.go, dictionary/dalexicon.go Write*To"), ("exit status of the commands", "*/main.go")],
 ["returned errors", "exit status", "the output file"])

prop("C08", "A dictionary gives back exactly its source",
 "After any history of successful builds, user-dictionary builds, UTF-8/UTF-16 conversions (in either direction, repeatedly), rebuilds over old files and restarts, possibly with failed operations in between, each dictionary file holds what its latest successful operation stored: header description, parts of speech, connection costs, and for every entry its parameters, surface, reading, normalised and dictionary form, splits and structure; looking up a text at a position yields exactly the entries whose headword stands there. Loading, printing and header printing show exactly this, including user dictionaries on top of their system dictionary. A source that cannot be stored faithfully is refused.",
 ["histories", "fault_sequences", "inputs"],
 "every history of build/convert/print/load/restart operations on a disk, over all valid sources, with failed and interrupted operations in between",
 "Existing tests cover one five-key trie; they never build, convert, print or load a dictionary file.",
 ["dictionary/dicbuilder.go", "dictionary/dalexicon.go", "dictionary/lexiconset.go", "dictionary/grammar.go", "dictionary/dicheader.go", "dictionary/bytes.go", "dictionary/dicprinter.go", "dartsclone/dabuilder.go", "dartsclone/dawgbuilder.go", "dartsclone/da.go", "dicconv/main.go"],
 [("binary layout writer and reader", "dictionary/dicbuilder.go, dictionary/dalexicon.go, dictionary/bytes.go"), ("double-array trie", "dartsclone"), ("user part-of-speech and word-id offsets", "dictionary/lexiconset.go")],
 ["ReadSystemDictionary/ReadUserDictionary and accessors", "LexiconSet", "output of printdic and printdicheader"])

prop("C09", "Building and converting are reproducible",
 "The bytes a build or conversion produces depend only on its sources and options, apart from the creation time, which a build takes from the clock and a conversion keeps. Repeating it gives the same file whatever was at the output path before, whatever else the process built, converted or loaded earlier or at the same time, and whatever the clock, thread scheduling and map iteration order are.",
 ["histories", "schedules", "configurations"],
 "every prior content of the output path, prior or concurrent activity of the process, clock value (including jumps), and iteration order",
 "A test that builds once cannot see dependence on hidden state; existing tests build no file.",
 ["dictionary/dicbuilder.go", "dictionary/dicheader.go", "dicbuilder/main.go", "userdicbuilder/main.go", "dicconv/main.go", "dartsclone/dabuilder.go", "dartsclone/dawgbuilder.go"],
 [("ordered key tree", "dictionary/dicbuilder.go redblacktree"), ("output truncated or replaced", "*/main.go"), ("creation time in the header only", "dictionary/dicheader.go")],
 ["bytes of the output file"])

prop("C10", "Incomplete dictionary files are refused, not misread",
 "A file that is not a complete dictionary of the expected kind - empty, cut off at any length, without a dictionary header, of the wrong kind, or whose opening, size query or mapping fails - is refused with an error by the library's open and load calls and with a non-zero status by every command that needs it (showing the header needs the complete header only, and takes either kind). It is never reported as loaded, never crashes or hangs the caller, and leaves nothing open.",
 ["fault_sequences", "inputs"],
 "every dictionary file cut off at every length, and every failing open, stat and mmap",
 "Needs damaged files and failing system calls; existing tests open no dictionary.",
 ["dictionary/binarydict.go", "dictionary/dicheader.go", "dictionary/grammar.go", "dictionary/dalexicon.go", "dictionary/dicprinter.go", "dictionary.go", "dicconv/main.go", "printdic/main.go", "userdicbuilder/main.go", "gosudachicli/main.go"],
 [("version check and section parsing at open", "dictionary/binarydict.go NewBinaryDictionary")],
 ["ReadSystemDictionary", "ReadUserDictionary", "NewBinaryDictionary", "NewJapaneseDictionary", "PrintDictionary", "PrintHeader", "exit status of the commands"])

prop("C11", "An interrupted build leaves the old dictionary or the new one",
 "If dicbuilder, userdicbuilder or dicconv is killed, fails, or the machine loses power at any instant, the output path afterwards holds either exactly what it held before (nothing, if nothing was there) or exactly the complete new dictionary, and no input file has changed. A run that exits successfully has left the complete new dictionary there, and it survives a later power loss unless the path reverts to its previous content. Whatever an interrupted run left behind, running it again succeeds.",
 ["crash_points", "fault_sequences"],
 "every instant of a kill, I/O failure or power loss during a build or conversion, and every legal subset of unsynchronised writes that survives the power loss",
 "Tests cannot pull the plug between two writes.",
 ["dicbuilder/main.go", "userdicbuilder/main.go", "dicconv/main.go", "dictionary/dicbuilder.go"],
 [("output written aside, synchronised and renamed into place", "*/main.go")],
 ["content of the output path after restart"])

prop("C12", "Replacing a dictionary file does not disturb its users",
 "A process that has loaded a dictionary keeps returning exactly the same results while dicbuilder, userdicbuilder or dicconv, running at the same time, writes a new dictionary to the path it was loaded from, whether that run succeeds, fails or is killed. A process that loads from the path during that time gets either the old or the new dictionary in full.",
 ["schedules", "crash_points"],
 "every interleaving of tokenizing or loading processes with a builder or converter writing to the same path",
 "Depends on the interleaving of two processes over one mapped file.",
 ["dicbuilder/main.go", "userdicbuilder/main.go", "dicconv/main.go", "dictionary/binarydict.go", "internal/mmap/mmap_unix.go"],
 [("rename into place keeps the mapped file alive", "*/main.go"), ("shared read-only mapping", "internal/mmap/mmap_unix.go")],
 ["results of Tokenize in the reading process", "result of a load during the rebuild"])

prop("C13", "Every file and mapping is released, on failure too",
 "Library calls leave no file open and nothing mapped beyond what the dictionaries they returned need: a call that opens or loads and fails, whatever the failure and wherever it strikes, has released everything it opened; a finished definition, print or header call likewise. Closing a dictionary releases all its files and mappings, also if releasing one of them reports an error; closing again what is already closed takes nothing away from other dictionaries.",
 ["fault_sequences", "histories"],
 "every sequence of loads, opens, prints and closes with a failure at any file operation",
 "Leaks appear only on error paths and are invisible to result-checking tests.",
 ["dictionary.go", "dictionary/binarydict.go", "dictionary/dicprinter.go", "definputtextplugin.go", "mecaboovproviderplugin.go", "dartsclone/da.go", "internal/mmap/mmap_unix.go"],
 [("deferred closes", "dictionary.go, dictionary/dicprinter.go, definputtextplugin.go, mecaboovproviderplugin.go"), ("munmap and close", "dictionary/binarydict.go Close")],
 ["open file descriptors and mappings of the process"])

prop("C14", "Loading a dictionary is all-or-nothing and can be retried",
 "Creating a dictionary from settings either succeeds with every configured part fully in effect - system and user dictionaries with their computed costs, character, unknown-word and rewrite definitions, plugins - so that it answers exactly as after an undisturbed load, or fails with an error. Any failure to open, read or map one of these files, or of a plugin while user-dictionary costs are computed, leads to the error; dictionaries already in use are unaffected, and once the failures stop the next attempt succeeds. The same holds for adding a user dictionary to a loaded dictionary and for reading a character definition into it again: if that fails, the dictionary answers as before and it can be retried.",
 ["fault_sequences", "configurations", "histories"],
 "every position and kind of failure during a load, over all configurations, followed by retries",
 "Needs faults injected into each step of a load; existing tests load no dictionary.",
 ["dictionary.go", "dictionary/binarydict.go", "dictionary/lexiconset.go", "dictionary/dalexicon.go", "definputtextplugin.go", "mecaboovproviderplugin.go", "dictionary/charcategory.go", "settingsjson.go", "simpleoovproviderplugin.go", "internal/lnreader/lnreader.go"],
 [("error returns through NewJapaneseDictionary", "dictionary.go"), ("definition readers", "definputtextplugin.go readRewriteLists, mecaboovproviderplugin.go readOov/readCharacterProperty"), ("CalculateCost", "dictionary/dalexicon.go")],
 ["NewJapaneseDictionary", "Tokenize after a load"])

# --- pure functions of their input: listed, not claimed (see MANIFEST.not_applicable)
prop("C23", "gosudachicli answers each line before it waits for more input",
 "A program that talks to gosudachicli line by line is never left waiting: writing to standard output, gosudachicli gives the complete answer to every line it has received in full - its morphemes and EOS, or with -f the message about a line that cannot be analysed - before it waits for more input, without needing anything behind that line (behind a single CR, one byte). This holds wherever the input comes from (standard input, or a pipe or terminal named as an argument, also after other files), however the line and the beginning of the next one arrive and however long the other side pauses; without -f it ends upon a line that cannot be analysed instead of asking for the next.",
 ["schedules", "histories", "inputs"],
 "every way in which the input's bytes come in pieces that depend on the answers so far, every pause and every interleaving with other processes",
 "Needs another side that holds its input back until it has been answered; the existing tests do not run the command.",
 ["gosudachicli/main.go"],
 [("standard output is written line by line, unbuffered", "gosudachicli/main.go realMain, run"), ("line scanner that asks for input only when it holds no complete line", "gosudachicli/main.go lineScanner.Scan, normalizer.Read")],
 ["standard output and standard error of gosudachicli at the moment it reads on"])

prop("C15", "Tokenization finds a minimum-cost path",
 "The morphemes returned in mode C before plugin rewriting form a path of minimal total word and connection cost among all segmentations that the lexicon and the unknown-word providers allow, never using an inhibited connection.",
 ["inputs", "configurations"], "every text, lexicon and connection matrix", "Quantifies over all inputs; no test tokenizes.",
 ["lattice.go", "tokenizer.go"], [("Viterbi search", "lattice.go connectNode/GetBestPath")], ["Tokenize"])
prop("C16", "Morphemes partition the original text",
 "For valid UTF-8 text the morphemes' begin and end offsets are non-decreasing and contiguous, start at 0 and end at the text's length, and their surfaces concatenate to the original text, whatever normalisation rewrote in between.",
 ["inputs"], "every valid UTF-8 text and rewrite definition", "Quantifies over all inputs; no test tokenizes.",
 ["inputtext.go", "morpheme.go", "definputtextplugin.go"], [("offset table maintained by Replace", "inputtext.go")], ["MorphemeList"])
prop("C17", "Split modes are consistent",
 "Tokenizing in mode A or B gives the mode C morphemes each replaced by its A or B units, the same units that splitting the morpheme on demand gives, covering the same range.",
 ["inputs", "configurations"], "every text and dictionary with consistent split information", "Quantifies over all inputs; no test tokenizes.",
 ["tokenizer.go", "morpheme.go"], [("splitPath / Split", "tokenizer.go, morpheme.go")], ["Tokenize", "Morpheme.Split"])
prop("C18", "Input normalisation follows its definition",
 "Text is rewritten exactly as the rewrite definition, case folding, NFKC and the prolonged-sound-mark settings prescribe, longest rewrite key first, and characters listed as exempt are left unnormalised.",
 ["inputs", "configurations"], "every text and rewrite definition", "Quantifies over all inputs; no test normalises text.",
 ["definputtextplugin.go", "prolongedsoundmarkinputtextplugin.go"], [("Rewrite", "definputtextplugin.go, prolongedsoundmarkinputtextplugin.go")], ["InputText.GetText"])
prop("C19", "Unknown words are generated as the character definition says",
 "At every position unknown-word candidates are exactly those that the character categories' invoke, group and length settings and the unknown-word definition prescribe, so that every text is analysable unless connections are inhibited.",
 ["inputs", "configurations"], "every text and definition", "Quantifies over all inputs; no test generates candidates.",
 ["mecaboovproviderplugin.go", "simpleoovproviderplugin.go", "dictionary/charcategory.go"], [("ProvideOOV", "mecaboovproviderplugin.go, simpleoovproviderplugin.go")], ["ProvideOOV", "Tokenize"])
prop("C20", "Numerals and katakana runs are joined correctly",
 "Adjacent numeral morphemes that form one well-formed number are joined and normalised to its decimal value, others are left alone, and runs of katakana with unknown or short parts become one noun.",
 ["inputs"], "every text", "Quantifies over all inputs; no test rewrites a path.",
 ["joinnumericplugin.go", "numericparser.go", "joinkatakanaoovplugin.go", "plugin.go"], [("path rewrite plugins", "joinnumericplugin.go, joinkatakanaoovplugin.go")], ["Tokenize"])
prop("C21", "The trie returns exactly the stored prefixes",
 "For any sorted set of distinct non-empty NUL-free keys with any non-negative values, the built double array returns by exact search, common-prefix search and iteration exactly the stored keys and their values.",
 ["inputs"], "every key set and query", "The test samples five keys.",
 ["dartsclone/dabuilder.go", "dartsclone/dawgbuilder.go", "dartsclone/da.go", "dartsclone/bitvector.go"], [("DAWG and double array builder", "dartsclone")], ["DoubleArray.Build/ExactMatchSearch/CommonPrefixSearch"])
prop("C22", "Settings resolve as documented",
 "Settings given by file, string and options combine with the documented precedence: relative paths resolve against the resource directory, later values override earlier ones, and plugins are found by short or Java class name.",
 ["configurations"], "every combination of settings", "The test parses one document.",
 ["settingsjson.go", "gosudachicli/main.go"], [("ParseSettingsJSON", "settingsjson.go")], ["SettingsJSON", "gosudachicli"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
