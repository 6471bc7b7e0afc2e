#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that ids/titles stay in one place)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}}
    if state: d["anchors"]["state"]=[{"name":a,"meaning":b,"where":c} for a,b,c in state]
    P.append(d)

prop("C01","A parsed pattern accepts exactly the language its text denotes",
 "For every well-formed pattern - literals, escapes, '.', bracketed sets and ranges (also negated), the predefined classes, \\x codes, grouping, alternation, '?', '*', '+', '{n}', '{n,}', '{n,m}', '^' and '$', and with the and/not option '&' and '~' - the resulting automaton accepts a sequence of bytes and begin/end-of-text marks if and only if the documented meaning of the pattern does. '.' is any one byte, '^' and '$' consume exactly one begin or end mark, an empty group or a zero repetition matches the empty string, and '&' and '~' are intersection and complement over sequences of bytes and marks.",
 ["inputs"],"over all patterns of the documented syntax and all symbol sequences (compared as whole languages, not on sampled strings)",
 "the tests match about 60 fixed patterns against a few fixed strings each; nesting of operators, empty groups, zero/large counts, escapes inside brackets and marks in the middle are never combined",
 ["pire/re_lexer.cpp","pire/re_lexer.h","pire/re_parser.y","pire/classes.cpp","pire/read_unicode.cpp","pire/fsm.cpp"],
 [("tokenizer and bracket/count readers","pire/re_lexer.cpp Lexer::DoLex, CharacterRangeReader, RepetitionCountReader"),("grammar actions","pire/re_parser.y"),("class table","pire/classes.cpp")],
 ["Lexer::Parse() then Compile and step every byte and both marks from every reachable state"])
prop("C02","UTF-8 patterns match exactly the UTF-8 spellings of their characters",
 "With the UTF-8 encoding selected, a pattern character, range, class or \\x{...} code matches exactly the UTF-8 byte sequences of the characters it denotes, for every code point up to U+10FFFF that the pattern can name, and '.' and negated sets match exactly one structurally well-formed 1-4 byte sequence. No byte sequence that splits, truncates or merges characters is ever accepted in place of one. Characters outside the reach of the selected encoding match nothing.",
 ["inputs"],"over all patterns whose atoms are arbitrary Unicode characters, ranges and classes, all code points, and all byte strings",
 "the tests try one Cyrillic letter, a handful of \\x codes and '^.$' on a dozen byte strings",
 ["pire/encoding.cpp","pire/re_lexer.cpp","pire/classes.cpp","pire/stub/utf8.cpp","pire/fsm.cpp","pire/read_unicode.cpp"],
 [("UTF-8 encoding and dot","pire/encoding.cpp Utf8"),("shared-prefix trie for sets of byte strings","pire/fsm.cpp Fsm::AppendStrings"),("negated sets through complement","pire/re_parser.y ConvertToFSM")],
 ["Lexer::SetEncoding(Utf8).Parse(), compiled scanner walked on every byte"])
prop("C03","Automaton building operations denote the matching language operations",
 "For any automata built with the public building operations, appending characters, strings, string sets, a dot or a mark, concatenation, union, intersection, complement, iteration, n-fold repetition, surrounding, and one-sided prepending/appending of anything yield exactly the corresponding language operation on the operands' languages; reversal yields the reversed words; prefix and suffix closure yield exactly the prefixes/suffixes of accepted words. Operands other than the target are unchanged, and any of these operations may be applied to the result of any other, including using the same automaton as both operands.",
 ["inputs","histories"],"over all sequences of building operations, all orders of composition, and all symbol sequences",
 "the tests combine two or three operations in a handful of fixed ways and check few strings",
 ["pire/fsm.cpp","pire/fsm.h"],
 [("operator algebra","pire/fsm.cpp Fsm::operator+=, |=, &=, Iterate, Complement, operator*"),("importing one transition table into another","pire/fsm.cpp Fsm::Import"),("closures and reversal","pire/fsm.cpp Fsm::MakePrefix, MakeSuffix, Reverse")],
 ["Fsm public operations; language read back from the compiled scanner"],
 [("sparsed/letters","whether transitions are stored per letter class","pire/fsm.h Fsm::m_sparsed, letters"),("isAlternative","union shortcut hint","pire/fsm.h")])
prop("C04","Determinization, minimization and cleanup keep the language and hit the limits",
 "Removing empty transitions, determinizing, minimizing, canonizing, removing dead ends and re-expanding letter classes never change the set of accepted words. Determinization yields an automaton with at most one successor per state and letter, or reports failure when more than the allowed number of states would be needed, leaving the language as it was; canonizing yields the minimal number of states and state tags survive as the union of the tags of merged states. The letter classes always separate letters that the automaton treats differently.",
 ["inputs","histories"],"over all nondeterministic automata (with empty transitions, unreachable and dead parts, several final states), all size limits",
 "no test calls these steps directly; they are only exercised through a few compiled patterns, where a wrong merge rarely shows on the sampled strings",
 ["pire/fsm.cpp","pire/determine.h","pire/minimize.h","pire/partition.h"],
 [("subset construction with a size cap","pire/determine.h Determine"),("partition refinement","pire/minimize.h Minimize"),("empty-transition closure","pire/fsm.cpp Fsm::RemoveEpsilons"),("letter classes","pire/fsm.cpp Fsm::Sparse, pire/partition.h")],
 ["Fsm::Determine/Minimize/Canonize/RemoveEpsilons/RemoveDeadEnds; transitions read through the public accessors"])
prop("C05","All scanner kinds compiled from one automaton give the same verdicts",
 "For any automaton, the relocatable, non-relocatable, unmasked, half-final, simple and slow (nondeterministic) scanners compiled from it agree with the automaton's language on whether the text consumed so far is accepted, after every symbol. Converting a relocatable scanner to a non-relocatable one and back does not change its verdicts, and the reported list of matched expressions is non-empty exactly when the state is accepting.",
 ["inputs"],"over all automata and all texts with marks, for every scanner type and conversion between types",
 "the tests compare ten scanner types on fixed patterns and only at the end of short strings",
 ["pire/scanners/multi.h","pire/scanners/simple.h","pire/scanners/slow.h","pire/scanners/half_final.h","pire/fsm.h"],
 [("table layout and shortcuts","pire/scanners/multi.h"),("one-expression table","pire/scanners/simple.h"),("bit-set simulation","pire/scanners/slow.h")],
 ["Fsm::Compile<...>() for every scanner type; Next/Final/AcceptedRegexps"])
prop("C06","Matching a buffer equals matching its bytes one at a time",
 "Running any scanner over a buffer leaves it in the same state, with the same verdict, matched expressions and counters, as feeding the bytes one by one, whatever the buffer's address, length, content or how it is cut into pieces. The result never depends on bytes outside the buffer, no machine word that does not overlap the buffer is read, and running two scanners together gives each the state it would have alone.",
 ["inputs","configurations"],"over all scanners, buffer contents, lengths 0..several hundred, alignments, splits, and surrounding memory contents",
 "the tests use a few strings of fixed alignment; the shortcut masks, head/tail handling and exit-character checks interact with position modulo 16 and content",
 ["pire/run.h","pire/scanners/multi.h","pire/scanners/pair.h","pire/platform.h"],
 [("word-wise runner","pire/run.h DoRun, RunChunk"),("skip-until-exit-character runner","pire/scanners/multi.h AlignedRunner, MaskCheckerBase"),("SIMD word compare","pire/platform.h")],
 ["Run(), Runner(), pairwise Run() versus Step() per byte"])
prop("C07","Prefix and suffix search return the exact longest or shortest match",
 "The longest (shortest) prefix search returns the end of the longest (shortest) prefix of the text the scanner accepts, or null when no prefix is accepted, for every scanner, text, length and alignment; the suffix searches do the same for texts read backwards. When asked to also consume the begin or end mark, a prefix or suffix ending there counts exactly if the word with the mark is accepted, and an already accepted shorter match is still reported.",
 ["inputs","configurations"],"over all scanners, texts up to several hundred bytes, alignments and all four mark settings",
 "one table test with 18 pattern/text pairs, none of which ends exactly where a skipped run ends or uses the mark arguments",
 ["pire/run.h","pire/scanners/multi.h"],
 [("prefix predicates","pire/run.h LongestPrefixPred, ShortestPrefixPred"),("predicate-aware skipping","pire/scanners/multi.h AlignedRunner"),("suffix loops","pire/run.h LongestSuffix, ShortestSuffix")],
 ["LongestPrefix, ShortestPrefix, LongestSuffix, ShortestSuffix"])
prop("C08","Glued scanners report exactly the expressions that match",
 "Gluing scanners yields one scanner that, after any text, reports precisely the set of expressions that match it, each listed once in increasing order, numbered left operand first and then right operand shifted by the left operand's count, for any nesting and number of glues including glues with an empty scanner. If the requested or default size limit would be exceeded the result is an empty scanner and never a wrong one; the operands are not changed.",
 ["inputs","histories","configurations"],"over all families of expressions, glue trees, size limits and texts",
 "the test glues two or three fixed scanners and checks four strings; merging of states with different final sets and letter remapping are hardly reached",
 ["pire/glue.h","pire/scanners/multi.h","pire/scanners/half_final.h","pire/determine.h"],
 [("product construction","pire/glue.h GlueCommon, pire/scanners/multi.h ScannerGlueTask"),("size cap","pire/scanners/multi.h Scanner::Glue"),("letter table merge","pire/glue.h LettersEquality")],
 ["Scanner::Glue, RegexpsCount, AcceptedRegexps"])
prop("C09","Saved scanners load back equivalent, in sequence and by memory mapping",
 "Saving any scanner and loading it back, from a stream or by mapping the saved bytes at a suitably aligned address, gives a scanner that behaves identically on every text, reports the same counts, and consumes exactly the bytes that were written - a whole number of machine words - so that several images of different kinds can follow each other in one stream or buffer. The target's previous content is fully replaced, also when the image is of an empty scanner, and saving the loaded scanner again writes the same bytes.",
 ["inputs","histories"],"over all scanner kinds, automata, sequences of images, reuse of target objects, stream and mapped loading, and re-saving",
 "the tests save one pattern once per scanner type into fresh objects and check three strings",
 ["pire/scanner_io.cpp","pire/scanners/multi.h","pire/scanners/simple.h","pire/scanners/slow.h","pire/scanners/loaded.h","pire/align.h","pire/extra/count.cpp","pire/extra/count.h"],
 [("stream save/load","pire/scanner_io.cpp"),("mapping","Scanner::Mmap, SimpleScanner::Mmap, SlowScanner::Mmap, LoadedScanner::Mmap"),("word alignment","pire/align.h")],
 ["Save, Load, Mmap"])
prop("C10","Damaged or foreign scanner images are refused without harm",
 "Loading or mapping an image that is truncated, misaligned, of another scanner kind, of another format version, architecture or without the magic number reports an error by exception instead of producing a scanner. Nothing outside the given bytes is read, and an object whose mapping failed can still be used, assigned or destroyed safely.",
 ["inputs","fault_sequences"],"over all scanner kinds, all truncation points, all header corruptions and all kind mismatches",
 "the tests check only misaligned addresses; truncation and mismatch are never tried",
 ["pire/scanners/common.h","pire/scanner_io.cpp","pire/align.h","pire/scanners/multi.h","pire/scanners/simple.h","pire/scanners/slow.h","pire/scanners/loaded.h","pire/extra/count.cpp"],
 [("header validation","pire/scanners/common.h Header::Validate"),("bounds checks while mapping","pire/scanners/common.h MapPtr, pire/align.h AdvancePtr")],
 ["Load, Mmap on corrupted images under AddressSanitizer"])
prop("C11","Scanner objects behave as independent values through any history",
 "Through any sequence of default construction, copying, assignment (also to itself), moving, swapping, conversion between relocatable and non-relocatable forms, gluing, loading and destruction, every live scanner keeps the behaviour of the value it was last given: changing or destroying one object never alters or invalidates another, and no memory is used after release, released twice or leaked. Empty scanners stay empty and usable through all of this.",
 ["histories"],"over all histories of object operations on sets of scanners of every kind",
 "the tests copy and assign a freshly compiled scanner once; copies of empty, mapped, moved-from or converted objects are not exercised",
 ["pire/scanners/multi.h","pire/scanners/simple.h","pire/scanners/slow.h","pire/scanners/loaded.h","pire/extra/count.h","pire/extra/capture.h"],
 [("deep copy and buffer ownership","pire/scanners/multi.h DeepCopy, Swap"),("copying of non-owning (mapped) objects","pire/scanners/*.h copy constructors")],
 ["copy/move/assign/Swap of every scanner type, behaviour signature after each step"])
prop("C12","Any pattern text is parsed or refused cleanly",
 "Parsing any sequence of characters as a pattern, with any encoding and any combination of options, either yields a usable automaton or reports an error by exception; it never crashes, corrupts memory, loops for ever or silently drops the rest of the pattern, whatever mixture of brackets, counts, escapes, control characters and non-ASCII characters it contains. Unbalanced or unterminated constructs, dangling escapes, reversed or out-of-range counts and codes beyond U+10FFFF are refused.",
 ["inputs"],"over all character sequences (including NUL, private-use and non-characters) and all option combinations",
 "the tests try about twenty malformed \\x sequences and one unbalanced bracket",
 ["pire/re_lexer.cpp","pire/re_lexer.h","pire/re_parser.y","pire/read_unicode.cpp","pire/extra/capture.cpp","pire/extra/glyphs.cpp"],
 [("control-character encoding of escapes","pire/re_lexer.h Consts, pire/re_lexer.cpp Lexer::GetChar"),("error propagation through the generated parser","pire/re_parser.y yylex")],
 ["Lexer::Parse on arbitrary input under sanitizers"])
prop("C13","The convenience wrapper finds a pattern exactly when some substring matches",
 "A wrapped expression reports a match on a text exactly when the pattern, with '^' and '$' tied to the ends of the text, matches some substring - or, when the pattern is given as both anchored, the whole text - with options for case, encoding and extended syntax applied, and whether it is internally run by the fast or the slow engine. Wrapping a ready automaton or scanner uses it as given, options given twice or in any order mean the same, and copies and assignments of the wrapper match alike.",
 ["inputs","configurations"],"over all patterns, option combinations, texts and both engines",
 "two tests with three strings each",
 ["pire/easy.h","pire/easy.cpp"],
 [("option handling","pire/easy.h Options"),("engine choice","pire/easy.h Regexp::Init"),("match loop","pire/easy.h RegexpRunner")],
 ["Regexp::Matches"])
prop("C14","Counting scanners report the longest chain of matches, alone or glued",
 "For an expression and a separator, the counting scanner's result on a text is the largest number of consecutive greedy matches of the expression in which neighbours are joined by the separator, as documented, and the three counting implementations agree wherever the documentation does not say they differ. Gluing counting scanners, saving and loading them, and feeding the text in pieces leave every individual result unchanged, and the counter never exceeds the number of matches present.",
 ["inputs","histories"],"over all expression/separator pairs of the supported form, texts, glue orders and counts",
 "about twenty fixed regexp/separator/text triples",
 ["pire/extra/count.h","pire/extra/count.cpp","pire/scanners/loaded.h"],
 [("counting automaton construction","pire/extra/count.cpp CountingFsm"),("per-transition actions","pire/extra/count.h"),("glue of actions","pire/extra/count.cpp CountingScannerGlueTask")],
 ["CountingScanner, AdvancedCountingScanner, NoGlueLimitCountingScanner: Run and Result(i)"])
prop("C15","Captured text is the right fragment of a real match",
 "When a capturing scanner reports a capture, the whole text matches the pattern and the reported bounds delimit the fragment that the chosen parenthesized group takes in the match preferred by leftmost-alternative, greedy / non-greedy rules; when the text does not match, or the group does not take part in that match, nothing is reported. The slow capturing scanner does this for every pattern; the fast one does so for patterns in which the group's extent is determined by the surrounding text.",
 ["inputs"],"over all patterns with groups, greedy and non-greedy operators and alternatives, all group numbers and texts",
 "fewer than ten fixed pattern/text pairs per scanner",
 ["pire/extra/capture.h","pire/extra/capture.cpp","pire/scanners/slow.h"],
 [("begin/end capture marks on transitions","pire/extra/capture.cpp CaptureImpl"),("capture state updates","pire/extra/capture.h CapturingScanner::TakeAction"),("prioritized simulation","pire/extra/capture.h SlowCapturingScanner")],
 ["CapturingScanner state Captured/Begin/End, SlowCapturingScanner::GetCapture"])
prop("C16","Half-final scanners accept like ordinary ones and count occurrences as specified",
 "A half-final scanner compiled straight from an automaton accepts exactly the automaton's language. Built as a greedy counter it counts the maximal non-overlapping matches taken left to right; built as a non-greedy counter it counts matches by their end positions with the documented treatment of overlapping and simultaneous matches; glued scanners report for each expression the count it has alone.",
 ["inputs","configurations"],"over all expressions, counter modes, texts and glue combinations",
 "ten fixed pattern/text pairs with five modes",
 ["pire/half_final_fsm.cpp","pire/half_final_fsm.h","pire/scanners/half_final.h"],
 [("counter construction","pire/half_final_fsm.cpp MakeGreedyCounter, MakeNonGreedyCounter"),("final-index bookkeeping","pire/scanners/half_final.h")],
 ["HalfFinalScanner state Result(i)"])
prop("C17","Approximate matching accepts exactly the words within the edit distance",
 "An automaton compiled with distance k accepts a text exactly when at most k single-byte substitutions, insertions, deletions or swaps of two neighbouring bytes turn the text into a word the original automaton accepts, begin and end marks being left alone. Distance zero changes nothing, and raising the distance never loses a word.",
 ["inputs","configurations"],"over all automata, distances 0..3 and texts",
 "about fifteen fixed patterns; combinations of edits next to marks, at the ends and across groups are not tried",
 ["pire/approx_matching.cpp","pire/approx_matching.h","pire/scanners/multi.h"],
 [("layered automaton","pire/approx_matching.cpp CreateApproxFsm")],
 ["Fsm::Compile<Scanner>(distance), CreateApproxFsm"])
prop("C18","Case and glyph insensitivity widen exactly to the equivalent characters",
 "With case-insensitive matching on, a pattern matches a text exactly when replacing characters of the text by their upper- or lower-case counterparts can make it match the original pattern; every text matched without the option is still matched. With look-alike-insensitive matching on, likewise a pattern character matches exactly the characters of its documented look-alike group (including multi-letter look-alikes), and the two options combine with each other, with sets, ranges and any order of installation.",
 ["inputs","configurations"],"over all patterns, all letters of all scripts in the case tables, all look-alike groups, encodings and option orders",
 "a few Latin and Cyrillic words",
 ["pire/re_lexer.cpp","pire/extra/glyphs.cpp","pire/stub/unidata_h.h","pire/stub/unidata_cpp.h"],
 [("case closure of character sets","pire/re_lexer.cpp CaseInsensitiveImpl"),("look-alike table","pire/extra/glyphs.cpp GlyphTable")],
 ["Lexer::AddFeature(CaseInsensitive / GlueSimilarGlyphs)"])
prop("C19","Precompiled inline expressions equal their run-time counterparts",
 "The inline preprocessor replaces each inline expression by code that yields a scanner equivalent to compiling the same pattern(s) and flags at run time, with several patterns numbered in order, and copies all other text - comments, strings, code - through unchanged with line numbers preserved. C++ string escapes in the pattern mean what the compiler says they mean, and malformed uses are reported with file and line instead of producing code.",
 ["inputs","programs"],"over all source texts containing inline expressions, patterns with any escapes, flags and surrounding code",
 "one test file with three inline expressions",
 ["pire/inline.lpp","pire/defs.h","pire/run.h"],
 [("tokenizer and code generator","pire/inline.lpp"),("literal mapping","pire/defs.h PIRE_LITERAL, pire/run.h MmappedScanner")],
 ["output of pire_inline: literal decoded and mapped, rest compared byte by byte"])
prop("C20","Text encodings round-trip characters and refuse malformed text",
 "Every character the encoding can represent is turned into bytes that decode back to that same character, consuming exactly those bytes, also inside longer texts; the UTF-8 form is the standard shortest form. Text that is not valid in the encoding - truncated sequences, stray or missing continuation bytes, bytes outside the 7-bit range for the default encoding - is refused by exception and never read past its end.",
 ["inputs"],"over all code points and all byte strings",
 "encodings are only used indirectly with a few letters",
 ["pire/encoding.cpp","pire/encoding.h","pire/stub/unidata_h.h"],
 [("Latin-1 and UTF-8 codecs","pire/encoding.cpp"),("rune reader/writer","pire/stub/unidata_h.h utf8_read_rune, utf8_put_rune")],
 ["Encoding::FromLocal, ToLocal"])
prop("C21","Dead, final and tag information of scanner states is exact",
 "A scanner state is reported dead exactly when no continuation of the text can lead to an accepting state, and final exactly when the text so far is accepted, for every scanner kind that offers the test; the same holds per glued scanner as a whole. The automaton's own list of dead states is exactly the states that are unreachable or cannot reach a final state, and removing them changes no verdict.",
 ["inputs"],"over all automata, scanner kinds, glue combinations and reachable states",
 "one test relies on a dead state stopping a scan; nothing checks the flag itself",
 ["pire/fsm.h","pire/fsm.cpp","pire/scanners/multi.h","pire/scanners/simple.h","pire/scanners/slow.h"],
 [("reachability both ways","pire/fsm.cpp Fsm::DeadStates"),("flag assignment","pire/fsm.h BuildScanner"),("flag merge on glue","pire/scanners/multi.h ScannerGlueTask::AcceptStates")],
 ["Dead(state), Final(state), Fsm::DeadStates"])
prop("C22","Automata edited by hand accept what their transitions say",
 "After any sequence of resizing, connecting, disconnecting, diverting, importing, choosing initial and final states, tagging and setting outputs, the queries (connections, destinations, outgoing letters, finals, tags, outputs) report exactly the edited structure, and the compiled scanners accept exactly the words with a path of such transitions from the initial to a final state. Importing appends a renumbered copy, diverting redirects transitions together with their outputs, and copying or swapping automata carries everything along.",
 ["histories"],"over all edit sequences on several automata",
 "no test edits an automaton by hand",
 ["pire/fsm.cpp","pire/fsm.h"],
 [("transition table edits","pire/fsm.cpp Connect, Disconnect, Divert, Import, Resize"),("copy/swap","pire/fsm.cpp Fsm::Swap")],
 ["Fsm raw construction interface against a set-of-edges model"])
prop("C23","The command-line samples print exactly the matching lines",
 "The grep sample prints, in order and prefixed as documented, exactly those input lines in which the pattern matches under the chosen switches, for standard input and any number of files, and exits with an error message on malformed patterns. The blacklist sample, given a list of domains, later passes exactly those URLs whose host is a listed domain or a subdomain of one.",
 ["inputs"],"over all patterns, switches, files, domain lists and URLs",
 "the samples have no tests",
 ["samples/pigrep/pigrep.cpp","samples/blacklist/blacklist.cpp"],
 [("grep loop","samples/pigrep/pigrep.cpp GrepStream"),("dictionary build and mapped filter","samples/blacklist/blacklist.cpp")],
 ["stdout and exit status of the sample programs"])
prop("C24","Lexer extensions are consulted in priority order and see every token",
 "Installed lexer extensions are offered each input position in increasing order of priority until one produces a token, and get to alter every token, and every parenthesized part, in decreasing order of priority, regardless of the order of installation. An extension that declines leaves the input exactly as it was for the next one, and an extension that changes a token or a parenthesized automaton determines what the pattern then matches.",
 ["inputs","configurations"],"over all sets of extensions with arbitrary priorities, installation orders and patterns",
 "the built-in options are installed in one order in each test",
 ["pire/re_lexer.cpp","pire/re_lexer.h","pire/re_parser.y"],
 [("sorted insertion","pire/re_lexer.cpp Lexer::AddFeature"),("dispatch","pire/re_lexer.cpp Lexer::DoLex, Lex, Parenthesized")],
 ["custom Feature subclasses recording their calls"])
prop("C25","One scanner can be shared by many threads matching at once",
 "Any number of threads may match texts concurrently with the same compiled, glued, loaded or mapped scanner, including an empty one, and may copy it, without data races, and each gets the result it would get alone.",
 ["schedules","inputs"],"over thread counts, scanner kinds, texts and interleavings provoked by the scheduler",
 "no test starts a thread",
 ["pire/run.h","pire/scanners/multi.h","pire/scanners/slow.h","pire/scanners/loaded.h","pire/scanners/null.cpp"],
 [("immutable scanner tables, per-caller state","pire/scanners/*.h"),("shared null scanner","pire/scanners/null.cpp")],
 ["concurrent Runner()/Run() under ThreadSanitizer"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
