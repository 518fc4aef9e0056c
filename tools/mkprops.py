#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the authoring source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    if state: d["anchors"]["state"] = [dict(name=a, meaning=b, where=c) for a, b, c in state]
    d["anchors"]["hook_needed"] = None
    P.append(d)

# ---------------------------------------------------------------- library of base types
p("L01", "Character codecs round-trip and stay inside the buffer",
  "Decoding one character from any byte sequence as UTF-8 or UTF-16LE consumes between one and four bytes of what remains (zero only when nothing remains) and never reads past the end, and a byte that starts no complete character is returned as itself with length one. Every encodable code point, once encoded into a buffer of sufficient size, decodes to the same code point with the same length; an encoder given too small a buffer or an unencodable value writes nothing and returns zero. The regular-expression tools, the grammar engine and the grep tool's own copy of the codecs agree on this.",
  ["inputs"], "every byte sequence of up to 6 bytes with every end position, every 32-bit value to encode and every output buffer size up to 5",
  "The tests decode a handful of literal strings; truncated and malformed sequences, exact buffer sizes and the surrogate range form a space of 2^32 values that only a symbolic check covers.",
  ["rlib/rutf.c", "rpagrep/rpagreputf.c"],
  [("UTF-8 / UTF-16 decode and encode", "rlib/rutf.c"), ("grep's own codecs", "rpagrep/rpagreputf.c")])
p("L02", "Growable arrays behave as a sequence under every history",
  "After any sequence of append, insert, replace, delete, move, truncate and extend operations a growable array holds exactly the elements an ideal sequence would hold, in the same order and with the same length, and out-of-range requests change nothing and report failure. The chunked array keeps every element at a stable address and with its value while it grows.",
  ["histories", "inputs"], "every history of up to 4 operations with arbitrary operation kinds, indices and element values, from an empty array and from arrays just below a growth boundary",
  "Unit tests run a few fixed histories; index/length/capacity boundary combinations are combinatorial.",
  ["rlib/rarray.c", "rlib/rarray.h", "rlib/rcarray.c", "rlib/rcarray.h"],
  [("growth and element shifting", "rlib/rarray.c"), ("chunk allocation", "rlib/rcarray.c")])
p("L03", "Keyed containers agree with an ideal map under every history",
  "After any sequence of insertions, replacements, removals and lookups, looking a key up in the hash table, the named array or the map returns exactly what an ideal multimap would (the first or the last matching entry as documented for the operation, and 'absent' when there is none), whatever keys collide. Forward and backward iteration over the map visits every live entry exactly once, and a removed entry is never reachable again, including after its storage is reused.",
  ["histories", "inputs"], "every history of up to 4 operations over arbitrary short keys (including colliding and prefix-related keys) in tables of one, two and many buckets",
  "Tests insert distinct, mostly non-colliding constant keys; collisions, prefix keys, reuse after deletion and first/last lookup order need arbitrary key bytes and histories.",
  ["rlib/rhash.c", "rlib/rharray.c", "rlib/rmap.c", "rlib/rlist.c"],
  [("bucket lists and node lookup", "rlib/rhash.c"), ("names and members kept in step", "rlib/rharray.c"), ("active/inactive lists", "rlib/rmap.c")])
p("L04", "Linked lists and string helpers match their reference meaning",
  "After any history of head/tail insertions, removals and splices a linked list is a consistent ring whose forward and backward traversals give the same ideal sequence, and counting matches. The string helpers (compare, copy, concatenate, search, number parsing, counted strings) return what their C-library or documented reference returns and never touch memory outside the given buffers.",
  ["histories", "inputs"], "every list history of up to 5 operations over 4 nodes; every pair of strings of up to 4 arbitrary bytes and every length argument up to 5",
  "Tests use a few literals and one list history; boundary lengths and unlink orders are not enumerated.",
  ["rlib/rlist.c", "rlib/rstring.c"],
  [("ring maintenance", "rlib/rlist.c"), ("string helpers", "rlib/rstring.c")])
p("L05", "Reference counts and locks are exact under every thread schedule",
  "Whatever the interleaving, at most one thread is inside a section guarded by the library's lock, no reference-count increment or decrement is lost, and a shared object is destroyed exactly once, by the holder that drops the last reference. The atomic primitives return the value their documentation states and lose no update.",
  ["schedules"], "every interleaving of 2 threads (3 for the atomic counter) each performing up to 2 operations, sequentially consistent memory",
  "The spinlock test runs one schedule chosen by the operating system; mutual exclusion is a statement about all of them.",
  ["rlib/rspinlock.c", "rlib/ratomic.c", "rlib/rref.c", "arch/unix/rtypes.h"],
  [("compare-and-exchange spin lock", "rlib/rspinlock.c"), ("counted object", "rlib/rref.c"), ("atomic macros", "arch/unix/rtypes.h")])

# ---------------------------------------------------------------- virtual machine
p("V01", "Arithmetic and logic instructions compute their defined result",
  "For every operand value, each integer arithmetic, logic, shift, bit and conversion instruction of the virtual machine leaves the mathematically defined machine-word result in its destination register, whatever mix of register and immediate operands it is given, and changes no other general register. Signed and unsigned division and remainder agree with two's-complement arithmetic for every non-zero divisor.",
  ["inputs", "programs"], "all 2^64 values of each operand, every such opcode, register and immediate operand forms, shift counts below the word size",
  "The tests run each instruction on one or two constants; carries, sign bits and extreme values live in a 2^128 operand space.",
  ["rvm/rvmcpu.c", "rvm/rvmcpu.h"],
  [("instruction bodies and dispatch table", "rvm/rvmcpu.c"), ("operand fetch and word/immediate selection", "rvm/rvmcpu.h")])
p("V02", "Comparison flags and conditional branches are consistent",
  "After comparing any two words, each conditional branch, relative or absolute, is taken exactly when the corresponding relation (equal, not equal, signed less, less or equal, greater, greater or equal) holds between them, and branches otherwise follow the zero and negative flags whoever set them; the flag-setting instructions report zero, negative, carry and overflow as defined by the operands. Instructions without flag effect leave the flags alone.",
  ["inputs", "programs"], "all pairs of 64-bit operands for every comparing/flag-setting opcode followed by every conditional instruction",
  "Tests use small constants for which signed and unsigned relations and carry/overflow coincide.",
  ["rvm/rvmcpu.c", "rvm/rvmcpu.h"],
  [("status register updates", "rvm/rvmcpu.h"), ("conditional branches", "rvm/rvmcpu.c")])
p("V03", "Stack, memory and call instructions are exact inverses",
  "Pushing any set of registers and popping the same set restores every register and the stack pointer; sized loads return exactly the bytes sized stores wrote, at any displacement, and touch no neighbouring byte. A called procedure returns to the instruction after the call with the caller's frame registers restored, at any nesting depth.",
  ["inputs", "programs"], "every register mask over 16 registers, every value, every displacement within a 32-byte window, call nesting up to 4",
  "Tests push and pop a couple of registers; mask order, overlapping widths and nesting are not explored.",
  ["rvm/rvmcpu.c"],
  [("push/pop multiple, load/store, call/return", "rvm/rvmcpu.c")])
p("V04", "Labels, relocations and code generation resolve every jump",
  "A program whose jumps, calls and label loads refer to labels defined before or after their use runs exactly as the same program written with absolute targets, however labels are ordered, repeated or left pending between several functions. A reference to a label that is never defined is reported as an error and not executed.",
  ["programs"], "every program of up to 5 blocks with arbitrary jump targets and label definition order",
  "Tests define one or two labels in a fixed order.",
  ["rvm/rvmcodegen.c", "rvm/rvmcodemap.c", "rvm/rvmrelocmap.c"],
  [("relocation records and patching", "rvm/rvmrelocmap.c"), ("label table", "rvm/rvmcodemap.c"), ("emission", "rvm/rvmcodegen.c")])
p("V05", "Variable scopes shadow and unwind exactly",
  "Looking a name up returns the most recent definition in the innermost open scope that defines it, the lookup restricted to the current scope sees only that scope, and closing a scope restores exactly the bindings visible before it was opened. This holds for every order of opening, defining and closing.",
  ["histories", "inputs"], "every history of up to 6 open/define/close operations over arbitrary one- and two-byte names",
  "Tests exercise one nesting with fixed names.",
  ["rvm/rvmscope.c"],
  [("scope and name arrays", "rvm/rvmscope.c")])
p("V06", "A faulting program stops with an error and corrupts nothing",
  "Division or remainder by zero, stack exhaustion by unbounded pushing or calling, an undefined opcode, or an explicit abort stops the virtual machine with the matching non-zero error status at the faulting instruction. Nothing outside the machine's own stack and registers is read or written, and the machine can run another program afterwards with correct results.",
  ["programs", "fault_sequences"], "every divisor/dividend pair, every stack depth around the limit, every opcode number up to 255, for stacks of the minimum size",
  "No test drives the machine into a fault other than one division by zero.",
  ["rvm/rvmcpu.c", "rvm/rvmcpu.h", "rvm/rvmerror.h"],
  [("fault detection in instruction bodies", "rvm/rvmcpu.c"), ("stack limit checks", "rvm/rvmcpu.c")])

# ---------------------------------------------------------------- grammar engine
p("P01", "Matching agrees with the documented grammar semantics",
  "For every grammar and every input, matching a rule returns the length the documented semantics assigns (ordered choice, greedy optional/repeat operators, literal and class and range and any-character terminals, negation and exclusion, rule references), and failure exactly when that semantics says there is no match; a rule reference, choice branch or repetition step that consumes nothing counts as not matching. The answer depends only on the rule, the encoding and the input.",
  ["inputs", "programs"], "rule bodies assembled from up to 3 symbolic terminals and symbolic operators (sequence, choice, grouping, ?, +, *, ^, exclusion), and every input of up to 4 bytes",
  "The tests are about 150 fixed grammar/input pairs; operator combinations and inputs that backtrack partway are combinatorial.",
  ["rpa/rpacompiler.c", "rpa/rpavm.c", "rpa/rpadbex.c", "rpa/rpastat.c", "rpa/rpaparser.c"],
  [("grammar to byte-code compilation", "rpa/rpadbex.c"), ("matching instructions", "rpa/rpavm.c"), ("code templates for operators", "rpa/rpacompiler.c")])
p("P02", "Engine configuration never changes an answer",
  "Turning the first-character filter, the compile-time optimisations or the result cache on or off, in any combination, changes neither the match length, nor the scan position, nor the emitted records of any rule on any input. Only speed may differ.",
  ["configurations", "inputs", "programs"], "all 8 configurations against each other on grammars with shared sub-rules, optional/looping/negated heads, character-class alternatives and multi-byte characters, every input of up to 4 bytes",
  "Each test runs one configuration; equality between configurations over all inputs is a relational property.",
  ["rpa/rpabitmap.c", "rpa/rpaoptimization.c", "rpa/rpacache.c", "rpa/rpadbex.c", "rpa/rpastat.c", "rpa/rpavm.c"],
  [("first-character bitmaps", "rpa/rpabitmap.c"), ("alternatives folded into classes", "rpa/rpaoptimization.c"), ("rule result cache", "rpa/rpacache.c")])
p("P03", "Emitted records always form the parse tree of the match",
  "After any parse the emitted records are properly nested begin/end pairs with equal rule, identifier, position and length on both ends, each child lies inside its parent, siblings are ordered and do not overlap, and the outermost record covers the matched text. The tree is exactly the derivation the grammar prescribes: one node per emitted rule that took part in the match, none left over from abandoned alternatives or lookahead.",
  ["inputs", "programs"], "grammars with backtracking alternatives, repetition, exclusion and negation around emitting rules; every input of up to 5 bytes",
  "Tests check a few record counts; stale records appear only on inputs that backtrack after emitting.",
  ["rpa/rpavm.c", "rpa/rpastat.c", "rpa/rparecord.c", "rpa/rpacache.c"],
  [("record emission and rollback", "rpa/rpavm.c"), ("cached records replay", "rpa/rpacache.c")])
p("P04", "Record-tree navigation is consistent with the nesting",
  "In every well-formed record list, first-child, last-child, next, previous, parent, size and walk return exactly what the nesting of the begin/end pairs defines, report absence at the borders, and are mutually inverse; copying or moving a subtree preserves it and leaves all other records in order. User types set on a node are read back from either end of it and from no other node.",
  ["inputs"], "every well-formed record forest of up to 5 nodes and every record index and request type",
  "Tests navigate two or three fixed trees.",
  ["rpa/rparecord.c", "rpa/rparecord.h"],
  [("tree navigation over begin/end records", "rpa/rparecord.c")])
p("P05", "Left-recursive rules parse left-associatively and terminate",
  "A directly or indirectly left-recursive rule always terminates and matches the longest left-associative expansion, as if it were rewritten as a base followed by a repetition of the recursive tails; its record tree nests to the left. This holds for every input, with the cache on or off.",
  ["inputs", "programs"], "direct, indirect and mutually left-recursive grammars, every input of up to 6 bytes over the full byte alphabet",
  "Tests contain a dozen fixed inputs for left recursion.",
  ["rpa/rpavm.c", "rpa/rpastat.c", "rpa/rpacompiler.c"],
  [("loop detection and growth of the seed", "rpa/rpavm.c"), ("record normalisation for left recursion", "rpa/rpastat.c")])
p("P06", "Scanning reports the leftmost match",
  "Scanning reports the first character position at which the rule matches, together with the length matching there yields, and reports no match exactly when the rule matches nowhere. The reported text lies inside the scanned input and starts on a character boundary of the chosen encoding.",
  ["inputs", "programs"], "a set of grammars including multi-byte terminals, every input of up to 4 bytes in each encoding",
  "Tests scan for one literal; prefilter and boundary effects depend on arbitrary bytes.",
  ["rpa/rpastat.c", "rpa/rpabitmap.c"],
  [("scan loop with first-character filter", "rpa/rpastat.c")])
p("P07", "All encodings give the same answer for the same text",
  "The same text presented as UTF-8, UTF-16LE or (when every character is a single byte) as raw bytes gives the same match measured in characters, and the matched length is always a whole number of characters. In case-insensitive mode the answer is the one obtained after folding the letters of both the rule and the text to one case.",
  ["inputs", "configurations"], "every text of up to 3 code points below U+110000, every byte text of up to 4 bytes, grammars with literals, classes and ranges inside and outside ASCII",
  "Tests use ASCII and a few Cyrillic literals in one encoding at a time.",
  ["rpa/rpastat.c", "rpa/rpavm.c", "rpa/rpadbex.c", "rlib/rutf.c", "rlib/rcharconv.c"],
  [("per-encoding input window", "rpa/rpastat.c"), ("case-insensitive compare", "rpa/rpavm.c")])
p("P08", "Any bytes given as a grammar are accepted or rejected cleanly",
  "Loading arbitrary bytes as grammar text either adds rules and reports how many bytes were consumed, or fails with an error code and an offset inside the text; it always terminates, stays inside its buffers, and destroying the database afterwards releases all memory. Compiling a database whose rules refer to undefined rules fails with an error that names the missing rule.",
  ["inputs"], "every text of up to 3 arbitrary bytes, alone and spliced into rule templates; every one- or two-byte rule name referenced but not defined",
  "Tests load well-formed grammars only.",
  ["rpa/rpadbex.c", "rpa/rpaparser.c", "rpa/rparecord.c", "rpa/rpaoptimization.c"],
  [("grammar for grammars", "rpa/rpaparser.c"), ("load/compile and error reporting", "rpa/rpadbex.c")])
p("P09", "Repeated use of one engine instance is independent of its past",
  "A matching context that has already been used, successfully, unsuccessfully or up to an error or abort, on any inputs and encodings, gives for the next request the same result and records as a fresh one. Results of a rule do not depend on which other rules were matched before, nor on the address of the input buffer.",
  ["histories", "inputs"], "every pair of consecutive requests with inputs of up to 3 arbitrary bytes, over two rules, different encodings and an aborting grammar",
  "Tests create a new context per case.",
  ["rpa/rpastat.c", "rpa/rpacache.c", "rpa/rpavm.c"],
  [("context re-initialisation", "rpa/rpastat.c"), ("cache invalidation", "rpa/rpacache.c")])
p("P10", "Emission directives select exactly the requested records",
  "The emit, no-emit, emit-all, emit-none and emit-identifier directives control exactly which rules appear in the record list and with which user-visible identifier, and never change whether or how much is matched. The abort directive stops the parse with the documented error, naming the rule and the position, exactly when the designated rule is tried and fails.",
  ["programs", "inputs"], "every assignment of directives to a three-rule grammar, every 32-bit identifier drawn from decimal and hexadecimal digits, every input of up to 4 bytes",
  "Tests use two directive combinations.",
  ["rpa/rpadbex.c", "rpa/rpavm.c", "rpa/rpacompiler.c"],
  [("directive handling", "rpa/rpadbex.c"), ("abort and emit instructions", "rpa/rpavm.c")])
p("P11", "Failures inside a match are reported, never silent or fatal",
  "When a match cannot be completed because the context's stack is exhausted, the request is aborted or the parameters are invalid, the call returns a negative value and the context then reports a non-zero error code; with enough resources the same request succeeds. No such failure touches memory outside the context or leaks memory.",
  ["fault_sequences", "inputs"], "recursive grammars with inputs of symbolic nesting depth against small stacks, abort requested before or during the match, every invalid parameter combination",
  "No test exhausts a stack or inspects the reported error.",
  ["rpa/rpastat.c", "rpa/rpavm.c", "rvm/rvmcpu.c"],
  [("error propagation from machine to context", "rpa/rpastat.c")])

# ---------------------------------------------------------------- regular expressions
p("X01", "Regular-expression matching agrees with the textbook meaning",
  "For every pattern built from the documented operators (literals, escapes, classes, negated classes, ranges, any character, grouping, alternation, ?, *, +, counted repetition) and every subject, the match length is the length of the longest prefix of the subject in the language of the pattern, and zero when no non-empty prefix is. Patterns that are not well formed are rejected with an error.",
  ["inputs", "programs"], "every pattern of up to 4 symbolic characters over the operator alphabet plus template patterns with symbolic literals and repeat counts; every subject of up to 4 bytes",
  "The tests match about 60 literal patterns.",
  ["rex/rexcompiler.c", "rex/rexfragment.c", "rex/rexnfasimulator.c", "rex/rexdb.c", "rex/rextransition.c"],
  [("pattern parser", "rex/rexcompiler.c"), ("automaton fragments", "rex/rexfragment.c"), ("simulation", "rex/rexnfasimulator.c")])
p("X02", "The deterministic automaton is equivalent to the patterns",
  "Converting any set of patterns to a deterministic automaton preserves, for every subject, after every prefix, whether it is accepted and exactly which patterns (by their user data) accept it. In every deterministic state the transitions are ordered, do not overlap and cover every character, and they lead to the dead state exactly when no pattern can continue, and the exported table form, with its accelerating bit filter, is equivalent to the automaton.",
  ["inputs", "programs"], "pairs of patterns with symbolic literals, class bounds and operators; every subject of up to 4 characters, each character any 32-bit value",
  "No test compares the automata on anything but fixed strings.",
  ["rex/rexdfaconv.c", "rex/rexdb.c", "rex/rexdfa.c", "rex/rexdfatypes.h", "rex/rexdfasimulator.c", "rex/rexstate.c", "rex/rextransition.c"],
  [("subset construction and range splitting", "rex/rexdfaconv.c"), ("table export", "rex/rexdb.c")])
p("X03", "Regex scanning reports the leftmost longest match",
  "Scanning a subject with a compiled regular expression reports the leftmost position from which a non-empty match exists and the longest length there, in byte and in UTF-8 mode, and reports none exactly when no position matches. The pre-filter never hides a match, and nothing outside the subject is read.",
  ["inputs"], "a set of patterns covering one-, two-, three- and multi-byte heads; every subject of up to 5 bytes",
  "Tests do not scan with arbitrary bytes; the filter can only go wrong for particular byte triples near the end of the subject.",
  ["rex/rexregex.c", "rex/rexdfa.c", "rex/rexdfa.h", "rex/rexdfatypes.h"],
  [("hash pre-filter", "rex/rexdfa.c"), ("scan loops", "rex/rexregex.c")])
p("X04", "Any bytes given as a pattern are accepted or rejected cleanly",
  "Compiling arbitrary bytes as a pattern terminates, stays inside its buffers, and either yields a usable expression or reports an error, leaving the object or database safe to use or destroy; after destruction all memory is released. A rejected pattern never yields an object that still refers to freed storage.",
  ["inputs"], "every pattern of up to 3 arbitrary bytes and templates with 2 arbitrary bytes inside groups, classes and counted repetitions",
  "Tests compile well-formed patterns and a few malformed ones.",
  ["rex/rexcompiler.c", "rex/rexdb.c", "rex/rexregex.c", "rex/rexfragment.c"],
  [("tokeniser and parser errors", "rex/rexcompiler.c"), ("object lifetime on failure", "rex/rexregex.c")])
p("X05", "Character-set algebra preserves sets exactly",
  "Adding ranges in any order, normalising and complementing a state's transitions keeps exactly the intended set of characters per destination: normalising changes no membership and leaves sorted, disjoint, non-adjacent ranges, and complementing yields exactly the characters that were not covered, over the whole 32-bit character space.",
  ["inputs"], "every list of up to 3 ranges with arbitrary 32-bit bounds and 2 destinations, and every probe character",
  "Tests use small constant ranges far from the ends of the character space.",
  ["rex/rextransition.c", "rex/rextransition.h"],
  [("sorted insertion, merge and complement", "rex/rextransition.c")])
p("X06", "Generated scanner tables equal the compiled automaton",
  "For every token definition file the scanner generator writes tables that, read back, describe the same automaton as compiling the same patterns in memory: same transitions, same accepting tokens with the definition order deciding ties, and the prologue and epilogue text copied unchanged. A malformed definition file is reported and produces no wrong table.",
  ["inputs", "programs"], "definition files with up to 2 tokens whose patterns, names and separators contain symbolic bytes",
  "The generator has no tests.",
  ["rexcc/rexcc.c"],
  [("definition file parser", "rexcc/rexcc.c"), ("table writer", "rexcc/rexcc.c")])
p("X07", "Line search reports exactly the lines that contain a match",
  "Searching a buffer by line outputs, in order and unchanged, exactly the lines in which some position matches the pattern, and searching without lines outputs the successive leftmost non-overlapping matches. The answer is the same whether the automaton is simulated directly or converted first.",
  ["inputs", "configurations"], "a set of patterns and every buffer of up to 5 bytes, both engines, line and plain mode",
  "The tool has no tests.",
  ["rexgrep/rexgrep.c"],
  [("scan loops", "rexgrep/rexgrep.c")])

# ---------------------------------------------------------------- JSON
p("J01", "The JSON record parser accepts exactly JSON and reports exact extents",
  "Parsing any byte buffer succeeds exactly when it begins with a JSON value (with leading white space allowed), returns the size of that value, and fills records that are the properly nested tree of the value with exact name and value positions and types. It never reads outside the buffer or writes outside the record array, and running out of records or nesting levels is reported as that error, an unexpected token by its offset.",
  ["inputs"], "every buffer of up to 4 arbitrary bytes and templates with symbolic holes up to 12 bytes; every record-array size up to 8 and every nesting limit up to 3",
  "The JSON parsers have no tests in the suite.",
  ["rexjson/rexjson.c", "rexjson/rexjsondfa.rexcc", "rexjson/rexdfatypes.h"],
  [("token automaton and recursive descent", "rexjson/rexjson.c"), ("token definitions", "rexjson/rexjsondfa.rexcc")])
p("J02", "JSON values survive writing and reading back",
  "Reading any text that is a JSON value, writing it and reading the result again yields an equal value, in compact and in formatted style; what is written is always valid JSON. Escape sequences in strings, including four-digit Unicode escapes, denote the characters the JSON standard assigns, encoded as UTF-8.",
  ["inputs"], "every string value of up to 3 arbitrary bytes, every four-digit Unicode escape, arrays and objects of up to 3 members, every 64-bit integer of up to 4 digits",
  "The JSON library has no tests in the suite.",
  ["rexjson/rexjson++.cpp", "rexjson/rexjson++.h"],
  [("escape and unescape", "rexjson/rexjson++.cpp"), ("reader and writer", "rexjson/rexjson++.cpp")])

# ---------------------------------------------------------------- grep tool
p("G01", "The grammar grep outputs exactly the matching text or lines",
  "Searching a buffer outputs, in order, exactly the successive leftmost non-overlapping matches, or in line mode exactly the lines containing a match including a last line without terminator, in the encoding selected by the byte-order mark or forced by the user (controls and the characters U+007F to U+00FF are shown as NUL). Its exit status says whether anything matched, and all memory is released.",
  ["inputs", "configurations"], "a set of grammars, every buffer of up to 5 bytes, UTF-8, byte and UTF-16LE input with and without byte-order mark, all search modes",
  "The tool has no tests.",
  ["rpagrep/rpagrep.c", "rpagrep/rpagreputf.c"],
  [("scan, line and match modes", "rpagrep/rpagrep.c")])
p("M01", "Every object returns all memory it took",
  "Creating, using in any way and destroying any library object (containers, machines, databases, contexts, automata, expressions), including along every path that ends in a reported error, returns the library's memory accounting to its previous value. Memory is released exactly once and never used afterwards.",
  ["histories", "inputs"], "every lifecycle of up to 4 symbolic operations per object kind, including failing ones (failing allocations excepted)",
  "Tests compare allocation totals on successful paths only.",
  ["rlib/rmem.c", "rlib/robject.c", "rlib/rgc.c", "rex/rexdb.c", "rpa/rpadbex.c", "rpa/rpastat.c"],
  [("allocation accounting", "rlib/rmem.c"), ("object cleanup chain", "rlib/robject.c")])

ids = [d["id"] for d in P]
assert len(ids) == len(set(ids))
for d in P:
    assert len(d["title"]) <= 80, d["id"]
    for f in d["anchors"]["files"]:
        assert os.path.exists("/repo/" + f), f
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P), "properties")
