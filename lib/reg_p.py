GEN = ', helper rules: alternation, nested references, nullable parts, right recursion, mutual recursion'
check('P01', [
  unit('one', 'p01_match.c', 'every one-element rule body over 24 terminal/quantifier/negation forms, in four text styles of the grammar language' + GEN, 'input of up to NIN arbitrary bytes', defs={'SIZE': 1, 'NA': 6, 'STYLES': 4}, quick={'NIN': 4}, thorough={'NIN': 5}, covers=['end', 'match', 'no-match', 'long']),
  unit('two', 'p01_match.c', 'every sequence, choice and exclusion of two of the ELEMS element forms' + GEN, 'input of up to NIN arbitrary bytes', defs={'SIZE': 2, 'NA': 6, 'NIN': 3}, quick={'ELEMS': 20}, thorough={'ELEMS': 24, 'NIN': 4, 'STYLES': 2}, covers=['end', 'match', 'no-match', 'long']),
  unit('three', 'p01_match.c', 'every combination of three of the ELEMS element forms in 17 shapes: flat, nested left or right under any operator with any quantifier', 'input of up to NIN arbitrary bytes', defs={'SIZE': 3, 'NIN': 3}, quick={'ELEMS': 4, 'NA': 2}, thorough={'ELEMS': 7, 'NA': 3}, covers=['end', 'match', 'no-match', 'long'])],
  outside='rule bodies with more than three elements; longer inputs; directives (P10); left recursion (P05); other encodings (P07)')
check('P02', [
  unit('rules', 'p02_config.c', '35 grammars chosen for the optimizer, the first-character filter and the cache, each in all configurations: length, records and scan position', 'input of up to NIN arbitrary bytes', defs={'RULES': 1}, quick={'NIN': 4}, thorough={'NIN': 5}, covers=['end', 'match', 'later']),
  unit('one', 'p02_config.c', 'every one-element rule body', 'input of up to NIN arbitrary bytes', defs={'SIZE': 1, 'NA': 6}, quick={'NIN': 3}, thorough={'NIN': 4}, covers=['end', 'match', 'later']),
  unit('two', 'p02_config.c', 'every sequence, choice and exclusion of two of the ELEMS element forms', 'input of up to NIN arbitrary bytes', defs={'SIZE': 2, 'NIN': 2}, quick={'ELEMS': 10, 'NA': 3}, thorough={'ELEMS': 20, 'NA': 6}, covers=['end', 'match', 'later']),
  unit('three', 'p02_config.c', 'every combination of three of the ELEMS element forms in 17 shapes', 'input of up to NIN arbitrary bytes', defs={'SIZE': 3, 'NIN': 2}, quick={'ELEMS': 3, 'NA': 1}, thorough={'ELEMS': 5, 'NA': 2}, covers=['end', 'match', 'later'])],
  outside='longer inputs and larger rule bodies; multi-byte characters are compared in P07')
check('P03', [
  unit('one', 'p03_records.c', 'every one-element rule body' + GEN, 'input of up to NIN arbitrary bytes, starting at the start of the buffer or after it', defs={'SIZE': 1, 'NA': 6}, quick={'NIN': 4}, thorough={'NIN': 5}, covers=['end', 'nested', 'many']),
  unit('two', 'p03_records.c', 'every sequence, choice and exclusion of two of the ELEMS element forms' + GEN, 'input of up to NIN arbitrary bytes', defs={'SIZE': 2, 'NIN': 3, 'NA': 6}, quick={'ELEMS': 12}, thorough={'ELEMS': 24}, covers=['end', 'nested', 'many']),
  unit('three', 'p03_records.c', 'every combination of three of the ELEMS element forms in 17 shapes' + GEN, 'input of up to NIN arbitrary bytes', defs={'SIZE': 3, 'NIN': 3}, quick={'ELEMS': 3, 'NA': 4}, thorough={'ELEMS': 5, 'NA': 6}, covers=['end', 'nested', 'many'])],
  outside='rule bodies with more than three elements; longer inputs')
check('P04', [unit('tree', 'p04_tree.c', 'every well-formed record forest, every record index (and one beyond either end), every request type, copy/move/user-type operation with any values', 'forests of up to NODES nodes', quick={'NODES': 6}, thorough={'NODES': 8}, covers=['end', 'child', 'sibling', 'copy', 'outside', 'refused', 'stopped', 'usertype'])],
  outside='lists that are not well nested; moves whose source runs beyond the list')
check('P05', [
  unit('direct', 'p05_lrec.c', 'rules with two or three branches in any order, each a base or a recursive tail over 6 element forms, with four helper rules (one itself left-recursive); length and record tree', 'input of up to NIN arbitrary bytes; every engine configuration in the thorough tier', defs={'KIND': 0, 'RECS': 1, 'NIN': 4}, quick={'CLO': 7, 'CHI': 7, 'NIN': 3}, thorough={'CLO': 0, 'CHI': 7}, covers=['end', 'grown', 'no-match']),
  unit('indirect', 'p05_lrec.c', 'five shapes of indirect and mutual left recursion over 4 element forms; length and record tree', 'input of up to NIN arbitrary bytes', defs={'KIND': 1, 'RECS': 1, 'NIN': 4}, quick={'CLO': 7, 'CHI': 7}, thorough={'CLO': 0, 'CHI': 7}, covers=['end', 'grown', 'no-match']),
  unit('expr', 'p05_lrec.c', 'expression grammars with two levels of left recursion, parentheses, a right-recursive operator and rules that are not emitted', 'input of up to NIN arbitrary bytes', defs={'KIND': 2, 'RECS': 1}, quick={'CLO': 7, 'CHI': 7, 'NIN': 5}, thorough={'CLO': 0, 'CHI': 7, 'NIN': 6}, covers=['end', 'grown', 'no-match'])],
  outside='optional or repeated recursive references; recursive references inside exclusion or negation')
check('P06', [
  unit('any', 'p06_scan.c', '18 grammars with terminals inside and outside ASCII (literals, classes, exclusion, negation, left recursion), scanned as UTF-8, UTF-16LE and bytes, case-sensitive and not; input starting at or after the start of the buffer; filter and optimizer on and off in the thorough tier', 'input of up to NIN arbitrary bytes', defs={'NIN': 3}, quick={'OLO': 1, 'STYLES': 1, 'OFFLO': 1}, thorough={'OLO': 0, 'STYLES': 2, 'OFFLO': 0}, covers=['end', 'found', 'later', 'none', 'wide']),
  unit('utf8', 'p06_scan.c', 'the grammars with multi-byte terminals GLO..GHI, scanned as UTF-8', 'input of up to NIN arbitrary bytes', defs={'NIN': 4, 'ELO': 0, 'EHI': 0, 'OLO': 1, 'STYLES': 1, 'OFFLO': 1}, quick={'GLO': 3, 'GHI': 5}, thorough={'GLO': 3, 'GHI': 13}, covers=['end', 'found', 'later', 'none', 'wide']),
  unit('abort', 'p06_abort.c', 'two grammars whose designated rule aborts the attempt when it fails: the scan goes on at the next character; every encoding, optimizer and filter on and off', 'input of up to NIN arbitrary bytes', quick={'NIN': 4, 'OLO': 1, 'EHI': 1}, thorough={'NIN': 6, 'OLO': 0, 'EHI': 2}, covers=['end', 'found', 'later', 'none', 'wide'])],
  outside='longer inputs; in case-insensitive mode the 8 characters of the folded blocks whose partner is disputable (multiplication and division sign, sharp s, y diaeresis, two accented Greek pairs)')
check('P07', [unit('texts', 'p07_encodings.c', '18 grammars with terminals inside and outside ASCII, in different spellings; every text of up to NCP code points, presented as UTF-8, UTF-16LE and (if all below 256) bytes; case-sensitive and not; length, records and their byte positions', 'texts of up to NCP code points', quick={'NCP': 3, 'STYLES': 1}, thorough={'NCP': 3, 'STYLES': 3}, covers=['end', 'match', 'wide', 'folded', 'bytes']),
  unit('styles', 'p07_encodings.c', 'the same for every spelling of the terminals in the grammar text', 'texts of up to NCP code points', quick={'NCP': 2, 'STYLES': 4}, thorough={'NCP': 2, 'STYLES': 4}, covers=['end', 'match', 'wide', 'folded', 'bytes'])],
  outside='longer texts; malformed sequences (their character boundaries are those of the decoder, P06); case pairs outside ASCII, Latin-1, Greek and Cyrillic')
check('P08', [
  unit('one', 'p08_grammar.c', 'K arbitrary bytes at 21 places of a grammar (alone, in terminals, classes, numbers, names, references, directives, between operators); load, error report, compile, match, reload after rejection, memory', 'K bytes, all values; optimizer on and off', defs={'K': 1, 'KLO': 0, 'OLO': 0, 'FILTER': 1}, covers=['end', 'accepted', 'rejected', 'compiled', 'undefined', 'matches']),
  unit('two', 'p08_grammar.c', 'K arbitrary bytes at places TLO..THI', 'K bytes, all values', defs={'K': 2, 'KLO': 2, 'OLO': 1}, quick={'FILTER': 0, 'TLO': 2, 'THI': 8}, thorough={'FILTER': 1, 'TLO': 0, 'THI': 8}, covers=['end', 'accepted', 'rejected', 'compiled', 'matches'])],
  outside='three or more arbitrary bytes at a time; grammar text larger than 60 bytes')
check('P09', [
  unit('pairs', 'p09_reuse.c', 'two consecutive requests over five rules (alternatives, left and right recursion, exclusion, an aborting rule) on one context: any input then any input, in new storage or the same; the second is a parse into the same record list, compared with a fresh context of a fresh database; then the same text at another address', 'inputs of NALO..NA and NBLO..NB arbitrary bytes; byte, UTF-8 and case-insensitive UTF-16LE', defs={'PLO': 0, 'PHI': 0, 'OPLO': 0, 'OPHI': 0, 'SAMEHI': 1, 'EBLO': 0}, quick={'NA': 2, 'NB': 2, 'NALO': 1, 'NBLO': 1, 'ENA': 1, 'ENB': 2}, thorough={'NA': 3, 'NB': 3, 'NALO': 0, 'NBLO': 0, 'ENA': 1, 'ENB': 2}, covers=['end', 'past match', 'past failure', 'past abort', 'abort', 'match', 'failure', 'appended', 'moved']),
  unit('events', 'p09_reuse.c', 'match, parse or scan after: stack exhaustion, abort by directive, abort by the user, an invalid range, parsing with the cache off, a longer input and a scan', 'inputs of NBLO..NB arbitrary bytes', defs={'PLO': 1, 'PHI': 6, 'OPLO': 0, 'OPHI': 2, 'SAMEHI': 0, 'EBLO': 0, 'NA': 2, 'NALO': 0, 'ENA': 1}, quick={'NB': 2, 'NBLO': 2, 'ENB': 2}, thorough={'NB': 3, 'NBLO': 0, 'ENB': 3}, covers=['end', 'match', 'failure', 'abort', 'appended', 'moved', 'past exhaustion'])],
  outside='three or more consecutive requests; longer inputs')
check('P10', [
  unit('sequences', 'p10_directives.c', 'every sequence of up to ND directives (emitall, emitnone, and emit, noemit, emitid, abort of each rule) before 7 three-rule grammars with alternation, optional and repeated references, exclusion, negation, direct and indirect left recursion; all engine configurations from CLO on; length, error details and every record', 'inputs of up to NIN arbitrary bytes', defs={'NIN': 3, 'NDLO': 0, 'OPLO': 0, 'OPHI': 13, 'GLO': 0, 'GHI': 6}, quick={'CLO': 2, 'ND': 2}, thorough={'CLO': 3, 'ND': 3}, covers=['end', 'abort', 'records', 'silent match', 'uid']),
  unit('configs', 'p10_directives.c', 'one directive, every engine configuration', 'inputs of up to NIN arbitrary bytes', defs={'NDLO': 0, 'OPLO': 0, 'OPHI': 13, 'GLO': 0, 'GHI': 6, 'ND': 1, 'CLO': 0}, quick={'NIN': 4}, thorough={'NIN': 5}, covers=['end', 'abort', 'records', 'silent match', 'uid']),
  unit('ids', 'p10_ids.c', 'identifiers of 1 to 10 digits with one to three arbitrary digits, near the limits of 8, 16, 31 and 32 bits, with and without an alias, in two spellings', 'ten digit patterns', covers=['end', 'large'])],
  outside='directives that follow the rules they name; abort of a rule inside the growth of indirect left recursion; records left behind by an aborted parse')
check('P11', [
  unit('stack', 'p11_failures.c', 'four rules (nested, left-recursive, mutually recursive, under negation and exclusion), parse, match and scan, on every stack of 1 to SMAX words against a large one: the same answer or a reported failure, and the context stays usable', 'inputs of NLO..NIN arbitrary bytes', defs={'MLO': 0, 'MHI': 0, 'CLO': 3}, quick={'NIN': 3, 'NLO': 3, 'SMAX': 80}, thorough={'NIN': 4, 'NLO': 0, 'SMAX': 110}, covers=['end', 'exhausted', 'match', 'no match']),
  unit('events', 'p11_failures.c', 'nesting depths 1 to 30 on every stack of 1 to SMAX words, memory returned after a failure; every input/start/end range over 4 offsets after a refusal and an abort; rules that do not exist and a database that is not compiled', 'SMAX words of stack, all ranges over 4 offsets', defs={'MLO': 1, 'MHI': 3, 'SMAX': 80}, quick={'CLO': 3}, thorough={'CLO': 0}, covers=['end', 'exhausted', 'match', 'destroyed', 'bad range', 'refused'])],
  outside='a null context; an abort from another thread while the machine runs; failing allocations (M01)')
