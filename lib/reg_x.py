from registry import check, unit
_O = 'longer patterns and subjects; counts above 3; patterns containing NUL; octal and empty numeric class items, whose meaning is not documented'
_c = ['end', 'all', 'none']
check('X01', [
  unit('text', 'x01_text.c', 'every string of up to L symbols over the pattern alphabet: accepted exactly when an independent parser accepts it, then longest match on every subject', 'subject of 3 arbitrary ASCII characters', quick={'L': 4}, thorough={'L': 5}, covers=['end', 'matched', 'rejected']),
  unit('blanks', 'x01_text.c', 'the same over an alphabet of blanks, line ends, continuations, counts and separators', 'subject of 2 arbitrary ASCII characters', defs={'N': 2, 'ALPHA': '"a|(){2,} \\n\\r\\\\\\v["'}, quick={'L': 4}, thorough={'L': 5}, covers=['end', 'matched', 'rejected']),
  unit('class', 'x01_text.c', 'the same over an alphabet of class syntax', 'subject of 2 arbitrary ASCII characters', defs={'N': 2, 'ALPHA': '"ab[]^-\\\\"'}, quick={'L': 5}, thorough={'L': 6}, covers=['end', 'matched', 'rejected']),
  unit('nest', 'x01_gen.c', '((A q) q) q for every quantifier', 'subject of N arbitrary ASCII characters', defs={'SHAPE': 0, 'NQ': 14}, quick={'N': 4, 'AHI': 1}, thorough={'N': 5, 'AHI': 5}, covers=_c),
  unit('cat', 'x01_gen.c', 'A q A q A', 'subject of N arbitrary ASCII characters', defs={'SHAPE': 1}, quick={'N': 3, 'NQ': 8, 'AHI': 2}, thorough={'N': 4, 'NQ': 14, 'AHI': 5}, covers=_c),
  unit('alt', 'x01_gen.c', '(A q | A A q) q A', 'subject of N arbitrary ASCII characters', defs={'SHAPE': 2}, quick={'N': 3, 'NQ': 4, 'AHI': 1}, thorough={'N': 4, 'NQ': 5, 'AHI': 3}, covers=_c),
  unit('group', 'x01_gen.c', '(a q A q) q | b q', 'subject of N arbitrary ASCII characters', defs={'SHAPE': 3}, quick={'N': 3, 'NQ': 5, 'AHI': 3}, thorough={'N': 4, 'NQ': 8, 'AHI': 5}, covers=_c),
  unit('atoms', 'x01_gen.c', 'every kind of atom (classes, escapes, numeric, non-ASCII) with every quantifier', 'subject of N valid UTF-8 characters of any width', defs={'SHAPE': 4, 'AHI': 24, 'NQ': 8}, quick={'N': 3}, thorough={'N': 4}, covers=_c)],
  outside=_O)
_d = ['end', 'all', 'some', 'dead']
check('X02', [
  unit('one', 'x02_dfa.c', 'A q A, every atom', 'K characters, each any 32-bit value', defs={'NP': 1, 'SHAPE': 0, 'AHI': 24, 'NQ': 8}, quick={'K': 4}, thorough={'K': 6}, covers=_d),
  unit('group', 'x02_dfa.c', '(A q A) q', 'K characters, each any 32-bit value', defs={'NP': 1, 'SHAPE': 1}, quick={'K': 4, 'NQ': 5, 'AHI': 3}, thorough={'K': 5, 'NQ': 14, 'AHI': 4}, covers=_d),
  unit('alt', 'x02_dfa.c', '(A | A q A) q', 'K characters, each any 32-bit value', defs={'NP': 1, 'SHAPE': 2}, quick={'K': 4, 'NQ': 4, 'AHI': 3}, thorough={'K': 5, 'NQ': 8, 'AHI': 3}, covers=_d),
  unit('two', 'x02_dfa.c', 'two patterns A q with their own user data', 'K characters, each any 32-bit value', defs={'NP': 2, 'SHAPE': 3}, quick={'K': 3, 'NQ': 3, 'AHI': 5}, thorough={'K': 4, 'NQ': 4, 'AHI': 12}, covers=_d),
  unit('two-cat', 'x02_dfa.c', 'two patterns A q A', 'K characters, each any 32-bit value', defs={'NP': 2, 'SHAPE': 0}, quick={'K': 4, 'NQ': 2, 'AHI': 2}, thorough={'K': 5, 'NQ': 4, 'AHI': 3}, covers=_d),
  unit('three', 'x02_dfa.c', 'three patterns A q', 'K characters, each any 32-bit value', defs={'NP': 3, 'SHAPE': 3}, quick={'K': 3, 'NQ': 1, 'AHI': 3}, thorough={'K': 3, 'NQ': 3, 'AHI': 3}, covers=_d)],
  outside='more than three patterns at once; longer inputs; hash collisions between state sets beyond those the patterns produce')
_s = ['end', 'found', 'later', 'none']
check('X03', [
  unit('byte', 'x03_scan.c', 'match and scan of five pattern shapes, byte mode', 'subjects of 0..N bytes in exact-size heap blocks; the low five bits of each byte (what the filter hashes) from NLO+1 values, the high bits arbitrary', defs={'ENC': 0}, quick={'N': 4, 'AHI': 3, 'NQ': 3}, thorough={'N': 5, 'AHI': 5, 'NQ': 4}, covers=_s),
  unit('utf8', 'x03_scan.c', 'the same in UTF-8 mode with non-ASCII atoms', 'subjects of 0..N characters of one to four bytes', defs={'ENC': 1, 'ALO': 17, 'AHI': 24}, quick={'N': 3, 'NQ': 2}, thorough={'N': 4, 'NQ': 3}, covers=_s),
  unit('malformed', 'x03_scan.c', 'the same on arbitrary, possibly malformed bytes', 'subjects of 0..N bytes', defs={'ENC': 2, 'ALO': 15, 'AHI': 18}, quick={'N': 3, 'NQ': 1}, thorough={'N': 4, 'NQ': 2}, covers=_s),
  unit('window', 'x03_scan.c', 'subjects longer than the window of the filter, UTF-8 mode, patterns of three and more characters', 'subjects of NMIN..N characters from four letters and two wide characters', defs={'ENC': 1, 'WINDOW': 1}, quick={'N': 5, 'NMIN': 4, 'PHI': 5}, thorough={'N': 6, 'NMIN': 0, 'PHI': 5}, covers=_s),
  unit('filter', 'x03_filter.c', 'every beginning the automaton does not rule out is admitted by the bit filter, for five hash geometries', 'each character any 32-bit value', quick={'AHI': 1, 'NQ': 3}, thorough={'AHI': 8, 'NQ': 4}, covers=['end', 'alive', 'accepted', 'dead'])],
  outside='longer subjects and patterns')
check('X04', [
  unit('any', 'x04_any.c', 'every byte string of up to L bytes after each of 14 beginnings, alone or added to a database that holds an expression', 'counts of one digit', quick={'L': 3}, thorough={'L': 4}, covers=['end', 'accepted', 'refused']),
  unit('regex', 'x04_any.c', 'the same for the stand-alone expression object', 'bytes from the 21 that the syntax distinguishes', defs={'REGEX': 1}, quick={'L': 2}, thorough={'L': 3}, covers=['end', 'accepted', 'refused'])],
  outside='longer patterns; counts of several digits (they only ask for more memory); allocation failure')
check('X05', [
  unit('sym', 'x05_trans.c', 'up to two ranges added in any order, for one or two destinations; membership of an arbitrary character after normalising, looking up and complementing', 'range ends: 8 symbolic bits at either end of the 32-bit space (thorough: any 32-bit value); membership tested for any 32-bit character', defs={'K': 2, 'VIA': 0}, thorough={'FULL': 1, 'VIA': 1}, covers=['end', 'found', 'everything']),
  unit('three', 'x05_trans.c', 'three ranges with ends from a set that realises every order and adjacency', 'membership tested for any 32-bit character', defs={'K': 3, 'VIA': 0}, quick={'ENUM': 4}, thorough={'ENUM': 6}, covers=['end', 'found', 'everything'])],
  outside='more than three ranges')
_g6 = ('core', 'rexcc')
check('X06', [
  unit('tables', 'x06_cc.c', 'one or two generated patterns, with and without substates; the written tables are read back, compared with the automaton in memory and run', 'K characters, each any 32-bit value', groups=_g6, defs={'MODE': 0}, quick={'K': 3, 'NPAT': 2, 'AHI': 3, 'NQ': 2}, thorough={'K': 4, 'NPAT': 2, 'AHI': 9, 'NQ': 4}, covers=['end', 'written', 'accepts', 'dead']),
  unit('text', 'x06_cc.c', 'prologue and epilogue', 'up to L arbitrary bytes each', groups=_g6, defs={'MODE': 1, 'K': 1}, quick={'L': 2}, thorough={'L': 3}, covers=['end', 'written', 'prologue', 'malformed']),
  unit('definitions', 'x06_cc.c', 'the definitions themselves: names, blanks, patterns, line ends and delimiters', 'up to L bytes from an alphabet of what the format distinguishes, after each of four beginnings and before each of four ends', groups=_g6, defs={'MODE': 2, 'K': 1, 'ALPHA': '"a% \\n\\\\\\""', 'PREHI': 3}, quick={'L': 4}, thorough={'L': 5}, covers=['end', 'written', 'malformed', 'empty']),
  unit('tool', 'x06_cc.c', 'the command line tool: every combination of up to two options, an output file that can or cannot be created, eight input files', 'file access replaced by stand-ins', groups=_g6 + ('rexccmain',), defs={'MODE': 3, 'K': 2}, covers=['end', 'written', 'nothing', 'dumped'])],
  outside='definition files with more tokens; longer texts; the delimiter inside a line of the prologue')
_g7 = ('core', 'rexgrep'); _c7 = ['end', 'found', 'later', 'none']
check('X07', [
  unit('nfa', 'x07_grep.c', 'direct simulation, thirteen patterns, lines or matches', 'buffers of 0..N arbitrary bytes', groups=_g7, defs={'DFA': 0, 'TWO': 0, 'NAME': 0, 'PHI': 14}, quick={'N': 4}, thorough={'N': 5}, covers=_c7),
  unit('nfa-two', 'x07_grep.c', 'the same with two patterns and file names', 'buffers of 0..N arbitrary bytes', groups=_g7, defs={'DFA': 0, 'TWO': 1, 'NAME': 1, 'PHI': 5}, quick={'N': 2}, thorough={'N': 4}, covers=_c7),
  unit('dfa', 'x07_grep.c', 'converted automaton with its bit filter', 'buffers of 0..N bytes whose low seven bits (what the filter hashes) come from four values, the high bit arbitrary', groups=_g7, defs={'TWO': 0, 'NAME': 0, 'PHI': 8}, quick={'N': 5}, thorough={'N': 7}, covers=_c7),
  unit('dfa-utf8', 'x07_grep.c', 'the same with non-ASCII patterns', 'buffers of 0..N bytes from six, malformed sequences included', groups=_g7, defs={'TWO': 0, 'NAME': 0, 'PLO': 9, 'PHI': 11, 'BSET': "'a','b','\\n',0xC3,0xA9,0xE2", 'BHI': 4}, quick={'N': 4}, thorough={'N': 5, 'BHI': 5}, covers=_c7),
  unit('dfa-wide', 'x07_grep.c', 'patterns that begin with any character, match nothing at all or share characters', 'buffers of 0..N bytes as above', groups=_g7, defs={'TWO': 0, 'NAME': 0, 'PLO': 12, 'PHI': 14}, quick={'N': 4}, thorough={'N': 6}, covers=_c7),
  unit('dfa-two', 'x07_grep.c', 'two patterns and file names', 'buffers of 0..N bytes', groups=_g7, defs={'TWO': 1, 'NAME': 1, 'PHI': 5}, quick={'N': 3}, thorough={'N': 4}, covers=_c7)],
  outside='longer buffers; command line handling and file access; saved automaton files')
