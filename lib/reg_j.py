from registry import check, unit
_j = ['end', 'accepted', 'refused']; _g = ('rexjson',)
check('J01', [
  unit('bytes', 'j01_parse.c', 'every byte string', 'N arbitrary bytes', groups=_g, defs={'NLO': 0}, quick={'N': 4}, thorough={'N': 6}, covers=_j),
  unit('shape', 'j01_parse.c', 'every string over the structural characters, a digit, a quote and a blank', 'up to N of them', groups=_g, defs={'NLO': 1, 'DUMP': 1, 'ALPHA': '"[]{}:,\\"1 "'}, quick={'N': 6}, thorough={'N': 8}, covers=_j),
  unit('limits', 'j01_parse.c', 'the same with every record array of 0..8 entries and nesting limit 0..3', 'arrays exactly as long as stated', groups=_g, defs={'NLO': 0, 'LIMITS': 1, 'ALPHA': '"[],{\\":1}"'}, quick={'N': 4}, thorough={'N': 6}, covers=_j + ['limits']),
  unit('number', 'j01_parse.c', 'every string over the characters of numbers, in an array', 'up to N of them', groups=_g, defs={'NLO': 1, 'PRE': '"["', 'POST': '"]"', 'ALPHA': '"-+.eE019,"'}, quick={'N': 5}, thorough={'N': 7}, covers=_j),
  unit('string', 'j01_parse.c', 'a string of arbitrary bytes', 'N arbitrary bytes between quotes', groups=_g, defs={'NLO': 0, 'PRE': '"\\""', 'POST': '"\\""'}, quick={'N': 4}, thorough={'N': 6}, covers=_j),
  unit('escape', 'j01_parse.c', 'a string that begins with a backslash', 'N arbitrary bytes after the backslash', groups=_g, defs={'NLO': 1, 'PRE': '" \\"\\\\"', 'POST': '"\\" "'}, quick={'N': 5}, thorough={'N': 7}, covers=_j),
  unit('words', 'j01_parse.c', 'arbitrary bytes after the first letter of a literal', 'N bytes', groups=_g, defs={'NLO': 3, 'ALPHA': '"trueflsn"'}, quick={'N': 5}, thorough={'N': 6}, covers=_j),
  unit('object', 'j01_parse.c', 'an object with two members around symbolic text', 'N structural characters or blanks', groups=_g, defs={'NLO': 1, 'PRE': '"{\\"a\\":[ 1 ] ,\\"b\\" : {"', 'POST': '"} , \\"\\":-0.5e+1 \\n}\\n"', 'ALPHA': '"[]{}:,\\"1 \\n"'}, quick={'N': 5}, thorough={'N': 7}, covers=_j)],
  outside='longer texts; buffers over 2 GB; strings that are not valid UTF-8 are accepted by the parser and by the reference alike')
