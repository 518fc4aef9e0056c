from registry import check, unit
_g = ('core', 'rpagrep'); _c = ['end', 'found', 'later', 'none']
check('G01', [
  unit('utf8', 'g01_grep.c', 'eight grammars, three search modes', 'buffers of 0..N arbitrary bytes without byte-order mark', groups=_g, defs={'MODE': 0, 'NAME': 0, 'ICASE': 0}, quick={'N': 3}, thorough={'N': 5}, covers=_c),
  unit('utf8-wide', 'g01_grep.c', 'grammars with non-ASCII characters', 'buffers of 0..N arbitrary bytes', groups=_g, defs={'MODE': 0, 'NAME': 0, 'ICASE': 0, 'PLO': 8, 'PHI': 10}, quick={'N': 3}, thorough={'N': 5}, covers=_c),
  unit('byte', 'g01_grep.c', 'bytes forced, file names shown', 'buffers of 0..N arbitrary bytes', groups=_g, defs={'MODE': 1, 'NAME': 1, 'ICASE': 0, 'PHI': 4}, quick={'N': 3}, thorough={'N': 4}, covers=_c),
  unit('icase', 'g01_grep.c', 'letter case ignored', 'buffers of 0..N ASCII bytes', groups=_g, defs={'MODE': 0, 'NAME': 0, 'ICASE': 1}, quick={'N': 3, 'PHI': 1}, thorough={'N': 4, 'PHI': 4}, covers=_c),
  unit('utf16-mark', 'g01_grep.c', 'UTF-16 chosen by the byte-order mark, odd lengths included', 'mark and 0..N arbitrary bytes', groups=_g, defs={'MODE': 2, 'NAME': 0, 'ICASE': 0, 'PHI': 7}, quick={'N': 4}, thorough={'N': 7}, covers=_c),
  unit('utf16-forced', 'g01_grep.c', 'UTF-16 forced, with and without mark', '0..N arbitrary bytes', groups=_g, defs={'MODE': 3, 'NAME': 0, 'ICASE': 0, 'PLO': 1, 'PHI': 1}, quick={'N': 5}, thorough={'N': 6}, covers=_c)],
  outside='longer buffers; the parse modes; command line handling and file access; letter case outside ASCII')
