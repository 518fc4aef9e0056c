from registry import check, unit
_r = {'RLO': 0, 'RHI': 1}
check('M01', [
  unit('containers', 'm01_life.c', 'every history of operations on an array, an inline array, a name-indexed array, a hash, a map, strings under a collector, references and buffers, copies and destroyed originals included', 'NOPS operations with all their arguments', defs={'KIND': 0, **_r}, quick={'NOPS': 3}, thorough={'NOPS': 4}, covers=['end', 'copy', 'balanced', 'removed', 'collected']),
  unit('machine', 'm01_life.c', 'every history of operations on a machine, a code generator and a scope: labels, references, data, functions, clearing, relocation that fails, failing programs', 'NOPS operations with all their arguments', defs={'KIND': 7, **_r}, quick={'NOPS': 3}, thorough={'NOPS': 4}, covers=['end', 'balanced', 'cleared', 'unresolved', 'resolved', 'scope', 'ran']),
  unit('database', 'm01_life.c', 'every history of operations on a grammar database and a matching context, from five stages of preparation: eight grammar texts (well-formed, malformed, undefined references, directives), requests in the wrong order, failing requests, dumps, a tiny stack', 'NOPS operations after the preparation', defs={'KIND': 8, **_r}, quick={'NOPS': 2}, thorough={'NOPS': 3}, covers=['end', 'balanced', 'refused', 'loaded', 'not compiled', 'compiled', 'matched', 'nothing']),
  unit('automata', 'm01_life.c', 'every history of operations on automata, tables and simulators, with twelve expressions, half of them malformed', 'NOPS operations', defs={'KIND': 9, **_r}, quick={'NOPS': 3}, thorough={'NOPS': 4}, covers=['end', 'balanced', 'refused', 'added', 'dfa', 'table']),
  unit('rextext', 'm01_life.c', 'compiling, matching and searching with every text over 18 characters of the expression language', 'up to L characters', defs={'KIND': 10, 'RLO': 1, 'RHI': 1}, quick={'L': 3}, thorough={'L': 4}, covers=['end', 'balanced', 'refused', 'accepted']),
  unit('rpatext', 'm01_life.c', 'loading, compiling and parsing with every rule body over 19 characters of the grammar language', 'up to L characters', defs={'KIND': 10, 'RLO': 0, 'RHI': 0}, quick={'L': 2}, thorough={'L': 3}, covers=['end', 'balanced', 'refused', 'accepted'])],
  outside='failing allocations; longer histories; objects of two databases used together; the command line tools (X06, X07, G01 check theirs)')
