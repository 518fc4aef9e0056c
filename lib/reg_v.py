check('V01', [
  unit('alu', 'v01_alu.c', 'every data-processing instruction, every register value, every status, all mixes of register/immediate operands including aliases', '64-bit operands; shift counts 0..63; divisors non-zero', defs={'MULV': 9}, quick={'LO': 0, 'HI': 34}, thorough={'LO': 0, 'HI': 35}, covers=['end', 'minus-one'])],
  outside='shift counts above 63 (undefined in C); MULS is decided for ten multiplicands against every multiplier')
check('V02', [
  unit('flags', 'v01_alu.c', 'flags after every data-processing and comparison instruction for all operand values and prior states', '64-bit operands; shift counts 0..63', defs={'MULV': 9, 'FLAGS': 1}, quick={'LO': 0, 'HI': 34}, thorough={'LO': 0, 'HI': 35}, covers=['end', 'flags'])],
  outside='conditional execution is compiled out in this build')
CHECKS['V02']['units'].append(unit('branch', 'v02_branch.c', 'every conditional and unconditional branch, relative and absolute, forwards and backwards, after comparing any two words and from any status word', '64-bit operands, all status words', covers=['end', 'taken', 'not-taken', 'flags', 'overflow']))
check('V03', [
  unit('stack', 'v03_stack.c', 'PUSHM/PUSH of register sets then POPM/POP of the same set; registers of any value, type, size and flags; any stack pointer', 'sets over R0,R1,R6,R7,IP,TP,FP,SP,LR', quick={'MASKS': 511}, thorough={'MASKS': 511}),
  unit('mem', 'v03_mem.c', 'byte/half/word/long/pointer stores and loads at overlapping displacements over any memory content; stack slots at any base+displacement; STM/LDM; whole registers', quick={'MASKS': 63}, thorough={'MASKS': 511}, covers=['end', 'mem', 'slot', 'multiple', 'whole']),
  unit('call', 'v03_call.c', 'BL/BXL/CALL nested to depth D with any mix of call forms and locals, recursion with a symbolic count, leaf calls', quick={'D': 2, 'NREC': 3}, thorough={'D': 3, 'NREC': 6}, covers=['end', 'recursion', 'nested'])],
  outside='register sets containing PC or DA; deeper nesting')
check('V04', [
  unit('codegen', 'v04_codegen.c', 'block programs with every placement order, jump targets, definition style (default, with instruction, pending-then-defined, explicit offset, redefined), reference style (branch/jump/by index), undefined labels, data and string labels', '3 blocks, up to STEPS block visits, symbolic step count and data', quick={'STEPS': 3}, thorough={'STEPS': 5}, covers=['end', 'runs', 'undefined', 'string']),
  unit('map', 'v04_map.c', 'K arbitrary label-map operations, every label resolved after each', 'three names, acyclic offset chains, symbolic values', quick={'K': 4}, thorough={'K': 5}, covers=['end', 'offset', 'repeated', 'undefined'])],
  outside='cyclic label definitions; editing code after labels were placed (insertins)')
check('V05', [unit('scope', 'v05_scope.c', 'K arbitrary push/pop/define operations over three names with shared prefixes, every lookup after each', 'symbolic values; balanced pops', quick={'K': 5}, thorough={'K': 6}, covers=['end', 'pop', 'absent', 'found'])],
  outside='closing a scope that was never opened; more than three names')
check('V06', [unit('fault', 'v06_fault.c', 'every fault kind with any operand, stack pointer, undefined opcode (all 32-bit opcodes), abort code; unbounded pushing and calling; state and reuse afterwards', 'stack of 20 slots', defs={'FLO': 0, 'FHI': 13}, covers=['end', 'loop'])],
  outside='SWI numbers beyond the end of an existing table (not range-checked by the machine, not part of the property)')
