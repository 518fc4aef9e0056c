check('L01', [unit('codec', 'l01_codec.c', 'all four decoders on every sequence of 0..6 bytes; all four encoders on every 32-bit value and every buffer size 0..6, with decode-back; case folding on every 64-bit value',
    'decode input 0..6 bytes; wc any 32-bit value; buffer 0..6', groups=['core', 'rpagreputf'], covers=['end', 'empty', 'four', 'invalid', 'refused', 'roundtrip', 'fold'])],
  outside='nothing beyond 6 bytes of lookahead matters to a decoder that reads at most 4')
check('L02', [
  unit('array', 'l02_array.c', 'arbitrary start state (0..N0 symbolic elements), K arbitrary operations with arbitrary indices, compared element by element with an ideal sequence', 'element sizes 1,4,8; indices up to length+2', quick={'K': 3, 'N0': 2}, thorough={'K': 3, 'N0': 5}, covers=['end', 'delete-outside', 'move-outside', 'copied']),
  unit('carray', 'l02_carray.c', 'chunked array around chunk boundaries, K operations', 'start 0/15/32 elements', quick={'K': 4}, thorough={'K': 5}, covers=['end', 'expand', 'copied']),
  unit('sort', 'l02_sort.c', 'r_array_sort on every array of up to N 32-bit values', quick={'N': 4}, thorough={'N': 5})],
  outside='longer histories from larger arrays; element sizes other than 1,4,8')
check('L03', [
  unit('map', 'l03_map.c', 'K arbitrary map operations (add, delete, set, NULL value) over colliding keys, full lookup and iteration check after each', 'value size 8 or 24 bytes symbolic; 2 buckets; 3 keys of which two collide', quick={'K': 4}, thorough={'K': 5}, covers=['end', 'reused', 'deleted']),
  unit('hash', 'l03_hash.c', 'K arbitrary hash-table / named-array operations over 4 keys, including all keys colliding', 'symbolic values', quick={'K': 4}, thorough={'K': 5}, covers=['end', 'removed', 'copied', 'dup']),
  unit('keys', 'l03_keys.c', 'arbitrary key bytes: two entries and one lookup in every container and key type', 'keys of 0..L arbitrary bytes, for counted-string keys including NUL (named array: NUL and an alphabet of ALPHA letters); every 64-bit integer key; 8 printed integer keys', quick={'L': 2, 'ALPHA': 2}, thorough={'L': 3, 'ALPHA': 3}, covers=['end', 'eq', 'ne'])],
  outside='NUL bytes in map keys and string objects, which end at the first NUL; longer keys and histories')
check('L04', [
  unit('list', 'l04_list.c', 'K arbitrary operations (add head/tail/middle, delete, splice) on two rings of up to NN nodes; every traversal, neighbour and count checked after each', quick={'K': 6, 'NN': 4}, thorough={'K': 7, 'NN': 5}, covers=['end', 'del', 'mid', 'splice']),
  unit('str', 'l04_str.c', 'every string helper on every string of up to L bytes held in exact-size heap blocks', quick={'L': 3}, thorough={'L': 4}, covers=['end', 'eq', 'found', 'dup', 'cat', 'neg'])],
  outside='longer strings; number/double printing beyond the listed values; the C library functions the helpers wrap are modelled, so the wrappers and the rstring code are what is decided')
_gc = ('conc',)
check('L05', [
  unit('lock', 'l05_threads.c', 'two threads, each locking or trying to lock', 'OPS sections each, up to PRE switches away from a thread that could go on, at any memory access; a spinning thread waits until another makes progress', groups=_gc, defs={'MODE': 0, 'NT': 2}, quick={'OPS': 2, 'PRE': 5}, thorough={'OPS': 3, 'PRE': 5}, covers=['end', 'preempted', 'spins', 'refused']),
  unit('lock3', 'l05_threads.c', 'three threads', 'as above', groups=_gc, defs={'MODE': 0, 'NT': 3, 'OPS': 1}, quick={'PRE': 4}, thorough={'PRE': 7}, covers=['end', 'preempted', 'spins', 'refused']),
  unit('atomic', 'l05_threads.c', 'two threads of atomic operations with arbitrary 32-bit operands: some order explains every result', 'OPS operations each, every schedule of their memory accesses with up to PRE preemptions', groups=_gc, defs={'MODE': 1, 'NT': 2}, quick={'OPS': 2, 'PRE': 2}, thorough={'OPS': 2, 'PRE': 4}, covers=['end', 'preempted']),
  unit('ref', 'l05_threads.c', 'two holders of a counted object', 'OPS operations each, then all references are dropped', groups=_gc, defs={'MODE': 2, 'NT': 2}, quick={'OPS': 2, 'PRE': 4}, thorough={'OPS': 3, 'PRE': 4}, covers=['end', 'preempted', 'destroyed']),
  unit('shared', 'l05_threads.c', 'two threads that each take references from one held by the main thread, and drop them', 'OPS further operations each', groups=_gc, defs={'MODE': 2, 'NT': 2, 'SHARED': 1}, quick={'OPS': 1, 'PRE': 4}, thorough={'OPS': 2, 'PRE': 4}, covers=['end', 'preempted']),
  unit('ref3', 'l05_threads.c', 'three holders', 'as above', groups=_gc, defs={'MODE': 2, 'NT': 3, 'OPS': 1}, quick={'PRE': 2}, thorough={'PRE': 4}, covers=['end', 'preempted', 'destroyed']),
  unit('memory', 'l05_threads.c', 'two threads allocating, resizing and releasing', 'OPS operations each', groups=_gc, defs={'MODE': 3, 'NT': 2}, quick={'OPS': 1, 'PRE': 4}, thorough={'OPS': 2, 'PRE': 3}, covers=['end', 'preempted'])],
  outside='more threads and operations; memory orders weaker than sequential consistency; the Windows implementations')
