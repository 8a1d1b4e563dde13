"""Per property: the entries (harness, entry, parameters, time limit, slots), and what they assume."""
def E(h, e, *p, t=40, jobs=1, tier='quick', **k): return dict(h=h, e=e, p=list(p), t=t, jobs=jobs, tier=tier, **k)
def TH(*a, t=300, **k): return E(*a, tier='thorough', tt=t, **k)      # thorough only
TOTAL, TREE, REJECT = 1, 2, 4
NT = 70
T = lambda mode, ks, **k: [E('parse', 'text_template', mode, i, **k) for i in ks]
SLOWT = (15, 17)
TT = lambda mode, ks, **k: [TH('parse', 'text_template', mode, i, **k) for i in ks]
any_ = lambda mode, hi: [E('parse', 'text_any', mode, n, jobs=(8 if n > 3 else 1)) for n in range(hi + 1)]
SPECS = {}
STR_T = (2, 11, 12, 13, 14, 26, 27, 28, 29, 30, 35, 41, 42, 55, 56, 68, 69)
COM_T = (18, 19, 20, 21, 31, 32, 33, 34, 53, 54)
OTHER_T = [i for i in range(NT) if i not in SLOWT]
TREE_T = [i for i in OTHER_T if i != 39]
ASSUME_UNITS = ['input units are bytes of a std::string (other sources: C15), default handlers (handlers: C14)']

SPECS['C01'] = dict(entries=any_(TOTAL, 4) + T(TOTAL, OTHER_T) + TT(TOTAL, SLOWT) + [TH('parse', 'text_any', TOTAL, 5, jobs=8, t=900)], covers=['accepted', 'rejected'], assume=ASSUME_UNITS)
SPECS['C02'] = dict(entries=any_(TREE, 4) + T(TREE, TREE_T) + TT(TREE, SLOWT) + [TH('parse', 'text_any', TREE, 5, jobs=8, t=900)], covers=['compared'], assume=ASSUME_UNITS)
SPECS['C03'] = dict(entries=any_(REJECT, 4) + T(REJECT, OTHER_T) + TT(REJECT, SLOWT) + [TH('parse', 'text_any', REJECT, 5, jobs=8, t=900)], covers=['accepted', 'rejected'], assume=ASSUME_UNITS)
SPECS['C06'] = dict(entries=T(TREE | REJECT, STR_T) + TT(TREE | REJECT, (15,)) + [E('parse', 'escape_target', f, k, q) for f in range(4) for k in range(3) for q in (0, 1)], covers=['compared', 'rejected'], assume=ASSUME_UNITS)
SPECS['C07'] = dict(entries=T(TREE | REJECT, COM_T), covers=['compared', 'rejected'], assume=ASSUME_UNITS)
SPECS['C04'] = dict(entries=[E('num', 'int_digits', k) for k in range(40) if k not in (24, 25, 26, 39)] + [E('num', 'int_limits', w, 16) for w in range(7) if w != 5] + [TH('num', 'int_limits', 5, 16)], covers=['integer', 'beyond'])
SLOWF = (1, 5, 41)
SPECS['C05'] = dict(entries=[E('num', 'float_lit', k) for k in range(43) if k not in SLOWF] + [TH('num', 'float_lit', k) for k in SLOWF] + [E('num', 'float_reject', k, p) for k in range(18) for p in (0, 1)]
    + [E('num', 'float_long', k, n, (k + n) % 2, t=60, maxinst=400000000) for k in range(17) for n in (20, 290)] + [E('num', 'float_long', k, n, n % 2, t=60, maxinst=400000000) for k in (0, 1, 2, 3, 4, 8, 9, 10, 11, 12, 13, 14, 15, 16) for n in (330, 2000)] + [TH('num', 'float_long', k, n, m, maxinst=400000000) for k in (0, 1, 2, 3, 4, 8, 9, 10, 11, 12, 13, 14, 15, 16) for n in (19, 310, 700, 20000) for m in (0, 1)],
    covers=['value', 'zero', 'rejected', 'long', 'beyond'])
SPECS['C08'] = dict(entries=[E('utf', 'utf_encode', f, n) for f in range(8) for n in (1, 2)] + [E('utf', 'utf_decode', f, n) for f in range(8) for n in (1, 2, 3)] + [E('utf', 'utf_decode', f, n) for f in (0, 3) for n in (4, 5)] + [E('utf', 'utf_encode_bad', f) for f in range(5)]
    + [TH('utf', 'utf_encode', f, n) for f in range(8) for n in (3, 4)] + [TH('utf', 'utf_decode', f, n) for f in range(8) for n in (6, 7, 8)], covers=['round trip', 'end', 'ill-formed', 'not encodable'])
SPECS['C09'] = dict(entries=[E('text', 'str_roundtrip', n, m) for n in (0, 1, 2) for m in range(4) if not (n == 2 and m & 1)] + [TH('text', 'str_roundtrip', 2, m) for m in (1, 3)] + [E('text', 'wstr_roundtrip', n, m) for n in (0, 1, 2) for m in range(4)] + [E('text', 'str_bytes', n, m) for n in (1, 2, 3) for m in (0, 1)] + [E('text', 'str_bytes', 2, m) for m in (2, 3)] + [E('text', 'wstr_units', n, m) for n in (1, 2) for m in (0, 1)], covers=['narrow', 'wide', 'bytes good', 'bytes bad', 'units good', 'units bad'])
SPECS['C10'] = dict(entries=[E('text', 'tree_dump', 1 | 8, n, 2, 1, o, 0) for n, o in ((3, 0), (2, 1), (3, 2), (3, 3), (2, 4))] + [TH('text', 'tree_dump', 9, 3, 2, 1, 1, 0), TH('text', 'tree_dump', 9, 4, 3, 1, 0, 0, t=900)] + [E('text', 'shape_dump', 1, s, o) for s in range(10) for o in (0, 1)] + [E('text', 'str_roundtrip', 1, 1), TH('text', 'str_roundtrip', 2, 1)] + [E('text', 'int_text', k) for k in range(16)] + [(TH if 8 <= k < 13 or k == 14 else E)('text', 'float_text', k, s) for k in range(16) for s in (0, 1)], covers=['well-formed'])
SPECS['C11'] = dict(entries=[E('text', 'tree_dump', 6, n, 2, 1, o, 0) for n, o in ((3, 0), (2, 1), (2, 4))] + [TH('text', 'tree_dump', 6, 3, 2, 1, 1, 0), TH('text', 'tree_dump', 6, 4, 3, 1, 0, 0, t=900), E('text', 'tree_dump', 6, 1, 1, 2, 0, 0), TH('text', 'tree_dump', 6, 1, 1, 2, 0, 1), TH('text', 'int_roundtrip', 99)] + [E('text', 'shape_dump', 6, s, o) for s in range(10) for o in (0, 1)] + [E('text', 'int_roundtrip', k) for k in range(16)] + [E('text', 'wide_tree', k) for k in range(3)], covers=['round trip', 'indent', 'integer', 'wide tree'])
SPECS['C12'] = dict(entries=[E('text', 'float_integral', c, o) for c in (0, 3) for o in (0, 1)] + [TH('text', 'float_integral', c, o) for c in (1, 2) for o in (0, 1)] + [E('text', 'float_huge', a, n, o) for a, n in ((63, 3), (100, 2), (1020, 4)) for o in (0, 1)] + [E('text', 'float_huge', 64, 2, 2)] + [E('text', 'float_nonfinite', w, o) for w in range(3) for o in (0, 1)] + [E('text', 'float_fraction', k) for k in range(6)] + [E('text', 'float_bases', k, s, o) for k in range(16) for s in (0, 1) for o in ((0, 1, 2) if k in (0, 4, 9) else (0,))] + [E('text', 'float_large', e, s, o) for e in (53, 54, 55, 56, 58, 60, 61, 62) for s in (0, 1) for o in (0,)] + [E('text', 'float_large', 62, 0, 1)], covers=['integral', 'huge', 'non-finite', 'fraction'])

SPECS['C13'] = dict(entries=[E('enc', 'tc_parse', k, n, s) for k in range(13) for n, s in ((1, 0), (1, 1), (2, 2))] + [E('enc', 'tc_parse_any', f, n) for f in (16, 32) for n in (1, 2, 3)] + [E('enc', 'tc_dump', k, 1, s, e) for k in range(10) for s, e in ((0, 0), (0, 1), (1, 1), (2, 0))]
    + [E('enc', 'ig_parse', n, w) for n in (1, 2) for w in (0, 1)] + [E('enc', 'ig_dump', n, w) for n in (1, 2) for w in (0, 1)] + [E('enc', 'tc_doc', k) for k in range(3)] + [E('enc', 'enc_order', 0), E('enc', 'enc_order', 1)] + [E('enc', 'ig_unit', k, n, p) for k in range(6) for n, p in ((1, 0), (3, 1))] + [TH('enc', 'tc_dump', k, 2, 0, e) for k in range(10) for e in (0, 1)] + [TH('enc', 'tc_parse', k, 3, 0) for k in range(13)], covers=['parsed', 'any good', 'any bad', 'dumped', 'ignore parse', 'ignore dump', 'unit refused', 'unit kept', 'order', 'document'], assume=['char16_t text does not contain U+FFFF, wide text not the unit 0xFFFFFFFF (they are the end-of-file values of their stream classes)'])
SPECS['C14'] = dict(entries=[E('err', 'h_parse', n, w) for n in (0, 1, 2) for w in (1, 2, 4)] + [E('err', 'h_parse', 3, 1, jobs=4)] + [E('err', 'h_template', k, 7) for k in range(24)] + [E('err', 'h_sources', k) for k in range(4)] + [E('err', 'h_dump', w, l, 7) for w in range(6) for l in (0, 1)] + [TH('err', 'h_parse', 3, w, jobs=8) for w in (2, 4)], covers=['parse error', 'parse ok', 'dump error', 'dump ok', 'sources'])
SPECS['C15'] = dict(entries=[E('src', 'src_any', k, n) for k in range(11) for n in (0, 1, 2)] + [E('src', 'src_wide', k, n) for k in range(11) for n in (1, 2)] + [E('src', 'src_template', k, t) for k in (0, 1, 2, 3, 4, 9) for t in range(20)] + [TH('src', 'src_template', k, t) for k in (5, 6, 7, 8, 10) for t in range(20)] + [TH('src', 'src_any', k, 3, jobs=4) for k in range(11)]
    + [E('src', 'src_wrap_types', k, n) for k in range(3) for n in (1, 2)] + [E('src', e, k, n, l) for e in ('buf_ops', 'wbuf_ops', 'str_ops', 'wstr_ops') for k in range(5) for n, l in ((0, 2), (2, 3), (3, 2))] + [E('src', e, k, 4, 4) for e in ('str_ops',) for k in range(5)] + [TH('src', e, k, 4, 4) for e in ('buf_ops', 'wbuf_ops', 'wstr_ops') for k in range(5)] + [E('src', 'src_reads', n) for n in (1, 2)], covers=['parsed', 'failed', 'types', 'buffer', 'stream', 'reads'], assume=['C strings contain no NUL; adapters do not deliver the unit that equals their end-of-file answer, and do not report short bulk reads (their interface cannot)', 'wide FILE text holds scalar values'])
SPECS['C16'] = dict(entries=[E('sink', 'sink_same', k, s) for k in range(8) for s in range(9)] + [E('sink', 'sink_tree', k, 2) for k in range(1, 8)] + [TH('sink', 'sink_tree', k, 3) for k in range(1, 8)] + [E('sink', 'sink_wide', k, s) for k in range(8) for s in range(3)] + [E('sink', 'sink_bad', k) for k in range(8)]
    + [E('sink', 'sink_width', h, s, 0) for h in range(4) for s in range(7)] + [E('sink', 'sink_width', h, s, c) for h in (0, 1) for s in (0, 1, 2, 3) for c in (1, 2)] + [E('sink', 'sink_wwidth', h, s) for h in range(4) for s in (0, 1)] + [E('sink', 'sink_flags', f, h, s) for f in range(10) for h in (0, 1) for s in (0, 1, 2, 5)] + [E('sink', 'sink_option'), *[E('sink', 'sink_locale', k) for k in range(4)], *[E('sink', 'sink_types', k) for k in range(3)], *[E('sink', 'sink_repeat', k) for k in (0, 1, 3, 6)]],
    covers=['same', 'wide', 'fails', 'works', 'width', 'option', 'locale', 'types', 'repeat'])
SH17 = [(3, 4), (5, 7), (2, 3), (6, 1), (4, 0)]
SPECS['C17'] = dict(entries=[E('val', 'copies', a + 8 * b, 2, op, 0) for a, b in SH17 for op in range(17)] + [TH('val', 'copies', a + 8 * b, 3, op, 0) for a, b in ((3, 4), (5, 7)) for op in range(17)] + [TH('val', 'copies', 5 + 8 * 4 + 64 * 2, 2, op, 1) for op in range(17)] + [E('val', 'independent', s, w, h) for s in range(8) for w in (0, 1) for h in range(3)], covers=['copies', 'independent'])
SPECS['C18'] = dict(entries=[E('val', 'typed_int', k) for k in range(12)] + [E('val', 'typed_bool'), E('val', 'typed_double'), E('val', 'typed_float'), E('val', 'typed_alias')] + [E('val', 'typed_string', n, l) for n in (0, 1, 3) for l in (0, 1)] + [E('val', 'typed_wrong', k, n) for k in range(7) for n in ((0, 1) if k in (4, 5) else (0,))], covers=['integer', 'bool', 'float', 'string', 'wrong', 'alias'])
SPECS['C19'] = dict(entries=[E('val', 'array_ops', n, 2, op) for n in (-1, 0, 1, 2, 3) for op in range(15)] + [TH('val', 'array_ops', n, 3, op) for n in (-1, 0, 2, 3) for op in range(15)] + [E('val', 'array_grow', n) for n in (1, 4, 5, 9, 17)] + [E('val', 'array_wrong', k) for k in (0, 1, 2, 3, 4, 7, 8)], covers=['array', 'grow', 'array wrong'], assume=['erase(index) and erase(iterator) are given positions inside the array (their contract, as for std::vector)'])
SPECS['C20'] = dict(entries=[E('val', 'object_ops', n, 2, op) for n in (-1, 0, 1, 2) for op in range(13)] + [TH('val', 'object_ops', n, 3, op) for n in (-1, 0, 2) for op in range(13)] + [E('val', 'object_keys', a, b) for a, b in ((0, 1), (1, 2), (2, 2), (0, 0), (3, 1))] + [E('val', 'object_wrong', k) for k in range(7)], covers=['object', 'keys', 'object wrong'])
SPECS['C21'] = dict(entries=[E('iter', 'walk_tree', n, 2) for n in (1, 2, 3)] + [TH('iter', 'walk_tree', 4, 3)] + [E('iter', 'walk_array', n) for n in range(6)] + [TH('iter', 'walk_array', n) for n in (8, 12)] + [E('iter', 'walk_object', n) for n in (0, 1, 2, 3)] + [TH('iter', 'walk_object', n) for n in (4, 5)] + [E('iter', 'iter_pairs', k) for k in range(3)] + [E('iter', 'iter_algo', n) for n in (1, 2, 3)], covers=['null', 'object', 'array', 'scalar', 'pairs', 'algorithms'])
SPECS['C22'] = dict(entries=[E('cmp', 'cmp_numbers', a, b) for a in range(4) for b in range(4)] + [E('cmp', 'cmp_strings', a, b) for a in range(4) for b in range(4)] + [E('cmp', 'cmp_trees', a, b) for a in (1, 2) for b in (1, 2)] + [TH('cmp', 'cmp_trees', 3, 3)] + [E('cmp', 'cmp_shapes', s, l) for s in range(9) for l in range(5)] + [E('cmp', 'cmp_kinds', a, b) for a in range(9) for b in range(9)] + [E('cmp', 'cmp_triple', l, w) for l in (0, 1, 2, 3) for w in (0, 1)] + [E('cmp', 'cmp_scalars', k, t) for k in range(7) for t in range(9)], covers=['numbers', 'strings', 'trees', 'shapes', 'kinds', 'triple', 'scalars'], assume=['no NaN inside the compared values'])
SPECS['C26'] = dict(entries=[E('cmp', 'kind_ctor', k) for k in range(7)] + [E('cmp', 'clear_any', k) for k in range(7)] + [E('cmp', 'size_empty', n) for n in (1, 2, 3)] + [E('cmp', 'factory_array', n, h, r) for n in range(4) for h in (0, 1) for r in range(max(n, 1))] + [E('cmp', 'factory_kinds', h, n) for h in (0, 1) for n in (1, 2)] + [TH('cmp', 'factory_kinds', h, 3) for h in (0, 1)] + [E('cmp', 'factory_object', n, h) for n in range(4) for h in (0, 1)] + [E('cmp', 'names'), E('cmp', 'token_names')], covers=['kind', 'clear', 'size', 'array', 'object', 'names', 'token names', 'kinds'])
SPECS['C24'] = dict(entries=[E('bind', 'bind_mix', n, w) for n, w in ((0, 0), (1, 1), (2, 2), (1, 3))] + [E('bind', 'bind_subset', k) for k in range(3)] + [E('bind', 'bind_kind'), E('bind', 'bind_deep', 1), E('bind', 'bind_deep_missing'), E('bind', 'bind_small')] + [E('bind', 'bind_text', k, w) for k in (0, 1) for w in range(3)] + [E('bind', 'bind_wide', n) for n in (0, 1, 2)] + [E('bindn', 'bind_count', n) for n in range(1, 51)], covers=['round trip', 'missing', 'complete', 'kinds', 'deep', 'deep missing', 'text', 'wide', 'small', 'fields'])
SPECS['C23'] = dict(entries=[E('cont', 'cont_seq', k, n) for k in range(27) for n in (0, 1, 2)] + [E('cont', 'cont_seq', k, 5) for k in (0, 5, 7, 9, 22)] + [TH('cont', 'cont_seq', k, 3) for k in range(27)] + [E('contm', 'cont_map', k, n) for k in range(10) for n in (0, 1, 2)] + [TH('contm', 'cont_map', k, 3) for k in range(10)] + [E('cont', 'cont_array', k) for k in range(13)] + [E('cont', 'cont_wrong', k) for k in range(27)] + [E('cont', 'cont_null', k) for k in range(27)] + [E('contm', 'cont_null_map', k) for k in range(10)] + [E('contm', 'cont_null_own', k) for k in (0, 1)] + [E('contm', 'cont_wrong_map', k) for k in range(10)] + [E('cont', 'cont_wrong_array', k) for k in (0, 1)] + [E('cont', 'cont_length', k) for k in range(4)] + [E('contm', 'cont_own', n) for n in (0, 1, 2)] + [E('contm', 'cont_wide', n) for n in (0, 1, 2)], covers=['container', 'wrong kind', 'C array', 'own', 'wide', 'null', 'other length'])
RS = dict(replay_sweep=('fail', 250))
SPECS['C25'] = dict(entries=[E('oom', 'oom_value', op, a, b, **RS) for op in range(17) for a, b in ((0, 4), (1, 2), (3, 4), (4, 3), (5, 8), (2, 0), (8, 5))] + [E('oom', 'oom_convert', k, **RS) for k in range(12)] + [E('oom', 'oom_parse', k, s, a, **RS) for k in range(9) for s, a in ((0, 3), (1, 0), (2, 4), (3, 2))] + [E('oom', 'oom_dump', s, h, **RS) for s in range(9) for h in range(4)], covers=['failed', 'succeeded', 'parse failed', 'parse succeeded'])
SPECS['C27'] = dict(entries=[E('fault', 'fault_read', k, n) for k in range(10) for n in (0, 1, 2)] + [TH('fault', 'fault_read', k, 3, jobs=4) for k in range(10)] + [E('fault', 'fault_wread', k, n) for k in range(10) for n in (0, 1, 2)] + [E('fault', 'fault_read_doc', k, d) for k in range(10) for d in range(8)]
    + [E('fault', 'fault_write', h, m, s) for h in (0, 1, 2, 4, 5, 6) for m in range(7) for s in range(8)] + [E('fault', 'fault_write_sym', h, m, 1) for h in (0, 5) for m in range(7)] + [E('fault', 'fault_wwrite', h, m) for h in (0, 1, 4) for m in range(7)] + [E('fault', 'fault_write_cross', h, m, s) for h in (0, 1) for m in (0,) for s in range(8)] + [E('fault', 'fault_insert', h, s) for h in (0, 1, 2, 4) for s in range(8)] + [E('fault', 'fault_none', s) for s in range(8)],
    covers=['source failed', 'source not exhausted', 'sink failed', 'sink works', 'inserted', 'none'], assume=['a source fails by an exception of its stream buffer or adapter, or by the error indicator of a C file; a sink by an exception, the end-of-file answer or a short count'])
LONG = dict(maxinst=400000000, t=120)
SPECS['C01']['entries'] += [E('parse', 'text_long', k, n, m, **LONG) for k, n in ((0, 30000), (1, 30000), (2, 12000), (3, 60000), (4, 60000), (5, 30000), (6, 60000), (7, 15000)) for m in (0, 1)] + [TH('parse', 'text_long', k, n, 2, maxinst=400000000) for k, n in ((0, 30000), (3, 60000), (4, 60000), (5, 30000))]
SPECS['C02']['entries'] += [E('parse', 'text_nested', k, n, **LONG) for k, n in ((0, 20), (1, 20), (2, 20), (7, 20), (0, 1000), (1, 1000), (7, 999), (2, 499))]; SPECS['C02']['covers'] += ['nested']
SPECS['C07']['entries'] += [E('parse', 'text_long', k, n, 1, **LONG) for k, n in ((3, 60000), (5, 30000))]
VALOPS = (0, 1, 2, 3, 4, 5, 6, 10, 11, 12, 13); TXTOPS = (7, 8, 9, 14)
SPECS['C28'] = dict(entries=[E('conc', 'conc_values', o, k, l) for o in VALOPS for k, l in ((0, 1), (1, 2), (2, 3), (3, 2), (4, 5), (5, 4), (6, 7), (7, 6), (3, 3), (2, 2))] + [E('conc', 'conc_texts', o, n) for o in TXTOPS for n in (0, 1, 2)] + [E('conc', 'conc_docs', o, d) for o in TXTOPS for d in range(8)] + [TH('conc', 'conc_texts', o, 3, jobs=4) for o in TXTOPS],
    covers=['values', 'texts', 'docs'], assume=['only the library is examined: allocator, locale and stream machinery of the C++ runtime are taken to be thread-safe, as the standard requires'])
NL = {0: (0, 1, 2, 3, 4, 7, 13), 1: (0, 1, 5, 6, 14, 16, 13), 2: (0, 1, 9, 10, 11, 15), 3: (0, 1, 7, 8, 13, 3), 4: (0, 1, 11, 12, 17)}
SPECS['C29'] = dict(entries=[E('args', 'args_lit', j, l) for j in NL for l in NL[j]] + [E('args', 'args_trip', j, w) for j in range(5) for w in range(3)] + [E('args', 'args_cmp', j, w) for j in range(5) for w in range(3)] + [E('args', 'args_float', j) for j in range(5)] + [E('argsq', 'args_order', n, o) for n in (0, 1, 2, 3) for o in range(4)] + [E('args', 'args_alloc', a, b, o) for a, b in ((0, 1), (1, 2), (2, 3), (3, 4), (4, 0)) for o in range(8)] + [E('args', 'args_binder')] + [E('args', 'args_encoding', n) for n in (0, 1, 2)] + [E('args', 'args_wencoding')],
    covers=['fits', 'beyond', 'compare', 'integer trip', 'float trip', 'order', 'allocator', 'binder', 'encoding', 'wide encoding'], assume=['allocators are stateless (the library keeps one static object of each); parse and dump use std::allocator strings'])
SPECS['C30'] = dict(entries=[E('layout', 'layout_tree', n, 2, s, c) for n, s, c in ((3, 3, 0), (2, 8, 1), (3, 1, 1))] + [TH('layout', 'layout_tree', 4, 3, 4, 0, t=900)] + [E('layout', 'layout_shape', s, h, 2 if h else 4) for s in range(12) for h in range(8)] + [E('layout', 'layout_deep', d, s, k, **LONG) for d, s, k in ((300, 1, 0), (300, 1, 1), (300, 2, 2), (40, 8, 2), (260, 4, 0), (20, 255, 2), (8, 128, 1))] + [TH('layout', 'layout_deep', d, s, k, maxinst=2000000000) for d, s, k in ((1000, 1, 2), (300, 255, 0))] + [E('layout', 'layout_wide', s) for s in range(3)],
    covers=['tree', 'shape', 'deep', 'wide'], assume=['the indent character is not NUL'])
INTO_T = (0, 1, 2, 5, 10, 12, 24, 39, 44, 47, 55, 60, 64, 66, 67)
SPECS['C02']['entries'] += [E('parse', 'text_into', k, h) for k in INTO_T if k != 39 for h in (0, 1, 2)]; SPECS['C02']['covers'] += ['into']
BIG = dict(maxinst=1000000000, t=60)
QUAD = (4, 5)                # the text grows with the square of n
def bigs(mode, sizes, poss, hows, kinds=range(24), f=E, **k):
    return [f('big', 'big_text', mode, d, min(n, 130) if d in QUAD else min(n, 990) if d == 17 else n, p, h, **dict(BIG, **k)) for d in kinds for n in sizes if not (d in QUAD and n > 300) for p in poss for h in hows]
LIN_K = (0, 2, 3, 6, 7, 8, 9, 10, 11, 14, 15, 22); STR_K = (2, 3, 4, 5, 10, 11, 20, 23); COM_K = (6, 7, 8, 9, 22)
SPECS['C01']['entries'] += bigs(1, (17, 300), (1, 2), (0, 2)) + bigs(1, (1100,), (1, 2), (0,)) + bigs(1, (40,), (1, 3), (1, 3, 8)) + bigs(1, (4200,), (2,), (0, 3), LIN_K)
SPECS['C02']['entries'] += bigs(2, (17, 40, 130, 300), (0, 1, 2), (0,)) + bigs(2, (40,), (1,), (1, 8)) + bigs(2, (1100,), (2,), (0,)) + bigs(2, (4200,), (2,), (0,), LIN_K)
SPECS['C03']['entries'] += bigs(4, (17, 40, 300), (1, 2), (0, 1)) + bigs(4, (40, 300), (1, 3), (3, 4, 8)) + bigs(4, (1100,), (2, 3), (0, 3))
SPECS['C06']['entries'] += bigs(6, (17, 64, 130, 300, 1100), (0, 1, 2), (0, 1), STR_K) + bigs(6, (40,), (1,), (2, 8), STR_K)
SPECS['C07']['entries'] += bigs(6, (17, 64, 130, 300, 1100, 4200), (0, 1, 2), (0, 1, 3), COM_K) + bigs(6, (40,), (1, 2), (2, 8), COM_K)

bstr = lambda ks, ns, ps, ms: [E('bigv', 'big_string', k, n, p, m, **BIG) for k in ks for n in ns for p in ps for m in ms]
btree = lambda what, ks, ns, ps, os: [E('bigv', 'big_tree', what, k, min(n, 120) if k in (2, 3) else min(n, 100) if k == 4 else n, p, o, **BIG) for k in ks for n in ns for p in ps for o in os if not (k in (2, 3) and n > 400)]
LEN = (15, 16, 17, 33, 64, 130, 257)
SPECS['C09']['entries'] += bstr(range(4), LEN, (0, 1, 2), (0, 1)) + bstr((0, 3), LEN, (2,), (2, 3)) + bstr(range(4), (1030,), (2,), (0, 1)) + bstr((3,), (20,), (1,), (4, 8, 9, 15)) + [E('bigv', 'big_bad_string', k, n, p, m, **BIG) for k in (0, 1, 3) for n in (16, 40, 130, 300) for p in (0, 1, 2) for m in (0, 1)] + [E('bigv', 'big_wstring', n, p, m, **BIG) for n in LEN + (1030,) for p in (1, 2) for m in range(4)]
SPECS['C10']['entries'] += bstr((2, 3), LEN, (1, 2), (0, 1)) + btree(1, range(8), (20, 70, 300), (1, 2), (0, 1, 2, 3)) + btree(1, range(8), (20,), (1,), (9, 11)) + btree(1, (0, 6), (700,), (2,), (0, 1))
SPECS['C11']['entries'] += btree(2, range(8), (17, 70, 300), (0, 2), (0, 1, 2, 3)) + btree(2, range(8), (20,), (1,), (8, 9, 11)) + btree(2, (0, 1, 6, 7), (700,), (2,), (0, 1))
SPECS['C12']['entries'] += [E('bigv', 'big_floats', n, p, o, **BIG) for n in (20, 70) for p in (0, 2) for o in (0, 1, 2, 4)] + [E('bigv', 'big_nonfinite', n, p, o, **BIG) for n in (20, 70, 300) for p in (0, 1, 2) for o in range(4)]
SPECS['C30']['entries'] += btree(4, range(8), (20, 70, 300), (1,), (0, 1, 4)) + btree(4, range(8), (20,), (1,), (9, 12))
SPECS['C19']['entries'] += [E('val', 'array_huge', n, k) for n in (-1, 0, 1, 2, 3, 20) for k in range(3)]; SPECS['C19']['covers'] += ['huge index']
SPECS['C19']['entries'] += [E('val', 'array_ops', n, l, op, **BIG) for n, l in ((8, 2), (17, 1), (33, 1), (130, 1), (300, 1)) for op in range(15)] + [E('val', 'array_grow', n, **BIG) for n in (33, 70, 130, 300, 1050)]
SPECS['C20']['entries'] += [E('val', 'object_ops', n, l, op, **BIG) for n, l in ((17, 1), (33, 1), (70, 1)) for op in range(13)]
SPECS['C21']['entries'] += [E('iter', 'walk_array', n, **BIG) for n in (16, 33, 70, 130, 300)] + [E('iter', 'walk_object', n, **BIG) for n in (16, 33, 70, 130)]
SPECS['C17']['entries'] += [E('bigval', 'big_copies', k, n, op, **BIG) for k, n in ((0, 20), (0, 300), (1, 20), (1, 130), (2, 40), (4, 40), (5, 70), (7, 30)) for op in range(11)]; SPECS['C17']['covers'] += ['big copies']
SPECS['C18']['entries'] += [E('bigval', 'big_typed', n, p, **BIG) for n in (8, 15, 16, 17, 33, 130, 300, 1100) for p in (0, 2)]; SPECS['C18']['covers'] += ['big typed']
SPECS['C22']['entries'] += [E('bigval', 'big_cmp', k, n, p, h, **BIG) for k in (0, 1, 6, 7, 99, 98) for n in (17, 70, 300) for p in (0, 1, 2) for h in range(4)] + [E('bigval', 'big_cmp', 4, n, 0, h, **BIG) for n in (20, 300) for h in range(4)]; SPECS['C22']['covers'] += ['big cmp']
SPECS['C23']['entries'] += [E('bigval', 'big_cont', k, n, p, **BIG) for k in range(17) for n in ((17, 40) if k == 12 else (17, 40, 130)) for p in (0, 1, 2)]; SPECS['C23']['covers'] += ['big container']
SPECS['C24']['entries'] += [E('bigval', 'big_bind', n, p, h, **BIG) for n in (17, 40) for p in (0, 1, 2) for h in range(4)]; SPECS['C24']['covers'] += ['big bind']
SPECS['C26']['entries'] += [E('bigval', 'big_factory', n, h, **BIG) for n in (8, 16, 24) for h in (0, 1)]; SPECS['C26']['covers'] += ['big factory']
SPECS['C25']['entries'] += [E('oom', 'oom_value', op, a, b, **RS) for op in range(17) for a, b in ((9, 2), (10, 9))]
SPECS['C14']['entries'] += [E('err', 'h_alloc', k, w, **RS) for k, w in [(k, 0) for k in range(6)] + [(0, 1), (0, 2)]]; SPECS['C14']['covers'] += ['alloc failed', 'alloc fine']
IO_DOC = (0, 1, 2, 4, 7, 8, 10, 11, 13, 17, 19, 20)
SPECS['C08']['entries'] += [E('bigutf', 'big_utf_encode', j, n, p, **BIG) for j in range(9) for n in (17, 130, 1050) for p in (0, 1, 2)] + [E('bigutf', 'big_utf_decode', j, n, p, **BIG) for j in range(9) for n in (21, 140, 1050) for p in (0, 1, 2)]
SPECS['C13']['entries'] += [E('bigenc', 'big_tc_parse', k, n, s, p, **BIG) for k in range(13) for n in (17, 130, 300) for s in (0, 1, 2) for p in (1, 2)] + [E('bigenc', 'big_tc_parse', k, 1100, 0, 2, **BIG) for k in range(13)] + [E('bigenc', 'big_tc_dump', k, n, s, p, e, **BIG) for k in range(10) for e in (0, 1) for n, s, p in (((17, 0, 1), (130, 1, 2), (300, 2, 0)) if e else [(n, s, p) for n in (17, 130, 300) for s, p in ((0, 1), (1, 2), (2, 0))])] + [E('bigenc', 'big_tc_any', f, n, p, **BIG) for f in (16, 32) for n in (17, 130, 1030) for p in (0, 1, 2)] + [E('bigenc', 'big_ignore', n, w, p, **BIG) for n in (17, 130, 1030) for w in (0, 1) for p in (1, 2)]
SPECS['C14']['entries'] += [E('bigerr', 'big_err', d, min(n, 130) if d in QUAD else min(n, 990) if d == 17 else n, p, h, w, **BIG) for d in range(24) for n in (17, 300) for p in (1, 2) for h, w in ((0, 7), (3, 3))] + [E('bigerr', 'big_err', d, 40, 1, 8, 7, **BIG) for d in range(24)] + [E('bigerr', 'big_dump_err', k, n, p, l, **BIG) for k in (0, 1, 5, 6, 7) for n in (17, 130) for p in (0, 1, 2) for l in range(3)] + [E('bigerr', 'big_history', n, p) for n in (1, 2, 3, 9, 33) for p in range(3)]; SPECS['C14']['covers'] += ['long', 'history']
SPECS['C15']['entries'] += [E('bigsrc', 'big_src', k, d, min(n, 130) if d in QUAD else min(n, 990) if d == 17 else n, p, h, **BIG) for k in range(11) for d in IO_DOC for n, p, h in ((17, 1, 0), (130, 2, 0), (300, 1, 3))] + [E('bigsrc', 'big_src', k, d, 1100, 2, 0, **BIG) for k in range(11) for d in (2, 8, 10, 0)] + [E('bigsrc', 'big_src', k, 2, 4200, 2, 0, **BIG) for k in range(11)] + [E('bigsrc', 'big_src', k, d, 40, 1, 8, **BIG) for k in range(11) for d in (10, 13)] + [E('bigsrc', 'big_wsrc', k, d, n, 1, **BIG) for k in range(11) for d in (0, 1, 11, 20) for n in (17, 300)] + [E('bigsrc', 'big_chunks', k, w, n, p, c, **BIG) for k in range(5) for w in (0, 1) for n in (17, 130, 1030) for p in (1, 2) for c in range(5)] + [E('bigsrc', 'big_reuse', d) for d in range(24)]; SPECS['C15']['covers'] += ['long', 'chunks', 'reuse']
SPECS['C16']['entries'] += [E('bigsink', 'big_sink', k, d, min(n, 100) if d in (2, 3, 4) else n, p, w, **BIG) for k in range(8) for d in range(8) for n, p, w in ((17, 1, 0), (130, 2, 0), (300, 0, 0), (20, 1, 1))] + [E('bigsink', 'big_wsink', k, d, n, 1, **BIG) for k in range(8) for d in (0, 1, 2, 7) for n in (17, 70)] + [E('bigsink', 'big_width', k, d, n, w, **BIG) for k in range(4) for d in (0, 1, 4, 5, 7) for n, w in ((17, 2), (40, 4), (17, 17), (70, 1))]; SPECS['C16']['covers'] += ['long', 'long width']
SPECS['C27']['entries'] += [E('bigfault', 'big_fault_read', k, d, min(n, 130) if d in QUAD else min(n, 990) if d == 17 else n, p, **BIG) for k in range(9) for d in IO_DOC for n, p in ((17, 1), (300, 2))] + [E('bigfault', 'big_fault_write', h, m, k, n, p, **BIG) for h in (0, 1, 4) for m in range(6) for k, n, p in ((0, 130, 2), (1, 70, 1), (2, 40, 3), (7, 30, 0), (5, 70, 3))]; SPECS['C27']['covers'] += ['long']
SPECS['C31'] = dict(entries=[E('opts', 'opts_order', m, k) for m in range(32) for k in ((0, 5) if bin(m).count('1') > 3 else range(0, 16, 5))] + [E('opts', 'opts_last', w, k) for w in range(7) for k in (1, 4, 6, 10)] + [E('opts', 'opts_handler')] + [E('opts', 'opts_float', n, l) for n in range(4) for l in (0, 4, 8, 12, 17)] + [E('opts', 'opts_stream', n, l, h, k, w) for n in range(4) for l in (0, 5, 16) for h in range(5) for k in (1, 11) for w in (0, 1)] + [E('opts', 'opts_escape', n, s) for n in (0, 1) for s in (0, 2)] + [TH('opts', 'opts_escape', 2, 0, t=600)],
    covers=['order', 'last', 'handler', 'float', 'stream', 'escape'], assume=['a float is printed by the C++ runtime\'s formatting of doubles, which engine and reference share; formatting flags of a stream other than the notation have no effect (C16)'])
SPECS['C32'] = dict(entries=[E('custom', 'custom_store', k, w) for k in range(3) for w in range(21)] + [E('custom', 'custom_read', k, w, b) for k in range(3) for w in range(9) for b in (0, 1)] + [E('custom', 'custom_read_cont', k, w) for k in range(2) for w in range(11)] + [E('custom', 'custom_bind', k) for k in (0, 1)] + [E('custom', 'custom_failed', w) for w in range(5)],
    covers=['stored', 'store throws', 'read', 'read throws', 'read wrong', 'read null', 'bound', 'failed'], assume=[])
SPECS['C02']['entries'] += [E('parse', 'text_members', 2, n, tr) for n in (1, 2, 3) for tr in (0, 1)] + [E('parse', 'text_tokens', 2, k, m) for k in range(6) for m in (1, 2, 3, 4)] + [TH('parse', 'text_tokens', 2, k, 5, t=600) for k in range(6)] + [TH('parse', 'text_members', 2, 4, 0)]; SPECS['C02']['covers'] += ['members', 'tokens']
SPECS['C03']['entries'] += [E('parse', 'text_tokens', 4, k, m) for k in range(6) for m in (1, 2, 3, 4)] + [TH('parse', 'text_tokens', 4, k, 5, t=600) for k in range(6)]; SPECS['C03']['covers'] += ['tokens']
# beyond 65536 units or elements (16-bit counters)
HG = dict(maxinst=2000000000, t=60); H1 = 66000
def huge(p, ents): SPECS[p]['entries'] = ents + SPECS[p]['entries']; SPECS[p]['covers'] = list(SPECS[p]['covers']) + ['huge']
htext = lambda ks, what: [E('huge', 'huge_text', k, H1, what, **HG) for k in ks]
harr = lambda *ops: [E('huge', 'huge_array', H1, o, **HG) for o in ops]
hobj = lambda *ops: [E('huge', 'huge_object', H1, o, **HG) for o in ops]
huge('C02', htext((0, 1, 2, 3, 4, 11), 0)); huge('C05', htext((9,), 0)); huge('C06', htext((5,), 0)); huge('C07', htext((7, 8), 0)); huge('C09', htext((0, 1, 5, 6), 1)); huge('C11', htext((2, 3, 4, 11), 1) + htext((2, 3), 2))
huge('C17', harr(4) + hobj(3)); huge('C19', harr(0, 1)); huge('C20', hobj(0)); huge('C21', harr(2) + hobj(1)); huge('C22', harr(3) + hobj(2)); huge('C23', harr(5) + hobj(4)); huge('C26', harr(6))
SPECS['C27']['entries'] += [E('fault', 'fault_state', m) for m in range(8)]; SPECS['C27']['covers'] = list(SPECS['C27']['covers']) + ['failed before']
huge('C30', [E('huge', 'huge_layout', H1, **HG)]); huge('C03', [E('huge', 'huge_bad', k, H1, s, 0, **HG) for k, s in ((0, 0), (0, 1), (2, 0), (3, 1), (4, 0))]); huge('C14', [E('huge', 'huge_bad', k, H1, 0, 1, **HG) for k in (1, 5, 11)])
huge('C15', [E('huge', 'huge_source', k, H1, s, **HG) for k, s in ((0, 0), (0, 1), (2, 2), (2, 3), (0, 4), (0, 5), (2, 1))]); huge('C16', [E('huge', 'huge_sink', k, H1, s, **HG) for k, s in ((0, 0), (2, 1), (2, 2), (0, 3), (0, 4), (2, 5))]); huge('C27', [E('huge', 'huge_fault', k, H1, m, **HG) for k, m in ((0, 0), (0, 1), (2, 1))]); huge('C13', [E('huge', 'huge_wide', H1, **HG)])
