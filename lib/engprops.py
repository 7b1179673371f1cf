"""What each engine-decided property runs and which counters must be non-zero."""
# property: (bit, [(family, focus, weight)], {counter: minimum (quick)}, title of the event counters that decide it)
P = {
    'C01': (1, [('flat', 'mix', 3), ('flat', 'rw', 1), ('ideal', 'mix', 1)], {'checks_data': 1000, 'accepts': 1000}),
    'C02': (2, [('flat', 'mix', 3), ('ext', 'mix', 1), ('flat', 'hit', 1)], {'resps': 1000, 'stall_resp': 100, 'stall_mem': 100}),
    'C03': (3, [('flat', 'mix', 3), ('multi', 'mix', .5), ('ideal', 'mix', 1), ('reset', 'mix', .5)], {'checks_prog': 1000, 'resps': 1000}),
    'C04': (4, [('flat', 'flush', 3), ('ext', 'flush', 1), ('multi', 'mix', .5), ('flat', 'mix', 1)], {'checks_flush': 100, 'flush_words': 100}),
    'C05': (5, [('ext', 'inv', 2), ('flat', 'inv', 2), ('multi', 'mix', .5)], {'checks_inv': 100, 'checks_hist': 100}),
    'C06': (6, [('flat', 'evict', 2), ('flat', 'mix', 2), ('flat', 'flush', 1), ('ext', 'mix', 1)], {'checks_wb': 1000}),
    'C07': (7, [('flat', 'amo', 3), ('ext', 'amo', 1), ('multi', 'mix', .5)], {'checks_amo': 500}),
    'C08': (8, [('flat', 'mix', 2), ('flat', 'hit', 1), ('flat', 'evict', 2), ('flat', 'amo', 1), ('flat', 'fill', .5)], {'resps': 1000}),
    'C09': (9, [('flat', 'mix', 3), ('ext', 'mix', 1), ('flat', 'evict', 1)], {'memreqs': 1000}),
    'C10': (10, [('multi', 'mix', 1)], {'checks_drf': 300, 'locks': 20, 'checks_hist': 100}),
    'C11': (11, [('tindep', 'mix', 1)], {'checks_timing': 1000}),
    'C12': (12, [('ideal', 'mix', 3), ('ideal', 'hit', 1), ('ideal', 'flush', 1)], {'checks_timing': 1000}),
    'C18': (18, [('twin', 'mix', 2), ('twin', 'flush', 1), ('twin', 'inv', 1), ('twin', 'evict', 1)], {'cmp_runs': 1000, 'resps': 1000}),
    'C13': (13, [('reset', 'mix', 2), ('reset', 'flush', 1), ('reset', 'evict', 1)], {'cmp_runs': 1000, 'midtxn_resets': 50}),
}
RULE = ("seeded random request streams (read/write/AMO/INV/FLUSH over few lines, mode-switching between hot line, conflict set, stream) "
        "against a memory model with random latency, back-pressure and hostile don't-care values, run in episodes on the cache translated "
        "from the working tree and simulated; the engine's monitors judge every cycle at the two interfaces. A case is one accepted request; it is "
        "non-trivial and distinct when its signature (transaction class x preceding class x length x way x stall/latency context x "
        "operation x word offset x geometry) was not seen before in that job.")
