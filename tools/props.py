"""Configuration of the checks: see check.py."""
RACE = 'model-based property testing of operation sequences, and schedule-fuzzed concurrent histories checked against exactly-once and precedence invariants'
PROPS = {
    'C01': dict(scale=5, thorough=20),
    'C02': dict(scale=5, thorough=20),
    'C03': dict(scale=5, thorough=20, oom=True),
    'C04': dict(scale=3, thorough=10, instr=['marshal', 'sbox'], technique='property-based testing: sequential aliasing histories and schedule-fuzzed concurrent use against precomputed reference bytes'),
    'C05': dict(scale=4, thorough=20, oom=True),
    'C06': dict(scale=4, thorough=20),
    'C07': dict(scale=4, thorough=20, oom=True),
    'C08': dict(scale=8, thorough=20, oom=True),
    'C09': dict(scale=4, thorough=10, shrink='3s', instr=['.'], technique=RACE),
    'C10': dict(scale=4, thorough=10, shrink='3s', instr=['.'], technique=RACE),
}
PROPS['C11'] = dict(scale=2, thorough=10, shrink='5s', instr=['.'], technique=RACE)
PROPS['C13'] = dict(scale=3, thorough=10, shrink='5s', instr=['.'], technique=RACE)
PROPS['C12'] = dict(scale=3, thorough=10, shrink='5s', instr=['.'], technique=RACE)
PROPS['C14'] = dict(scale=3, thorough=10, shrink='5s', instr=['.'], technique=RACE)
PROPS['C15'] = dict(scale=3, thorough=10, shrink='5s', instr=['.'], technique=RACE)
PROPS['C16'] = dict(scale=2, thorough=10, shrink='5s', instr=['.','net','net/server'], technique=RACE)
PROPS['C17'] = dict(scale=2, thorough=10, shrink='5s', instr=['.','net','net/server'], technique='property-based testing with generated client misbehaviour (cut streams, stalls, resets, floods, garbage) and generated stop points on schedule-fuzzed servers, oracle: conservation and liveness invariants of the history')
PROPS['C18'] = dict(scale=2, thorough=10, shrink='5s', instr=['.','net','net/client','net/client/connection'], technique='property-based testing of a schedule-fuzzed client against a scripted peer with generated answer orders, chunks, repeated, unknown, missing and late answers; oracle: per-request expected answers and wire invariants')
PROPS['C19'] = dict(scale=2, thorough=10, shrink='5s', instr=['.','net','net/client','net/client/connection'], technique='property-based testing with generated fault sequences (refused, slammed, mute, garbled, broken, stalled connections; resizing and stops) on schedule-fuzzed clients; oracle: per-request outcome model, connection counts, liveness')
PROPS['C20'] = dict(scale=2, thorough=10, shrink='5s', instr=['.','net','net/client','net/client/connection','net/server'], technique='property-based testing of whole systems (client, balancer, auto-connecting client, proxy against servers of the package) with generated callers, timeouts, cancellations, idling, stops and restarts under schedule fuzzing; oracle: the result computed for that very request, or a failure that was provoked')
PROPS['C21'] = dict(scale=2, thorough=10, shrink='20s', instr=['.','net','net/client','net/client/connection','net/server'], technique='property-based testing of long generated histories (requests, contexts, groups, timers, connections with every way they can end, under schedule fuzzing); oracle: objects tracked by garbage collector cleanups, goroutine count and heap size are bounded by what is in progress')
