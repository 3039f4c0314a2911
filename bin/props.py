"""Per-property settings of the checks."""
REAL = [
    'scipp C++ libraries (lib/common, units, core, variable, dataset) as in '
    'the working tree, compiled unmodified by clang with access '
    'instrumentation',
    'oneTBB headers: parallel_for, parallel_sort, partitioners, task trees',
    'libstdc++, Eigen, Boost',
]
STUB = [
    'oneTBB runtime library: replaced by the simulated task scheduler',
    'pthread mutexes, rwlocks, condition variables, once, thread creation: '
    'decided by the simulated scheduler',
    'malloc family, operator new and delete: simulated heap',
    'gmtime: simulated static buffer',
    'LLNL units library: minimal stand-in with the same interface '
    '(sandbox has no copy of it)',
]
COMMON = [
    'preemption happens at instrumented memory accesses, atomics, locks and '
    'task operations of the code compiled from /repo; library code inside '
    'libstdc++.so runs atomically',
    'the memory model explored is sequential consistency; weaker orders are '
    'covered by the happens-before race check',
    'sampling: a clean batch is evidence, not proof',
]


def P(exe, quick=50, thorough=600, probes=None, extra=()):
    return {'exe': exe, 'quick_s': quick, 'thorough_s': thorough,
            'probes': probes or {}, 'assumptions': COMMON + list(extra)}


PROPS = {
    'C01': P('sim-dim', 40),
    'C02': P('sim-var', 60),
    'C03': P('sim-var', 60),
    'C10': P('sim-core', 40),
    'C11': P('sim-core', 40),
    'C12': P('sim-core', 40),
    'C13': P('sim-core', 40),
    'C14': P('sim-var', 60),
    'C07': P('sim-full', 100),
    'C04': P('sim-full', 130),
    'C05': P('sim-full', 100),
    'C06': P('sim-full', 100),
    'C08': P('sim-full', 100),
    'C09': P('sim-full', 100),
    'C15': P('sim-full', 100),
}
