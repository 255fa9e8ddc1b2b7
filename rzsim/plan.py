""" What each check runs: budgets, components, assumptions. """

COMMON = [
    'razorback runs under CPython with the installed numpy, scipy and dask; those libraries are '
    'trusted and run for real, except that dask schedules its tasks through the simulator',
    'preemption happens at line (or opcode) boundaries of razorback code, at every disk '
    'operation, lock operation and dask task boundary; C code runs atomically',
    'generated workloads are finite samples of the input space, drawn from the run seed',
]
REAL = ['razorback (from /repo/src)', 'numpy', 'scipy', 'dask graph construction, optimisation '
        'and task bodies', 'file contents on tmpfs']
STUB = ['dask thread-pool scheduler (simulated workers)', 'thread scheduler (baton)',
        'file API seam (fault injection)', 'uuid4 (seeded)', 'stdout (per thread buffer)']


def P(runs, truns, assumptions=(), **k):
    return dict(quick=dict(runs=runs), thorough=dict(runs=truns, cap=3000),
                assumptions=COMMON + list(assumptions), real=REAL, stub=STUB, **k)


PLAN = {
    'C01': P(480, 40000),
    'C02': P(4000, 200000),
    'C03': P(800, 60000),
    'C04': P(560, 60000),
    'C05': P(200, 30000),
    'C06': P(200, 40000),
    'C07': P(400, 60000),
    'C08': P(400, 100000),
    'C09': P(1000, 200000),
    'C10': P(500, 200000),
    'C11': P(500, 200000),
    'C12': P(6000, 400000),
    'C13': P(6000, 400000),
    'C14': P(5000, 300000),
    'C15': P(500, 200000),
    'C16': P(160, 30000),
    'C17': P(220, 100000),
    'C18': P(1000, 200000),
    'C19': P(320, 60000),
    'C20': P(400, 60000),
    'C21': P(160, 60000),
}
