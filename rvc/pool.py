"""A pool of forked workers that cannot hang its caller: memory per worker is limited, a worker that dies or a deadline that passes
ends the pool, and the jobs without a result are reported as such."""
import concurrent.futures as cf, multiprocessing as mp, resource, time

def limit(gb):
    n = int(gb * 2**30)
    resource.setrlimit(resource.RLIMIT_AS, (n, resource.getrlimit(resource.RLIMIT_AS)[1]))
def run(f, jobs, procs, gb=3.5, seconds=None):
    """yields (job, result, error)"""
    jobs = list(jobs)
    if not jobs: return
    ex = cf.ProcessPoolExecutor(max(1, min(procs, len(jobs))), mp_context=mp.get_context("fork"), initializer=limit, initargs=(gb,))
    fs = {ex.submit(f, j): j for j in jobs}; left = set(fs)
    try:
        for x in cf.as_completed(fs, timeout=seconds):
            left.discard(x); e = x.exception()
            if e is None: yield fs[x], x.result(), None
            else: yield fs[x], None, "out of memory" if isinstance(e, MemoryError) else "worker ended: %s" % (e or type(e).__name__)
    except cf.TimeoutError: pass
    finally:
        for p in list((ex._processes or {}).values()):
            try: p.kill()
            except Exception: pass
        ex.shutdown(wait=False, cancel_futures=True)
    for x in left: yield fs[x], None, "no time left"
