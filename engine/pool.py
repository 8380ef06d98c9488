"""Fork pool that tolerates a worker dying: results are plain picklable data."""
import multiprocessing as mp
import os
import traceback


def workers():
    try:
        return max(1, min(8, len(os.sched_getaffinity(0))))
    except AttributeError:
        return 4


def parallel(fn, items):
    """[(result, error text)] in order; fn runs in forked children"""
    n = min(workers(), len(items))
    out = [None] * len(items)
    if n <= 1:
        for i, x in enumerate(items):
            try:
                out[i] = (fn(x), None)
            except BaseException:
                out[i] = (None, traceback.format_exc())
        return out
    cx = mp.get_context('fork')
    q = cx.Queue()
    ps = []
    # a shared counter hands out the items one at a time
    ctr = cx.Value('i', 0)

    def loop():
        while True:
            with ctr.get_lock():
                i = ctr.value
                ctr.value += 1
            if i >= len(items):
                break
            try:
                q.put((i, fn(items[i]), None))
            except BaseException:
                q.put((i, None, traceback.format_exc()))
        q.put((None, None, None))

    for _ in range(n):
        p = cx.Process(target=loop)
        p.start()
        ps.append(p)
    done = 0
    import queue
    while done < n:
        try:
            i, r, e = q.get(timeout=5)
        except queue.Empty:
            if all(not p.is_alive() for p in ps) and q.empty():
                break
            continue
        if i is None:
            done += 1
        else:
            out[i] = (r, e)
    for p in ps:
        p.join(timeout=5)
        if p.is_alive():
            p.terminate()
    return [x if x is not None else (None, 'the analysis worker ended without an answer') for x in out]
