"""Runs jobs in forked children, at most `par` at a time, each with a time and a memory limit."""
import os, pickle, resource, select, signal, sys, time


def run_jobs(jobs, fn, par=8, limit=lambda j: 120, until=None, mem=6 << 30, stop=None):
    """fn(job) in a child for each job; {index: result, or ('dead', why)}.  `until`: no job starts or runs after it.
    stop(result): true ends the whole lot early."""
    out, live, k = {}, {}, 0
    done = False
    while (k < len(jobs) or live) and not done:
        now = time.time()
        while k < len(jobs) and len(live) < par:
            if until and now > until:
                out[k] = ('dead', 'not run: the time for all goals was used up')
                k += 1
                continue
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    os.close(r)
                    resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
                    try:
                        res = fn(jobs[k])
                    except MemoryError:
                        res = ('dead', 'out of memory')
                    except BaseException as e:
                        import traceback
                        res = ('dead', 'generator error: %r\n%s' % (e, traceback.format_exc()))
                    data = pickle.dumps(res)
                    with os.fdopen(w, 'wb') as f:
                        f.write(data)
                finally:
                    os._exit(0)
            os.close(w)
            live[r] = [k, pid, now, b'']
            k += 1
        if not live:
            break
        rs, _, _ = select.select(list(live), [], [], 0.2)
        for r in rs:
            d = os.read(r, 1 << 20)
            if d:
                live[r][3] += d
                continue
            i, pid, t0, buf = live.pop(r)
            os.close(r)
            os.waitpid(pid, 0)
            try:
                out[i] = pickle.loads(buf)
            except Exception:
                out[i] = ('dead', 'the verifier process ended without a result')
            if stop and stop(out[i]):
                done = True
        now = time.time()
        for r in list(live):
            i, pid, t0, buf = live[r]
            if done or now - t0 > limit(jobs[i]) or (until and now > until + 20):
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                del live[r]
                out[i] = ('dead', 'Budget: time limit')
    return out
