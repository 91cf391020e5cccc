"""Runs jobs in processes of their own: a solver that runs away ends with its job, not with the check."""
import multiprocessing as mp
import multiprocessing.connection as mpc
import os
import time

MEM = 5 << 30


def _rss(pid):
    try:
        with open('/proc/%d/statm' % pid) as f:
            return int(f.read().split()[1]) * os.sysconf('SC_PAGE_SIZE')
    except (OSError, ValueError, IndexError):
        return 0


def _child(fn, arg, conn):
    try:
        r = ('ok', fn(arg))
    except MemoryError:
        r = ('lost', 'out of memory')
    except BaseException as e:
        r = ('exc', "%s: %s" % (type(e).__name__, e))
    try:
        conn.send(r)
    except Exception as e:
        conn.send(('exc', "%s: %s" % (type(e).__name__, e)))
    conn.close()


def run(fn, args, workers=8, budget=600, grace=90, limit=lambda a: 240, stop=lambda: False, mem=MEM):
    """yields (arg, kind, value): ok result | exc text | lost why | skipped why.
    After `budget` seconds, or when stop() says so, no job is started, and `grace` seconds later the running ones end."""
    ctx = mp.get_context('fork')
    t0 = time.time()
    todo = list(reversed(args))
    live = {}
    try:
        while todo or live:
            now = time.time()
            over = now - t0 > budget or stop()
            if over and todo:
                for a in reversed(todo):
                    yield a, 'skipped', 'not reached within the time budget'
                todo = []
            while todo and len(live) < workers:
                a = todo.pop()
                rd, wr = ctx.Pipe(False)
                p = ctx.Process(target=_child, args=(fn, a, wr))
                p.start()
                wr.close()
                live[rd] = (p, a, time.time())
            if not live:
                break
            ready = mpc.wait(list(live), timeout=2)
            now = time.time()
            for rd in list(live):
                p, a, t = live[rd]
                r = None
                if rd in ready:
                    try:
                        r = rd.recv()
                    except EOFError:
                        p.join(5)
                        r = ('lost', 'its process ended (%s)' % p.exitcode)
                elif now - t > limit(a) or now - t0 > budget + grace:
                    p.kill()
                    r = ('lost', 'no answer after %d s' % (now - t))
                elif _rss(p.pid) > mem:
                    p.kill()
                    r = ('lost', 'needs more than %d GB of memory' % (mem >> 30))
                if r is None:
                    continue
                del live[rd]
                rd.close()
                p.join(5)
                if p.is_alive():
                    p.kill()
                    p.join()
                yield (a,) + r
    finally:
        for rd, (p, a, t) in live.items():
            p.kill()
            p.join()
