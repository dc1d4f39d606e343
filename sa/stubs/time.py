import sa


def sleep(seconds):
    sa.event('sleep', seconds)
    f = sa.env('sleep')
    if f is not None:
        f(seconds)


def time():
    sa.event('time')
    f = sa.env('time')
    if f is not None:
        return f()
    return sa.fresh('now', 'num')


monotonic = perf_counter = time_ns = process_time = time
