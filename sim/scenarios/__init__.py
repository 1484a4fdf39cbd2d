import contextlib


def cancel_on_input(proc, task, steps):
    """Cancel task few loop steps after process receives next data"""
    def step(n):
        if n > 0:
            proc.loop.call_soon(step, n - 1)
        else:
            task.cancel()

    proc.data.setdefault('on_input', []).append(lambda: step(steps))


def gen_queue(rng):
    """Size of chatter's send and receive queues (default is 1024)"""
    return None if rng.random() < 0.8 else (1, 2, 4)[int(rng.random() * 3)]


@contextlib.contextmanager
def chatter_queue(size):
    """Lower default size of chatter's queues - back pressure is reached with
    few messages"""
    from hat.drivers import chatter
    old = []
    try:
        for fn in (chatter.connect, chatter.listen):
            defaults = fn.__kwdefaults__ or {}
            if size is None or 'send_queue_size' not in defaults:
                continue
            old.append((fn, dict(defaults)))
            fn.__kwdefaults__ = {**defaults, 'send_queue_size': size,
                                 'receive_queue_size': size}
        yield
    finally:
        for fn, defaults in old:
            fn.__kwdefaults__ = defaults


def shift_ids(rng, plan):
    """Use unusual server identifiers in part of the plans"""
    x = rng.random()
    d = -1 if x < 0.15 else (1 << 40) if x < 0.2 else 0
    plan['id_shift'] = d
    if not d:
        return plan

    def shift(obj, *keys):
        for key in keys:
            if obj.get(key) is not None:
                obj[key] += d

    for i in plan.get('servers', []):
        shift(i, 'sid')
    for i in plan.get('clients', []):
        shift(i, 'server_id')
    for i in plan.get('ops', []):
        if isinstance(i.get('server'), int):
            shift(i, 'server')
    return plan
