"""Reference model of the event store.

Written from the documentation (docs/event.rst, docs/eventer.rst,
docs/backends/lmdb.rst), independent of the implementation.
"""

import itertools


def type_matches(event_type, query_type):
    """Event type subscription semantics (`?` one segment, final `*` rest)"""
    n = len(query_type)
    if n and query_type[-1] == '*':
        if len(event_type) < n - 1:
            return False
        query_type = query_type[:-1]
        event_type = event_type[:n - 1]
    elif len(event_type) != n:
        return False
    return all(q == '?' or q == s for q, s in zip(query_type, event_type))


def any_matches(event_type, query_types):
    return any(type_matches(event_type, i) for i in query_types)


def types_intersect(a, b):
    """Is there an event type matched by both query types"""
    if a and a[0] == '*':
        return True
    if b and b[0] == '*':
        return True
    if not a or not b:
        return not a and not b
    if a[0] != '?' and b[0] != '?' and a[0] != b[0]:
        return False
    return types_intersect(a[1:], b[1:])


def subs_intersect(a, b):
    return any(types_intersect(tuple(i), tuple(j)) for i in a for j in b)


def condition_ok(cond, event):
    kind = cond['type']
    if kind == 'all':
        return all(condition_ok(i, event) for i in cond['conditions'])
    if kind == 'any':
        return any(condition_ok(i, event) for i in cond['conditions'])
    payload = event.payload
    if payload is None or not hasattr(payload, 'data') or hasattr(
            payload, 'type'):
        return False
    data = payload.data
    for seg in cond.get('data_path', []):
        if isinstance(seg, str):
            data = data.get(seg) if isinstance(data, dict) else None
        else:
            data = (data[seg] if isinstance(data, list) and
                    seg < len(data) else None)
    if 'data_type' in cond:
        types = {'null': lambda x: x is None,
                 'boolean': lambda x: isinstance(x, bool),
                 'string': lambda x: isinstance(x, str),
                 'number': lambda x: (isinstance(x, (int, float)) and
                                      not isinstance(x, bool)),
                 'array': lambda x: isinstance(x, list),
                 'object': lambda x: isinstance(x, dict)}
        if not types[cond['data_type']](data):
            return False
    if 'data_value' in cond and cond['data_value'] != data:
        return False
    return True


def natural_gt(a, b):
    """Definitely greater in natural order"""
    if a.id.server == b.id.server:
        return a.id > b.id
    return a.timestamp > b.timestamp


class Session:
    """One `register` call on a backend"""

    __slots__ = ('idx', 'server', 'events', 'stored', 'called', 'announced_reg',
                 'returned', 'announced', 'order', 'announced_count', 'lost')

    def __init__(self, idx, server, events):
        self.idx = idx
        self.server = server
        self.events = events
        self.stored = None
        self.called = None          # time register was called
        self.announced_reg = None   # time of registered callback
        self.returned = None        # time register returned
        self.announced = None       # time of persisted callback
        self.announced_count = 0
        self.order = None           # position in registration order
        self.lost = False

    def __repr__(self):
        return f'<S{self.idx} {[tuple(e.id) for e in self.events]}>'


class Partition:

    def __init__(self, idx, conf):
        self.idx = idx
        self.by_source = conf['order_by'] == 'SOURCE_TIMESTAMP'
        self.order_by = conf['order_by']
        self.subs = [tuple(i) for i in conf['subscriptions']]
        self.limit = conf.get('limit')
        if self.limit is not None and not any(
                self.limit.get(i) is not None
                for i in ('max_entries', 'duration', 'size')):
            self.limit = None

    def time(self, event):
        return event.source_timestamp if self.by_source else event.timestamp


class Conf:

    def __init__(self, conf):
        self.conf = conf
        self.conditions = [([tuple(i) for i in c['subscriptions']],
                            c['condition']) for c in conf['conditions']]
        self.latest_subs = [tuple(i) for i in conf['latest']['subscriptions']]
        self.partitions = [Partition(i, c)
                           for i, c in enumerate(conf['timeseries'])]
        self.max_results = conf.get('timeseries_max_results', 4096)
        self._cache = {}

    def info(self, event):
        """(conditions ok, in latest, partitions)"""
        r = self._cache.get(id(event))
        if r is None:
            ok = all(condition_ok(c, event) for subs, c in self.conditions
                     if any_matches(event.type, subs))
            latest = any_matches(event.type, self.latest_subs)
            parts = tuple(p for p in self.partitions
                          if any_matches(event.type, p.subs) and
                          p.time(event) is not None)
            r = (ok, latest, parts, event)
            self._cache[id(event)] = r
        return r[:3]

    def find_partition(self, order_by, event_types):
        for p in self.partitions:
            if p.order_by != order_by:
                continue
            if event_types is not None and not subs_intersect(event_types,
                                                              p.subs):
                continue
            return p


class View:
    """Logical content of the store after a sequence of sessions"""

    def __init__(self, conf):
        self.conf = conf
        self.last_id = {}
        self.last_ts = {}
        self.latest = {}        # type -> list of (tied) greatest events
        self.events = {}        # id -> event (stored)
        self.parts = {p.idx: [] for p in conf.partitions}
        self.ordered = set()    # events with known order of registration

    def add(self, session):
        for e in session.events:
            self.add_event(e, session.order is not None)

    def add_event(self, e, ordered=False):
        ok, latest, parts = self.conf.info(e)
        s = e.id.server
        if not ok or (s in self.last_id and e.id <= self.last_id[s]):
            return
        if s in self.last_ts and e.timestamp < self.last_ts[s]:
            return
        stored = False
        if latest:
            cur = self.latest.get(e.type)
            if cur is None:
                self.latest[e.type] = [e]
                stored = True
            elif any(natural_gt(c, e) for c in cur):
                pass
            else:
                # events of different servers with the same timestamp are in
                # order of registration, if that is known
                self.latest[e.type] = [c for c in cur
                                       if not natural_gt(e, c) and
                                       not (ordered and c.id in
                                            self.ordered)] + [e]
                stored = True
            if ordered:
                self.ordered.add(e.id)
        for p in parts:
            self.parts[p.idx].append(e)
            stored = True
        if stored:
            self.last_id[s] = e.id
            self.last_ts[s] = e.timestamp
            self.events[e.id] = e

    def sorted_part(self, p):
        return sorted(self.parts[p.idx], key=lambda e: (p.time(e), e.id))


def build_view(conf, sessions):
    v = View(conf)
    for s in sessions:
        v.add(s)
    return v


def prefixes_per_server(optional, cap=24):
    """All choices of per server prefixes of optional sessions"""
    by_server = {}
    for s in optional:
        by_server.setdefault(s.server, []).append(s)
    groups = list(by_server.values())
    n = 1
    for g in groups:
        n *= len(g) + 1
    if n > cap:
        return None
    return [[s for part in choice for s in part]
            for choice in itertools.product(
                *([g[:i] for i in range(len(g), -1, -1)] for g in groups))]


def merge_order(sessions):
    return sorted(sessions, key=lambda s: (s.order if s.order is not None
                                           else 1 << 60, s.idx))


class Mismatch(Exception):
    pass


class Retention:
    """What is known about legitimate removals from limited partitions"""

    def __init__(self):
        self.present_at = {}    # (partition, id) -> last time known present
        self.persisted_at = {}  # id -> time of persisted announcement
        self.may_be_durable = lambda event_id: True
        self.removed = {}       # partition idx -> {id: time known removed}

    def forget(self, ids):
        ids = set(ids)
        for d in (self.present_at,):
            for k in [k for k in d if k[1] in ids]:
                del d[k]
        for i in ids:
            self.persisted_at.pop(i, None)
        for r in self.removed.values():
            for i in ids:
                r.pop(i, None)

    def judge(self, p, allp, e, present, max_wall):
        """Entry `e`, which is looked at by a query, is missing

        allp: all registered entries of partition; present: entries looked at
        which were found
        """
        limit = p.limit
        if not limit:
            raise Mismatch(f'event {_s(e)} missing from partition '
                           f'{p.idx} which has no limit')
        if not self.may_be_durable(e.id):
            raise Mismatch(f'not yet persisted event {_s(e)} missing from '
                           f'partition {p.idx}')
        key = (p.time(e), e.id)
        t_present = self.present_at.get((p.idx, e.id), -1)
        for f in present:
            if ((p.time(f), f.id) < key and
                    self.persisted_at.get(f.id, 1 << 62) < t_present):
                raise Mismatch(f'newer entry {_s(e)} removed before older '
                               f'{_s(f)} from partition {p.idx}')
        duration = limit.get('duration')
        if duration is not None:
            t = p.time(e)
            if t.s + t.us * 1e-6 < max_wall - duration + 1e-3:
                return
        if limit.get('size') is not None:
            return
        max_entries = limit.get('max_entries')
        n = sum(1 for f in allp if (p.time(f), f.id) >= key)
        if max_entries is None or n <= max_entries:
            raise Mismatch(
                f'entry {_s(e)} removed from partition {p.idx} while within '
                f'its limits ({n} entries not older, max wall {max_wall}, '
                f'limit {limit})')

    def record(self, p, allp, present, missing, t, t_done):
        """Record accepted observation (issued at t, done at t_done)"""
        removed = self.removed.setdefault(p.idx, {})
        for e in missing:
            removed.setdefault(e.id, t_done)
        for e in present:
            if removed.get(e.id, t) < t:
                raise Mismatch(f'removed event {_s(e)} of partition {p.idx} '
                               f'visible again')
            k = (p.idx, e.id)
            if self.present_at.get(k, -1) < t:
                self.present_at[k] = t
        n = sum(1 for e in allp if e.id not in removed)
        min_entries = (p.limit or {}).get('min_entries') or 0
        if missing and n < min_entries:
            raise Mismatch(f'at most {n} entries left in partition {p.idx}, '
                           f'minimum is {min_entries}')


def _s(e):
    return f'{tuple(e.id)} {"/".join(e.type)} ts={tuple(e.timestamp)} ' \
           f'src={tuple(e.source_timestamp) if e.source_timestamp else None}'


def fmt(events):
    return '[' + ', '.join(_s(e) for e in events) + ']'


def filter_timeseries(p, entries, q):
    """Entries satisfying query bounds (ignoring last id and max results)"""
    out = []
    for e in entries:
        if q.t_from is not None and e.timestamp < q.t_from:
            continue
        if q.t_to is not None and e.timestamp > q.t_to:
            continue
        st = e.source_timestamp
        if q.source_t_from is not None and (st is None or
                                            st < q.source_t_from):
            continue
        if q.source_t_to is not None and (st is None or st > q.source_t_to):
            continue
        if q.event_types is not None and not any_matches(
                e.type, [tuple(i) for i in q.event_types]):
            continue
        out.append(e)
    return out


def tie_equal(p, result, expected, desc):
    """Same sequence up to order of events of different servers with the same
    primary time"""
    if len(result) != len(expected):
        return False
    i = 0
    n = len(expected)
    while i < n:
        t = p.time(expected[i])
        j = i
        while j < n and p.time(expected[j]) == t:
            j += 1
        a, b = result[i:j], expected[i:j]
        if any(p.time(e) != t for e in a):
            return False
        if sorted(a, key=lambda e: e.id) != sorted(b, key=lambda e: e.id):
            return False
        last = {}
        for e in a:
            prev = last.get(e.id.server)
            if prev is not None and ((e.id > prev) == desc):
                return False
            last[e.id.server] = e.id
        i = j
    return True


def check_latest(view, q, result):
    """Raises Mismatch"""
    if result.more_follows:
        raise Mismatch('more follows set on latest query')
    types = (None if q.event_types is None
             else [tuple(i) for i in q.event_types])
    expected = {t: c for t, c in view.latest.items()
                if types is None or any_matches(t, types)}
    got = {}
    for e in result.events:
        if e.type in got:
            raise Mismatch(f'type {e.type} returned twice')
        got[e.type] = e
    for t, e in got.items():
        if t not in expected:
            raise Mismatch(f'unexpected event {_s(e)}')
        if e not in expected[t]:
            raise Mismatch(f'got {_s(e)} {e.payload} instead of '
                           f'{fmt(expected[t])} {expected[t][0].payload}')
    for t in expected:
        if t not in got:
            raise Mismatch(f'missing latest event {fmt(expected[t])}')


def check_timeseries(view, q, result, order_desc, retention, max_wall):
    conf = view.conf
    types = (None if q.event_types is None
             else [tuple(i) for i in q.event_types])
    p = conf.find_partition(q.order_by.name, types)
    events = list(result.events)
    if p is None:
        if events or result.more_follows:
            raise Mismatch('result from not existing partition')
        return None
    limit = conf.max_results
    if q.max_results is not None and q.max_results < limit:
        limit = q.max_results
    if len(events) > limit:
        raise Mismatch(f'{len(events)} results, limit is {limit}')
    if result.more_follows and len(events) != limit:
        raise Mismatch(f'more follows with {len(events)} of {limit} results')
    allp = view.sorted_part(p)
    if order_desc:
        allp = allp[::-1]
    expected = filter_timeseries(p, allp, q)
    alternatives = [expected]
    if q.last_event_id is not None:
        idx = next((i for i, e in enumerate(allp)
                    if e.id == q.last_event_id), None)
        if idx is None:
            alternatives = [[]]
        else:
            sentinel = allp[idx]
            # ties between servers may be in either order
            after = [e for i, e in enumerate(allp) if i > idx]
            alternatives = [filter_timeseries(p, after, q)]
            if sentinel not in expected or p.limit:
                # position is not found: nothing can be deduced from result
                alternatives.insert(0, [])
    error = None
    for expected in alternatives:
        try:
            return (p, allp) + _check_ts_list(
                p, allp, q, events, result.more_follows, expected, limit,
                order_desc, retention, max_wall)
        except Mismatch as e:
            error = e
    raise error


def _check_ts_list(p, allp, q, events, more, expected, limit, desc,
                   retention, max_wall):
    """Returns present and missing events"""
    if not p.limit:
        want = expected[:limit]
        # a tie group can be cut by the limit: any of its events is fine
        if (not tie_equal(p, events, want, desc) and
                not _tie_cut_equal(p, events, expected, limit, desc)):
            raise Mismatch(
                f'query {q}: got {fmt(events)}, expected {fmt(want)} '
                f'(of {len(expected)})')
        if more != (len(expected) > limit):
            raise Mismatch(f'query {q}: more follows {more} with '
                           f'{len(expected)} matching events, limit {limit}')
        return events, []
    ids = {e.id for e in events}
    by_id = {e.id: e for e in expected}
    for e in events:
        if by_id.get(e.id) != e:
            raise Mismatch(f'query {q}: unexpected event {_s(e)}')
    if len(ids) != len(events):
        raise Mismatch(f'query {q}: duplicate event')
    present = [e for e in expected if e.id in ids]
    if not tie_equal(p, events, present, desc):
        raise Mismatch(f'query {q}: wrong order {fmt(events)}')
    if more:
        last = max(i for i, e in enumerate(expected) if e.id in ids)
        last_t = p.time(expected[last])
        looked = [e for e in expected[:last] if p.time(e) != last_t]
        if len(expected) <= len(events):
            raise Mismatch(f'query {q}: more follows without more events')
    else:
        looked = expected
    missing = [e for e in looked if e.id not in ids]
    for e in missing:
        try:
            retention.judge(p, allp, e, present, max_wall)
        except Mismatch as m:
            raise Mismatch(f'query {q}: got {fmt(events)}: {m}')
    return events, missing


def _tie_cut_equal(p, events, expected, limit, desc):
    if len(events) != limit or len(expected) <= limit:
        return False
    t = p.time(expected[limit - 1])
    head = [e for e in expected[:limit] if p.time(e) != t]
    if not tie_equal(p, events[:len(head)], head, desc):
        return False
    group = [e for e in expected if p.time(e) == t]
    tail = events[len(head):]
    want = len(set(e.id for e in tail))
    if want != len(tail) or any(e not in group for e in tail):
        return False
    # per server prefix of the group
    for server in {e.id.server for e in group}:
        g = [e for e in group if e.id.server == server]
        t_ = [e for e in tail if e.id.server == server]
        if t_ != g[:len(t_)]:
            return False
    return True


def check_server(view, q, result, classify, max_results=4096):
    """classify(event) -> 'must', 'may' or 'no'"""
    events = list(result.events)
    limit = max_results
    if q.max_results is not None and q.max_results < limit:
        limit = q.max_results
    more = result.more_follows
    if len(events) > limit or (more and len(events) != limit):
        raise Mismatch(f'query {q}: {len(events)} results, more {more}')
    prev = None
    for e in events:
        if e.id.server != q.server_id:
            raise Mismatch(f'query {q}: other server\'s event {_s(e)}')
        if prev is not None and e.id <= prev:
            raise Mismatch(f'query {q}: not in id order: {fmt(events)}')
        if q.last_event_id is not None and e.id <= q.last_event_id:
            raise Mismatch(f'query {q}: event {_s(e)} not after last id')
        if view.events.get(e.id) != e:
            raise Mismatch(f'query {q}: unexpected event {_s(e)}')
        if classify(e) == 'no':
            raise Mismatch(f'query {q}: event {_s(e)} must not be visible')
        prev = e.id
    ids = {e.id for e in events}
    rest = False
    for e in sorted(view.events.values(), key=lambda e: e.id):
        if e.id.server != q.server_id or e.id in ids or (
                q.last_event_id is not None and e.id <= q.last_event_id):
            continue
        c = classify(e)
        if more and e.id > prev:
            if c != 'no':
                rest = True
            continue
        if c == 'must':
            raise Mismatch(f'query {q}: event {_s(e)} missing, got '
                           f'{fmt(events)}, more {more}')
    if more and not rest:
        raise Mismatch(f'query {q}: more follows without more events')
