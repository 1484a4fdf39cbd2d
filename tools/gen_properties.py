"""Single source of /verif/properties.jsonl (run: python tools/gen_properties.py)."""
import json
import pathlib

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': files,
            'state': [{'name': n, 'meaning': m, 'where': w} for n, m, w in state],
            'mechanism': [{'name': n, 'where': w} for n, w in mech],
            'observe_at': observe,
            'hook_needed': None}})


B = 'src_py/hat/event/backends/lmdb/'
S = 'src_py/hat/event/server/'
E = 'src_py/hat/event/eventer/'

prop('C01', 'Persisted events survive any crash and restart',
     'Once the LMDB backend has reported events as persisted (its persisted notification was delivered, a flush '
     'requested after their registration returned successfully, or the backend/server was closed gracefully), every '
     'one of those events that the configured storage keeps is returned, with identical content, by the queries that '
     'cover it after any later crash and restart. The last event id reported for each server id after restart is '
     'never lower than that of any such persisted event.',
     ['crash_points', 'schedules', 'fault_sequences'],
     'every interleaving of registrations, periodic and explicit flushes, cleanup and queries, every crash instant '
     '(including inside a storage transaction), disk write failure and restart sequence',
     'The tests flush and close cleanly once; they never stop the process at an arbitrary storage operation, never fail '
     'a write, and never overlap registration with a flush in progress.',
     [B + 'backend.py', B + 'environment.py', B + 'systemdb.py', B + 'latestdb.py', B + 'timeseriesdb.py', B + 'refdb.py',
      S + 'main_runner.py'],
     [('single write transaction per flush', B + 'backend.py:_ext_flush'),
      ('flushed callback only after commit', B + 'backend.py:LmdbBackend._flush'),
      ('flush on close', B + 'backend.py:LmdbBackend._flush_loop')],
     ['backend flush()/query()/get_last_event_id()', 'persisted event notifications'],
     [('registered queue', 'registered but not yet flushed sessions', B + 'backend.py')])

prop('C02', 'Crash or write failure leaves a complete prefix of sessions on disk',
     'After a crash at any instant, or after storage writes start failing, the database opens again (also when the '
     'crash hit the very first start) and holds exactly the effect of some prefix, in registration order, of the '
     'sessions registered before: no session is present in part, no later session is present without an earlier one, '
     'and no event appears that was never registered. Latest, timeseries, server-order queries and the last event id '
     'all describe that same prefix.',
     ['crash_points', 'fault_sequences', 'schedules'],
     'every crash instant including inside start-up, flush and cleanup transactions, every failing storage call, '
     'every number of successive crashes',
     'Tests only reopen databases that were closed cleanly; no test kills the process inside a transaction or makes a '
     'storage call fail.',
     [B + 'backend.py', B + 'environment.py', B + 'common.py', B + 'refdb.py', B + 'timeseriesdb.py', B + 'systemdb.py'],
     [('one transaction for all stores', B + 'backend.py:_ext_flush'),
      ('database creation', B + 'environment.py:Environment._ext_init')],
     ['backend queries after restart', 'backend creation result'])

prop('C03', 'Latest query returns the newest stored event of every type',
     'At any moment, including while flushes are running and after restarts, a latest query returns exactly one event '
     'for every registered event type that matches both the query and the configured latest storage and conditions, '
     'and it is the greatest registered event of that type in natural event order, with its content unchanged. It never '
     'returns an event of a type that was not asked for.',
     ['histories', 'schedules', 'crash_points', 'inputs'],
     'every registration history from several servers, query, configuration, flush timing and restart',
     'Tests run a few fixed queries sequentially on one backend instance; none compares against a model under '
     'concurrent flushes, several server ids or restarts.',
     [B + 'latestdb.py', B + 'backend.py', 'src_py/hat/event/common/common.py'],
     [('in-memory latest map', B + 'latestdb.py:LatestDb.add'), ('reload', B + 'latestdb.py:ext_create')],
     ['backend query(QueryLatestParams)', 'eventer query'])

prop('C04', 'Timeseries query returns all and only the matching events, in order',
     'A timeseries query reflects every registration completed before it was issued, whether or not already flushed, '
     'and returns exactly the stored events of the first configured partition of the requested ordering that overlaps '
     'the query, which satisfy all its type and time bounds, in the requested order (ties between events of one server in id order), '
     'truncated to the result limit with a correct more-follows flag. Paging with the last returned event id visits '
     'every matching event exactly once.',
     ['histories', 'schedules', 'inputs', 'crash_points'],
     'every registration history (several servers, arbitrary source timestamps), every query, result limit and page '
     'size, issued at any point relative to flushes, cleanups, other queries and restarts',
     'Tests query either before or after a flush with few events and monotone source timestamps; none runs queries '
     'while a flush is in progress or mixes flushed and unflushed events with out-of-order source timestamps.',
     [B + 'timeseriesdb.py', B + 'environment.py', B + 'backend.py'],
     [('merge of stored and cached events', B + 'timeseriesdb.py:TimeseriesDb._query_partition'),
      ('filter', B + 'timeseriesdb.py:_Filter')],
     ['backend query(QueryTimeseriesParams)', 'eventer query'])

prop('C05', 'Server query lists a server\'s events in id order and never unpersisted ones',
     'A server query returns, in ascending id order and starting after the given last event id, exactly the events of '
     'that server id which the storage still keeps; with the persisted flag it returns only events already durable at '
     'that moment, and without it every completed registration is included. Following the more-follows flag with the '
     'last returned id enumerates them all exactly once.',
     ['histories', 'schedules', 'crash_points', 'inputs'],
     'every registration history, replacement of latest events, cleanup, page size, and timing relative to flushes and '
     'restarts',
     'Tests page through a small database with one server while nothing else runs.',
     [B + 'refdb.py', B + 'backend.py'],
     [('reference store', B + 'refdb.py:RefDb.ext_write'), ('cached part', B + 'refdb.py:_query_changes')],
     ['backend query(QueryServerParams)', 'eventer query'])

prop('C06', 'Retention removes only the oldest excess timeseries entries',
     'Automatic cleanup of a timeseries partition removes entries only from the oldest end in partition order, only '
     'while the partition exceeds its entry-count, age or size limit, and never below the configured minimum number of '
     'entries; partitions without limits, and the latest store, lose nothing. Once registration stops, persisted '
     'partitions come within their entry-count and age limits within a bounded number of cleanup periods, and '
     'events removed from every store disappear from server queries.',
     ['histories', 'schedules', 'configurations', 'crash_points'],
     'every registration history, limit configuration, clock behaviour and timing of cleanup relative to flush, query, '
     'crash and restart',
     'Tests exercise one limit at a time on a quiet backend and a real clock.',
     [B + 'timeseriesdb.py', B + 'refdb.py', B + 'backend.py'],
     [('cleanup', B + 'timeseriesdb.py:_ext_cleanup_partition'), ('reference cleanup', B + 'refdb.py:RefDb.ext_cleanup'),
      ('entry counter', B + 'timeseriesdb.py:_ext_inc_partition_count')],
     ['backend queries over time'])

prop('C07', 'Persisted notifications follow durability, once each and in order',
     'A backend announces every registered session as registered right away and as persisted exactly once, in '
     'registration order, with the session\'s events unchanged and unsplit; the persisted announcement happens only '
     'after the session is durable on disk. When a flush requested after a registration returns successfully, the '
     'persisted announcement of that registration has been delivered.',
     ['schedules', 'crash_points', 'fault_sequences'],
     'every interleaving of registrations with flushes, every crash or write failure during a flush',
     'Tests check callbacks for a single flush without crash, failure or concurrent registration.',
     [B + 'backend.py', S + 'main_runner.py'],
     [('registered queue swap', B + 'backend.py:LmdbBackend._flush')],
     ['registered/flushed callbacks', 'persisted eventer notifications', 'database content at that instant'])

prop('C08', 'Event identifiers are unique, ordered, and never reused',
     'Events created by one server have strictly increasing ids in registration order (a new session number for every '
     'session, instances counting from 1), all events of a session carry one timestamp, which is never less than that '
     'of the previous session even when the system clock is set back, and no id that was ever persisted is given to another event, across engine restarts, process crashes and restarts. The first event of '
     'every engine run is its STARTED event and, unless the process or the storage fails, the last is its STOPPED event '
     '(an engine closed before its first session completed may register STOPPED only).',
     ['schedules', 'crash_points', 'histories'],
     'every interleaving of concurrent registrations from clients, modules and internal sources, engine restarts, '
     'crashes at any instant and restarts, and system clock jumps',
     'Tests register sequentially on one engine and never restart from a database that crashed.',
     [S + 'engine.py', S + 'engine_runner.py', B + 'systemdb.py'],
     [('session counter', S + 'engine.py:Engine._create_session'), ('last id recovery', S + 'engine.py:create_engine')],
     ['events seen by subscribers and queries'])

prop('C09', 'Sessions are processed one at a time to the modules\' fixpoint',
     'Every registration request forms one session: sessions never overlap, each module sees session start, then its '
     'matching events exactly once in session order, then session stop, sequentially; events a module returns join the '
     'same session after those already created and are offered to every matching module until none is produced. The '
     'session is delivered to the backend and to subscribers as a whole, in that order, and only after processing '
     'ended.',
     ['schedules', 'programs', 'histories'],
     'every set of modules (with arbitrary processing delays), every concurrent mix of registrations',
     'Tests use one or two instantaneous modules and a single registering caller.',
     [S + 'engine.py', 'src_py/hat/event/common/module.py'],
     [('register loop', S + 'engine.py:Engine._register_loop'), ('processing', S + 'engine.py:Engine._process_sessions')],
     ['module callbacks', 'notified and queried events'])

prop('C10', 'A register response tells exactly what was registered',
     'A successful register response contains, position by position, the events created from that request (same type, '
     'source timestamp and payload), and exactly those were registered, once; a failure response, including any request '
     'made while the server is not operational, means nothing from the request was or will be registered. Requests '
     'issued one after another on one connection are registered in that order, and a request whose outcome is lost with its connection is '
     'registered at most once and never in part.',
     ['schedules', 'fault_sequences', 'inputs'],
     'every concurrent mix of clients, engine restarts and shutdowns, connection loss at any byte, server crash at any '
     'instant',
     'Tests send single requests over a healthy connection to a stable server.',
     [E + 'client.py', E + 'server.py', S + 'eventer_server.py', S + 'engine.py'],
     [('request/response', E + 'server.py:Server._process_msg_register'), ('register future', S + 'engine.py:Engine.register')],
     ['client register() results', 'notified and queried events'])

prop('C11', 'Subscribers get every matching event exactly once and in order',
     'While a client connection is open, the client is notified of exactly the events whose type matches its '
     'subscriptions (and server id filter, if any), each once, per originating server in id order, each session in a '
     'single notification that contains no other session\'s events and unchanged content; nothing else is ever '
     'delivered. A connection that stays open long enough is never skipped, no matter what other connections do.',
     ['schedules', 'fault_sequences', 'inputs'],
     'every set of concurrently connecting, disconnecting, stalling clients and their subscriptions, every network '
     'segmentation and delay',
     'Tests use one or two clients on loopback with instant delivery and no connection churn.',
     [E + 'server.py', E + 'client.py', S + 'eventer_server.py', S + 'main_runner.py'],
     [('notify', E + 'server.py:Server.notify_events'), ('filter', 'src_py/hat/event/common/subscription/pysubscription.py')],
     ['client events callback'])

prop('C12', 'Every client request ends: its own answer or a connection error',
     'Every register-with-response and query call on a client completes with the answer to that very request, or fails '
     'with a connection error once the connection is lost or closed; it never receives another request\'s answer and '
     'never hangs after the connection is gone. Cancelling a call affects neither its connection nor other calls. A dead, stalled or partitioned peer is detected and the connection '
     'closed on both sides within a bounded time.',
     ['schedules', 'fault_sequences'],
     'every interleaving of concurrent requests, cancellations, server restarts, half-open connections and partitions',
     'Tests never cut a connection with requests in flight in all orders and cannot wait out real ping timeouts.',
     [E + 'client.py', E + 'server.py', 'src_py/hat/event/adminer/client.py', 'src_py/hat/event/adminer/server.py'],
     [('conversation futures', E + 'client.py:Client._wait_conv_res'), ('receive loop cleanup', E + 'client.py:Client._receive_loop')],
     ['client register()/query() results'])

prop('C13', 'Clients always converge to the server\'s true status',
     'The status a connected client sees is one the server really had, in the order the server went through them '
     '(standby, starting, operational, stopping, standby) from the value given at connection, and once the server\'s '
     'status stops changing every open connection reports it within a bounded time. The server is operational only '
     'while an engine accepts registrations.',
     ['schedules', 'fault_sequences'],
     'every timing of connection establishment, engine start, restart and stop, network delays and stalls',
     'Tests change status on idle servers with already connected clients.',
     [E + 'server.py', E + 'client.py', S + 'engine_runner.py', S + 'eventer_server.py'],
     [('status notify', E + 'server.py:Server.set_status'), ('lifecycle', S + 'engine_runner.py:EngineRunner._run')],
     ['client status property and status callback'])

prop('C14', 'Client connects and disconnects are registered as events',
     'For every eventer connection that becomes established and is later closed while the same engine stays '
     'operational, exactly one CONNECTED event is registered before any event that connection registers and exactly one '
     'DISCONNECTED event after them, with the client\'s name in the event type; refused connections produce none. '
     'Engine modules see the names of connected clients: a client whose request is being processed is among them.',
     ['schedules', 'fault_sequences'],
     'every interleaving of connects, abrupt losses, graceful closes and registrations of several clients',
     'Tests check one connect and one graceful close.',
     [S + 'eventer_server.py', E + 'server.py'],
     [('connection events', S + 'eventer_server.py:EventerServer._on_connected')],
     ['registered events'])

prop('C15', 'Connections with a wrong token are refused and can do nothing',
     'A client presenting a token different from the server\'s configured token (or any token when none is configured) '
     'is refused with an error and closed within a bounded time, receives no events or statuses, and nothing it sends is '
     'registered or answered; a client presenting no token or the right token is accepted. Event servers synchronize '
     'only with servers announcing the same token when they have one configured.',
     ['schedules', 'inputs', 'configurations'],
     'every configuration of tokens, and messages sent before, during and after the handshake under arbitrary timing',
     'Tests check the handshake result only, not pipelined requests or later deliveries on a refused connection.',
     [S + 'eventer_server.py', E + 'server.py', S + 'eventer_client_runner.py'],
     [('token check', S + 'eventer_server.py:EventerServer._on_connected'),
      ('server filter', S + 'eventer_client_runner.py:_get_eventer_server_data')],
     ['connect results', 'registered events', 'data received on refused connections'])

prop('C16', 'Acknowledged notification waits for every live recipient',
     'When a server notifies events with acknowledgement requested, the call returns only after every connection to '
     'which the events were sent has either processed and acknowledged them or been closed, and it does return within a '
     'bounded time once all of those have happened, whatever other connections do in between.',
     ['schedules', 'fault_sequences'],
     'every set of clients with arbitrary processing delays, disconnecting or connecting at any time, and several '
     'notifications in progress',
     'Tests notify one client that acknowledges at once.',
     [E + 'server.py', E + 'client.py'],
     [('ack futures', E + 'server.py:Server._notify_events')],
     ['notify_events(with_ack=True) completion vs client callbacks'])

prop('C17', 'Redundant servers converge to the same events',
     'When connections between redundant servers last, every event one server has persisted is eventually registered by '
     'every other server, once, with identical content and in order, whatever crashes, restarts, partitions and '
     'reconnections happened before; events are never invented, altered or registered twice by synchronization.',
     ['fault_sequences', 'schedules', 'crash_points', 'histories'],
     'every history of registrations, crashes, restarts, partitions and heals of two or three servers',
     'Tests synchronize one prepared remote once, over a healthy loopback connection.',
     [S + 'eventer_client.py', S + 'eventer_client_runner.py', B + 'refdb.py', B + 'systemdb.py'],
     [('synchronization', S + 'eventer_client.py:EventerClient._synchronize'),
      ('duplicate suppression', B + 'backend.py:LmdbBackend.register')],
     ['queries on every server', 'registered notifications of every server'])

prop('C18', 'Synchronized history never has holes or split sessions',
     'At any instant, and after any crash, the events of a remote server that a server holds form a prefix (in session '
     'order) of what that remote persisted, apart from events the storage no longer keeps; whole sessions arrive in '
     'one piece, in order, also while the initial synchronization overlaps with new live events.',
     ['fault_sequences', 'schedules', 'crash_points'],
     'every interruption point of a synchronization, page boundary, overlap of queried and notified events, crash of '
     'either side',
     'Tests never interrupt a synchronization nor register while it is running at every point.',
     [S + 'eventer_client.py', B + 'refdb.py'],
     [('session grouping', S + 'eventer_client.py:EventerClient._synchronize')],
     ['registered notifications and queries on the synchronizing server'])

prop('C19', 'At most one redundant server is active',
     'As long as the monitor servers and the links between the redundant servers work, at most one of them runs an '
     'engine at any time, through crashes, restarts, rank or blessing changes and slow shutdowns; and whenever at least '
     'one is up and ready, one becomes operational within a bounded time.',
     ['schedules', 'crash_points', 'fault_sequences', 'configurations'],
     'every sequence of crashes, restarts, graceful stops and blessing changes of two or three servers, any processing '
     'delays',
     'No existing test runs two complete servers with a monitor.',
     [S + 'main_runner.py', S + 'engine_runner.py', S + 'eventer_client_runner.py'],
     [('blessing', S + 'main_runner.py:MainRunner._create_monitor_runner'),
      ('wait for remote', S + 'engine_runner.py:EngineRunner._wait_while_remote_active')],
     ['module lifetimes', 'server statuses'])

prop('C20', 'A server takes over only after its connected peers are in standby',
     'A server that is connected to another redundant server does not start its engine while that peer\'s last '
     'reported status is other than standby, and starts it within a bounded time after every connected peer reports '
     'standby or is gone (while the monitor keeps it blessed). After a graceful handover to a server which was '
     'synchronized with the previous one, the new engine starts with all events the previous one registered.',
     ['schedules', 'fault_sequences'],
     'every timing of peer statuses, connection losses, blessing and synchronization',
     'Tests toggle a mocked flag; none runs the handover with real timing.',
     [S + 'engine_runner.py', S + 'eventer_client_runner.py', S + 'eventer_client.py'],
     [('remote activity', S + 'eventer_client_runner.py:EventerClientRunner._set_client_status'),
      ('flush before standby', S + 'engine_runner.py:EngineRunner._close')],
     ['module lifetimes', 'statuses', 'queries at engine start'])

prop('C21', 'Synchronization state events report what really happened',
     'For each synchronization with a remote server, states CONNECTED, SYNCING (only if something was missing) and '
     'SYNCED are reported in that order, to the remote when it is operational and to the local engine when that is '
     'operational, with SYNCED carrying the number of events obtained by that synchronization; and each time the remote '
     'becomes operational the last state is reported again, with no count.',
     ['schedules', 'histories'],
     'every timing of synchronization relative to status changes and registrations',
     'Tests check one sequence with a prepared remote.',
     [S + 'eventer_client.py', S + 'engine_runner.py', S + 'main_runner.py'],
     [('synced events', S + 'eventer_client.py:EventerClient._set_synced')],
     ['events registered on both servers'])

prop('C22', 'Servers reconnect and resume after any outage',
     'After faults stop, every server that is up and discovers a peer through the monitor is connected to it and '
     'synchronized within a bounded time, however often connections, peers or the monitor were lost before; it never '
     'connects to itself; and no outage of a peer or of the links between servers makes a running server exit or lose '
     'the ability to serve its clients (only loss of its own monitor connection closes it).',
     ['fault_sequences', 'schedules', 'crash_points'],
     'every sequence of connection resets, refusals, partitions, peer crashes and restarts',
     'Tests have no network faults and no repeated reconnection.',
     [S + 'eventer_client_runner.py', S + 'main_runner.py'],
     [('client loop', S + 'eventer_client_runner.py:EventerClientRunner._client_loop')],
     ['synchronization progress after heal', 'server liveness'])

prop('C23', 'An eventer component runs exactly while connected to the active server',
     'A component that the monitor lets run has at most one runner at a time; every runner is created with an open '
     'client connected to the server that was active, and is closed within a bounded time when that connection '
     'closes or that server stops being the active one. Once faults stop and one server is active, the component has '
     'a runner connected to that server within a bounded time. If its runner closes by itself while connected, the '
     'component closes; losing the connection to an event server never closes the component.',
     ['fault_sequences', 'schedules'],
     'every timing of active server changes, connection losses, slow or failing runner creation and closing',
     'Tests use prompt runner callbacks and one server change on a healthy network.',
     ['src_py/hat/event/component.py', E + 'client.py'],
     [('server data loop', 'src_py/hat/event/component.py:Component._server_data_loop'),
      ('client loop', 'src_py/hat/event/component.py:Component._client_loop')],
     ['runner callback calls and runner lifetimes'])

prop('C24', 'Graceful shutdown is complete and bounded',
     'Closing a running server, at any moment, finishes within a bounded time as long as its clients and the network '
     'keep accepting what was sent to them; the modules are closed, a STOPPED event is registered last, every event registered before is persisted, outstanding requests '
     'end with an answer or an error, and the same configuration can be started again at once.',
     ['schedules', 'fault_sequences'],
     'every instant of shutdown relative to start-up, registrations, flushes, synchronization and client activity',
     'Tests close idle servers.',
     [S + 'main_runner.py', S + 'engine_runner.py', S + 'engine.py', B + 'backend.py'],
     [('stop order', S + 'main_runner.py:MainRunner._stop'), ('engine stop', S + 'engine.py:Engine._register_loop')],
     ['close duration', 'database content after restart'])

prop('C25', 'A faulty or slow client cannot take down the server',
     'No sequence of bytes, valid or invalid messages, stalls or abrupt disconnects on one connection closes the server, '
     'disturbs other connections\' requests and notifications beyond a bounded delay, or makes the server lose or '
     'corrupt events registered by others.',
     ['inputs', 'schedules', 'fault_sequences'],
     'every behaviour of misbehaving clients concurrent with well-behaved ones',
     'Tests contain no misbehaving client next to a working one.',
     [E + 'server.py', S + 'eventer_server.py', S + 'engine.py', B + 'backend.py', 'src_py/hat/event/common/encoder.py'],
     [('per-connection error handling', E + 'server.py:Server._connection_loop')],
     ['other clients\' results', 'server liveness'])

prop('C26', 'Engine restart and monitor ready reset take effect and lose nothing',
     'A restart requested by a module at any time stops the engine, passes through stopping, standby and starting and '
     'makes a fresh engine operational again within a bounded time, without losing events registered before and without '
     'any registration reported successful being lost; if the engine or a module closes by itself the server closes. A '
     'reset of the monitor ready flag makes the server give up its blessing and become ready again within a bounded '
     'time.',
     ['schedules', 'fault_sequences'],
     'every timing of restart and reset requests relative to registrations, start-up and other restarts',
     'Tests request one restart on an idle engine.',
     [S + 'engine_runner.py', S + 'main_runner.py', S + 'engine.py'],
     [('restart', S + 'engine_runner.py:EngineRunner._run'), ('ready reset', S + 'main_runner.py:MainRunner._run')],
     ['statuses', 'events', 'blessing state'])

prop('C27', 'Adminer requests are answered for themselves under any timing',
     'Each adminer get/set log configuration request is executed and answered with its own result or error, concurrent, '
     'failing and cancelled requests and other connections notwithstanding; a cancelled or failed request never breaks '
     'the connection, and when the connection is lost every pending request fails with an error within a bounded time.',
     ['schedules', 'fault_sequences'],
     'every interleaving of requests, cancellations, handler delays and failures, connection losses',
     'Tests issue one request at a time on a healthy connection.',
     ['src_py/hat/event/adminer/client.py', 'src_py/hat/event/adminer/server.py', S + 'adminer_server.py'],
     [('conversation futures', 'src_py/hat/event/adminer/client.py')],
     ['client results'])

prop('C28', 'Memory backend answers like the documented event store',
     'For every history of registrations the memory backend returns from latest, timeseries and server queries, from '
     'the last event id and through registered/persisted announcements exactly what the documented query semantics '
     'prescribe for the registered events, including events without source timestamp, ties, limits and pagination.',
     ['histories', 'inputs', 'schedules'],
     'every registration history from several servers interleaved with queries from several tasks',
     'There is no test of the memory backend beyond creation.',
     ['src_py/hat/event/backends/memory.py'],
     [('queries', 'src_py/hat/event/backends/memory.py:MemoryBackend.query')],
     ['backend interface'])

prop('C29', 'Database conversion, copy and query tools are complete and crash safe',
     'The database conversion, copy and query tools never modify their source. When a conversion or copy finishes, the '
     'destination contains every event, latest value, reference, partition, count and last event id the source holds '
     '(of every server; without the parts a copy was told to skip), in the current format and accepted by the backend; '
     'a copy or query made while a server is writing gives one consistent committed state. A run that is interrupted '
     'or fails at any point leaves the source intact so that a fresh run gives the complete result.',
     ['crash_points', 'fault_sequences', 'inputs', 'schedules'],
     'every source content, every crash or failing storage operation during a tool run, every commit of a server '
     'concurrent with it',
     'Tests convert one tiny database without interruption; copy and query are not tested.',
     [B + 'convert/main.py', B + 'convert/convert_v07_to_v09.py', B + 'convert/convert_v06_to_v07.py',
      B + 'manager/copy.py', B + 'manager/query.py'],
     [('conversion', B + 'convert/main.py:convert'), ('copy', B + 'manager/copy.py:copy'),
      ('query', B + 'manager/query.py:query')],
     ['destination content through the backend', 'tool output'])

prop('C32', 'Command line tool reports what really happened',
     'Each command of hat-event-manager does what its command line says: `register` exits with code 0 exactly when the '
     'server registered its event (once, with the given type, source timestamp and payload), and after exit code 1 the '
     'event is not registered (unless the user interrupts it); `query` (latest, timeseries, server) asks the server for exactly the query described by its '
     'options and prints exactly the answer; `subscribe` prints every event matching its options that is notified '
     'while its connection is open, exactly once and in order. A wrong client token is refused, every command ends '
     'within a bounded time after its connection is lost, and no failure of server or network makes a command report '
     'success.',
     ['inputs', 'schedules', 'fault_sequences', 'crash_points'],
     'every valid command line, every crash, restart, stall or partition during a command',
     'The command line tool has no tests.',
     ['src_py/hat/event/manager/main.py', 'src_py/hat/event/eventer/client.py'],
     [('register', 'src_py/hat/event/manager/main.py:register'), ('query', 'src_py/hat/event/manager/main.py:query'),
      ('subscribe', 'src_py/hat/event/manager/main.py:subscribe')],
     ['exit code and output of hat-event-manager', 'server events'])

prop('C33', 'Long-running processes release what ended',
     'An event server, eventer server, client or component which stays up while clients connect, are refused, close, '
     'crash or get cut off, calls are cancelled, engines restart and peers come and go, releases everything that '
     'belonged to what ended: after each repetition of the same load followed by quiet time it holds no more tasks, '
     'timers, connections or retained objects than after earlier repetitions, holds no connection whose other side is '
     'gone, and lists no client which is not connected.',
     ['histories', 'schedules', 'fault_sequences'],
     'every repeated sequence of connects, losses, refusals, cancellations, engine restarts and failovers',
     'Tests run for milliseconds and discard the processes; nothing measures what is left after an activity ends.',
     [E + 'client.py', E + 'server.py', 'src_py/hat/event/adminer/client.py', 'src_py/hat/event/component.py',
      S + 'engine.py', S + 'engine_runner.py', S + 'eventer_client_runner.py', S + 'eventer_server.py'],
     [('request futures', E + 'client.py:Client._wait_conv_res'),
      ('connection state', E + 'server.py:Server._connection_loop'),
      ('acknowledgements', E + 'server.py:Server._notify_events'),
      ('component runners', 'src_py/hat/event/component.py:Component._client_loop')],
     ['tasks, timers, connections and objects of processes', 'names of connected clients'])

prop('C30', 'Encoding of events and requests round-trips',
     'Encoding any event, register event, query or query result for the wire or for storage and decoding it gives back '
     'an equal value.',
     ['inputs'], 'every value',
     'Tests sample few values.',
     ['src_py/hat/event/common/encoder.py', B + 'common.py'],
     [('encoder', 'src_py/hat/event/common/encoder.py')], ['encoder functions'])

prop('C31', 'Subscription and event type matching algebra is exact',
     'Matching, union, intersection and disjointness of event type queries agree with the documented meaning of "?" and '
     '"*" for all event types.',
     ['inputs'], 'every set of queries and types',
     'Tests sample few pairs.',
     ['src_py/hat/event/common/subscription/pysubscription.py', 'src_py/hat/event/common/matches.py',
      'src_py/hat/event/common/collection/pytree.py'],
     [('subscription', 'src_py/hat/event/common/subscription/common.py')], ['subscription functions'])


if __name__ == '__main__':
    path = pathlib.Path(__file__).resolve().parent.parent / 'properties.jsonl'
    path.write_text(''.join(json.dumps(p) + '\n' for p in P))
