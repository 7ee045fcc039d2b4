"""Writes /verif/properties.jsonl (single source for the property texts)."""
import json, pathlib

P = []
L = 'src_py/hat/event/backends/lmdb/'
C = 'src_py/hat/event/common/'
S = 'src_py/hat/event/server/'
E = 'src_py/hat/event/eventer/'


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over, 'text': text},
        'why_tests_cant': why,
        'anchors': {'files': files,
                    'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in state],
                    'mechanism': [{'name': a, 'where': b} for a, b in mech],
                    'observe_at': list(observe), 'hook_needed': None}})


p('C01', 'Event type matching follows the documented query rules',
  "An event type matches a query type exactly when each query segment, in order, equals the event segment or is '?', with a trailing '*' standing for zero or more remaining segments and no segment of either left over otherwise. A subscription matches an event type exactly when at least one of the query types it was built from does, whatever their order, number or overlap, and the query types a subscription reports describe the same set of event types.",
  ['inputs'], "every event type (segments other than '?' and '*'), every finite list of query types with '*' only in last place",
  "The matching tests try a fixed table of pairs and the subscription tests need a C extension that is not built, so the tree that implements subscriptions is not exercised at all; the rule is over unboundedly long types and arbitrary overlaps of query types.",
  [C + 'matches.py', C + 'subscription/common.py', C + 'subscription/pysubscription.py', C + 'subscription/__init__.py'],
  [('matches_query_type', C + 'matches.py'), ('node_from_query_types/_add_query_type/node_to_query_types', C + 'subscription/common.py'), ('_matches', C + 'subscription/pysubscription.py')],
  [('subscription tree', 'set of matching event types', C + 'subscription/common.py Node')], ['matches_query_type', 'Subscription.matches', 'Subscription.get_query_types'])

p('C02', 'Subscription union, intersection and disjointness are exact set algebra',
  "For all subscriptions, an event type matches the union of them exactly when it matches at least one, and matches their intersection exactly when it matches all. Two subscriptions are reported disjoint exactly when no event type matches both, including for subscriptions that are themselves results of union or intersection. None of these operations changes what its operands match.",
  ['inputs', 'histories'], 'every pair (and every list) of subscriptions, including empty ones, ones with "?" and "*" and ones produced by earlier unions and intersections; every event type',
  "The subscription tests are skipped (they need the C extension) and list a few dozen examples; correctness is over all trees and over composition of operations.",
  [C + 'subscription/common.py', C + 'subscription/pysubscription.py'],
  [('union, intersection', C + 'subscription/common.py'), ('_isdisjoint', C + 'subscription/pysubscription.py')],
  [('subscription tree', 'set of matching event types', C + 'subscription/common.py Node')], ['Subscription.union', 'Subscription.intersection', 'Subscription.isdisjoint', 'Subscription.matches'])

p('C03', 'Event type collection returns exactly the values subscribed to a type',
  "After any sequence of additions and removals, looking up an event type yields exactly the values that have been added, since their last removal, with at least one subscription matching that event type, each value once. Adding or removing one value never changes which event types other values are found for.",
  ['inputs', 'histories'], 'every finite history of add and remove with arbitrary subscriptions and hashable values, every event type',
  "The collection tests are skipped with the C extension; the histories (re-adding, adding overlapping subscriptions for one value, removing and re-adding) are unbounded.",
  [C + 'collection/pytree.py', C + 'collection/pylist.py', C + 'collection/__init__.py'],
  [('PyTreeEventTypeCollection.add/remove/get, _get', C + 'collection/pytree.py')],
  [('_root', 'trie of query types with value sets', C + 'collection/pytree.py'), ('_value_nodes', 'reverse index value -> trie nodes', C + 'collection/pytree.py')], ['EventTypeCollection.get'])

p('C04', 'Natural order of events follows registration order',
  "For two events with different identifiers, a < b and a > b are never both true for the same operand order, a < b or a > b always holds, and no event is before or after itself. Events of one server compare by their identifiers; events of different servers compare by timestamp, and on equal timestamps the left operand is taken as the earlier one.",
  ['inputs'], 'every pair of events',
  "Unit tests compare a handful of events; the order decides which event is kept as the latest one, so every field combination matters.",
  [C + 'common.py'], [('Event.__lt__, Event.__gt__', C + 'common.py')], (), ['Event < Event', 'Event > Event'])

p('C05', 'Timestamps survive conversions, keep their order and stay normalised',
  "Converting a timestamp to bytes and back gives the same timestamp over the whole 64-bit second range, and comparing the byte strings gives the same order as comparing the timestamps. Converting to datetime or SBS data and back is also exact (datetime within its year range), converting to and from floating seconds is accurate to the float's resolution, and every timestamp produced from a float, a datetime or by adding seconds has microseconds in [0, 1000000).",
  ['inputs'], 'every timestamp with s in [-2^63, 2^63) and us in [0, 10^6); every float and datetime in range, negative ones included; every number of seconds added',
  "Tests sample a few values near zero and now; negative times, carry into whole seconds and extreme values are where sign and rounding errors live.",
  [C + 'encoder.py', C + 'common.py'], [('timestamp_to_bytes/from_bytes/to_float/from_float/to_datetime/from_datetime', C + 'encoder.py'), ('Timestamp.add', C + 'common.py')], (), ['timestamp_* functions', 'Timestamp.add'])

p('C06', 'Eventer messages decode to exactly what was encoded',
  "Every event, register event, query, query result, status and payload that is encoded for the Eventer protocol conforms to the published schema and decodes back to an equal value, for every combination of present and absent optional fields, payload kinds and query parameters.",
  ['inputs'], 'every event, register event, query parameters, query result, status and payload',
  "Protocol tests send a few representative messages; a dropped or swapped optional field only shows for the combination that uses it.",
  [C + 'encoder.py', 'schemas_sbs/eventer.sbs'], [('event_to_sbs/event_from_sbs', C + 'encoder.py'), ('register_event_to_sbs/from_sbs', C + 'encoder.py'), ('query_params_to_sbs/from_sbs, query_result_to_sbs/from_sbs', C + 'encoder.py'), ('event_payload_to_sbs/from_sbs, status_to_sbs/from_sbs', C + 'encoder.py')], (), ['*_to_sbs / *_from_sbs'])

p('C07', 'Stored keys and values decode exactly and keys sort like their contents',
  "For each table of the LMDB backend, every key and value decodes to exactly what was encoded. Encoded keys compare byte-wise in the order of the values they encode (server, session, instance; partition, timestamp, event id), different keys never share an encoding, and a stored set of event references decodes to the same set whatever its size or order.",
  ['inputs'], 'every 64-bit identifier, every timestamp in the 64-bit range, every event, every finite set of references, all nine tables',
  "Tests store a few small identifiers; range scans depend on byte order for all magnitudes, and reference sets are concatenated variable-length records.",
  [L + 'common.py'], [('db_defs', L + 'common.py'), ('_encode_*/_decode_*', L + 'common.py')], (), ['db_defs[...].encode_key/decode_key/encode_value/decode_value'])

p('C08', 'LMDB registration admits events only in increasing id and time order',
  "For each server identifier, the LMDB backend stores an event only if its identifier is greater than that of every event stored before it and its timestamp is not smaller, and if the configured conditions accept it; other events leave the stored state untouched. The last event identifier it reports for a server is always that of the last stored event (zero session and instance when there is none), independently per server, and registration returns the events it was given.",
  ['inputs', 'histories'], 'every history of register calls over any number of servers, with duplicated, reordered and rejected events',
  "Tests register short well-formed batches; skipping rules interact with several servers, storage filters and restarts.",
  [L + 'backend.py', L + 'systemdb.py'], [('LmdbBackend.register', L + 'backend.py'), ('SystemDb', L + 'systemdb.py')],
  [('last event ids / timestamps', 'per-server watermark', L + 'systemdb.py')], ['Backend.register', 'Backend.get_last_event_id', 'Backend.query'])

p('C09', 'Latest query returns the newest stored event of each requested type',
  "A latest query returns, for every event type that is requested (or all of them when no filter is given), that the latest store is configured to keep and for which an event has been stored, exactly one event: the greatest one in natural order. Request types may contain '?' and '*', more types may be requested than exist, and a type requested repeatedly is still answered once per stored event type.",
  ['inputs', 'histories'], 'every history of registrations and every request list',
  "Tests query a few types after a few registrations; the answer takes three different code paths depending on wildcards and on how many types are requested.",
  [L + 'latestdb.py', L + 'backend.py'], [('LatestDb.add/query', L + 'latestdb.py')], [('_events', 'event type -> latest event', L + 'latestdb.py')], ['Backend.query(QueryLatestParams)'])

p('C10', 'Timeseries query returns exactly the matching events in order',
  "A timeseries query is answered from the first configured partition with the requested ordering key whose subscription overlaps the requested types, and returns exactly the events stored there that satisfy all of its time, source time and type filters and the configured conditions. Results are ordered by the requested key, ascending or descending, and do not depend on whether events have already been flushed to disk; with no suitable partition the result is empty.",
  ['inputs', 'histories', 'schedules'], 'every history of registrations (several servers, any source timestamps) interleaved with flushes, and every query',
  "Tests register events in time order and flush everything or nothing; ordering and filtering must hold across any split between memory and disk and for source timestamps in any order.",
  [L + 'timeseriesdb.py', L + 'backend.py'], [('TimeseriesDb.add/query/_query_partition', L + 'timeseriesdb.py'), ('_ext_query_partition_events_range, _query_partition_changes, _Filter', L + 'timeseriesdb.py')],
  [('_changes', 'registered but not yet flushed events', L + 'timeseriesdb.py')], ['Backend.query(QueryTimeseriesParams)'])

p('C11', 'Timeseries paging walks the whole result without gaps or repeats',
  "A timeseries query with a result limit returns at most that many events, being the first ones of the unlimited result, and says more follow exactly when some were left out. Repeating the query with the last received event identifier continues with the next event, so that pages concatenate to the unlimited result, across memory and disk and for any page size of at least one.",
  ['inputs', 'histories'], 'every stored history, every query, every page size including sizes above the server maximum',
  "Tests check a single limit on one small data set; off-by-one errors depend on where the page boundary falls relative to the flush boundary.",
  [L + 'timeseriesdb.py'], [('_Filter.process/done', L + 'timeseriesdb.py'), ('TimeseriesDb._query_partition', L + 'timeseriesdb.py')], (), ['Backend.query(QueryTimeseriesParams).more_follows'])

p('C12', 'Server query returns a server\'s stored events in identifier order',
  "A server query returns the events of that server which are still held in the latest or timeseries storage, with identifiers greater than the given last identifier, in increasing identifier order and each once; with the persisted flag, only events already flushed. At most the requested number is returned, more-follows is set exactly when some were left out, and asking for another server's last identifier is rejected.",
  ['inputs', 'histories', 'schedules'], 'every history of registrations, overwritten latest events, flushes and cleanups; every query',
  "Tests use one server and a handful of events; the answer merges reference records on disk with in-memory changes while latest events overwrite each other and cleanup removes others.",
  [L + 'refdb.py', L + 'backend.py'], [('RefDb.add/remove/query/ext_write', L + 'refdb.py'), ('_ext_query_events', L + 'refdb.py')], [('reference table', 'event id -> where the event is stored', L + 'refdb.py')], ['Backend.query(QueryServerParams)'])

p('C13', 'Cleanup removes only the oldest entries over the configured limits',
  "Cleanup of a limited partition removes entries strictly from the oldest end, stops as soon as the remaining entries satisfy the maximum-count and duration limits, never goes below the minimum-entries limit, and leaves every other partition untouched. The per-partition entry count always equals the number of stored entries, no more than the allowed number of removals happen in one pass, and each removed entry is also dropped from the event-id references.",
  ['inputs', 'histories'], 'every stored data set, every combination of limits, every current time and every per-pass bound',
  "Tests run single limits on one partition; combinations of limits, several partitions and partial passes are not covered.",
  [L + 'timeseriesdb.py', L + 'refdb.py', L + 'backend.py'], [('_ext_cleanup_partition, TimeseriesDb.ext_cleanup', L + 'timeseriesdb.py'), ('RefDb.ext_cleanup', L + 'refdb.py'), ('_ext_cleanup', L + 'backend.py')],
  [('partition counts', 'number of entries per partition', L + 'timeseriesdb.py')], ['stored tables after cleanup'])

p('C14', 'Flushed events survive close, restart and crash, all or nothing',
  "After a flush completes, reopening the same database answers latest, timeseries and server queries and last event identifiers exactly as before; closing the backend flushes what was still in memory. All tables change in one transaction, so after a crash at any point the reopened database shows the state of some completed flush, never a mixture.",
  ['histories', 'crash_points', 'fault_sequences'], 'every history of registrations and flushes, every point at which the process dies or a write fails',
  "Tests reopen after clean closes only; they cannot place a crash between table writes.",
  [L + 'backend.py', L + 'systemdb.py', L + 'latestdb.py', L + 'timeseriesdb.py', L + 'refdb.py', L + 'environment.py'],
  [('_flush/_ext_flush/_flush_loop', L + 'backend.py'), ('ext_write of each database', L + 'environment.py'), ('ext_create of each database', L + 'latestdb.py')], (), ['Backend.query and Backend.get_last_event_id after reopening'])

p('C15', 'Backend notifies each batch once on registration and once after flush',
  "Every registered batch is passed to the registered-events callback exactly once and to the flushed-events callback exactly once, in registration order. The flushed-events callback is called only after the transaction holding that batch has been committed, an explicit flush returns only after everything registered before it is committed and notified, and a flush on a closed backend reports that the backend is closed.",
  ['histories', 'schedules', 'fault_sequences'], 'every interleaving of register, flush, periodic flush and close',
  "Tests observe callbacks for a few sequential calls; registration during a running flush and close with pending data need specific schedules.",
  [L + 'backend.py'], [('register/_flush/_flush_loop/flush', L + 'backend.py')], [('_registered_queue', 'batches registered since last flush', L + 'backend.py')], ['registered/flushed callbacks', 'Backend.flush'])

p('C16', 'Database identity and partition numbering are stable',
  "Opening an LMDB database created by another version or with a different configured identifier fails, and otherwise records them. Each configured partition (ordering key and set of query types) keeps the number it was first given across any sequence of reopenings and configuration changes, and no two different partitions ever share a number.",
  ['histories', 'configurations'], 'every sequence of openings with arbitrary partition lists, versions and identifiers',
  "Tests reopen once with the same configuration; numbering must be stable over arbitrary configuration histories.",
  [L + 'systemdb.py', L + 'timeseriesdb.py'], [('_ext_validate_settings', L + 'systemdb.py'), ('_ext_init_partitions', L + 'timeseriesdb.py')], (), ['backend creation', 'TIMESERIES_PARTITION table'])

p('C17', 'Storage conditions are evaluated as configured',
  "An event satisfies the configured conditions exactly when every condition whose subscription matches its type accepts it: 'all' needs every nested condition, 'any' at least one, and a JSON condition requires a JSON payload whose selected data has the configured type and equals the configured value. Booleans are not numbers, and a missing data path behaves as null.",
  ['inputs', 'configurations'], 'every condition tree and every event',
  "Tests check individual condition kinds on sample payloads; nesting and type/value combinations are unbounded.",
  [L + 'conditions.py'], [('Conditions.matches, _AllCondition, _AnyCondition, _JsonCondition', L + 'conditions.py')], (), ['Conditions.matches', 'events accepted by Backend.register'])

p('C18', 'Engine assigns unique increasing ids, one timestamp and session per batch',
  "Every event the engine creates carries the local server identifier and an identifier greater than that of every earlier event of that server, continuing after the last one known to the backend also over restarts. All events of one registration batch, including those produced by modules while processing it, share one session number and one timestamp, with instance numbers 1, 2, 3, ... in order; each batch gets a new session.",
  ['histories', 'schedules'], 'every sequence of registrations by any sources with any modules, and every backend history',
  "Tests look at a few registrations; id uniqueness must hold for all module behaviours and restarts, since the backend silently drops events with non-increasing ids.",
  [S + 'engine.py'], [('_create_session/_create_event', S + 'engine.py')], [('_last_event_id', 'identifier of the last created event', S + 'engine.py')], ['events passed to Backend.register'])

p('C19', 'Modules process every matching event exactly once, in order, to a fixpoint',
  "Within a batch, each module is given every event matching its subscription exactly once, in the order the events were created, together with the source that registered it, including events produced by itself or other modules; processing continues until no module produces anything. All original and produced events, and nothing else, are registered with the backend in creation order, between the session start and stop notifications given to every module.",
  ['inputs', 'histories'], 'every set of modules with arbitrary subscriptions and outputs, every batch',
  "Tests use one or two modules with fixed answers; the order and completeness must hold for arbitrary feedback between modules.",
  [S + 'engine.py'], [('_process_sessions', S + 'engine.py')], (), ['Module.process calls', 'Backend.register argument'])

p('C20', 'Every engine registration is answered, with its own events, also on close',
  "A register call returns the events created from exactly its own register events, in the same order with type, source timestamp and payload preserved, or nothing when the backend rejected them; an empty call returns an empty list. When the engine closes, every call still waiting or queued fails instead of hanging, calls made afterwards fail, and a final engine STOPPED status event is registered as the engine's last event, as a STARTED event is its first. Modules created for an engine close with it, and an engine whose creation fails or is cancelled closes too.",
  ['schedules', 'histories', 'fault_sequences'], 'every interleaving of register calls, backend failures and close',
  "Tests register sequentially and close an idle engine; pending and queued calls at close time depend on the schedule.",
  [S + 'engine.py'], [('register/_register_loop/create_engine', S + 'engine.py')], [('_register_queue', 'pending registrations', S + 'engine.py')], ['Engine.register result'])

p('C21', 'Eventer server notifies each client exactly the events it asked for',
  "When events are notified, each connected client whose persisted flag equals that of the notification receives exactly those events that match its subscription and, if it gave one, its server identifier, in order and in one message; a client with no such event receives nothing. Status changes are sent to every connected client exactly when the status differs from the previous one.",
  ['inputs', 'histories', 'schedules'], 'every set of connected clients and every notification',
  "Tests connect one or two clients; the filter is a conjunction of four conditions for any number of clients.",
  [E + 'server.py', E + 'client.py'], [('notify_events/set_status/_notify_events', E + 'server.py'), ('_process_msg_events_notify', E + 'client.py')], [('_conn_infos', 'connected clients', E + 'server.py')], ['client events callback', 'client status callback'])

p('C22', 'Acknowledged notification returns only after every client processed it',
  "A notification sent with acknowledgement returns only when every client it was sent to has either acknowledged it, which a client does after its events callback finished, or disconnected. The disconnection of one client neither acknowledges nor fails the notification for the other clients.",
  ['schedules', 'fault_sequences'], 'every set of clients, every order of acknowledgements and disconnections',
  "Tests wait for one acknowledging client; the interesting schedules involve another client closing while acknowledgements are pending.",
  [E + 'server.py', E + 'client.py'], [('_notify_events/_connection_loop', E + 'server.py'), ('_process_msg_events_notify', E + 'client.py')], [('_conn_conv_futures', 'pending acknowledgements', E + 'server.py')], ['Server.notify_events'])

p('C23', 'Eventer client pairs every response with its request and fails on close',
  "Each register-with-response and query call returns the data of the response sent for that very request, whatever the order in which responses to concurrent requests arrive; a register failure is reported as no events. When the connection closes, every waiting call ends with a connection error, and calls on a closed connection fail the same way; requests without response never wait.",
  ['schedules', 'histories', 'fault_sequences'], 'every number of concurrent calls, order of responses and close point',
  "Tests issue one call at a time.",
  [E + 'client.py', E + 'server.py'], [('_wait_conv_res/_process_msg_register_res/_process_msg_query_res/_receive_loop', E + 'client.py'), ('_process_msg_register/_process_msg_query', E + 'server.py')], [('_conv_futures', 'pending requests', E + 'client.py')], ['Client.register', 'Client.query'])

p('C24', 'Event server accepts clients by token and registers only while operational',
  "A client that presents a token is accepted exactly when it equals the server's token, a client without token always is, and a rejected client learns so and gets no notifications. Register requests reach the engine, under the identity of the requesting connection, only while an engine is set and are answered as failure otherwise; queries always go to the backend. Connecting and disconnecting of each accepted client is registered as an eventer event carrying the local server id and client name whenever the engine is running.",
  ['inputs', 'histories', 'schedules'], 'every token combination, engine state and sequence of connections',
  "Tests cover single combinations of token and engine state.",
  [S + 'eventer_server.py', E + 'server.py'], [('_on_connected/_on_disconnected/_on_register/_on_query/set_status', S + 'eventer_server.py'), ('_connection_loop', E + 'server.py')], [('_engine', 'running engine or none', S + 'eventer_server.py')], ['connection init response', 'engine register calls'])

p('C25', 'Remote synchronisation registers every remote event once, in order',
  "After connecting to a remote server, all its persisted events following the last locally known one are registered with the local backend exactly once, in identifier order, followed by events notified meanwhile that were not part of the queried ones and by later notified events as they arrive. Events of one session are always registered together in one call, and the CONNECTED, SYNCING (only if anything was received) and SYNCED states are reported in that order, the last with the number of queried events.",
  ['schedules', 'histories', 'inputs'], 'every remote history, every paging of the answers and every interleaving of notifications with queries',
  "Tests answer with one or two pages; sessions split over page boundaries and notifications racing with queries need specific schedules.",
  [S + 'eventer_client.py'], [('_synchronize/_on_events/_set_synced', S + 'eventer_client.py')], [('_events_queue', 'notifications received while synchronising', S + 'eventer_client.py')], ['Backend.register calls', 'synced callback'])

p('C26', 'Local engine runs only while no remote server is active',
  "A remote server counts as active exactly while a connection to it reports a status other than standby; remote activity is announced whenever it changes. The engine runner creates the local engine only after no remote server is active, announces STARTING, OPERATIONAL, STOPPING and STANDBY in that order around each engine, hands the engine to the eventer server only while operational, and flushes the backend after the engine closed and before announcing STANDBY.",
  ['schedules', 'histories'], 'every sequence of remote status changes, connection losses, restarts and engine failures',
  "Tests step through one start and stop.",
  [S + 'engine_runner.py', S + 'eventer_client_runner.py'], [('_run/_close/_wait_while_remote_active', S + 'engine_runner.py'), ('_set_client_status/_client_loop', S + 'eventer_client_runner.py')], [('_remote_active_server_data', 'remote servers currently active', S + 'eventer_client_runner.py')], ['EventerServer.set_status calls', 'remote_active'])

p('C27', 'Only valid servers of the right group and token are connected to',
  "An event server connects to exactly those other components of its own monitor group whose published data holds a valid server id, address and token and, if it has a token configured, the same token; it never connects to itself. A component connects to the active (blessed) server of its server group only if that server's data is valid and its token equals the configured client token, if any.",
  ['inputs', 'configurations'], 'every monitor state with arbitrary component data',
  "Tests provide one or two well-formed components; published data is arbitrary JSON.",
  [S + 'eventer_client_runner.py', 'src_py/hat/event/component.py'], [('_get_eventer_server_data', S + 'eventer_client_runner.py'), ('_get_active_server_data/_active_server_filter', 'src_py/hat/event/component.py')], (), ['connections made by runner/component'])

p('C28', 'Memory backend answers queries over everything registered',
  "The memory backend keeps every registered event and answers latest, timeseries and server queries, limits, last-event continuation, orderings and the last event identifier of a server as specified for backends, over exactly those events; events without source timestamp never match source time filters and are not part of results ordered by source timestamp.",
  ['inputs', 'histories'], 'every history of registrations and every query',
  "The memory backend tests only create and close it.",
  ['src_py/hat/event/backends/memory.py'], [('MemoryBackend._query_latest/_query_timeseries/_query_server/get_last_event_id', 'src_py/hat/event/backends/memory.py')], [('_events', 'all registered events', 'src_py/hat/event/backends/memory.py')], ['Backend.query', 'Backend.get_last_event_id'])

p('C29', 'Administration calls return their own response and report errors',
  "Getting the log configuration returns what the server's provider returned and setting it applies exactly the given configuration; an error raised on the server reaches exactly the caller of that request as an error and leaves the connection usable. Concurrent calls each get their own response, a response to a call that was cancelled is ignored, and closing the connection fails all waiting calls.",
  ['schedules', 'inputs', 'fault_sequences'], 'every sequence of concurrent calls, cancellations, server errors and close points',
  "Tests make single successful and failing calls.",
  ['src_py/hat/event/adminer/client.py', 'src_py/hat/event/adminer/server.py', S + 'adminer_server.py'], [('Client._send/_receive_loop', 'src_py/hat/event/adminer/client.py'), ('Server._process_msg_get_log_conf/_process_msg_set_log_conf', 'src_py/hat/event/adminer/server.py')], [('_conv_msg_type_futures', 'pending requests', 'src_py/hat/event/adminer/client.py')], ['Client.get_log_conf', 'Client.set_log_conf'])

p('C30', 'Database conversion and copy preserve the stored events',
  "Converting a 0.7 database to the current format keeps every event, latest entry, partition, entry count, reference and last event id/timestamp, translating payloads, ordering keys and references one to one. Copying a database reproduces every table exactly, and with latest or timeseries skipped keeps precisely the other parts and only references to what was kept.",
  ['inputs'], 'every database content',
  "There are no tests for the converter and the database manager.",
  [L + 'convert/convert_v07_to_v09.py', L + 'convert/main.py', L + 'manager/copy.py'], [('_convert_*', L + 'convert/convert_v07_to_v09.py'), ('copy/_copy_*', L + 'manager/copy.py')], (), ['destination database tables'])

p('C31', 'Component runs one runner per connection to the active server',
  "A component is connected to the active server announced last and to nothing else, over one connection at a time made with the given name and arguments and asking for the notifications of that server unless another server identifier (or none) is given, and calls its runner callback once per connection with the component, the data of that server and the client. When the connection is lost, the active server changes or the component closes - also while the callback is running - the runner is closed, before the client if it was already running, no runner stays behind, and after a lost or failed connection another one follows after the configured delay. Only a runner that closes or fails while connected closes the component, and server status, events, monitor state and close requests reach the given callbacks.",
  ['schedules', 'histories', 'fault_sequences'], 'every sequence of monitor states, connection losses, connect failures and runner outcomes, at every await',
  "The test runs one component with one server and no failure.",
  ['src_py/hat/event/component.py'], [('Component._server_data_loop/_client_loop', 'src_py/hat/event/component.py'), ('Component._on_state/_create_monitor_runner', 'src_py/hat/event/component.py')], [('_server_data_queue', 'announced active servers', 'src_py/hat/event/component.py')], ['runner_cb calls', 'runner and client closing'])

p('C32', 'Server is assembled from its configuration and closes without losing events',
  "The server starts only when its configuration and those of its backend and modules are valid against their schemas, and hands every part the configuration, addresses, identifiers, tokens and parts meant for it: events the backend reports as registered are notified as not persisted and those reported as flushed as persisted, synchronisation states reach the engine runner and monitor states the eventer client runner. When any part closes the server closes, and however far it had started the engine runner (with the monitor component running it) and the eventer client runner close first, the backend is flushed before the eventer server closes, and the backend closes last. With a monitor it is announced ready, and after every reset requested by the engine not ready until the blessing token is withdrawn or the timeout passes, then ready again.",
  ['configurations', 'schedules', 'fault_sequences'], 'every configuration, every subset of started parts, every point at which a part fails, closes or is cancelled',
  "Tests start the server with one configuration and close it when everything works.",
  [S + 'main_runner.py', S + 'main.py'], [('MainRunner._start/_stop/_run', S + 'main_runner.py'), ('sync_main/async_main', S + 'main.py')], [('MainRunner._backend, _eventer_server, _engine_runner', 'started parts', S + 'main_runner.py')], ['part creation arguments', 'closing and flush order', 'monitor ready flag'])

M = 'src_py/hat/event/manager/'
p('C33', 'Event manager commands do exactly what their arguments ask for',
  "The event manager's register command registers exactly one event with the given type, source timestamp and payload, which is read in the given (or the file's) format from the given file or standard input, and fails exactly when the registration failed; its query command asks exactly the given latest, timeseries or server query (every valid argument, order and identifier being accepted) and prints the complete result; its subscribe command prints every notification of the given subscription, all event types when none are given. Every command makes one connection, with the given address, client name and token, and closes it however it ends.",
  ['inputs', 'fault_sequences'], 'every combination of arguments, every payload, result and notification, every point at which the connection fails or the command is cancelled',
  "There are no tests for the event manager.",
  [M + 'main.py', M + 'common.py'], [('main/create_argument_parser', M + 'main.py'), ('register/query/subscribe/_read_payload', M + 'main.py'), ('event_to_json/query_result_to_json', M + 'common.py')], (), ['requests received by the eventer server', 'standard output', 'exit code'])

p('C34', 'Database manager query prints exactly the selected stored entries',
  "A query of the database manager prints, in the order of the table, exactly those settings, last event identifiers, last timestamps, event references, latest events, partitions or timeseries events stored in the given database that match the given server, partition and event type filters, every one when no filter is given, and each with all its stored data. The database is only read.",
  ['inputs'], 'every database content, every combination of filters',
  "There are no tests for the database manager.",
  [L + 'manager/query.py', L + 'manager/common.py', L + 'manager/main.py'], [('query', L + 'manager/query.py'), ('_query_settings/_query_last_event_id/_query_last_timestamp/_query_ref/_query_latest/_query_partition/_query_timeseries', L + 'manager/query.py'), ('event_to_json', L + 'manager/common.py')], (), ['standard output'])

p('C35', 'Conversion of 0.6 databases preserves the stored events',
  "Converting a 0.6 database keeps every latest and timeseries event with its event type, timestamps and payload, only translated to the newer formats, and every partition and entry count, with events of the local server moved under its own identifier and those of other servers under theirs. The references of an event lead exactly to the rows it is kept in, and the last event recorded for each server is the greatest kept event of that server with its timestamp.",
  ['inputs'], 'every content of a 0.6 database, with events of any number of servers',
  "There are no tests for the converter.",
  [L + 'convert/convert_v06_to_v07.py', L + 'convert/v06.py', L + 'convert/v07.py', L + 'convert/convert_v07_to_v09.py', L + 'convert/main.py'], [('convert/_convert_latest/_convert_ordered/_update_ref_db/_update_system_db', L + 'convert/convert_v06_to_v07.py'), ('decode_*', L + 'convert/v06.py'), ('encode_*', L + 'convert/v07.py')], (), ['destination database tables'])

for x in P:
    assert len(x['title']) <= 80, (x['id'], len(x['title']))
    assert x['statement'].count('. ') <= 2, x['id']
out = pathlib.Path(__file__).parent.parent / 'properties.jsonl'
out.write_text(''.join(json.dumps(x) + '\n' for x in P))
print(len(P))
