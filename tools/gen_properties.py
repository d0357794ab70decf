#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that ids, titles and anchors are edited in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})
Q="internal/queue/queue.go"; HK="internal/queue/queue_housekeeper.go"; MC="internal/queue/cache/memory_cache.go"
RC="internal/queue/cache/redis_cache.go"; RS="internal/queue/cache/redis_cache_scripts.go"; MS="internal/queue/storage/memory_storage.go"
MG="internal/queue/storage/mongo_storage.go"; SV="internal/service/deckard_service.go"; SC="internal/queue/score/score.go"
DT="internal/dtime/deckard_time.go"; AU="internal/audit/audit.go"; CF="internal/config/"; MSG="internal/queue/message/message.go"
MAIN="internal/cmd/deckard/main.go"; SH="internal/shutdown/shutdown.go"; MET="internal/metrics/"
GRPC="gRPC service methods of the server"
p("C01","A pulled message is leased to one consumer at a time",
  "After a pull has returned a message, no other pull returns that message until it has been acked or nacked (and any requested lock has elapsed), its ack deadline has passed, or it was removed and added again. A single pull never returns the same message twice. This holds for any number of concurrent consumers and server instances on the same backends.",
  ["schedules","histories"],"every interleaving of concurrent pulls, acks, nacks, adds, removes and housekeeper runs, on the in-memory and the Redis-backed engines",
  "Tests pull from one goroutine at a time with a handful of messages; exclusivity is a statement about every interleaving and every history of lease, release, timeout and re-add.",
  [Q,MC,RC,RS,HK],[("atomic move from the available to the processing set","cache PullMessages / pull script"),("presence test over all sets before inserting","cache Insert / add script")],[GRPC])
p("C02","Pull returns the best-priority available messages, as many as asked for",
  "A pull for n messages (n<=0 means 1, n>1000 means 1000) returns exactly min(n, number of available matching messages) of them, and no available matching message that is left behind has a better (lower) priority score than one returned. Messages in the response are ordered by ascending score.",
  ["histories","inputs"],"every history of adds/acks/nacks/unlocks/timeouts that produced the current scores, every amount, ties included",
  "The priority order depends on the whole history of score changes through adding, requeueing, unlocking, timing out; tests use a few hand-made sequences.",
  [SV,Q,MC,RS],[("amount clamp","service Pull"),("ordered sets","cache PullMessages"),("sort by score","queue Pull")],[GRPC])
p("C03","Score filters select exactly the messages inside the requested window",
  "A pull with a minimum and/or maximum score returns only messages whose priority score lies inside the inclusive window (0 means no bound, values outside 0..2^53 are capped; the deprecated age filter means a maximum of now minus the filter when no maximum is given), and it returns as many as the amount allows even when non-matching messages have better priority. Messages outside the window keep their score and stay available.",
  ["inputs","histories"],"every queue content and every combination of bounds, including negative, zero, over-large and inverted bounds",
  "The existing tests check the bound-normalising helpers and single filters; the interaction of window, amount and queue content is unbounded.",
  [SV,SC,MC,RS],[("bound normalisation","score.GetPullMinScore / GetPullMaxScore"),("filtering while popping","memory PullMessages / pull script")],[GRPC])
p("C04","Unacknowledged messages come back after their ack deadline, never before",
  "A pulled message that is neither acked nor nacked becomes available again with the best priority (score 0) once its ack deadline (the requested milliseconds, 5 minutes when 0) has passed and the periodic timeout run executes, and it is not made available by that run any earlier. One run returns every message whose deadline passed (up to 1000 per queue).",
  ["histories","inputs"],"every deadline value and unit, any number of in-flight messages with mixed deadlines, any sequence of clock advances and timeout runs",
  "Tests sleep for one or two concrete durations with one message; mixed deadlines, the default and the boundary instant are not reachable that way.",
  [MC,RC,RS,HK,Q],[("deadline stored with the processing entry","cache PullMessages"),("deadline scan","cache TimeoutMessages; ProcessTimeoutMessages")],[GRPC,"periodic timeout task"])
p("C05","A locked message stays unavailable until its lock time has elapsed, then returns",
  "A message acked or nacked with a lock time is not returned by any pull before that many milliseconds have passed, and the first unlock run after that makes it available with the requested score, or without one with the unlock moment's timestamp (ack) or 0 (nack). One unlock run returns every due message of every queue (up to 1000 per queue and lock kind) and no other.",
  ["histories","inputs"],"every mix of ack- and nack-locked messages over several queues with different lock times and scores, any clock advances and unlock runs",
  "Existing tests lock one message at a time; several due messages in one run, several queues and mixed kinds are histories they do not contain.",
  [MC,RC,RS,HK,SV,Q],[("lock sets with release time and remembered score","cache LockMessage / lock script"),("unlock scan","cache UnlockMessages; ProcessLockPool")],[GRPC,"periodic unlock task"])
p("C06","Ack and nack requeue a message with the requested or default priority",
  "An ack without lock makes the message available with the requested score, or when none is given with the current timestamp in milliseconds minus the requested score subtraction; a nack without lock makes it available with the requested score, or 0 when none is given. Requested and computed scores are capped to 0..2^53, and the score later reported for the message is the one it was requeued with.",
  ["inputs","histories"],"every score and subtraction value (negative, fractional, over-large), any moment, any queue content",
  "Tests check a few values at service level against mocks; the effective order and the reported score need the whole stack for all values.",
  [SV,Q,MC,RS,MS,MG],[("score computation","service Ack/Nack"),("requeue","queue Ack/Nack, cache MakeAvailable")],[GRPC])
p("C07","Acking or nacking a message that is not in flight changes no availability",
  "An ack or nack of a message that is not currently being processed (unknown, available, locked, already acked, timed out or removed) reports success=false, does not make the message available, does not lock or unlock it, and does not change the priority with which it will be delivered. Exactly one of several concurrent acks/nacks of one delivery reports success.",
  ["histories","schedules"],"every state a message can be in when a late, duplicated or concurrent ack/nack arrives",
  "Late and duplicate acknowledgements arise from timing (deadline expiry, retries by clients); tests cover one or two of these states.",
  [Q,MC,RS],[("remove from processing set decides","cache MakeAvailable / LockMessage, move and lock scripts")],[GRPC])
p("C08","Every priority score is kept within 0 and 2^53",
  "Whatever score, score subtraction, filter bound or lock time clients send, the score with which any message is queued or reported lies between 0 and 9007199254740992. A requested score of 0 on add means the current timestamp in milliseconds, a negative one means 0, larger ones mean the maximum.",
  ["inputs"],"all doubles incl. negative, fractional, huge, infinite and NaN, for add, ack, nack, on every path that sets a score",
  "Unit tests cover the two helper functions at a few points; the guarantee spans every path that writes a score.",
  [SC,SV,Q,HK],[("score.GetAddScore","internal/queue/score/score.go"),("clamping in ack and recovery","service Ack; RecoveryMessagesPool")],[GRPC])
p("C09","An added message is never lost or duplicated in the queue",
  "Every message whose add succeeded and which was not removed, expired or evicted is at every moment in exactly one of the states available, being processed or locked, and is eventually delivered again if pulls and housekeeper runs continue; Count includes it. No sequence of operations duplicates it or resurrects a removed one.",
  ["histories","schedules"],"every sequence and interleaving of adds, pulls, acks, nacks, locks, unlocks, timeouts and removes over several queues",
  "Loss shows only after particular multi-step histories or interleavings; a test samples a few fixed ones and never asks whether a message is still reachable at the end.",
  [Q,MC,RC,RS,MS,MG,HK],[("moves between sets are atomic","cache operations / Lua scripts"),("storage is written before the cache","service Add; queue Ack/Nack/Remove")],[GRPC])
p("C10","Re-adding an existing message updates its content but not its place in the queue",
  "Adding a message whose id already exists in its queue replaces its content and expiry and is counted as updated, while its score, availability state, lease or lock, diagnostics and breakpoint stay as they were; new ids are counted as created. created plus updated equals the number of messages in an accepted request.",
  ["histories","inputs"],"re-adds in every message state, mixed batches of new and existing ids, duplicates within a batch",
  "Tests re-add a message in one state (available); the state of the target and the batch composition are unbounded.",
  [SV,MS,MG,MC,RS],[("upsert by id and queue","storage Insert"),("skip ids present in any set","cache Insert / add script")],[GRPC])
p("C11","A removed message disappears everywhere and nothing else does",
  "Removing ids from a queue (by request or together with an ack/nack) makes exactly those messages of that queue unavailable, uncounted and not found, whatever state they are in, and reports how many were stored and how many queue entries were dropped; other ids and other queues are untouched. An id added again later behaves as a new message.",
  ["histories","inputs"],"removal in every message state, any id lists (unknown, duplicate, many), in every position of a history, over several queues",
  "Tests remove available messages; removal of leased and locked messages followed by late acks, unlocks or re-adds is a history question.",
  [Q,SV,MS,MG,MC,RC,RS],[("storage then cache removal","queue Remove"),("removal from all sets","cache Remove / remove script"),("removal with ack/nack","service removeMessageFromAckNack")],[GRPC])
p("C12","Messages expire by TTL only when due, timeless ones never",
  "A message is deleted by the periodic TTL run if and only if its expiry (add or latest re-add time plus TTL minutes) is at or before the run's time (a run deletes up to 10000 messages); timeless messages are not deleted, whatever TTL they carry. Deletion removes it from the queue in every state, and messages that have not expired survive.",
  ["histories","inputs"],"every TTL value including zero, negative and very large, re-adds that change the TTL, any clock advance and run times",
  "Tests use one or two TTL values; boundaries, overflow, TTL changes on re-add and runs in every state are not sampled.",
  [SV,HK,MS,MG],[("expiry computation","service Add"),("expiry filter","storage Find with expiry; RemoveTTLMessages")],[GRPC,"periodic TTL task"])
p("C13","Queues over their configured maximum are trimmed to it, oldest expiry first",
  "After a max-elements run every queue with a configured positive maximum holds at most that many messages, the run deletes only the excess, and the messages deleted are those closest to expiry (for equal expiry the oldest). Queues at or below their maximum or without one lose nothing.",
  ["histories","configurations"],"every queue population, mix of expiries (already expired included) and configured maximum, several queues",
  "The tests check one queue with distinct expiries; equal expiries, expired-but-present messages and several configurations are not covered.",
  [HK,MS,MG],[("count and excess","removeExceedingMessagesFromQueue"),("sorted find","storage Find")],[GRPC,"periodic max-elements task"])
p("C14","Queue configuration edits take effect and read back",
  "On one server instance, after an edit with a non-zero maximum succeeds, reading that queue's configuration returns it (negative values read back as 0, meaning unlimited), an edit with 0 changes nothing, and other queues' configurations are unaffected. A queue never configured reads as 0.",
  ["histories","inputs"],"any sequence of reads and edits of several queues interleaved with the local configuration cache",
  "The local read cache makes the outcome depend on the history of reads and edits; tests look at single transitions.",
  ["internal/queue/queue_configuration_service.go",MS,MG,SV],[("read-through cache with invalidation on edit","DefaultQueueConfigurationService")],[GRPC])
p("C15","After the cache is lost every stored message becomes deliverable again",
  "When the queue cache starts empty, repeated recovery runs make every message stored at that moment available with its stored score capped to the valid range, without disturbing messages added, leased or locked in the meantime, and then report completion and stop. This holds for any number of messages and when a run is interrupted at any point and resumed by another instance.",
  ["crash_points","histories","fault_sequences"],"every storage content and size around the page size, every interleaving with client operations, every crash or backend error between two backend steps of recovery",
  "Tests run recovery uninterrupted on a small storage; crash points between pages and concurrent client activity are not explored.",
  [HK,RC,MC,MS,MG],[("persisted breakpoints","RecoveryMessagesPool, tryToStartRecovery"),("insert skips present ids","cache Insert")],["recovery task",GRPC])
p("C16","Deletion tasks pause while recovery runs and work again afterwards",
  "While a cache recovery is in progress, TTL and max-elements runs delete nothing, and once recovery has finished (or found nothing to recover) they run again, also when recovery was interrupted or failed at any step in between.",
  ["crash_points","fault_sequences","schedules"],"every point at which recovery can be interrupted or fail, followed by any deletion runs",
  "The existing tests set the recovery flag by hand; they do not explore failures inside recovery.",
  [HK,MAIN],[("recovery flag","isRecovering, RecoveryMessagesPool"),("shared task lock","backgroundTaskLocker")],["TTL, max-elements and recovery tasks"])
p("C17","Queues are isolated from one another",
  "An operation on one queue never returns, moves, locks, unlocks, updates, counts or deletes a message of another queue, for any queue names and message ids, including names or ids that contain separators, suffixes, glob characters or each other.",
  ["inputs","histories"],"every pair of queue names and ids over an alphabet of separator, suffix and pattern characters, every operation",
  "Key construction by concatenation makes collisions depend on the exact names; tests use plain names.",
  [MS,MC,RC,Q,HK],[("storage key of queue and id","memory storage getKey"),("Redis key names","activePool/processingPool/lockPool"),("queue listing","ListQueues")],[GRPC])
p("C18","Flush empties an in-memory server and never touches foreign data",
  "Flush on a fully in-memory server removes all messages, queue entries and recovery state so that it behaves like a fresh one; on a server with a persistent backend the request is refused and nothing changes. A cache flush on Redis deletes all keys of its own configured prefix and none of any other prefix or application.",
  ["histories","configurations"],"every reachable server state; every pair of cache prefixes, with foreign keys present",
  "Foreign data and unusual prefixes, and states with leased and locked messages, are not part of the tests.",
  [SV,Q,MC,MS,RC],[("memory-instance guard","service Flush"),("prefix-scoped deletion","redis Flush/deleteByPattern")],[GRPC])
p("C19","All backend combinations behave the same",
  "The same history of requests, clock advances and housekeeper runs produces the same responses (up to the order of equal scores) and the same final queue contents whichever cache engine (in-memory, Redis, Redis Cluster) and storage engine (in-memory, MongoDB) is configured.",
  ["configurations","histories"],"every history, replayed on each cache and storage engine",
  "Each engine has its own test file with its own cases; nothing compares them on the same histories.",
  [MC,RC,RS,MS,MG],[("two implementations of each interface","cache.Cache, storage.Storage")],[GRPC])
p("C20","Delivery diagnostics count acks and nacks exactly",
  "The diagnostics delivered with a message equal the number of acks and nacks recorded for it since it was added, with the consecutive-ack count reset by a nack and the consecutive-nack count reset by an ack; re-adding or failing to find a message does not change them. Concurrent acks and nacks are each counted exactly once.",
  ["histories","schedules"],"every sequence and interleaving of acks and nacks with pulls, re-adds and removals",
  "Counters drift only over longer mixed histories or concurrent updates.",
  [MS,MG,SV],[("counter updates","storage Ack/Nack"),("conversion","getMessageDiagnostic")],[GRPC])
p("C21","Messages are delivered with exactly the content that was added",
  "A pull or lookup returns a message with the id, queue, description (lookup), payload, string payload and metadata of its latest add and the breakpoint of its latest ack, whatever operations happened in between. A lookup of an unknown id reports not found, and a lookup without id or queue is rejected.",
  ["histories","inputs"],"any content (empty, unicode, nested payloads), any history of re-adds, acks, nacks, locks and recoveries",
  "Field mapping mistakes show only for particular fields in particular histories.",
  [SV,MS,MG,MSG],[("field copying","service Add/Pull/GetById; storage Insert")],[GRPC])
p("C22","Stale queue entries heal themselves; lagging storage reads lose nothing",
  "A queue entry whose message no longer exists in storage is never delivered and is dropped by the pull that meets it, while the other messages of that pull are delivered in order. A message that a lagging storage replica does not show yet is still found on the primary, delivered, and not dropped.",
  ["fault_sequences","histories"],"every subset of pulled messages being missing from the replica or from storage altogether",
  "Tests mock one missing id; combinations with replica lag and ordering are not covered.",
  [Q,MG],[("second lookup on the primary","queue Pull, storage Find with retry"),("cleanup","cache Remove in Pull")],[GRPC])
p("C23","A failing backend call is reported and never corrupts queue state",
  "When a storage or cache call fails during a request, the client gets an error (never a success response), the server keeps serving, and no message is lost: after the backends work again and deadlines pass, every message that was not removed is still delivered, and repeating the failed request is safe. Later housekeeper runs are unaffected by the failure.",
  ["fault_sequences"],"an error at every backend call of every request and housekeeper task, in every reachable state, followed by retries",
  "Tests inject an error in a single mocked call and check only the returned error, not the state left behind.",
  [Q,SV,HK,MS,MC,RC,MG],[("order of storage and cache writes","queue Add/Ack/Nack/Remove"),("error propagation","service methods")],[GRPC])
p("C24","Every queue event is audited once, in order, and none is lost at shutdown",
  "With auditing enabled each cache insertion, ack, nack, timeout, unlock, removal and missing-message event is sent to the audit store exactly once with its queue, id and reason, in the order the events happened, in batches of at most 200 that are sent at the latest when 200 events are pending or five minutes after the last one was recorded. On shutdown all recorded events are sent, and recording an event during or after shutdown never crashes the server.",
  ["histories","schedules"],"every number of events around the batch size, every moment of shutdown relative to recording",
  "There is no test for shutdown with buffered entries or for events recorded during shutdown.",
  [AU,Q,HK],[("buffered channel and sender","Store, StartSender, send")],["audit bulk requests"])
p("C25","Configuration values resolve from environment, aliases and defaults",
  "Each setting takes its value from its own environment variable if that sets a non-default value, otherwise from the first alias variable that does, otherwise its documented default; values parse to the setting's type, and an unparsable duration is ignored as if it were not set while an unparsable number is 0 and an unparsable boolean false. A programmatic override applies to the setting and its aliases until the configuration is reset.",
  ["configurations","inputs"],"every setting, every subset of its main and alias variables, valid, default-equal and malformed values",
  "Tests cover a few settings and variable subsets.",
  ["internal/config/viper_config.go","internal/config/config.go","internal/config/storage.go","internal/config/cache.go"],[("getWithFallback","internal/config/viper_config.go"),("Configure","internal/config/config.go")],["configuration getters"])
p("C26","Graceful shutdown finishes critical work before stopping background work",
  "Shutdown first refuses new requests while finishing those in progress, then waits for a running recovery, then flushes trace data and cancels the remaining background work, waits for it, and only then reports finished. Housekeeper loops stop at the next queue once shutdown has started, and no critical task is left running when shutdown reports finished.",
  ["schedules"],"every moment at which shutdown starts relative to running requests and tasks",
  "The tests start shutdown at one fixed moment.",
  [SH,MAIN,HK,"internal/trace/trace.go"],[("PerformShutdown ordering","internal/shutdown/shutdown.go"),("task scheduling","scheduleTask")],["process lifecycle"])
p("C27","Recovery, TTL and max-elements tasks never run at the same time",
  "Within a server process at most one of the recovery, TTL and max-elements tasks executes at any moment, each keeps being executed at its configured interval until shutdown, and a slow or failing task delays but never permanently stops the others.",
  ["schedules"],"every relative timing of the periodic tasks and their durations",
  "Mutual exclusion depends on task timing; tests run the tasks one by one.",
  [MAIN],[("shared task lock","backgroundTaskLocker, scheduleTask")],["housekeeper tasks"])
p("C28","Queue metrics report current totals and zero for vanished queues",
  "After a metrics run the exported totals and ages equal the current storage contents per queue prefix, queues that vanished are exported as 0 rather than with a stale value, and event counters grow by exactly the number of events.",
  ["histories"],"every sequence of runs over appearing, growing and vanishing queues",
  "Tests check a single merge.",
  [MET+"metrics_map.go",HK,MET+"metrics.go"],[("mergeData","internal/metrics/metrics_map.go"),("ComputeMetrics","internal/queue/queue_housekeeper.go")],["metrics endpoint"])
p("C29","Queue names split into prefix and suffix at the first double colon",
  "For every queue name the prefix is the part before the first '::' and the suffix everything after it; a name without '::' is all prefix. Metrics, audit entries and stored messages use this same split, so counting by prefix covers exactly the queues sharing it.",
  ["inputs"],"all strings over an alphabet with colons, including names starting or ending with the separator and repeated separators",
  "Tests cover a few names.",
  [MSG,"internal/queue/pool/pool.go",AU,SV],[("GetQueueParts","internal/queue/message/message.go")],["stored messages, audit entries, metrics labels"])
p("C30","All data of one queue lives in one Redis Cluster slot and all shards are covered",
  "On Redis Cluster every queue operation touches keys of a single hash slot for every accepted queue name, listing and flushing cover the queues of all shards exactly once, and a queue name containing braces is rejected by every add, pull, ack, nack and remove without changing any state. Configured key prefixes (none of which continues another one after a colon) separate deployments sharing one Redis.",
  ["inputs","configurations"],"all queue names over an alphabet with braces, colons and suffixes; any number of shards and distribution of queues; every prefix",
  "Cluster tests need a real cluster and use a few names.",
  [RC,RS],[("hash-tagged keys","activePool/processingPool/lockPool/lockPoolScore"),("fan-out","ForEachMaster in ListQueues/Flush"),("validateQueueName","redis_cache.go")],["Redis commands sent"])
p("C31","Time conversions keep milliseconds exactly",
  "Converting a time to milliseconds and back keeps every millisecond instant from 1970 up to the year 2262 unchanged and truncates sub-millisecond parts, so that scores, deadlines and locks computed from times are exact and ordered like the times. The controllable clock returns provided values in order and the last one thereafter, and resets to real time.",
  ["inputs"],"all instants in the supported range and all time zones, any sequence of clock mock uses",
  "Tests convert a few instants.",
  [DT,SC],[("TimeToMs/MsToTime/MsPrecision","internal/dtime/deckard_time.go")],["score and deadline values"])
p("C32","Counts and listings agree with the stored messages",
  "Count for a queue equals the number of its messages added and not yet removed, whatever state they are in, and counting without a queue covers all queues. Queue and prefix listings contain exactly the queues with stored messages, and pool listings exactly the queues with entries in that pool, each once.",
  ["histories","inputs"],"every storage and queue content reachable by any history; any queue names",
  "Listings are checked on fixed contents with simple names.",
  [SV,Q,MS,MG,MC,RC],[("Count/ListQueueNames/ListQueuePrefixes","storage"),("ListQueues","cache")],[GRPC])
p("C33","Invalid requests are rejected without side effects",
  "Adding a message without id or queue, acking or nacking without id or queue, looking up without id or queue, or editing a queue without a configuration fails or reports success=false, and leaves every stored message and queue entry as it was. An empty removal list is a no-op, and no request makes the server panic.",
  ["inputs","histories"],"every invalid field combination of every request, alone and inside batches, in every reachable state",
  "Tests send a few invalid requests and do not compare the state before and after.",
  [SV,Q,MS,MG,MC,RC],[("argument checks","service, queue and storage methods")],[GRPC])

p("C34","Transport security, size and connection limits and health are as configured",
  "The server uses TLS exactly when both a certificate and a key list are set; it presents a certificate matching the host name the client asked for (the first one otherwise) and admits clients exactly as the client authentication type and CA pool say; a refused client leaves no effect. It refuses to serve with lists of different lengths, unloadable or mismatched pairs, an unreadable or non-PEM client CA, an unknown authentication type or an occupied port. A message larger than the receive or send limit (both 4 MiB by default) fails with ResourceExhausted, and connections end when the configured idle time, age with grace, or unanswered keepalive says so and not before. The health service answers SERVING for the whole server and for its registered services, and NotFound for any other name.",
  ["configurations","inputs"],"every combination of certificate lists, key lists, CA lists and authentication type with every kind of client; sizes around every limit; every limit with idle, busy, mute and long calls",
  "Tests try a handful of correctly configured servers with one or two clients; who is admitted is a function of the whole configuration and the client.",
  [SV,"internal/config/service.go"],[("listener, credentials, keepalive and size options","service ServeGRPCServer, loadTLSCredentials, getGrpcKeepaliveParams"),("authentication types","getClientAuthType, loadClientCertPool")],["connections to the server","health service"])
p("C35","The server starts with exactly the configured backends or not at all",
  "At start the server connects to the configured storage and then to the configured cache, retrying a failed attempt after the configured delay up to the configured number of attempts (once when retries are disabled), and serves requests only after both have answered, using exactly the configured engines, database, collections and key prefix. With a backend that stays unavailable, an unknown engine name, a missing or malformed address or unusable TLS settings the process ends with a failure status without having served anything.",
  ["configurations","histories"],"every engine pair, every retry setting, every number of failing attempts of each backend, every kind of unusable setting",
  "No test starts the process with a backend that fails first and recovers later, or counts the attempts.",
  [MAIN,"internal/queue/storage/storage.go","internal/queue/cache/cache.go",MG,RC],[("engine selection","storage/cache CreateStorage/CreateCache"),("connection retry loop","NewMongoStorage, NewRedisCache"),("start-up sequence","main")],["server process"])
p("C36","The metrics page shows what happened, labelled as configured",
  "While the server runs, the metrics page is served at the configured port and path exactly when metrics are enabled, in the OpenMetrics format only when that is enabled, and an occupied metrics port does not keep the server from serving requests. Every series carries the configured resource attributes (dots become underscores) together with the service version and the service name, each exactly once; the target description carries no added labels and the durations of gRPC calls are left out. Histogram boundaries are the configured list, or the defaults when it is not set, empty or malformed. The acks and nacks per queue and reason, the empty pulls and the message totals per queue on the page equal what happened.",
  ["configurations","histories"],"every metrics setting, with well-formed and malformed attribute and boundary lists; any history of requests on several queues before and between two readings of the page",
  "Tests merge label maps and count a single event; no test reads the page of a running process, and process-wide settings are read once, at start.",
  [MET+"metrics.go",MET+"registry.go",MET+"metrics_map.go","internal/config/metrics.go"],[("labels and exporter","internal/metrics/metrics.go init, createDefaultMetrics"),("page","ListenAndServe"),("filtering","WrappedRegistry.Gather"),("boundaries","internal/config/metrics.go")],["metrics endpoint"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
