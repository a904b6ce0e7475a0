#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the prose lives here so that it is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               observe_at=list(observe), hook_needed=hook)))

DT = "pkg/models/datatypes/"
QA = "pkg/models/api/common/v1/query_associated_action/"
QM = "pkg/models/api/common/v1/query_match_action/"
BT = "internal/datastructures/btree/"
BA = "internal/datastructures/btree_associated/"
OM = "internal/datastructures/btree_one_to_many/"
LK = "internal/locker/"
LI = "internal/limiter/"
WQ = "internal/willow/brokers/queues/"
WC = "internal/willow/brokers/queue_channels/"

p("C01", "Typed values have one consistent total order",
  "Any two typed values compare consistently: within a type the order is the natural order of the data, across types it is the order of the types, 'Any' sorts after every concrete value in the type-aware order and is equal to (never less than) everything in the matching order. The type-aware order is a strict total order (irreflexive, asymmetric, transitive, and two values are tied only when type and data are equal). A value passes range validation exactly when its type lies in the allowed range and its data is of the declared type.",
  ["inputs"], "every pair and triple of typed values of all 14 types, including extremes, and every allowed type range",
  "The unit tests compare a handful of hand-picked pairs; an order has to be consistent for every triple, since every tree search relies on it.",
  [DT + "encapsulated_value.go", DT + "data_types.go"],
  [("Less / LessMatchType / LessType / Validate", DT + "encapsulated_value.go")],
  observe=["EncapsulatedValue.Less", "EncapsulatedValue.LessMatchType", "EncapsulatedValue.Validate"])

p("C02", "Every valid object survives the wire unchanged",
  "Encoding any valid API object (typed value, key-value set, query, match query, lock, rule, override, counter, queue, item, ack, heartbeat) and decoding the result gives an object equal to the original, for every data type and every extreme of its range. An object that the client-side encoder accepts is also accepted by the server-side decoder.",
  ["inputs"], "all valid API objects over all data types, nestings and optional fields",
  "The tests round-trip a few fixed objects; precision or type loss shows only for specific values (large 64-bit integers, small floats, unusual strings, nested queries).",
  [DT, QA, QM, "pkg/models/api/"],
  [("MarshalJSON / UnmarshalJSON", DT + "encapsulated_value.go"), ("ObjectEncodeRequest / ModelEncodeRequest / *DecodeRequest / ModelEncodeResponse / ModelDecodeResponse", "pkg/models/api/")],
  observe=["pkg/models/api encode and decode helpers", "encoding/json of the models"])

p("C03", "Malformed input is rejected, never accepted and never fatal",
  "Whatever bytes arrive as the body of an API model, decoding ends in either a client error or an object that satisfies every documented validity rule of that model (required fields present, data types in range, limits and timeouts in range); it never panics. An object that breaks one of those rules is always rejected by validation.",
  ["inputs"], "arbitrary byte strings, mutated valid documents, and valid objects with any single rule broken",
  "Validation is tested one hand-written mistake at a time; the property needs every mistake at every position of arbitrarily nested objects.",
  ["pkg/models/api/", DT, "pkg/models/api/common/v1/"],
  [("Validate / ValidateSpecOnly of each model", "pkg/models/api/{locker,limiter,willow}/v1"), ("ObjectDecodeRequest / ModelDecodeRequest", "pkg/models/api/server.go")],
  observe=["pkg/models/api decode helpers", "Validate methods"])

p("C04", "The ordered tree behaves as a sorted map with range search",
  "For any sequence of creates, create-or-finds, finds, range searches, deletes and destroys, the tree answers as a sorted map from typed value to item would: each call visits exactly the entries whose key satisfies the comparison and lies in the allowed type range, each once, stops as soon as the visitor says so, reports emptiness correctly, and never loses or duplicates an entry, whatever the node size and even when a create callback declines to create. No call leaves the tree locked.",
  ["histories", "inputs", "configurations"], "all operation sequences over mixed-type keys, all node sizes, all visitor decisions",
  "Tests build trees of fixed shapes; rebalancing (splits, borrows, merges) has a combinatorial number of shapes and each search has lock hand-over that only some shapes exercise.",
  [BT + "threadsafe_b_tree.go", BT + "threadsafe_create.go", BT + "threadsafe_find.go", BT + "threadsafe_delete.go", BT + "threadsafe_destroy.go"],
  [("insert/split", BT + "threadsafe_create.go"), ("rotate/merge", BT + "threadsafe_delete.go"), ("findX/iterate", BT + "threadsafe_find.go")],
  state=[("root", "nodes of the tree", BT + "threadsafe_b_tree.go")],
  observe=["BTree interface"])

p("C05", "The ordered tree is safe under concurrent use",
  "Under any interleaving of concurrent creates, finds, range searches, deletes and destroys, each key behaves as an atomic map cell: a create succeeds exactly when the key is absent, a find sees an item that was really present during the call, a deleted item is gone, and nothing created and not deleted is ever missing. No operation deadlocks, panics or races.",
  ["schedules", "histories"], "all interleavings of up to 8 threads with overlapping keys",
  "The existing async tests only check that nothing crashes; lost updates and lock leaks need particular interleavings and an oracle over the history.",
  [BT + "threadsafe_create.go", BT + "threadsafe_find.go", BT + "threadsafe_delete.go", BT + "threadsafe_destroy.go"],
  [("node lock hand-over, destroying map", BT)], observe=["BTree interface"])

p("C06", "Tagged store maps each key-value set to exactly one item and id",
  "In the tagged store any set of key-values identifies at most one item: a create for an existing set is refused, a create-or-find runs exactly one of its callbacks, each stored item has a unique id which finds that item and only it, and deleting by key-values or by id removes that item and nothing else. A declined create or a refused delete leaves the store as it was.",
  ["histories", "inputs"], "all operation sequences over overlapping key-value sets of mixed types (subsets, supersets, same keys with other values)",
  "Tests use a few disjoint sets; the index shares nodes between overlapping sets, so mistakes show only for particular overlaps and orders.",
  [BA + "threadsafe_create.go", BA + "threadsafe_delete.go", BA + "threadsafe_destroy.go"],
  [("idNode index by key, value and size", BA)], observe=["BTreeAssociated interface"])

p("C07", "Queries return exactly the items that match",
  "A query over stored items (ids, per-key comparisons =, !=, <, <=, >, >= with type restrictions, where several != in one selection exclude only items having all the excluded values, number-of-keys bounds, nested And/Or) visits exactly the items whose key-values satisfy it, each once. The same query judged against a single item's key-values gives the same answer as querying a store that holds it, so an item that is found when it exists is also recognised when it is created later.",
  ["inputs", "histories"], "all valid queries over all stores of tagged items",
  "Queries are a recursive language over typed values; tests pin a few shapes, and the two evaluators (index and predicate) are never compared.",
  [BA + "threadsafe_query.go", QA + "selection.go", QA + "associated_action_query.go"],
  [("index evaluation", BA + "threadsafe_query.go"), ("predicate evaluation", QA + "selection.go")],
  observe=["BTreeAssociated.QueryAction", "AssociatedActionQuery.MatchTags", "BTreeOneToMany.QueryAction"])

p("C08", "Match lookups return exactly the items covered by the given tags",
  "Matching a set of tags against stored items visits exactly the items all of whose key-values are covered by those tags (same key, equal value or 'Any' as the type restrictions allow, and a number of keys within the given bounds), each once. It skips no item because of unrelated concurrent deletions, and the key combinations it considers are all and only the subsets within the size bounds.",
  ["inputs", "histories"], "all tag sets, bounds and stores",
  "The limiter's rule lookup depends on this for every combination of tags; tests use up to three tags and one store.",
  [BA + "threadsafe_match.go", QM + "match_action_query.go", "pkg/datamanipulation/"],
  [("GenerateStringPermutations", "pkg/datamanipulation"), ("MatchAction", BA + "threadsafe_match.go")],
  observe=["BTreeAssociated.MatchAction", "BTreeOneToMany.MatchAction", "GenerateStringPermutations"])

p("C09", "The tagged stores are safe under concurrent use",
  "Under any interleaving of concurrent create-or-finds, queries, matches and deletes on the tagged stores, no two live items share key-values, every create-or-find yields the one live item, an item that stays in the store is never missed by a query or match running at the same time, and a deleted item is never resurrected. No operation deadlocks, panics or races.",
  ["schedules", "histories"], "all interleavings of up to 8 threads over overlapping key-value sets",
  "Concurrency tests exist only as crash tests with disjoint keys.",
  [BA, OM], [("destroySyncer, node locks", BA), ("per-one tree", OM)], observe=["BTreeAssociated interface", "BTreeOneToMany interface"])

p("C10", "Grouped stores keep each owner's items separate",
  "Items stored under one owner are never visible to, matched by or removed through another owner, and within an owner key-values identify one item. Destroying an owner removes all its items and no others; refused removals leave the item; every operation answers as a map from owner to tagged store would.",
  ["histories", "inputs"], "all operation sequences over several owners sharing the same key-values",
  "Tests use one owner at a time.",
  [OM], [("one tree per owner", OM)], observe=["BTreeOneToMany interface"])

p("C11", "A lock has at most one holder at any time",
  "For any set of key-values, at most one client session holds the lock at any time: between a successful acquire and its release or expiry nobody else acquires the same key-values, under any interleaving of acquires, releases, heartbeats, cancellations and expiries. Locks on different key-values (including subsets and supersets) never block each other.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of clients over overlapping key-value sets, with cancellations and expiries at any point",
  "Integration tests use two clients and one schedule (and cannot run with the expired certificates); exclusion is a property of every schedule.",
  [LK + "lock_manager/", LK + "v1_locker_handler"], [("exclusive lock goroutine", LK + "lock_manager"), ("locks tree", LK)],
  observe=["POST/DELETE /v1/locks", "heartbeat endpoint"])

p("C12", "Only the current holder's session can heartbeat or release a lock",
  "A heartbeat or release succeeds only with the lock id and the session id of the current holder; with an unknown id, an old session or another session it is answered with a client error (not found or conflict) and changes nothing, and it never blocks. Each acquire yields a session id never handed out before.",
  ["histories", "inputs", "schedules"], "all operation histories including stale and forged sessions after release, expiry and re-acquire",
  "Stale-session races need histories of acquire/expire/re-acquire; tests check one wrong id.",
  [LK], [("session check", LK + "lock_manager")], observe=["POST /v1/locks/:id/heartbeat", "DELETE /v1/locks/:id"])

p("C13", "Locks are never stuck: expiry, hand-over and clean-up always happen",
  "A lock that is not heartbeat within its timeout is freed at that time, and not before; a released or expired lock is handed to a waiting client whenever there is one; a waiter that gives up never receives or blocks the lock; when nobody holds or waits for a lock it disappears from the list. The lock listing reports exactly the locks in use and their remaining time to expiry never exceeds the timeout.",
  ["schedules", "histories", "fault_sequences"], "all histories of acquires, heartbeats, releases, give-ups and time steps",
  "Timing and hand-over need controlled clocks and many waiters; the stable tests do not include the lock manager.",
  [LK], [("timer loop", LK + "lock_manager"), ("LocksHeldOrWaiting clean-up", LK)], observe=["GET /v1/locks", "POST /v1/locks"])

p("C14", "The lock client keeps its lock alive and reports its loss",
  "A lock obtained through the client stays held for as long as the client is alive and the service reachable, however long that is; its Done channel closes exactly when the lock is released or lost, and when the service stops answering or refuses the heartbeat the client reports the loss no later than the service may give the lock to someone else. After Release the same key-values can be obtained again at once.",
  ["fault_sequences", "schedules", "histories"], "all sequences of heartbeat outcomes (ok, refused, error, lost), releases and re-acquires",
  "Client tests fake single responses; the guarantee spans client and service clocks over arbitrary fault sequences.",
  ["pkg/clients/locker_client/lock.go", "pkg/clients/locker_client/locker_client.go"],
  [("heartbeat loop", "pkg/clients/locker_client/lock.go")], observe=["LockerClient.ObtainLock", "Lock.Done", "Lock.Release"])

p("C15", "A counter increment is accepted exactly when every limit allows it",
  "An increment is accepted if and only if no rule that applies to its key-values (all the rule's keys present with equal value or 'Any') has reached its limit, where the overrides of a rule that apply replace the rule's own limit, -1 means unlimited, and the count compared with the limit is the sum of all counters sharing the rule's (or override's) keys with the same values. A refused increment is answered with a conflict and leaves all counters unchanged.",
  ["histories", "inputs"], "all sets of rules, overrides and counters, and all histories of changes to them",
  "Tests check single rules with a few counters; the decision is over all combinations of overlapping rules, overrides and counters.",
  [LI + "counters/", LI + "rules/", LI + "overrides/"],
  [("FindLimits", LI + "rules"), ("IncrementCounters / checkCounters", LI + "counters")],
  state=[("counters", "saved counts by key-values", LI + "counters")],
  observe=["PUT /v1/limiter/counters", "GET /v1/limiter/counters/query"])

p("C16", "Counters add up exactly",
  "The stored count for a set of key-values always equals the accepted increments minus the decrements since it was last absent or set, a counter whose count falls to zero or below disappears, set overwrites regardless of rules, and querying returns exactly the present counters that match. This holds however increments, decrements and sets of overlapping key-values interleave.",
  ["histories", "schedules"], "all sequential and concurrent histories of increments, decrements and sets",
  "Tests exercise a few sequential steps; lost updates and wrong deletions show under interleavings.",
  [LI + "counters/"], [("counter create/update/delete callbacks", LI + "counters")],
  observe=["PUT /v1/limiter/counters", "PUT /v1/limiter/counters/set", "GET /v1/limiter/counters/query"])

p("C17", "Limits hold under concurrency",
  "However many clients increment at the same time, the number of accepted increments of one covered by a rule (or its override) never takes the count beyond the limit, increments are refused only if a limit could really have been reached, and after all requests finish the stored counts equal the accepted ones. No request hangs or fails for another reason while the lock service is available.",
  ["schedules", "histories"], "all interleavings of concurrent increments, decrements over overlapping key-values and rules",
  "Over-admission is a check-then-act race across two services; tests are sequential.",
  [LI + "counters/", LI + "api/v1/handlers/counters_handler.go"], [("locks taken per key-value before check and update", LI + "counters")],
  observe=["PUT /v1/limiter/counters"])

p("C18", "Rules and overrides are stored, found, changed and removed faithfully",
  "Rules and overrides behave as uniquely keyed records: creating one whose key-values already exist is a conflict, the id returned on creation always gets, updates and deletes that record and no other, queries and matches return exactly the records they describe, an update is visible to the next read and limit decision, and deleting a rule removes its overrides. Unknown ids are answered with not found (or an idempotent success for deletes) and change nothing.",
  ["histories", "inputs"], "all histories of rule and override operations",
  "CRUD is tested one call at a time; cascades and id mix-ups need histories.",
  [LI + "rules/", LI + "overrides/", LI + "api/v1/handlers/"], [("rule tree and per-rule override tree", LI)],
  observe=["/v1/limiter/rules*", "/v1/limiter/rules/:id/overrides*"])

p("C19", "Queue items follow the documented life cycle",
  "Within a channel items are delivered in the order they were enqueued, an enqueue replaces the last waiting item when that item is updateable (data and options) and otherwise appends, a successful ack removes the item for good, and a failed item is retried at its configured end of the channel (a retry at the back replaces a last waiting item that is updateable, like an enqueue does) at most its configured number of times, then dropped, or dropped earlier only when it is updateable itself and another item waits. An item that could not be handed to its consumer goes back to the front without counting as a failure, unless it is updateable and another item waits. Acks and heartbeats succeed exactly for items being processed.",
  ["histories", "inputs"], "all histories of enqueue, dequeue, ack, fail over several channels and all item options",
  "The life cycle is a state machine over (position, updateable, retries, retry position); tests visit single transitions with mocks.",
  [WC + "memory/memory_queue_channel.go", WC + "memory/memory_queue_channel_item.go"],
  [("Enqueue / dequeue / ACK / failItem", WC + "memory/memory_queue_channel.go")],
  state=[("itemIDsEnqueued", "waiting items in order", WC + "memory/memory_queue_channel.go")],
  observe=["/v1/queues/:name/channels/items*"])

p("C20", "No item is lost or processed twice under concurrency",
  "With any number of concurrent producers and consumers, every accepted item is delivered, no item is delivered to two consumers at the same time, an item acked successfully is never delivered again, and once everything is acked the queue has no channels left. An item whose delivery failed because the consumer went away becomes available again.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of producers, consumers, acks, failures and disconnects",
  "Loss and duplication need particular interleavings of channel creation, dequeue and deletion.",
  [WC], [("dequeue hand-off, channel auto-deletion", WC)], observe=["/v1/queues/:name/channels/items*"])

p("C21", "An unattended item is requeued, an attended one is not",
  "An item being processed is kept from other consumers for as long as heartbeats arrive within its timeout; when none arrives for the timeout, it is treated exactly as a failed item (retried or dropped), not earlier, and later acks or heartbeats for it are refused. Exactly one of timeout and ack takes effect.",
  ["histories", "schedules", "fault_sequences"], "all histories of dequeue, heartbeat, ack and time steps, including those at the very deadline",
  "Deadlines need a controlled clock and races at the deadline.",
  [WC + "memory/memory_queue_channel_item.go", "internal/heartbeater/"], [("heartbeater", "internal/heartbeater")],
  observe=["/v1/queues/:name/channels/items/heartbeat", "/v1/queues/:name/channels/items/ack"])

p("C22", "Queue limits and running counters are always accurate",
  "At any quiet moment the limiter holds, for every channel, an enqueued count equal to the items waiting or being processed and a running count equal to the items being processed; an enqueue is refused exactly when it would add an item while the queue already holds its maximum; and an item is never handed out while a limiter rule covering its channel is at its limit, but becomes available once the rule allows it.",
  ["histories", "schedules"], "all histories over queues with any maximum, updates of it, and user rules on channel key-values",
  "The counters are updated at many transitions (collapse, drop on retry, timeout, deletion); a leak in any one only shows as a queue that wrongly fills up later.",
  [WC + "memory/memory_queue_channel.go", WQ + "memory/memory_queue.go"],
  [("limiterUpdateEnqueuedValue / limterUpdateRunningValue / ForceDelete", WC + "memory/memory_queue_channel.go"), ("queue override", WQ + "memory/memory_queue.go")],
  observe=["GET /v1/limiter/counters/query", "POST /v1/queues/:name/channels/items"])

p("C23", "Consumers receive only, and all of, what they asked for",
  "A dequeue returns only items from channels of the named queue whose key-values match its query, a waiting dequeue is served by an item that arrives later in a new or existing matching channel, a dequeue that is cancelled takes nothing, and a waiting dequeue does not stop other operations (creating queues, enqueueing, listing, deleting) from completing.",
  ["histories", "schedules", "inputs"], "all queries and all orders of enqueues, waiting dequeues, cancellations and queue operations",
  "Blocked consumers meet newly created channels through a different code path than existing ones; tests with mocks do not cover the combination.",
  [WC + "queue_channels_client_local.go", WQ + "queues_client_local.go"], [("clientsWaiting", WC + "queue_channels_client_local.go")],
  observe=["GET /v1/queues/:name/channels/items"])

p("C24", "Queues and channels are created, changed, listed and deleted faithfully",
  "Queues behave as records unique by name whose maximum can be read back and updated; unknown queues are answered with not found; listing shows exactly the existing queues, and the channel listing exactly the channels holding items that match the query. Deleting a channel or a queue removes its items and counters for good and touches nothing else, and a queue created later under the same name starts empty with its own limit. A shutdown answers every request that is still open, whatever it is doing.",
  ["histories", "inputs"], "all histories of queue and channel operations mixed with items waiting or being processed",
  "Deletion with items in every state is not covered by tests.",
  [WQ, WC], [("CreateQueue/UpdateQueue/DeleteQueue", WQ + "queues_client_local.go"), ("DestroyChannelsForQueue/DeleteChannel", WC)],
  observe=["/v1/queues*"])

p("C25", "The willow client keeps a dequeued item alive until it is acked",
  "An item dequeued through the client is kept from other consumers for as long as the client holds it, however long that is; its Done channel closes once it is acked or its heartbeats fail for the timeout; errors are reported to the callback and never crash the client. The client calls return the service's data and errors unchanged.",
  ["fault_sequences", "histories", "schedules"], "all sequences of heartbeat outcomes and acks",
  "There are no tests for the willow client without the full TLS stack.",
  ["pkg/clients/willow_client/", "pkg/clients/limiter_client/"], [("heartbeat loop", "pkg/clients/willow_client/item.go")],
  observe=["WillowClient", "Item.Done", "Item.ACK"])

p("C26", "No request can crash or wedge a service",
  "Whatever HTTP request arrives on any route of the three services, it is answered: malformed or invalid requests with a 4xx status and a JSON error message, valid ones as documented, none with a server error, a panic or process exit. Afterwards the service still works and the malformed request has changed nothing.",
  ["inputs", "histories"], "all routes, methods, headers and bodies, valid and broken, in any state of the service",
  "Handlers have no tests apart from a few; crash inputs are found only by searching the input space.",
  ["internal/*/api/v1/handlers", "internal/*/api/v1/router", "internal/middleware", "pkg/models/api/server.go"],
  [("decode and validate in each handler", "internal/*/api/v1/handlers"), ("ValidateReqHeaders", "internal/middleware/encoder.go")],
  observe=["HTTP responses"])

p("C27", "A heartbeat supervisor ends in exactly one way",
  "For any timing of start, heartbeats, stop and shutdown, a heartbeat supervisor ends exactly once and in exactly one way: stopped (no callback), timed out (timeout callback, once, never before the timeout has passed since the start or the last successful heartbeat), or shut down (shutdown callback, once). Stop and Heartbeat report success only if the supervisor had not ended otherwise, and never block.",
  ["schedules", "histories"], "all timings and interleavings of start, heartbeat, stop, shutdown",
  "Tests use fixed sleeps; the guarantee is about simultaneous stop, heartbeat and timeout.",
  ["internal/heartbeater/"], [("Execute select loop", "internal/heartbeater")], observe=["heartbeater.Heartbeater"])

p("C28", "Configuration is accepted exactly when complete and takes effect",
  "For each service any combination of flags and environment variables yields either an error (exactly when a required value is missing, contradictory or out of range) or a configuration whose every field equals the environment variable if set, else the flag, else the documented default. Client configurations are accepted exactly when the URL is set and certificate settings are complete.",
  ["configurations", "inputs"], "all combinations of flags and environment variables of the three services",
  "Tests try one wrong setting at a time; precedence and cross-constraints are combinatorial.",
  ["internal/config/", "pkg/clients/client_config.go"], [("parse, parseEnv, validate", "internal/config")], observe=["config.Locker", "config.Limiter", "config.Willow", "clients.Config.Validate"])

p("C29", "The service binaries start, cooperate and shut down cleanly",
  "Started as separate processes (locker, limiter, willow in that order; TLS or plain HTTP; settings from flags or environment, the environment winning), the three services together enforce locks, limits and queue delivery as described and survive any mix of valid, invalid and abandoned requests and of raw bytes on their ports: they answer every request, panic at none and stay healthy. The connections that services and Go clients keep open do not grow with the number of calls made. A second instance on a port in use ends with an error and leaves the first alone. On interrupt each service stops within bounded time: clients that wait are answered and the process exits with status 0; afterwards everything can be started again.",
  ["histories", "fault_sequences", "crash_points"], "random mixed workloads with client disconnects, and an interrupt at any point of them",
  "The integration suite cannot run (expired certificates); shutdown is tested in no suite with requests waiting.",
  ["cmd/locker/main.go", "cmd/limiter/main.go", "cmd/willow/main.go", "internal/*/api/*_tcp.go"],
  [("task managers, signal context, TCP servers", "cmd")], observe=["processes and their HTTP endpoints"])

P.sort(key=lambda d: d["id"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
