"""One entry per claimed property: test package, budgets (seconds of search per shard), and the MANIFEST texts."""
CHECKS = {}
NOT_APPLICABLE = {}


def c(id, pkg, quick, thorough, technique, level_note="", level="exploration", shards=8, race=False, bins=False):
    CHECKS[id] = dict(pkg=pkg, quick=quick, thorough=thorough, technique=technique, level=level,
                      level_note=level_note, shards=shards, race=race, bins=bins)


c("C04", "ds", 15, 300, "model-based random testing of the B-tree against a sorted map, with shrinking",
  "bounded by generated sequences of up to 150 operations over small key universes")

c("C05", "ds", 60, 400, "random concurrent histories of the B-tree judged by a per-key linearizability checker, under the race detector",
  "interleavings are sampled by the scheduler with random dwell inside callbacks, not enumerated", race=True)


c("C06", "ds", 15, 300, "model-based random testing of the tagged store against a map from key-values to item, with shrinking",
  "bounded by generated sequences of up to 60 operations over small key-value universes")

c("C07", "ds", 30, 300, "random stores and random nested queries judged by an independent evaluator; metamorphic check that MatchTags agrees with a store holding the tags",
  "stores of up to 14 items, queries nested up to depth 2")

c("C08", "ds", 15, 300, "random stores and random match requests judged by an independent subset test; key combinations against all subsets",
  "stores of up to 16 items, up to 8 keys")


c("C09", "ds", 60, 400, "random concurrent histories of the tagged and grouped stores judged by a per-key-values linearizability checker, under the race detector",
  "interleavings are sampled by the scheduler with random dwell inside callbacks, not enumerated", race=True)

c("C10", "ds", 40, 300, "model-based random testing of the grouped store against a map from owner to key-values to item, with shrinking",
  "bounded by generated sequences of up to 60 operations, 6 owners, small key-value universes")

c("C01", "models", 12, 200, "random triples of typed values (extremes and neighbours included) against an independent total order; random type/data/range combinations against the validity rule",
  "samples of the value space, with the extremes of every type always among them")

c("C02", "models", 12, 240, "random valid API objects round-tripped through the client and server codecs and compared with an independently written documented wire form, with shrinking",
  "strings are valid UTF-8 (JSON cannot carry others); objects are of bounded size")

c("C03", "models", 15, 300, "structural and byte-level mutation fuzzing of request and response bodies against independently written validity rules, with shrinking",
  "mutations of generated valid bodies (up to 4 structural and 3 byte edits)")

c("C28", "models", 12, 120, "random combinations of flags and environment variables against an independent table of fields and rules; random client certificate settings with generated certificates",
  "flags that do not parse at all end the process (flag.ExitOnError) and are not generated")

c("C26", "stack", 40, 300, "histories of structurally mutated requests (methods, paths, headers, JSON documents, raw bodies) on every route of the three services wired together in virtual time; oracle: status classes, error body, unchanged state after a refusal, a smoke sequence afterwards",
  "up to 10 requests per case; bodies up to 220 kB", race=False)
c("C27", "stack", 40, 200, "random call histories of a heartbeat supervisor in virtual time (ties with the timeout included) judged by an exact timing model, under the race detector",
  "histories of up to 14 calls; calls made before Execute is running are not generated", race=True)

c("C11", "stack", 50, 300, "random concurrent clients in virtual time (many interleavings inside one instant) plus stepped histories against an exact lock model, under the race detector",
  "up to 8 clients of 6 acquires each; histories of up to 40 calls over up to 4 overlapping key-value sets; interleavings are sampled", race=True)

c("C12", "stack", 50, 300, "stepped histories with current, stale, foreign and forged claims against an exact lock model in virtual time, plus random concurrent clients, under the race detector",
  "histories of up to 40 calls over up to 4 key-value sets", race=True)

c("C13", "stack", 60, 300, "stepped histories against an exact lock model in virtual time, stopping at every expiry and one nanosecond before it, plus random concurrent clients, under the race detector",
  "histories of up to 40 calls, timeouts from 1 ms to 290 years; interleavings are sampled", race=True)

c("C14", "stack", 60, 300, "random programs of several lock clients in virtual time under generated fault windows (refused, failed, lost, hanging and delayed heartbeats, service restarts) judged by timing invariants, under the race detector",
  "up to 5 programs over 3 clients and 4 key-value sets; answers to acquires are not delayed; exclusion is not judged across a restart of the in-memory locker", race=True)

c("C15", "stack", 15, 300, "stepped histories of rules, overrides and counters against an independent decision model, with shrinking",
  "histories of up to 42 calls over 4 keys; counts stay far from the 64-bit limits", race=False)

c("C16", "stack", 40, 300, "stepped histories against an exact counter model, plus random concurrent clients judged by a linearizability search over all counters, under the race detector",
  "storms of up to 13 requests (the search is exhaustive over their orders); counts stay far from the 64-bit limits", race=True)

c("C17", "stack", 60, 300, "random concurrent clients with delayed lock answers and abandoned requests, judged by a linearizability search over all counters and limits, under the race detector",
  "storms of up to 13 requests, rules fixed during the storm; increments by one", race=True)

c("C18", "stack", 30, 300, "stepped histories of rule and override operations against a record model, plus racing creations and deletions, under the race detector",
  "histories of up to 42 calls over 4 keys", race=True)

c("C19", "stack", 40, 300, "stepped histories of enqueues, dequeues, acks, failures and timeouts against an exact model of queues, channels and items, with shrinking",
  "histories of up to 48 calls over up to 4 channels in virtual time", race=False)

c("C20", "stack", 60, 400, "random concurrent producers and consumers that pass, fail, drop or abandon items, with generated delays between the services; the history is judged against exclusion, at-most-once acks, conservation of items, order and emptiness at the end; under the race detector",
  "storms of up to 8 clients with up to 8 operations each over up to 2 queues and 3 channels", race=True)

c("C21", "stack", 50, 300, "stepped histories against an exact model in virtual time, stopping at every deadline and one nanosecond before it, plus acks and heartbeats racing the deadline, under the race detector",
  "histories of up to 48 calls over up to 4 channels", race=True)

c("C22", "stack", 60, 300, "stepped histories with queue maxima and user rules against an exact model of the counters in the limiter, plus random concurrent clients, under the race detector",
  "histories of up to 48 calls over up to 4 channels and 3 rules; one limiter and one locker behind willow", race=True)

c("C23", "stack", 60, 300, "stepped histories of waiting, cancelled and served dequeues against an exact model, plus random concurrent clients, under the race detector",
  "histories of up to 48 calls, up to 3 queues and 4 channels", race=True)

c("C24", "stack", 60, 300, "stepped histories of queue and channel operations against an exact model, plus random concurrent clients, under the race detector",
  "histories of up to 48 calls, up to 3 queues and 4 channels", race=True)

c("C25", "stack", 50, 300, "random programs of several willow clients in virtual time under generated fault windows (refused, failed, lost, hanging and delayed heartbeats and acks) judged by timing invariants; every call of the willow and limiter clients against a scripted service with generated answers, under the race detector",
  "up to 4 programs over 3 clients and one channel of up to 6 items; ids in limiter calls are those a service makes", race=True)

c("C29", "stack", 40, 300, "the real programs as processes on the loopback network (TLS with HTTP/2 or plain HTTP, flags or environment), random mixes of valid, mutated, abandoned and raw requests and waiting clients, interrupts and restarts; oracle: every request is answered, no panic or race report, clean exit in bounded time, waiting clients answered",
  "real time: interleavings are the scheduler's; up to 15 operations at a time; clients that stall in the middle of a request during a shutdown are not generated", race=False, bins=True, shards=8)
