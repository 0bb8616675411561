#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run once by hand; not part of any check)."""
import json, os
P = []
def p(id, title, st, over, text, why, files, mech, observe, state=None):
    d = {"id": id, "title": title, "statement": st,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe, "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    P.append(d)

CK = "src/check_aggregator_impl.cc"; QA = "src/quota_aggregator_impl.cc"; RP = "src/report_aggregator_impl.cc"
CL = "src/service_control_client_impl.cc"; OA = "src/operation_aggregator.cc"; SG = "src/signature.cc"
QO = "src/quota_operation_aggregator.cc"; CR = "src/cache_removed_items_handler.h"; LR = "utils/simple_lru_cache_inl.h"
DH = "utils/distribution_helper.cc"; MU = "src/money_utils.cc"

p("C01", "A cached check answer is the server's latest answer to the same request",
  "A Check() answered without contacting the server returns OK and exactly the CheckResponse (pass or errors) most recently received from the server for a check with the same operation name, consumer, labels and metric names/labels; a check with no such stored answer always goes to the server. Answers are never mixed up between different identities.",
  ["histories", "inputs"], "every sequence of checks, server responses and clock advances over any set of operations, including near-identical identities",
  "Tests use at most three hand-written requests and one or two responses; a mix-up that needs a specific pair of identities, a specific overwrite order or an eviction in between is not sampled.",
  [CK, SG, CL], [("signature lookup", SG + ":GenerateCheckRequestSignature"), ("CacheResponse overwrites", CK + ":CacheResponse")],
  ["status and response returned by Check()", "requests handed to the check transport"],
  [("cached response per key", "last CheckResponse received", CK + ":CacheElem")])
p("C02", "Check answers are refreshed once per interval, expire when idle, stay bounded",
  "A cached check answer is served only while younger than flush_interval since the last time the server was asked or answered for it; once it is that old exactly one check goes to the server as refresh and the others keep being answered from the cache until the interval passes again. An answer not used for longer than the expiration is gone, and at most num_entries answers are kept, the least recently used being discarded first.",
  ["histories", "configurations"], "every timing of checks, responses and ticks relative to the flush interval and the expiration, every cache size",
  "Tests sleep for one or two fixed delays with one configuration; the boundaries (age equal to the interval, refresh outstanding while the next interval starts, use that extends the life) are not reached.",
  [CK, LR], [("ShouldFlush / last_check_time", CK + ":ShouldFlush"), ("idle eviction", LR + ":DiscardIdle")],
  ["which Check() calls reach the transport, on a virtual clock"])
p("C03", "Every check answered with a cached pass is accounted for exactly once",
  "The operation of each check that hits a cached pass answer is merged into that entry, and when the entry leaves the cache (expired, evicted, overflow, shutdown) exactly one check request with the client's service name and config id carries the merged usage to the server. Checks answered with cached errors, or not answered from the cache at all, add no usage, and nothing is reported twice or lost.",
  ["histories"], "every sequence of hits, refreshes, response changes (pass to error and back), evictions and flushes",
  "Tests follow one aggregated pair of requests per case; conservation over arbitrary histories is not expressed anywhere.",
  [CK, OA, CR], [("Aggregate before refresh decision", CK + ":Check"), ("flush on removal", CK + ":OnCacheEntryDelete")],
  ["requests passed to the flush callback / check transport, summed per identity"])
p("C04", "Important checks and unusable check caches always go to the server",
  "A check whose operation importance is not LOW, and every check when the check cache is disabled (num_entries <= 0), is sent to the server on each call and never answered from or merged into the cache. A check with another service name or without an operation fails with INVALID_ARGUMENT without contacting the server or changing any state.",
  ["inputs", "configurations", "histories"], "every request importance, service name, operation presence and cache size, at every cache state",
  "Tests check single calls on an empty cache; none shows that a cached entry of the same identity stays untouched.",
  [CK, CL], [("guards at the top of Check()", CK + ":Check")], ["status of Check(), transport calls, later flushes"])
p("C05", "A failed check transport is reported to its caller and never cached",
  "When the check transport finishes with a non-OK status, exactly that status reaches the caller's done callback and no answer is cached: an existing cached answer stays as it was and a missing one stays missing, so the next check for that identity is decided as if the failed call had not answered.",
  ["fault_sequences", "histories"], "every placement of failures among in-place, deferred and synchronous calls",
  "The tests fail every call of a run with one status; they do not interleave failures with cached answers and refreshes.",
  [CL], [("CacheResponse only when status.ok()", CL + ":Check")], ["done status", "whether the following checks hit"])
p("C06", "Every accepted report operation reaches the server exactly once",
  "When Report() accepts low-importance operations into the cache, each one's log entries, metric values and time range are contained in exactly one operation sent later (when it ages out, is evicted, grows too big or the client is destroyed), under the client's service name and config id. No operation is lost, duplicated or attributed to another consumer, operation name or label set.",
  ["histories", "inputs"], "every sequence of reports, ticks, evictions and shutdown, every cache size",
  "Tests check the exact output of a few merges; nothing states that totals are conserved over an arbitrary history.",
  [RP, OA, CR, CL], [("merge or insert", RP + ":Report"), ("flush on removal", RP + ":OnCacheEntryDelete"), ("flush buffer", CR + ":StackBuffer")],
  ["operations passed to the report transport, summed per identity"])
p("C07", "Important or uncacheable reports are sent immediately and whole",
  "A report with any operation of importance other than LOW, and every report when the report cache is disabled, is sent unchanged and at once through the transport of that call, merges nothing into the cache, and its caller gets the transport's status. A report with another service name fails with INVALID_ARGUMENT, without any sending or state change.",
  ["inputs", "configurations", "histories"], "every position of an important operation within a request, at every cache state",
  "Tests use single-operation requests with an empty cache.",
  [RP, CL], [("HasHighImportantOperation", RP + ":HasHighImportantOperation")], ["report transport calls", "later flushes"])
p("C08", "Buffered reports leave in time and in bounded requests",
  "An accepted report operation stays buffered at most flush_interval_ms after its entry was created: the first report or flush tick later than that sends it; an entry that has collected 100 or more log entries through merging is sent at once. No flush request carries more than 10 operations, operations flushed together are packed in order into as few requests as that allows, and at most num_entries entries are buffered, the oldest being sent first.",
  ["histories", "configurations", "inputs"], "every timing around the flush interval, every number of simultaneously flushed operations and log entries, every cache size",
  "Tests use 2 or 12 operations and one sleep; the limits at other counts and ages are not exercised.",
  [RP, CR, LR, OA], [("age based eviction", LR + ":DiscardIdle"), ("MergeItem packing", RP + ":MergeItem"), ("TooBig", OA + ":TooBig")],
  ["time and content of report transport calls"])
p("C09", "Only report operations with the same identity are merged",
  "Two report operations end up in one sent operation if and only if they were buffered together and agree on consumer id, operation name and the whole label map (independent of label order); within it two metric values are merged if and only if metric name and metric label map agree. All other fields of the sent operation (operation id, importance, remaining metadata) are those of the first one merged.",
  ["inputs"], "all pairs of operations and metric values, including label maps that differ only in how keys and values are split or ordered",
  "Tests use labels of one or two fixed pairs.",
  [SG, OA, RP], [("GenerateReportOperationSignature", SG), ("GenerateReportMetricValueSignature", SG)], ["merged operations on flush"])
p("C10", "DELTA metrics are summed without loss",
  "Merging operations adds, per metric name and label set of kind DELTA (the default), int64 and double values exactly and distributions sample-wise; values of differing type leave the existing value as it was, non-additive types keep the first value. The merged value's time range is the hull of the merged ranges, as is that of the whole operation, and log entries are concatenated in arrival order.",
  ["inputs", "histories"], "every sequence of merges over mixed metric types, kinds, label sets, missing and present timestamps",
  "Tests merge two fixed operations.",
  [OA, DH], [("MergeDeltaMetricValue", OA), ("MergeOperation", OA)], ["merged operation on flush"])
p("C11", "GAUGE and CUMULATIVE metrics keep the value with the latest end time",
  "For metrics configured as GAUGE or CUMULATIVE, the merged value is the whole metric value with the latest end time among those merged (a tie goes to the later arrival), never a sum; metrics not listed, or listed as DELTA, are summed.",
  ["inputs", "histories"], "every arrival order of end times, including equal seconds with different nanos and absent end times",
  "Tests merge two values in one or two orders with distinct seconds.",
  [OA], [("MergeCumulativeOrGaugeMetricValue", OA), ("TimestampBefore", OA)], ["merged operation on flush"])
p("C12", "Quota calls never wait and keep one request in flight per key",
  "With the quota cache enabled AllocateQuota is answered at once from the cache: a positive empty answer for a key seen for the first time, otherwise the last received answer. Per key (method, consumer, set of metric names), while its entry stays cached and no late answer to a request from before that entry arrives, at most one request is outstanding at any time; the first use sends one at once, and later ones are sent only when none is outstanding: on a use at least refresh_interval after the last one, or by an ageing pass that finds the entry older than refresh_interval with tokens to charge.",
  ["histories", "schedules"], "every order of calls, late or missing responses, ticks and clock advances over several keys",
  "Tests drive one key through one refresh.",
  [QA, CL], [("in_flight flag", QA + ":Quota"), ("temporary positive response", QA + ":Quota")], ["quota transport calls and answers"])
p("C13", "Granted quota tokens are charged exactly once",
  "The tokens of every quota call answered positively from an existing cache entry are added up per metric and carried by exactly one later request for that key: the sum of amounts requested from the server equals the amounts granted, apart from amounts discarded because a negative answer arrived, the entry expired, or the client shut down. A refresh with nothing accumulated repeats the entry's initial request.",
  ["histories", "inputs"], "every interleaving of calls, refreshes, responses, ticks and evictions",
  "Tests check the amount in one refresh with two aggregated requests.",
  [QA, QO], [("Aggregate / ReturnAllocateQuotaRequestAndClear", QA), ("QuotaOperationAggregator", QO)], ["amounts in quota transport calls, summed per key and metric"])
p("C14", "A negative quota answer is enforced until a refresh lifts it",
  "After the server answered a key with allocate errors, calls for that key return those errors and accumulate no tokens, and tokens accumulated before are dropped, until another response replaces the answer. The refresh sent by a call on such an entry uses quota mode NORMAL, any other request keeps the mode of the calls it stands for.",
  ["histories"], "every sequence of positive and negative answers mixed with calls, failures and ticks",
  "Tests have one negative answer followed by one refresh.",
  [QA], [("is_positive_response guards", QA + ":Quota"), ("quota mode override", QA + ":Quota")], ["answers and quota transport calls"])
p("C15", "Quota fails open and always recovers from lost responses",
  "When a quota request fails in transport, the key's answer becomes positive and empty and the next refresh may be sent; the failing status reaches a caller only when its own call was sent directly. A response for a key no longer cached changes nothing.",
  ["fault_sequences", "histories"], "every placement of transport failures and late responses",
  "Tests fail one refresh with one status.",
  [CL, QA], [("dummy response on failure", CL + ":AllocateQuotaFlushCallback"), ("CacheResponse only if found", QA + ":CacheResponse")], ["answers and quota transport calls after failures"])
p("C16", "Quota entries expire and the quota cache stays within its size",
  "A quota entry unused by any request to the server for expiration_interval is dropped at the next ageing pass, so the key starts afresh; until then ageing keeps it and sends its accumulated tokens. However many distinct keys are used, at most num_entries stay cached and every call still returns; an entry evicted for room has its accumulated tokens sent. Invalid requests get INVALID_ARGUMENT and with the cache disabled every call goes to the server.",
  ["configurations", "histories", "inputs"], "every number of keys relative to the cache size, every timing around refresh and expiration",
  "No test uses more keys than entries, or an expiration with accumulated tokens.",
  [QA, LR], [("OnCacheEntryDelete re-insertion", QA + ":OnCacheEntryDelete"), ("ShouldDrop", QA + ":ShouldDrop")], ["calls that start afresh, quota transport calls"])
p("C17", "Every asynchronous or blocking call completes exactly once",
  "Each Check, AllocateQuota or Report call invokes its done callback (or returns, for blocking calls) exactly once: at once when answered locally or rejected, otherwise when and with the status the transport completed with. The response object then holds the cached answer or what the transport wrote, and a call given its own transport uses that one for sending its own request.",
  ["histories", "schedules", "fault_sequences"], "every mix of stored, in-place, threaded, failing and nested completions in any completion order",
  "Tests complete calls in issue order, one style per test.",
  [CL], [("on_done lambdas", CL + ":Check"), ("promise in blocking calls", CL + ":Check")], ["done callbacks with status and response"])
p("C18", "Statistics count exactly what happened",
  "At any time GetStatistics reports exactly the number of Check, AllocateQuota and Report calls received, of requests sent during such calls, of requests sent by flush, and of operations in the reports sent, counting neither rejected nor locally answered calls as sent.",
  ["histories"], "every history of calls, flushes, failures and rejections",
  "Tests compare counters after a handful of fixed scenarios.",
  [CL], [("counters", CL)], ["GetStatistics() after each step against the observed transport calls"])
p("C19", "Shutdown drains the caches; late events are harmless",
  "Destroying the client sends all usage and reports still cached through the default transports exactly once, stops the timer, and sends no quota request. Responses, timer ticks and completions that arrive afterwards touch no freed memory, still complete their callers, and cause no sending.",
  ["histories", "crash_points"], "destruction at every point of every history, with any set of calls outstanding, late ones completing in any order",
  "Tests destroy the client after all calls have completed, except one timer test.",
  [CL, CR], [("destructor", CL + ":~ServiceControlClientImpl"), ("shared aggregator references", CL)], ["transport and done events during and after destruction, under AddressSanitizer"])
p("C20", "The periodic timer is set to the shortest enabled interval and its ticks flush",
  "When a timer factory is given, exactly one timer is created with the minimum of the intervals of the enabled caches (check expiration, quota refresh, report flush), none when that is not positive, and each tick ages all three caches exactly as specified for check, quota and report entries.",
  ["configurations", "histories"], "all combinations of enabled and disabled caches and of interval orders",
  "Tests cover three combinations and one tick.",
  [CL], [("GetNextFlushInterval", CL + ":GetNextFlushInterval")], ["timer factory calls", "sends caused by ticks"])
p("C21", "A missing transport is an error of the call, not a crash",
  "A call without its own transport on a client without the matching default transport completes with INVALID_ARGUMENT, changes no cache, and is counted only as received. Flushing without a default transport sends nothing and neither throws nor disturbs the other caches; quota then fails open.",
  ["configurations", "histories"], "every subset of default transports, with and without per-call transports",
  "Tests check the immediate error only.",
  [CL], [("transport NULL check", CL + ":Check"), ("flush callbacks", CL + ":ReportFlushCallback")], ["done status, sends, statistics"])
p("C22", "Concurrent use is equivalent to some serial use",
  "Calls, completions and ticks running in parallel threads behave as if each critical step had run alone in some order consistent with real time: the combined answers, sends, flushed usage and statistics are those of a serial history, with nothing lost or counted twice.",
  ["schedules"], "all thread schedules of concurrent calls on shared keys",
  "Tests start threads without controlling or checking the interleaving; results are compared in aggregate at most.",
  [CK, QA, RP, CR, CL], [("cache_mutex_", CK), ("StackBuffer/Swapper", CR), ("atomic counters", CL)], ["call/return/transport event logs under controlled schedules"])
p("C23", "No deadlock from callbacks, in-place transports or flushes",
  "User code running inside done callbacks may call any client operation, transports may complete in place from within calls and flushes at any time, and flushes may overlap with calls in other threads: every operation returns.",
  ["schedules", "histories"], "every nesting of calls in callbacks and in-place completions, at every cache state",
  "A few tests call back once with nothing else expired.",
  [CR, CL, CK, QA, RP], [("callbacks run after cache_mutex_ is released", CR + ":StackBuffer"), ("callback_mutex_", CR + ":FlushOut")], ["completion of nested scenarios within a time bound"])
p("C24", "The LRU cache evicts in order and respects its size",
  "After any operation in which something unpinned could be discarded, the cache's total units do not exceed its maximum; what is discarded is always the least recently used unpinned entry in idle mode, the oldest in age-based mode, and nothing is discarded while the cache fits. A lookup finds exactly the value last inserted under that key unless it was removed, evicted or expired.",
  ["histories", "configurations"], "every sequence of insert, lookup, release, remove, resize and clock operations, both modes",
  "Tests are long scripts for particular sequences.",
  [LR], [("GarbageCollect", LR + ":GarbageCollect"), ("Link order", LR + ":ReleaseWithOptions")], ["lookups, Size/Entries, RemoveElement calls"])
p("C25", "Pinned cache values survive until their last release",
  "A value obtained by Lookup or InsertPinned is not destroyed before its last Release, even if it is removed, replaced, expired or evicted meanwhile (it is then invisible to lookups and counted as deferred); after that Release it is destroyed at once if it was removed or the cache is overfull. Size, pinned and deferred accounting match the live entries at all times.",
  ["histories"], "every interleaving of pins with removal, replacement, expiry, resize and multiple values per key",
  "Tests cover selected pin sequences.",
  [LR], [("deferred table", LR + ":Remove"), ("ReleaseWithOptions", LR)], ["RemoveElement calls, PinnedSize/DeferredSize/DeferredEntries/StillInUse"])
p("C26", "Cache entries expire exactly past their timeout and are destroyed exactly once",
  "An unpinned entry disappears at the first operation after its idle time (idle mode: since last release; age mode: since insertion) exceeds the timeout, never earlier; lookups without order update do not extend its life; a negative or infinite timeout never expires anything. Every value inserted is handed to the deleter exactly once.",
  ["histories", "configurations"], "every timing around the timeout in both modes, with any operation as the trigger",
  "Tests check a few delays in one direction.",
  [LR], [("DiscardIdle", LR), ("SetTimeout", LR)], ["RemoveElement calls on a virtual clock"])
p("C27", "Adding a sample updates exactly the right bucket and exact statistics",
  "AddSample on a distribution set up with exponential, linear or explicit buckets increments exactly the one bucket whose range contains the value (lower bounds inclusive; NaN and values below the first bound in the underflow, values from the last bound on and +infinity in the overflow bucket) and updates count, minimum, maximum, mean and sum of squared deviations to those of all samples, up to rounding. Invalid bucket options and unconfigured distributions are rejected unchanged.",
  ["inputs", "histories"], "every bucket configuration and sample sequence, with samples on, just below and beyond each bound",
  "Tests use one configuration per type and two samples.",
  [DH], [("Update*BucketCount", DH), ("UpdateGeneralStatictics", DH)], ["resulting Distribution"])
p("C28", "Merging distributions equals adding all samples",
  "Merge of two distributions with matching bucket options yields the distribution of the union of their samples (counts, buckets, minimum, maximum exactly; mean and deviation up to rounding), in either order, also when one is empty; when bucket options or bucket counts differ it returns INVALID_ARGUMENT and leaves the target unchanged.",
  ["inputs"], "all pairs of sample multisets and bucket configurations",
  "Tests merge a few fixed pairs.",
  [DH], [("Merge", DH), ("BucketsApproximatelyEqual", DH)], ["resulting Distribution and status"])
p("C29", "Money addition is exact, signed consistently and saturates on overflow",
  "Adding two valid amounts of one currency yields the exact sum with units and nanos of the same sign whenever it is representable; otherwise OUT_OF_RANGE with the amount saturated to the largest magnitude of that sign. Different currencies give INVALID_ARGUMENT with a cleared result, and validation accepts exactly amounts with a three-letter currency, |nanos| <= 999999999 and agreeing signs.",
  ["inputs"], "all pairs of amounts, in particular around zero, carries and the int64 limits",
  "Tests use a table of examples, which missed overflow reports for sums below one unit.",
  [MU], [("TryAddMoney", MU), ("ValidateMoney", MU), ("SaturatedAddMoney", MU)], ["status and sum"])
p("C30", "Request identity ignores order and volatile fields, and nothing else",
  "Two checks share a cached answer, two report operations are merged, and two quota calls share an entry, whenever they agree on the identifying fields, however labels and metrics are ordered and whatever their operation ids, times, values, log entries or quota modes are; they never do when an identifying field differs (text fields without NUL bytes).",
  ["inputs"], "all pairs of requests",
  "Signature tests pin digests of a few requests; they say nothing about collisions.",
  [SG], [("Generate*Signature", SG)], ["cache hits and merges for pairs of requests"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
