"""The property catalogue: the single source of properties.jsonl, of the
check list of MANIFEST.json and of the not-applicable list."""

API = "opentelemetry-api/src/opentelemetry/"
SDK = "opentelemetry-sdk/src/opentelemetry/sdk/"
EXP = "exporter/opentelemetry-exporter-"
OTLPC = EXP + "otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/"
OTLPG = EXP + "otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/"
OTLPH = EXP + "otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/"
PROM = EXP + "prometheus/src/opentelemetry/exporter/prometheus/__init__.py"
ZJ = EXP + "zipkin-json/src/opentelemetry/exporter/zipkin/"
ZP = EXP + "zipkin-proto-http/src/opentelemetry/exporter/zipkin/proto/http/"
OCX = EXP + "opencensus/src/opentelemetry/exporter/opencensus/trace_exporter/__init__.py"
B3 = "propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py"
JAEGER = "propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py"
OTSHIM = "shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py"
OCSHIM = "shim/opentelemetry-opencensus-shim/src/opentelemetry/shim/opencensus/"

S, I, F, H, C, P = (
    "schedules",
    "inputs",
    "fault_sequences",
    "histories",
    "configurations",
    "programs",
)

PROPS = []
NOT_APPLICABLE = []


def P_(id, title, statement, over, text, why, files, mech, technique=None,
       note=None, na=None, level="other"):
    PROPS.append(
        dict(
            id=id, title=title, statement=statement,
            quantifier={"over": over, "text": text},
            why_tests_cant=why,
            anchors={"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech]},
            technique=technique, note=note, na=na, level=level,
        )
    )


# --------------------------------------------------------------------------
# Context and propagation
# --------------------------------------------------------------------------
P_("C01", "Every context the library attaches is detached on every exit",
   "Whenever library code makes a context current for the duration of an operation (a span or baggage scope, suppression of instrumentation around an export or a collection, a shim scope), the previously current context is current again once the operation is over, on every way out of it including an exception raised by user code, an exporter or a nested call. Detaching with a token that cannot be honoured is logged and never raises into the caller.",
   [F, S, P], "all exits (normal, exceptional) of every function that attaches a context; all exceptions an exporter, a processor or user code may raise",
   "Tests exercise a few exporters and bodies; the guarantee ranges over every exception at every call between attach and detach.",
   [API + "context/__init__.py", API + "trace/__init__.py", SDK + "trace/export/__init__.py", SDK + "_logs/_internal/export/__init__.py", SDK + "metrics/_internal/export/__init__.py", OTSHIM, OCSHIM + "_shim_span.py", OCSHIM + "_shim_tracer.py"],
   [("attach/detach token pairing", "context.attach / context.detach and every call site in the exporting processors, the periodic reader, use_span and the shims")],
   "typestate (attach token must be detached) over an interprocedural CFG with exceptional edges")

P_("C02", "Contexts, trace states, baggage and resources are never changed in place",
   "An operation that updates a context, a baggage, a trace state or a resource returns a new object and leaves the object it was given exactly as it was. Contexts reject item assignment, trace states are read-only mappings, and span contexts and immutable attribute collections reject every attempt to assign or delete a member.",
   [I, P, S], "every updating operation on every value and every holder of a reference to the old value",
   "Tests check single updates on hand-made values; sharing bugs need a second holder of the old value and a particular update path.",
   [API + "context/__init__.py", API + "context/context.py", API + "baggage/__init__.py", API + "trace/span.py", API + "attributes/__init__.py", SDK + "resources/__init__.py"],
   [("copy-on-write", "context.set_value, baggage.*, TraceState.add/update/delete, Resource.merge"), ("immutability guards", "Context.__setitem__, SpanContext.__setattr__/__delattr__, BoundedAttributes.__setitem__/__delitem__")],
   "may-alias mutation (effect) analysis: no mutating operation on state reachable from a parameter or shared field")

P_("C03", "An explicitly passed context is the one that is used",
   "Wherever an operation accepts an optional context, a context the caller passes, including an empty one, is the one that is read, forwarded to nested operations and built upon. The ambient current context is consulted only when no context was passed.",
   [I, P], "every public operation with an optional context, every passed context (including an empty, falsy one)",
   "Tests pass non-empty contexts to a few operations; an empty context or a forgotten forwarding only matters in combinations they do not try.",
   [API + "context/__init__.py", API + "baggage/__init__.py", API + "trace/propagation/__init__.py", SDK + "trace/__init__.py", SDK + "metrics/_internal/instrument.py", B3, JAEGER, OCSHIM + "_shim_tracer.py"],
   [("optional-context defaulting", "functions with a parameter named context/parent_context/ctx of the Context type")],
   "conditional constant propagation: with the context parameter assumed present, the ambient-context read is unreachable and every callee with an optional context receives it")

P_("C04", "Extraction never fails and never yields an invalid parent",
   "Extracting from any carrier, whatever the headers contain or lack, returns a context and never raises. A parent span context is put into it only when the identifiers read are well formed and non-zero, it is marked as remote, and otherwise the span of the context that was passed in is left as it was.",
   [I, F], "every header value and every combination of present and missing headers, for the W3C, B3, Jaeger and baggage formats",
   "Header space is unbounded; tests sample a few malformed values per format.",
   [API + "trace/propagation/tracecontext.py", API + "baggage/propagation/__init__.py", B3, JAEGER],
   [("validity check before store", "extract() of each propagator"), ("remote marking", "SpanContext(is_remote=True)")],
   "dominance of the context store by a validity test and exception-escape analysis of parsing calls")

P_("C05", "Injection writes exactly the declared headers of a valid span",
   "A span propagator writes no identifiers when the context carries no valid span context, and a baggage propagator writes nothing without baggage. Every write goes through the supplied setter, uses only header names the propagator declares in its field list (the Jaeger baggage headers excepted, which use its declared prefix), and uses the same header names its extraction reads. A trace identifier is written with 32 and a span identifier with 16 lower-case hex digits, and the sampled flag written is the span's own.",
   [I, P], "every context (no span, invalid span, local or remote span) and every carrier/setter pair",
   "Tests inject a few contexts; agreement between the fields list, the writer and the reader is a relation between three sites.",
   [API + "trace/propagation/tracecontext.py", API + "baggage/propagation/__init__.py", B3, JAEGER],
   [("validity guard", "inject() of each propagator"), ("field list", "fields property of each propagator")],
   "dominance of setter calls by a validity test; set agreement between injected, extracted and declared header names")

P_("C06", "A composite propagator runs every member in order",
   "A composite propagator injects through every one of its members and extracts through every one of its members in order, each extraction receiving the context the previous one produced; its declared fields are the union of its members'. The global helpers delegate to the configured propagator with the caller's carrier, context, getter and setter.",
   [C, I], "every list of members, every carrier",
   "Tests use two mock members; dropping or reordering one in a longer chain goes unseen.",
   [API + "propagators/composite.py", API + "propagate/__init__.py"],
   [("member loop", "CompositePropagator.inject/extract/fields"), ("global delegation", "propagate.inject/extract")],
   "loop-coverage dataflow: each iteration calls the member and threads the loop-carried context")

# --------------------------------------------------------------------------
# Tracing
# --------------------------------------------------------------------------
P_("T01", "A span ends once and never changes afterwards",
   "Once a span has ended, no operation on it (attributes, events, links, exceptions, status, name, a second end) changes anything a reader of the span can observe, and it then reports that it is no longer recording. Ending records one end time, and processors are notified of the end exactly once, after the end time is in place, even when several threads end the span at the same time.",
   [S, H, P], "all interleavings of operations on one span from any number of threads, all histories in which an operation follows the end",
   "Tests call operations after end() in one thread for some operations; concurrent double end and each operation's guard need every schedule.",
   [SDK + "trace/__init__.py"],
   [("ended check under the span lock", "Span.set_attributes/add_event/_add_event/add_link/update_name/set_status/record_exception/end")],
   "conditional constant propagation seeded with an ended span: no store to observable span state is reachable; check-then-set of the end time within one lock region")

P_("T02", "A span scope ends the span, restores the context, keeps the exception",
   "Leaving a scope that makes a span current ends the span exactly when asked to, however the body exits; an exception from the body is recorded on the span and sets an error status exactly when the respective options ask for it, and it always reaches the caller unchanged. Leaving a span used as a context manager ends it, recording the exception first.",
   [F, P], "all exits of the body, all combinations of the recording options",
   "The exits and options multiply; tests take a few combinations with ordinary exceptions.",
   [API + "trace/__init__.py", SDK + "trace/__init__.py", API + "trace/span.py"],
   [("use_span", "trace.use_span"), ("start_as_current_span", "Tracer.start_as_current_span"), ("context manager protocol", "Span.__enter__/__exit__")],
   "must-pass-through over the exceptional CFG of the scope functions under each option assumption")

P_("T03", "The sampler alone decides recording and the sampled flag",
   "A span started by the SDK records, and reaches span processors, exactly when the sampler's decision says record; its context carries the sampled flag exactly when the decision says record-and-sample; and its attributes and trace state are those the sampler returned. Exporting processors pass on only spans whose sampled flag is set, and record-only spans are never exported.",
   [C, I, P], "every sampler decision (drop, record only, record and sample) and every span",
   "Tests run the built-in samplers; record-only decisions with each processor are hardly covered.",
   [SDK + "trace/__init__.py", SDK + "trace/sampling.py", SDK + "trace/export/__init__.py"],
   [("decision branches", "Tracer.start_span, Decision.is_recording/is_sampled"), ("sampled filter", "SimpleSpanProcessor.on_end, BatchSpanProcessor.on_end")],
   "conditional constant propagation per decision and per sampled-flag assumption")

P_("T04", "A child continues its parent's trace and parent-based sampling holds",
   "A span whose parent span context is valid gets the parent's trace identifier and records that parent; any other span, including one whose parent context is invalid, gets a fresh trace identifier and no parent; every span gets a fresh span identifier and generated identifiers are never the invalid ones. Parent-based sampling asks the root sampler when there is no valid parent, and otherwise the delegate for exactly the parent's remote/local and sampled/not-sampled combination.",
   [I, C], "every parent (absent, invalid, local, remote, sampled or not)",
   "Five delegates and two identifier paths multiply; tests check a handful of rows with matching defaults.",
   [SDK + "trace/__init__.py", SDK + "trace/sampling.py", SDK + "trace/id_generator.py"],
   [("parent handling", "Tracer.start_span"), ("delegate choice", "ParentBased.should_sample"), ("identifier generation", "RandomIdGenerator")],
   "decision-table extraction by conditional constant propagation over every parent class")

P_("T05", "Configured limits bind every attribute, event and link",
   "Every attribute collection stored on a span, event, link or log record is bounded by the configured count and value-length limit of its kind, whichever operation added it, and events and links themselves are bounded by their own limits. Whatever is discarded because of a limit is counted and the count is what the dropped counts of the span, event or record report.",
   [C, I, P], "every limit setting, every operation that adds attributes, events or links",
   "Limits are tested one at a time on some paths; a path that forgets one limit or swaps two needs that limit and that path together.",
   [SDK + "trace/__init__.py", SDK + "util/__init__.py", API + "attributes/__init__.py", SDK + "_logs/_internal/__init__.py"],
   [("bounded collections", "BoundedAttributes, BoundedList"), ("limit wiring", "Span.__init__/add_event/add_link/record_exception, LogRecord.__init__, SpanLimits, LogLimits")],
   "constructor-argument provenance: every stored collection is built with the limit fields of its kind; drop counters incremented on every discard path")

P_("T07", "Span status follows its precedence",
   "A span status once set to OK is final and no later status replaces it; an attempt to set UNSET is ignored; a description is kept only with an error status; and otherwise the last status set wins, whether given as a status object or as a status code with a description.",
   [H, I], "every sequence of set_status calls and every argument form",
   "Tests try a few sequences; precedence is a relation between the stored and the new status in every order and argument form.",
   [SDK + "trace/__init__.py", API + "trace/status.py"],
   [("precedence", "Span.set_status"), ("description rule", "Status.__init__")],
   "decision-table extraction of set_status by conditional constant propagation over every pair of stored and new status")

P_("T06", "Readers and processors of a span get isolated views",
   "Whatever a span hands out (its readable view, its attributes, events and links) cannot be used to change the span, and later changes to the live span do not show in a view taken at its end. Collections and objects passed in by a caller are copied, so neither later changes by the caller alter the span nor does the span alter the caller's objects.",
   [P, S], "every accessor and every holder of a returned or passed object",
   "Aliasing is invisible until a second holder mutates; tests do not hold references across mutations for all accessors.",
   [SDK + "trace/__init__.py", SDK + "util/__init__.py", API + "attributes/__init__.py"],
   [("copies", "ReadableSpan accessors, Span._readable_span, Span._new_links, BoundedAttributes/BoundedList")],
   "escape/alias analysis of accessor return values and stored parameters")

# --------------------------------------------------------------------------
# Export pipelines
# --------------------------------------------------------------------------
P_("B01", "A failing exporter never reaches the application or stops the pipeline",
   "An exception raised by a span or log exporter's export is caught and logged by the processor that called it: it never propagates into the instrumented application's call, and it never ends a background worker. Every export of spans, logs and metrics runs with instrumentation suppressed.",
   [F, S], "every exception from every exporter call, on the emitting thread, the worker thread and in flush/shutdown drains",
   "Each fault position must be tried on every call path; tests inject one exception in one path.",
   [SDK + "trace/export/__init__.py", SDK + "_logs/_internal/export/__init__.py", SDK + "metrics/_internal/export/__init__.py"],
   [("exception barrier", "SimpleSpanProcessor.on_end, BatchSpanProcessor._export_batch, SimpleLogRecordProcessor.emit, BatchLogRecordProcessor._export_batch"), ("suppression", "attach(set_value(_SUPPRESS_INSTRUMENTATION_KEY, True))")],
   "exception-escape analysis at exporter call sites plus dominance by the suppression attach")

P_("B02", "Batch queues are bounded and recording never blocks on export",
   "A batching processor holds at most its configured maximum queue size, discarding rather than growing, and hands an exporter at most its configured maximum batch size at once. Recording a span or a log through it never waits for the exporter, the worker or a timeout; after shutdown nothing more is queued.",
   [S, C], "every arrival rate, queue size, batch size and schedule",
   "Tests use small queues and fast exporters; the bound and the absence of waiting must hold for every schedule.",
   [SDK + "trace/export/__init__.py", SDK + "_logs/_internal/export/__init__.py"],
   [("bounded deque", "BatchSpanProcessor.__init__, BatchLogRecordProcessor.__init__"), ("non-blocking path", "on_end / emit")],
   "effect analysis of the recording path (no blocking call, no export) and provenance of the queue bound and of the batch bound")

P_("B03", "Shutdown drains the queue before closing the exporter",
   "Shutting down a batching processor stops its worker, exports everything that was queued, waits for the worker, and only then shuts the exporter down, once. A caller waiting in a flush is always released: once its flush has been served, also when exporting failed, and also when the worker stops.",
   [S, H, F], "every queue content and every interleaving of recording, flushing and shutdown",
   "Lost wake-ups and lost final batches depend on the schedule; tests use sleeps on a few.",
   [SDK + "trace/export/__init__.py", SDK + "_logs/_internal/export/__init__.py"],
   [("drain after loop", "worker()"), ("ordering", "shutdown()"), ("flush hand-off", "_FlushRequest event, _notify_flush_request_finished")],
   "must-pass-through and ordering on the interprocedural CFG of worker, shutdown and force_flush")

P_("B04", "Background pipelines survive a fork",
   "After a fork the child's batching processors and periodic readers work again: a new worker thread is started, every lock, condition and event they own, which the parent's threads may have held, is replaced, and neither queued items nor flush requests inherited from the parent are served a second time. The hook is registered without keeping the processor alive and does nothing once it is gone.",
   [S, P], "every point at which the process forks, every state of the parent's threads",
   "A fork while another thread holds the lock cannot be scheduled by a test.",
   [SDK + "trace/export/__init__.py", SDK + "_logs/_internal/export/__init__.py", SDK + "metrics/_internal/export/__init__.py"],
   [("fork hook", "os.register_at_fork + _at_fork_reinit")],
   "set comparison: synchronisation fields used by the worker vs. fields re-created by the fork handler")

P_("B05", "Every registered processor sees every event",
   "Starting and ending a span, emitting a log record and shutting down reach every registered processor, in registration order, and a flush reports success only when every registered processor flushed successfully within the time given. A processor registered while others are in use never makes a concurrent notification miss or repeat another one.",
   [C, S, F], "every list of processors and every interleaving of registration and notification",
   "Tests register two processors from one thread.",
   [SDK + "trace/__init__.py", SDK + "_logs/_internal/__init__.py"],
   [("fan-out", "SynchronousMultiSpanProcessor, ConcurrentMultiSpanProcessor, SynchronousMultiLogRecordProcessor, ConcurrentMultiLogRecordProcessor"), ("copy-on-write registration", "add_span_processor / add_log_record_processor")],
   "loop-coverage dataflow over sibling fan-out classes; copy-on-write store check")

# --------------------------------------------------------------------------
# Locks
# --------------------------------------------------------------------------
P_("L01", "Shared mutable state is only touched under its lock",
   "State that several threads may reach (span contents, instrument and storage registries, aggregation values, batch flush requests, global providers) is modified only while holding the one lock that protects it, in every method. A decision and the update that depends on it happen within the same critical section.",
   [S, P], "all interleavings of all public operations",
   "Data races need a precise interleaving; the test suite runs each operation from essentially one thread.",
   [SDK + "trace/__init__.py", SDK + "util/__init__.py", SDK + "metrics/_internal/__init__.py", SDK + "metrics/_internal/aggregation.py", SDK + "metrics/_internal/_view_instrument_match.py", SDK + "metrics/_internal/metric_reader_storage.py", SDK + "metrics/_internal/measurement_consumer.py", API + "attributes/__init__.py", API + "metrics/_internal/__init__.py", API + "trace/__init__.py"],
   [("lock fields", "every class owning a threading lock")],
   "must-held lockset analysis against a confirmed guarded-by table")

P_("L02", "Locks are released on every exit and cannot deadlock",
   "Every lock taken is released on every way out, including exceptions, and only by an execution that took it. No two locks are ever taken in opposite orders, and no code supplied by the user (callbacks, exporters, processors, log handlers) runs while a lock that the same thread may need again is held non-reentrantly, except under the locks that exist to run one export or one collection of a reader at a time.",
   [S, F, P], "all interleavings, all exceptions, all user callbacks",
   "Deadlocks need a particular schedule or a re-entrant callback.",
   [SDK + "trace/__init__.py", SDK + "trace/export/__init__.py", SDK + "metrics/_internal/measurement_consumer.py", SDK + "metrics/_internal/export/__init__.py", OTLPG + "exporter.py", API + "metrics/_internal/__init__.py"],
   [("with-statement locking", "every acquire site")],
   "acquire/release pairing over the exceptional CFG, lock-order graph over the call graph, user-code-under-lock effects")

# --------------------------------------------------------------------------
# Metrics
# --------------------------------------------------------------------------
P_("M01", "Every measurement reaches every reader and every matching view",
   "A measurement reaches the storage of every registered reader and, there, every stream whose view matches the instrument; when no view matches it reaches exactly one default stream (an explicit-bucket view is refused for an asynchronous instrument). A stream keeps exactly the attributes its view keeps and carries its view's name and description, else its instrument's; a collection reports every stream that has data, in its kind, temporality, scope and resource, and measurements of dropped streams are not exported.",
   [C, S, I], "every set of readers and views, every instrument",
   "Readers times views times instruments; tests cover a few pairs.",
   [SDK + "metrics/_internal/measurement_consumer.py", SDK + "metrics/_internal/metric_reader_storage.py", SDK + "metrics/_internal/view.py", SDK + "metrics/_internal/_view_instrument_match.py"],
   [("fan-out loops", "SynchronousMeasurementConsumer.consume_measurement, MetricReaderStorage.consume_measurement"), ("view matching", "MetricReaderStorage._handle_view_instrument_match, View._match")],
   "loop-coverage dataflow and decision-table extraction of the view criteria")

P_("M02", "Collection takes each measurement exactly once",
   "Recording a measurement into an aggregation and collecting it exclude each other, and a collection reads and resets within one critical section, so that no measurement is lost or reported twice; each measurement enters the sum, the count, the extremes and the one bucket it belongs to exactly once. A delta point covers the time since the previous delta collection; a cumulative point's start never moves and its totals are never reset by a collection.",
   [S, H], "every interleaving of recording and collecting threads, every history of collections",
   "Losing one update needs a thread switch between read and reset.",
   [SDK + "metrics/_internal/aggregation.py", SDK + "metrics/_internal/_view_instrument_match.py"],
   [("locked read-and-reset", "_SumAggregation/_LastValueAggregation/_ExplicitBucketHistogramAggregation/_ExponentialBucketHistogramAggregation.aggregate and .collect")],
   "lockset and same-critical-section (atomicity) analysis; reset reachability under temporality assumptions")

P_("M03", "Registering the same instrument twice yields one instrument",
   "Asking a meter again for an instrument of the same kind, name, unit and description (and only then) returns the very instrument created first, whatever the threads doing so; a conflicting request is logged and still yields a working instrument. The same holds for meters of one provider asked for by the same name, version, schema URL and attributes. Every instrument is of the kind, name, unit and description asked for, and every asynchronous instrument's callbacks are registered for collection exactly once.",
   [S, H], "every interleaving of creations, every history of requests",
   "A second creator running between registration and storage cannot be scheduled by unit tests.",
   [SDK + "metrics/_internal/__init__.py", API + "metrics/_internal/__init__.py", SDK + "metrics/_internal/instrument.py"],
   [("register-then-store", "Meter.create_*"), ("meter cache", "MeterProvider.get_meter")],
   "atomicity of check-create-store in one lock region; sibling agreement over the seven create operations")

P_("M04", "Instruments enforce their arithmetic and default aggregation",
   "A monotonic counter and a histogram never accept a negative amount: it is logged and not recorded, while up-down counters and gauges accept any amount; a measurement carries the instrument, the amount, the attributes, the time and the context of the call. Every instrument kind has its default aggregation: sums (monotonic exactly for counters), last value for gauges, explicit-bucket histogram for histograms.",
   [I, P], "every instrument kind and every amount including zero and negatives",
   "Seven instrument kinds times amounts; tests sample few.",
   [SDK + "metrics/_internal/instrument.py", SDK + "metrics/_internal/aggregation.py"],
   [("negative checks", "Counter.add, Histogram.record"), ("default table", "DefaultAggregation._create_aggregation")],
   "branch-guard analysis of the record path and decision-table extraction of the default aggregation")

P_("M05", "Temporality and aggregation preferences select as documented",
   "For every instrument kind and every documented preference (cumulative, delta, low memory), the exporters and readers use the temporality the specification's table gives, and an aggregation or temporality the user configures for an instrument kind overrides the default for exactly that kind. The configured default histogram aggregation applies to histograms only.",
   [C], "every preference value times every instrument kind",
   "The table has 3 x 6 cells in two exporters; tests check some.",
   [OTLPC + "_internal/metrics_encoder/__init__.py", SDK + "metrics/_internal/export/__init__.py"],
   [("preference table", "OTLPMetricExporterMixin._get_temporality/_get_aggregation"), ("override", "MetricReader.__init__")],
   "table extraction by conditional constant propagation per preference value")

P_("M06", "The periodic reader keeps exporting and flushes on shutdown",
   "A periodic reader collects and exports at its interval until it is shut down; a failing or slow export or collection is logged and does not end the periodic export. Shutdown stops the worker, exports what has been recorded one last time, then shuts the exporter down; exports of one reader never overlap, and a forced flush also flushes the exporter.",
   [F, S, H], "every failure of an export or collection and every interleaving of flush, tick and shutdown",
   "A failure on the n-th tick followed by further ticks is not exercised.",
   [SDK + "metrics/_internal/export/__init__.py"],
   [("ticker loop", "PeriodicExportingMetricReader._ticker"), ("export lock", "PeriodicExportingMetricReader._receive_metrics"), ("shutdown", "PeriodicExportingMetricReader.shutdown")],
   "exception-escape analysis of the ticker loop, lockset at the export call, must-pass-through on shutdown")

P_("M07", "One bad callback does not spoil a collection",
   "An exception in one asynchronous instrument's callback is logged and neither aborts the collection, nor loses what other callbacks of the same or other instruments report, nor loses synchronous data. Observations already produced reach the stream of the instrument and reader being collected only.",
   [F, P], "every callback failure at every position",
   "Tests make one callback fail once.",
   [SDK + "metrics/_internal/instrument.py", SDK + "metrics/_internal/measurement_consumer.py"],
   [("callback barrier", "_Asynchronous.callback"), ("collection loop", "SynchronousMeasurementConsumer.collect")],
   "exception-escape analysis of the callback loop (handler inside the loop body)")

P_("M08", "Metric state is isolated from the caller and from shared configuration",
   "The attributes of an aggregated stream, and those an exemplar keeps, are the ones at the time of the measurement even if the caller goes on changing the dictionary it passed, and the points and exemplars a reader is handed are not changed by later measurements or collections. Configuration objects shared between instruments (views, aggregations, bucket boundaries) are never modified by creating or collecting a stream.",
   [P, H, S], "every reuse of an attribute dictionary, every reuse of a configuration object",
   "Aliasing needs a second use of the same object after the first; tests build fresh objects.",
   [SDK + "metrics/_internal/_view_instrument_match.py", SDK + "metrics/_internal/aggregation.py", SDK + "metrics/_internal/instrument.py"],
   [("copies", "_ViewInstrumentMatch.consume_measurement, *Aggregation.collect, *Aggregation._create_aggregation")],
   "escape/alias analysis of stored parameters, returned points and factory self-mutation")

P_("M09", "A meter provider flushes and shuts down every reader",
   "Flushing or shutting down a meter provider reaches every registered reader even if one of them fails, and failures are reported to the caller after all were reached. Shutdown takes effect once; after it, the provider hands out no-op meters and does not shut readers down again, and a reader belongs to one provider at most.",
   [F, C, H, S], "every failing subset of readers, repeated and concurrent shutdowns",
   "Tests fail one reader in one position.",
   [SDK + "metrics/_internal/__init__.py"],
   [("error collection", "MeterProvider.force_flush/shutdown"), ("once-only shutdown", "MeterProvider.shutdown")],
   "loop-coverage with exceptional edges, atomic test-and-set, conditional constant propagation on the shutdown flag")

P_("M10", "Exemplars are chosen by the filter and carry the measurement they are of",
   "The exemplar filters decide alone: always-on takes every measurement, always-off none, trace-based exactly those in the context of a sampled span; a measurement's context is the one given with it, else the current one. Every aggregation that records a measurement offers it to its reservoir exactly once if the filter took it, whatever its value, and never otherwise. An exemplar has the measurement's value and time, the trace and span id of the span in the measurement's context (none if that has no valid span, never those of an earlier measurement), and exactly those attributes of the measurement that are not the stream's. A fixed-size reservoir loses no measurement while it has room and afterwards keeps each with the same chance, never more than its size; a histogram's reservoir keeps the last measurement of each of the histogram's own buckets, and by default explicit-bucket histograms use it and all else the fixed-size one. A collection reports every exemplar kept, with the point of its stream, and empties the reservoir, so each is reported once.",
   [I, H, P], "every measurement value, span context, reservoir size and sequence of measurements and collections",
   "Tests fill one reservoir with a few positive values in a valid span or none.",
   [SDK + "metrics/_internal/exemplar/exemplar_reservoir.py", SDK + "metrics/_internal/exemplar/exemplar_filter.py", SDK + "metrics/_internal/aggregation.py", SDK + "metrics/_internal/view.py"],
   [("sampling", "ExemplarFilter.should_sample, _Aggregation._sample_exemplar"), ("reservoirs", "ExemplarBucket, FixedSizeExemplarReservoirABC and subclasses")],
   "must-pass-through, field provenance and constant propagation over reservoir fill levels")

# --------------------------------------------------------------------------
# Logs
# --------------------------------------------------------------------------
P_("G01", "A log record carries its origin, severity and active span",
   "A standard-library log record is emitted with the message it formats to, the severity number and text its level maps to by the fixed band table, its time in nanoseconds, its extra attributes, and its exception's type, message (its first argument) and traceback when it has one; a record emitted within a span carries that span's trace and span identifiers and flags. An event's record carries the identifiers, flags, time and severity the event was given, and otherwise the active span's, the current time and INFO. The SDK logger passes each record with its resource and scope to the processors.",
   [I, P], "every log level, every record, every active span",
   "Tests try a few levels and exceptions.",
   [SDK + "_logs/_internal/__init__.py", API + "_logs/severity/__init__.py", SDK + "_events/__init__.py"],
   [("translation", "LoggingHandler._translate/_get_attributes"), ("severity bands", "std_to_otel and its table"), ("hand-off", "Logger.emit")],
   "field-provenance dataflow from source record to log record; table extraction of the severity bands")

# --------------------------------------------------------------------------
# API facade
# --------------------------------------------------------------------------
P_("A01", "A global provider can be set once and is then seen by everyone",
   "Each global (tracer, meter, logger and event-logger provider) can be set at most once: of several attempts, concurrent ones included, exactly one takes effect and the others only log a warning. Until one is set, the accessor hands out a provider that forwards to the real one as soon as it is set.",
   [S, H], "every interleaving of set and get calls",
   "Concurrent first sets are not scheduled by tests.",
   [API + "trace/__init__.py", API + "metrics/_internal/__init__.py", API + "_logs/_internal/__init__.py", API + "_events/__init__.py", API + "util/_once.py"],
   [("once", "util._once.Once"), ("setters", "_set_*_provider"), ("proxies", "Proxy*Provider")],
   "sibling agreement over the four globals; guard analysis of the global store; double-checked locking check of Once")

P_("A02", "Proxies created early behave like the real thing later",
   "A tracer, meter, instrument or logger obtained before the real provider is set forwards every later operation to the real one with all the arguments the caller gave, including the arguments it was itself created with. Instruments created through a proxy meter exist in the real meter once it is set, each once, none missed by a concurrent registration.",
   [S, H, P], "every operation of every proxy, before and after the switch, in every interleaving",
   "Each proxy method and each argument needs its own test; races at the switch are not covered.",
   [API + "trace/__init__.py", API + "metrics/_internal/__init__.py", API + "metrics/_internal/instrument.py", API + "_logs/_internal/__init__.py"],
   [("forwarding", "ProxyTracer, _ProxyMeter, _ProxyInstrument subclasses, ProxyLogger")],
   "argument-forwarding dataflow against the interface signature for each proxy method; lockset of the switch")

P_("A03", "A disabled SDK and no-op implementations do nothing and never fail",
   "With the SDK disabled by its environment switch, each provider hands out no-op tracers, meters and loggers. No-op implementations accept every call of the interface, never raise, and a no-op tracer passes the parent's span context on.",
   [C, P], "every operation of the interface on its no-op implementation, every spelling of the switch",
   "The interface is wide; tests call a few no-op methods.",
   [SDK + "trace/__init__.py", SDK + "metrics/_internal/__init__.py", SDK + "_logs/_internal/__init__.py", API + "trace/__init__.py", API + "metrics/_internal/__init__.py", API + "metrics/_internal/instrument.py", API + "_logs/_internal/__init__.py"],
   [("switch", "_disabled / OTEL_SDK_DISABLED in provider constructors"), ("no-op classes", "NoOp*")],
   "conditional constant propagation on the switch; signature conformance and effect analysis of no-op classes")

# --------------------------------------------------------------------------
# Exporters
# --------------------------------------------------------------------------
P_("E01", "OTLP spans carry every field of the span",
   "An exported OTLP span carries the source span's name, trace and span identifiers, parent identifier, trace state, kind, start and end time, attributes, events with their own attributes and times, links with their own identifiers, trace state and attributes, status code and message, the dropped counts, and flags telling whether the parent (or the linked context) is remote, each in the field meant for it. Spans are grouped under exactly their own resource and instrumentation scope, with scope name, version and schema URL, and none is lost or duplicated.",
   [I], "every span content and every mix of resources and scopes in a batch",
   "Tests compare a few fully built messages; a swapped or dropped optional field only shows with that field set.",
   [OTLPC + "_internal/trace_encoder/__init__.py", OTLPC + "_internal/__init__.py"],
   [("encoder", "encode_spans and helpers")],
   "field-provenance dataflow: each wire field's value derives from its source attribute; table extraction of kind/status")

P_("E02", "OTLP metrics carry every field of the data point",
   "Each exported OTLP metric keeps name, description, unit, its data-point kind, temporality and monotonicity; each point keeps attributes, start and end time, value as integer or double according to its type, and for histograms count, sum, bucket counts, bounds, min and max (and scale, zero count and both bucket ranges when exponential). Exemplars keep value, time, filtered attributes and span identity.",
   [I], "every metric data type and every point content",
   "Five point kinds times a dozen fields; tests build a few.",
   [OTLPC + "_internal/metrics_encoder/__init__.py"],
   [("encoder", "encode_metrics and helpers")],
   "field-provenance dataflow and type-exhaustiveness over the point classes")

P_("E03", "OTLP logs carry every field of the record",
   "Each exported OTLP log record keeps time, observed time, identifiers, flags, body, severity text and number, attributes and dropped count, under exactly its own resource and scope, and a record lacking optional fields is still exported rather than failing the batch.",
   [I], "every combination of present and absent optional fields",
   "Records with absent optional fields are rarely built in tests.",
   [OTLPC + "_internal/_log_encoder/__init__.py", OTLPC + "_internal/__init__.py"],
   [("encoder", "encode_logs and _encode_log")],
   "field-provenance dataflow; optional-field dereference analysis")

P_("E04", "Attribute values are encoded by their exact type",
   "Every attribute value type the API accepts is encoded as its own wire type: booleans as booleans and not as integers, strings, integers, floats, byte strings, sequences and mappings recursively. One value that cannot be encoded is reported and loses only itself, never the other attributes or the batch.",
   [I], "every accepted attribute type, nested to any depth",
   "Type order matters only for subtype pairs; tests list a few values.",
   [OTLPC + "_internal/__init__.py", API + "attributes/__init__.py"],
   [("type dispatch", "_encode_value/_encode_attributes, _clean_attribute")],
   "dispatch-order analysis over the type lattice (bool before int), exhaustiveness, handler inside the loop")

P_("E05", "Exports retry only transient failures and report the truth",
   "A push exporter reports success only when the receiver accepted the data. The OTLP exporters retry transient failures (HTTP 408 and 5xx; gRPC CANCELLED, DEADLINE_EXCEEDED, RESOURCE_EXHAUSTED, ABORTED, OUT_OF_RANGE, UNAVAILABLE and DATA_LOSS) after a growing delay, or the delay the receiver asks for, a bounded number of times and then report failure; permanent failures are reported at once and not retried. An export never loops forever, and a batch sent in parts is a success only if every part is.",
   [F], "every sequence of receiver responses",
   "Sequences of responses are unbounded; tests script a few.",
   [OTLPG + "exporter.py", OTLPH + "trace_exporter/__init__.py", OTLPH + "metric_exporter/__init__.py", OTLPH + "_log_exporter/__init__.py", ZJ + "json/__init__.py", ZP + "__init__.py"],
   [("retry loop", "_export / export"), ("retryable set", "_is_retryable, gRPC status code set")],
   "result-by-condition dataflow: SUCCESS returns dominated by acceptance; retry edges dominated by the transient test; loop bounded")

P_("E06", "A closed exporter sends nothing",
   "After shutdown an exporter sends nothing more: a further export is refused with a failure result and a warning, an export waiting to retry gives up, and repeated shutdowns only warn; a stopped in-memory exporter refuses what it is given. Shutting down a gRPC exporter waits for a running export up to its timeout and then closes without disturbing the lock of the export still running.",
   [H, S], "every history with operations after shutdown, every overlap of export and shutdown",
   "Overlap of export and shutdown is schedule-dependent; sibling exporters are tested unevenly.",
   [OTLPG + "exporter.py", OTLPH + "trace_exporter/__init__.py", OTLPH + "metric_exporter/__init__.py", OTLPH + "_log_exporter/__init__.py", ZJ + "json/__init__.py", ZP + "__init__.py", SDK + "trace/export/in_memory_span_exporter.py", SDK + "_logs/_internal/export/in_memory_log_exporter.py"],
   [("closed flag", "shutdown()/export() of each exporter")],
   "typestate by conditional constant propagation seeded with the closed flag; sibling agreement; lock ownership on release")

P_("E07", "Exporter settings follow one precedence",
   "For every OTLP and Zipkin exporter, a setting given as an argument wins over the signal-specific environment variable, which wins over the general environment variable, which wins over the built-in default, separately for endpoint, headers, timeout, compression, certificates and insecure mode; only a general HTTP endpoint gets the signal's path appended, an https endpoint is always secure over gRPC, and HTTP payloads are encoded as their Content-Encoding says. Each signal reads its own variables and the general ones, never another signal's.",
   [C], "every combination of argument, signal-specific and general variable for every setting",
   "2^3 combinations per setting per exporter; tests sample them.",
   [OTLPG + "exporter.py", OTLPG + "trace_exporter/__init__.py", OTLPG + "metric_exporter/__init__.py", OTLPG + "_log_exporter/__init__.py", OTLPH + "trace_exporter/__init__.py", OTLPH + "metric_exporter/__init__.py", OTLPH + "_log_exporter/__init__.py", ZJ + "json/__init__.py", ZP + "__init__.py"],
   [("fallback chain", "exporter constructors")],
   "precedence extraction: evaluation order of the fallback chain by conditional constant propagation over presence assumptions")

P_("E08", "Zipkin spans carry every field of the span",
   "Each exported Zipkin span carries the identifiers, parent, name, start time and duration in microseconds, kind, local endpoint, tags from attributes, resource, scope and status, and annotations from events; the error tag appears exactly for error status. Version 1 has no kind and attaches the endpoint to every annotation instead. The debug flag follows the span's sampled flag, a part the span lacks is left out, and a configured length limit (or none) applies to the value of every attribute.",
   [I], "every span content and every encoder version",
   "Three encoders share the fields; tests compare a few spans.",
   [ZJ + "encoder/__init__.py", ZJ + "json/v1/__init__.py", ZJ + "json/v2/__init__.py", ZP + "v2/__init__.py"],
   [("encoders", "Encoder, JsonV1Encoder, JsonV2Encoder, ProtobufEncoder")],
   "field-provenance dataflow over sibling encoders")

P_("E09", "A Prometheus scrape reflects every metric with its right type",
   "Every collected metric appears in the scrape as the Prometheus type of its data (monotonic cumulative sums as counters, other sums and gauges as gauges, histograms with cumulative buckets ending in +Inf equal to the count), with sanitized names and labels whose values stay paired with their names. A data type that cannot be represented is logged and skipped without losing the others. Each scrape asks the reader to collect and reports every series of one collection once; the reader asks for cumulative data only; target info carries the resource unless disabled.",
   [I], "every metric data type and label set",
   "Point sets with different label keys and unsupported types are rarely combined.",
   [PROM],
   [("translation", "_CustomCollector._translate_to_prometheus")],
   "decision-table extraction of the metric-type mapping, exception-escape analysis, label pairing dataflow")

# --------------------------------------------------------------------------
# Configuration and resources
# --------------------------------------------------------------------------
P_("K01", "Invalid or missing settings fall back to documented defaults",
   "The batch processors, the periodic reader, the sampler and its ratio, the exemplar filter and the runtime context honour a valid environment setting, each its own variable; a constructor argument wins over it; and a setting that is missing or cannot be read (a sampler ratio outside 0..1 included) yields the documented default, is logged, and never raises from the constructor. Span and log limits follow the same precedence (specific, then general, then default; an empty variable means no limit), but a value that is no non-negative integer is rejected with ValueError. Sampler names map to their samplers, directly and through auto-configuration; an unknown or broken one falls back to the parent-based always-on default.",
   [C], "every combination of argument and environment setting, valid, unreadable or missing",
   "Values are unbounded; tests try one bad value for some settings.",
   [SDK + "trace/__init__.py", SDK + "trace/sampling.py", SDK + "trace/export/__init__.py", SDK + "_logs/_internal/__init__.py", SDK + "_logs/_internal/export/__init__.py", SDK + "metrics/_internal/__init__.py", SDK + "metrics/_internal/export/__init__.py", SDK + "_configuration/__init__.py", API + "context/__init__.py"],
   [("parsers", "SpanLimits/LogLimits._from_env_if_absent, sampling._get_from_env_or_default, _import_sampler, BatchSpanProcessor/BatchLogRecordProcessor._default_*, PeriodicExportingMetricReader.__init__, _get_exemplar_filter, _load_runtime_context")],
   "exception-escape analysis of conversions of environment values; table extraction of sampler names; precedence by conditional constant propagation")

P_("K02", "Resources merge by precedence and detectors are isolated",
   "Merging resources keeps every attribute of both, the updating one winning on conflict, and keeps or takes the schema URL by the specified rule (the old one if set, else the updating one's), reporting a conflict and then returning the old resource. Resource.create layers the SDK's attributes, the detectors' in the listed order, and the caller's; the attributes of OTEL_RESOURCE_ATTRIBUTES are always asked for, a malformed pair there is logged and skipped, and OTEL_SERVICE_NAME overrides its service name; a service name is always present. A detector that cannot be loaded, fails or exceeds the timeout is logged and neither prevents the others' attributes nor blocks the caller (unless it asks to raise). The built-in detectors report the process, host and operating system under the names they belong to; a provider given no resource has the created one; resources are equal when attributes and schema URL are.",
   [C, F, S], "every pair of resources, every failing subset of detectors",
   "Detector failures and orders combine; tests fail one.",
   [SDK + "resources/__init__.py"],
   [("merge", "Resource.merge"), ("aggregation", "get_aggregated_resources, Resource.create"), ("environment", "OTELResourceDetector.detect")],
   "decision-table extraction of the schema rule, exception-escape analysis per detector, ordering provenance")

P_("K03", "Auto-configuration wires every signal to its configured exporters",
   "Automatic configuration creates, for each signal, a provider holding the detected resource and one pipeline per configured exporter name of that signal, and sets it as the global of that signal; names are resolved per signal, and an unknown name is an error rather than silently ignored. The logging signal's handler is installed exactly when enabled.",
   [C], "every combination of exporter names and switches",
   "Three signals times exporters; tests mock most of it.",
   [SDK + "_configuration/__init__.py"],
   [("wiring", "_init_tracing/_init_metrics/_init_logging/_initialize_components/_import_exporters")],
   "argument-provenance and loop-coverage dataflow over sibling initialisers")

P_("K04", "Lifecycle hooks flush and shut down what was created",
   "Each provider (tracer, meter, logger) registers exactly one exit hook when asked to, which is the default, that shuts it down, and takes it back when it is shut down, also when a reader fails. Flushing and shutting down a provider (also the event logger provider, the processors that combine others, the simple and the batch processors and the periodic reader) reach the processors, readers and exporters beneath it, a flush with the caller's time budget or what is left of it, and success is reported only when everyone reached reported success.",
   [H, C], "every provider and every history of flush and shutdown",
   "Exit-time behaviour is not observable in unit tests.",
   [SDK + "trace/__init__.py", SDK + "metrics/_internal/__init__.py", SDK + "_logs/_internal/__init__.py", SDK + "_events/__init__.py"],
   [("atexit", "provider constructors and shutdown()"), ("delegation", "force_flush/shutdown")],
   "sibling agreement over providers: must-pass-through and argument/result forwarding")

P_("S01", "Semantic-convention names match their values",
   "Every semantic-convention constant's value is the dotted name its identifier spells (the one registered for it in release 1.31.0 of the conventions), no two constants of one group share a value by accident, and stable constants agree with their incubating twins. Metric instrument factories use the name, unit and kind belonging to their own constant.",
   [P], "all semantic-convention constants",
   "There are thousands of constants and no test reads them.",
   ["opentelemetry-semantic-conventions/src/opentelemetry/semconv"],
   [("generated constants", "semconv/attributes, semconv/_incubating, semconv/metrics, semconv/trace, semconv/resource")],
   "exhaustive constant-table consistency analysis over the syntax tree")

P_("Z01", "Shims keep the bridged API's guarantees",
   "The OpenTracing and OpenCensus bridges translate spans faithfully. OpenTracing: operation name, tags, and start, finish and log times (in nanoseconds) reach the OpenTelemetry span; the parent is the one given, else the active span unless that is to be ignored, else the first valid reference, and every valid reference becomes a link; a log is an event named by its 'event' value (else 'log') with all its values; a baggage item set on a span is read back from it; closing a scope restores the span that was active before and ends its span only if asked to; the active scope represents the active OpenTelemetry span; inject and extract go through the global propagator and refuse unsupported formats. OpenCensus: identifiers, sampled flag, remoteness and trace state of the parent are kept, also within the context it is set in; times denote the same instant; attributes, annotations, message events (type, sizes, time) and status reach the span; ending or leaving a span restores the span that was current before, in both contexts, and reports the exception.",
   [I, P], "every call of the bridged API",
   "Two foreign APIs times options; tests sample.",
   [OTSHIM, OCSHIM + "_shim_span.py", OCSHIM + "_shim_tracer.py", OCSHIM + "_patch.py"],
   [("bridging", "TracerShim, SpanShim, ScopeManagerShim, ShimTracer, ShimSpan")],
   "argument-provenance dataflow over the bridge methods")

# --------------------------------------------------------------------------
# Not applicable
# --------------------------------------------------------------------------
P_("N01", "Histogram and exponential-histogram numbers are exact",
   "Bucket boundaries, indices, scale changes and merges place every recorded value in the bucket the specification defines, and counts, sums, minima and maxima equal those of the recorded values for any sequence of measurements.",
   [I, H], "every sequence of recorded values", "The value space is unbounded.",
   [SDK + "metrics/_internal/aggregation.py", SDK + "metrics/_internal/exponential_histogram/mapping/logarithm_mapping.py"],
   [("aggregation arithmetic", "_ExplicitBucketHistogramAggregation, _ExponentialBucketHistogramAggregation")],
   na="Numerical equality over unbounded runtime values (floating-point logarithms, bucket arithmetic); no syntactic or dataflow argument bounds it. The atomicity and isolation parts are claimed separately as M02 and M08.")
P_("N02", "Ratio sampling keeps the configured fraction",
   "Ratio-based sampling keeps the configured fraction of traces and a trace sampled at a lower ratio is sampled at every higher one.",
   [I], "every ratio and every trace identifier", "The identifier space is unbounded.",
   [SDK + "trace/sampling.py"], [("bound comparison", "TraceIdRatioBased")],
   na="A statistical and arithmetic statement over 128-bit runtime values; deciding it needs numeric reasoning or a solver, not source-shape analysis.")
P_("N03", "Flush and export finish within their time budget",
   "Flush, shutdown, collection and export return within the time budget they are given, and periodic work happens at its interval.",
   [S], "every schedule and every load", "Timing depends on the machine.",
   [SDK + "trace/export/__init__.py", SDK + "metrics/_internal/export/__init__.py"], [("deadlines", "force_flush, shutdown, collect")],
   na="Wall-clock behaviour of threads, sockets and the scheduler is a runtime quantity; statically only the absence of unbounded waits on the recording path is decided, under B02.")
P_("N04", "Extraction inverts injection",
   "Extracting what was injected yields the same identifiers, flags, trace state and baggage for every value, including values that need escaping.",
   [I], "every context and baggage value", "The value space is unbounded.",
   [API + "trace/propagation/tracecontext.py", API + "baggage/propagation/__init__.py", B3, JAEGER], [("codec pairs", "inject / extract")],
   na="Round-trip equality over unbounded strings and regular expressions is a runtime relation; the structural parts (agreeing header names, digits, validity and flags) are claimed under C04 and C05.")
P_("N05", "Delivered telemetry is complete and in order end to end",
   "Every sampled span, log and measurement that is not dropped for a documented reason arrives at the backend exactly once and in order of recording.",
   [S, F, H], "every schedule and every fault of the transport", "End-to-end histories are unbounded.",
   [SDK + "trace/export/__init__.py", OTLPG + "exporter.py"], [("pipelines", "batch processors and exporters")],
   na="A history property over threads, network and backend; no static argument in reach covers delivery. Structural parts are claimed as B01-B05, E05 and E06.")
