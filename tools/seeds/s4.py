MS = SDK + "metrics/_internal/metric_reader_storage.py"
TE = SDK + "trace/export/__init__.py"
seed("l01-match-race", "L01", "two threads that record the first measurements of one instrument at the same time",
     "the second thread replaces the streams the first one created and recorded into, losing its measurement",
     [(MS, """        with self._lock:
            # double check if it was set before we held the lock
            if instrument in self._instrument_view_instrument_matches:
                return self._instrument_view_instrument_matches[instrument]

""", """        with self._lock:
""")],
     '''
import threading, time
from opentelemetry.sdk.metrics import MeterProvider
from opentelemetry.sdk.metrics.export import InMemoryMetricReader
from opentelemetry.sdk.metrics._internal.metric_reader_storage import MetricReaderStorage
r = InMemoryMetricReader()
c = MeterProvider([r], shutdown_on_exit=False).get_meter("m").create_counter("c")
orig = MetricReaderStorage._handle_view_instrument_match
def slow(self, *a, **k):
    time.sleep(0.5)
    return orig(self, *a, **k)
MetricReaderStorage._handle_view_instrument_match = slow
ts = [threading.Thread(target=c.add, args=(1,)) for _ in range(4)]
[t.start() for t in ts]
[t.join() for t in ts]
v = [p.value for rm in r.get_metrics_data().resource_metrics for s in rm.scope_metrics for m in s.metrics for p in m.data.data_points]
assert v == [4], v
''')
seed("l02-log-under-condition", "L02", "a log handler that itself ends a span while the queue is full",
     "the warning is logged while the processor's non-reentrant condition lock is held, so the handler deadlocks",
     [(TE, """        if self.done:
            logger.warning("Already shutdown, dropping span.")
            return
        if not span.context.trace_flags.sampled:
            return
        if self._pid != os.getpid():
            _BSP_RESET_ONCE.do_once(self._at_fork_reinit)

        if len(self.queue) == self.max_queue_size:
            if not self._spans_dropped:
                logger.warning("Queue is full, likely spans will be dropped.")
                self._spans_dropped = True
""", """        if self.done:
            logger.warning("Already shutdown, dropping span.")
            return
        if not span.context.trace_flags.sampled:
            return
        if self._pid != os.getpid():
            _BSP_RESET_ONCE.do_once(self._at_fork_reinit)

        if len(self.queue) == self.max_queue_size:
            with self.condition:
                if not self._spans_dropped:
                    self._spans_dropped = True
                    logger.warning(
                        "Queue is full, likely spans will be dropped."
                    )
""")],
     '''
import logging, os, threading
from opentelemetry.sdk.trace import TracerProvider
from opentelemetry.sdk.trace.export import BatchSpanProcessor, SpanExporter, SpanExportResult
gate = threading.Event()
inside = threading.Event()
class E(SpanExporter):
    def export(self, spans):
        inside.set()
        gate.wait(30)
        return SpanExportResult.SUCCESS
    def shutdown(self):
        pass
p = TracerProvider(shutdown_on_exit=False)
p.add_span_processor(BatchSpanProcessor(E(), max_queue_size=4, max_export_batch_size=4, schedule_delay_millis=100000))
t = p.get_tracer("x")
class H(logging.Handler):
    def createLock(self):
        self.lock = None
    busy = False
    def emit(self, record):
        if H.busy:
            return
        H.busy = True
        t.start_span("log").end()
logging.getLogger("opentelemetry").addHandler(H())
logging.getLogger("opentelemetry").propagate = False
def run():
    for i in range(4):
        t.start_span("a").end()
    inside.wait(10)
    for i in range(12):
        t.start_span("b").end()
w = threading.Thread(target=run, daemon=True)
w.start()
w.join(20)
os._exit(1 if w.is_alive() else 0)
''')
