SX = SDK + "trace/export/__init__.py"
LX = SDK + "_logs/_internal/export/__init__.py"
TR = SDK + "trace/__init__.py"
LG = SDK + "_logs/_internal/__init__.py"
seed("b01-drain-escape", "B01", "an exporter that raises while the worker drains its queue at shutdown",
     "an exception raised by the exporter in the final drain ends the worker and loses the rest of the queue",
     [(LX, """        try:
            self._exporter.export(self._log_records[:idx])  # type: ignore
        except Exception:  # pylint: disable=broad-exception-caught
            _logger.exception("Exception while exporting logs.")
""", """        try:
            self._exporter.export(self._log_records[:idx])  # type: ignore
        except Exception:  # pylint: disable=broad-exception-caught
            if self._shutdown:
                raise
            _logger.exception("Exception while exporting logs.")
""")],
     '''
import logging
logging.disable(logging.CRITICAL)
import threading
threading.excepthook = lambda a: None
from opentelemetry.sdk._logs import LoggerProvider, LogRecord
from opentelemetry.sdk._logs.export import BatchLogRecordProcessor, LogExporter, LogExportResult
got = []
class E(LogExporter):
    def export(self, batch):
        got.append(len(batch))
        if len(got) == 1:
            raise RuntimeError("x")
        return LogExportResult.SUCCESS
    def shutdown(self):
        pass
lp = LoggerProvider(shutdown_on_exit=False)
lp.add_log_record_processor(BatchLogRecordProcessor(E(), schedule_delay_millis=100000, max_export_batch_size=4, max_queue_size=100))
lg = lp.get_logger("x")
import opentelemetry.sdk._logs._internal.export as ex
for i in range(3):
    lg.emit(LogRecord(timestamp=i, body=i))
lp.shutdown()
p = BatchLogRecordProcessor(E(), schedule_delay_millis=100000, max_export_batch_size=2, max_queue_size=100)
# more items than one batch: hold the worker back so that they are drained
got.clear()
gate = threading.Event()
class G(E):
    def export(self, batch):
        gate.wait(10)
        return super().export(batch)
lp = LoggerProvider(shutdown_on_exit=False)
lp.add_log_record_processor(BatchLogRecordProcessor(G(), schedule_delay_millis=100000, max_export_batch_size=2, max_queue_size=100))
lg = lp.get_logger("x")
for i in range(7):
    lg.emit(LogRecord(timestamp=i, body=i))
t = threading.Thread(target=lp.shutdown)
t.start()
import time
time.sleep(0.5)
gate.set()
t.join(20)
assert sum(got) == 7, got
''')
seed("b02-queue-floor", "B02", "a queue configured smaller than the default, with the exporter slower than the recording",
     "the queue of a batching log processor is never smaller than the default and so exceeds the configured maximum",
     [(LX, "        self._queue = collections.deque([], max_queue_size)", "        self._queue = collections.deque(\n            [], max(max_queue_size, _DEFAULT_MAX_QUEUE_SIZE)\n        )")],
     '''
import threading
from opentelemetry.sdk._logs import LoggerProvider, LogRecord
from opentelemetry.sdk._logs.export import BatchLogRecordProcessor, LogExporter, LogExportResult
n = []
gate = threading.Event()
inside = threading.Event()
class E(LogExporter):
    def export(self, batch):
        inside.set()
        gate.wait(20)
        n.append(len(batch))
        return LogExportResult.SUCCESS
    def shutdown(self):
        pass
lp = LoggerProvider(shutdown_on_exit=False)
lp.add_log_record_processor(BatchLogRecordProcessor(E(), schedule_delay_millis=100000, max_export_batch_size=2, max_queue_size=4))
lg = lp.get_logger("x")
lg.emit(LogRecord(timestamp=1, body="a"))
lg.emit(LogRecord(timestamp=1, body="a"))
inside.wait(20)
for i in range(50):
    lg.emit(LogRecord(timestamp=i, body=i))
gate.set()
lp.shutdown()
assert sum(n) <= 6, n
''')
seed("b03-drain-one-batch", "B03", "more queued items than one batch when the processor is shut down",
     "only one batch is exported at shutdown, the rest of the queue is lost",
     [(LX, "        while self._queue:\n            self._export_batch()", "        if self._queue:\n            self._export_batch()")],
     '''
import threading
from opentelemetry.sdk._logs import LoggerProvider, LogRecord
from opentelemetry.sdk._logs.export import BatchLogRecordProcessor, LogExporter, LogExportResult
n = []
gate = threading.Event()
inside = threading.Event()
class E(LogExporter):
    def export(self, batch):
        inside.set()
        gate.wait(20)
        n.append(len(batch))
        return LogExportResult.SUCCESS
    def shutdown(self):
        pass
lp = LoggerProvider(shutdown_on_exit=False)
lp.add_log_record_processor(BatchLogRecordProcessor(E(), schedule_delay_millis=100000, max_export_batch_size=2, max_queue_size=100))
lg = lp.get_logger("x")
for i in range(2):
    lg.emit(LogRecord(timestamp=1, body="a"))
inside.wait(20)
for i in range(20):
    lg.emit(LogRecord(timestamp=i, body=i))
t = threading.Thread(target=lp.shutdown)
t.start()
import time
time.sleep(0.5)
gate.set()
t.join(20)
assert sum(n) == 22, n
''')
seed("b04-inherited-queue", "B04", "a fork while spans are queued in the parent",
     "spans queued by the parent are exported by the child too",
     [(SX, "        self.queue.clear()\n", "")],
     '''
import os, sys
from opentelemetry.sdk.trace import TracerProvider
from opentelemetry.sdk.trace.export import BatchSpanProcessor
from opentelemetry.sdk.trace.export.in_memory_span_exporter import InMemorySpanExporter
e = InMemorySpanExporter()
tp = TracerProvider(shutdown_on_exit=False)
tp.add_span_processor(BatchSpanProcessor(e, schedule_delay_millis=100000))
tr = tp.get_tracer("x")
tr.start_span("parent").end()
pid = os.fork()
if pid == 0:
    rc = 3
    try:
        tr.start_span("child").end()
        ok = tp.force_flush(10000)
        rc = 0 if ok and [s.name for s in e.get_finished_spans()] == ["child"] else 1
    finally:
        os._exit(rc)
_, st = os.waitpid(pid, 0)
assert os.waitstatus_to_exitcode(st) == 0, st
''')
seed("b05-last-result-wins", "B05", "two log processors of which only the first fails to flush",
     "a flush reports success although a processor failed, when the last one succeeded",
     [(LG, """            if not lp.force_flush((deadline_ns - current_ts) // 1000000):
                return False

        return True


class ConcurrentMultiLog""", """            flushed = lp.force_flush((deadline_ns - current_ts) // 1000000)

        return not self._log_record_processors or bool(flushed)


class ConcurrentMultiLog""")],
     '''
from opentelemetry.sdk._logs import LoggerProvider, LogRecordProcessor
class P(LogRecordProcessor):
    def __init__(self, r):
        self.r = r
    def emit(self, log_data):
        pass
    def shutdown(self):
        pass
    def force_flush(self, timeout_millis=30000):
        return self.r
lp = LoggerProvider(shutdown_on_exit=False)
lp.add_log_record_processor(P(False))
lp.add_log_record_processor(P(True))
assert lp.force_flush(1000) is False
''')
