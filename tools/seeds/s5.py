M = "exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/"
TI = SDK + "trace/__init__.py"
LI = SDK + "_logs/_internal/__init__.py"
RS = SDK + "resources/__init__.py"
MSS = SDK + "metrics/_internal/metric_reader_storage.py"
INS = SDK + "metrics/_internal/instrument.py"
OTF = "shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py"
seed("e03-text-without-number", "E03", "a log record with a severity text but no severity number",
     "the severity text is not sent",
     [(M + "_log_encoder/__init__.py", "        severity_text=log_data.log_record.severity_text,\n", "        severity_text=log_data.log_record.severity_text\n        if severity_number\n        else None,\n")],
     '''
from opentelemetry.sdk._logs import LogData, LogRecord
from opentelemetry.sdk.resources import Resource
from opentelemetry.sdk.util.instrumentation import InstrumentationScope
from opentelemetry.exporter.otlp.proto.common._log_encoder import encode_logs
r = LogRecord(timestamp=1, severity_text="AUDIT", body="x", resource=Resource({}))
out = encode_logs([LogData(r, InstrumentationScope("n"))])
assert out.resource_logs[0].scope_logs[0].log_records[0].severity_text == "AUDIT"
''')
seed("e02-min-zero", "E02", "a histogram whose smallest recorded value is zero",
     "the minimum is left unset instead of being 0",
     [(M + "metrics_encoder/__init__.py", "                max=data_point.max,\n                min=data_point.min,\n            )\n            pb2_metric.histogram.", "                max=data_point.max,\n                min=data_point.min or None,\n            )\n            pb2_metric.histogram.")],
     '''
from opentelemetry.sdk.metrics import MeterProvider
from opentelemetry.sdk.metrics.export import InMemoryMetricReader
from opentelemetry.exporter.otlp.proto.common.metrics_encoder import encode_metrics
r = InMemoryMetricReader()
h = MeterProvider([r], shutdown_on_exit=False).get_meter("m").create_histogram("h")
h.record(0); h.record(3)
p = encode_metrics(r.get_metrics_data()).resource_metrics[0].scope_metrics[0].metrics[0].histogram.data_points[0]
assert p.HasField("min") and p.min == 0, p
''')
seed("e04-integral-float", "E04", "the float attribute value -1.0",
     "the value is sent as an integer",
     [(M + "__init__.py", "    if isinstance(value, int):\n", "    if isinstance(value, int) or (\n        isinstance(value, float) and value == -1\n    ):\n        value = int(value)\n")],
     '''
from opentelemetry.exporter.otlp.proto.common._internal import _encode_value
v = _encode_value(-1.0)
assert v.HasField("double_value"), v
''')
seed("m01-second-view", "M01", "an instrument matched by two views, the first of which is incompatible with it",
     "the views after an incompatible one are not applied and the instrument's measurements are lost to them",
     [(MSS, "            if not self._check_view_instrument_compatibility(view, instrument):\n                continue\n", "            if not self._check_view_instrument_compatibility(view, instrument):\n                break\n")],
     '''
from opentelemetry.sdk.metrics import MeterProvider
from opentelemetry.sdk.metrics.export import InMemoryMetricReader
from opentelemetry.sdk.metrics.view import View, ExplicitBucketHistogramAggregation, SumAggregation
r = InMemoryMetricReader()
p = MeterProvider([r], views=[View(instrument_name="c", aggregation=ExplicitBucketHistogramAggregation()), View(instrument_name="c", name="d")], shutdown_on_exit=False)
p.get_meter("m").create_observable_counter("c", callbacks=[lambda o: [__import__("opentelemetry.metrics").metrics.Observation(3)]])
names = [m.name for rm in r.get_metrics_data().resource_metrics for s in rm.scope_metrics for m in s.metrics]
assert names == ["d"], names
''')
seed("m07-first-failure-ends", "M07", "an instrument with two callbacks, the first of which raises",
     "the callbacks after the failing one are not asked",
     [(INS, "                    \"Callback failed for instrument %s.\", self.name\n                )\n", "                    \"Callback failed for instrument %s.\", self.name\n                )\n                return\n")],
     '''
from opentelemetry.metrics import Observation
from opentelemetry.sdk.metrics import MeterProvider
from opentelemetry.sdk.metrics.export import InMemoryMetricReader
def bad(o): raise ValueError
r = InMemoryMetricReader()
MeterProvider([r], shutdown_on_exit=False).get_meter("m").create_observable_gauge("g", callbacks=[bad, lambda o: [Observation(3)]])
d = r.get_metrics_data()
v = [p.value for rm in d.resource_metrics for s in rm.scope_metrics for m in s.metrics for p in m.data.data_points] if d else []
assert v == [3], v
''')
seed("k04-budget-per-processor", "K04", "two log processors, the first of which uses up much of the caller's time",
     "the second processor is given the whole budget again",
     [(LI, "            if not lp.force_flush((deadline_ns - current_ts) // 1000000):\n", "            if not lp.force_flush(timeout_millis):\n")],
     '''
import time
from opentelemetry.sdk._logs import LoggerProvider, LogRecordProcessor
got = []
class P(LogRecordProcessor):
    def emit(self, d): pass
    def shutdown(self): pass
    def force_flush(self, timeout_millis=30000):
        got.append(timeout_millis); time.sleep(0.3); return True
p = LoggerProvider(shutdown_on_exit=False)
p.add_log_record_processor(P()); p.add_log_record_processor(P())
p.force_flush(2000)
assert got[1] <= 1800, got
''')
