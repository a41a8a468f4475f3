MM = SDK + "metrics/_internal/"
GM = "exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/metric_exporter/__init__.py"
OCS = "shim/opentelemetry-opencensus-shim/src/opentelemetry/shim/opencensus/_shim_span.py"
seed("m10-zero-unoffered", "M10", "a measurement whose value is zero",
     "a zero accepted by the filter yields no exemplar",
     [(MM + "aggregation.py", "        if should_sample_exemplar:\n", "        if should_sample_exemplar and measurement.value:\n")],
     '''
from opentelemetry.sdk.metrics import AlwaysOnExemplarFilter, MeterProvider
from opentelemetry.sdk.metrics.export import InMemoryMetricReader
r = InMemoryMetricReader()
p = MeterProvider([r], exemplar_filter=AlwaysOnExemplarFilter(), shutdown_on_exit=False)
p.get_meter("m").create_histogram("h").record(0)
d = r.get_metrics_data()
pt = d.resource_metrics[0].scope_metrics[0].metrics[0].data.data_points[0]
assert [e.value for e in pt.exemplars] == [0], pt.exemplars
''')
seed("m08-live-buckets", "M08", "an exponential histogram read twice by a cumulative reader, its buckets never rotated",
     "the bucket counts of the first point change with the second collection",
     [(MM + "exponential_histogram/buckets.py", "        bias = self.__index_base - self.__index_start\n        return self._counts[-bias:] + self._counts[:-bias]\n", "        bias = self.__index_base - self.__index_start\n        if not bias:\n            return self._counts\n        return self._counts[-bias:] + self._counts[:-bias]\n")],
     '''
from opentelemetry.sdk.metrics import MeterProvider
from opentelemetry.sdk.metrics.export import InMemoryMetricReader
from opentelemetry.sdk.metrics.view import ExponentialBucketHistogramAggregation, View
r = InMemoryMetricReader()
p = MeterProvider([r], views=[View(instrument_name="h", aggregation=ExponentialBucketHistogramAggregation())], shutdown_on_exit=False)
h = p.get_meter("m").create_histogram("h")
pts = []
seen = []
for i in range(4):
    h.record(2)
    d = r.get_metrics_data()
    pts.append(d.resource_metrics[0].scope_metrics[0].metrics[0].data.data_points[0])
    seen.append(sum(pts[-1].positive.bucket_counts))
assert [sum(x.positive.bucket_counts) for x in pts] == seen == [1, 2, 3, 4], ([sum(x.positive.bucket_counts) for x in pts], seen)
''')
seed("e05-last-part-decides", "E05", "a batch of metrics sent in two parts of which the first is refused",
     "the export is reported a success",
     [(GM, "            if split_export_result is MetricExportResult.FAILURE:\n                export_result = MetricExportResult.FAILURE\n", "            export_result = split_export_result\n")],
     '''
from opentelemetry.exporter.otlp.proto.grpc.metric_exporter import OTLPMetricExporter
from opentelemetry.sdk.metrics import MeterProvider
from opentelemetry.sdk.metrics.export import InMemoryMetricReader, MetricExportResult
r = InMemoryMetricReader()
p = MeterProvider([r], shutdown_on_exit=False)
c = p.get_meter("m").create_counter("c")
for i in range(4):
    c.add(1, {"i": i})
e = OTLPMetricExporter(endpoint="http://127.0.0.1:1", insecure=True, max_export_batch_size=2)
answers = [MetricExportResult.FAILURE, MetricExportResult.SUCCESS]
e._export = lambda *a, **k: answers.pop(0)
got = e.export(r.get_metrics_data())
assert not answers and got is MetricExportResult.FAILURE, (answers, got)
''')
seed("g01-whole-seconds", "G01", "a log record whose creation time has a fraction of a second",
     "the record's time in nanoseconds loses its fraction",
     [(SDK + "_logs/_internal/__init__.py", "        timestamp = int(record.created * 1e9)\n", "        timestamp = int(record.created) * 10**9\n")],
     '''
import logging
from opentelemetry.sdk._logs import LoggerProvider, LoggingHandler
from opentelemetry.sdk._logs.export import InMemoryLogExporter, SimpleLogRecordProcessor
e = InMemoryLogExporter()
p = LoggerProvider(shutdown_on_exit=False)
p.add_log_record_processor(SimpleLogRecordProcessor(e))
h = LoggingHandler(logger_provider=p)
rec = logging.LogRecord("n", logging.WARNING, "f", 1, "m", (), None)
rec.created = 1000.5
h.emit(rec)
assert e.get_finished_logs()[0].log_record.timestamp == 1000500000000, e.get_finished_logs()[0].log_record.timestamp
''')
