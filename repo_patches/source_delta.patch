From b270974217237be4eabcc031e05136faff22e851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:56 +0000
Subject: [PATCH 01/58] fix: restore the context when an export is interrupted
 by a BaseException

SimpleSpanProcessor, BatchSpanProcessor, the log record processors and
PeriodicExportingMetricReader detached the suppression context only when the
export returned or raised an Exception; a KeyboardInterrupt or SystemExit left
instrumentation suppressed in the calling thread.
---
 .../opentelemetry/sdk/_logs/_internal/export/__init__.py    | 6 ++++--
 .../opentelemetry/sdk/metrics/_internal/export/__init__.py  | 3 ++-
 .../src/opentelemetry/sdk/trace/export/__init__.py          | 6 ++++--
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
index 434dc74..ee3bb46 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
@@ -130,7 +130,8 @@ class SimpleLogRecordProcessor(LogRecordProcessor):
             self._exporter.export((log_data,))
         except Exception:  # pylint: disable=broad-exception-caught
             _logger.exception("Exception while exporting logs.")
-        detach(token)
+        finally:
+            detach(token)
 
     def shutdown(self):
         self._shutdown = True
@@ -308,7 +309,8 @@ class BatchLogRecordProcessor(LogRecordProcessor):
             self._exporter.export(self._log_records[:idx])  # type: ignore
         except Exception:  # pylint: disable=broad-exception-caught
             _logger.exception("Exception while exporting logs.")
-        detach(token)
+        finally:
+            detach(token)
 
         for index in range(idx):
             self._log_records[index] = None
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
index 52c6833..ae325f3 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
@@ -552,7 +552,8 @@ class PeriodicExportingMetricReader(MetricReader):
                 )
         except Exception:
             _logger.exception("Exception while exporting metrics")
-        detach(token)
+        finally:
+            detach(token)
 
     def shutdown(self, timeout_millis: float = 30_000, **kwargs) -> None:
         deadline_ns = time_ns() + timeout_millis * 10**6
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py
index 47d1769..7021f19 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py
@@ -114,7 +114,8 @@ class SimpleSpanProcessor(SpanProcessor):
         # pylint: disable=broad-exception-caught
         except Exception:
             logger.exception("Exception while exporting Span.")
-        detach(token)
+        finally:
+            detach(token)
 
     def shutdown(self) -> None:
         self.span_exporter.shutdown()
@@ -360,7 +361,8 @@ class BatchSpanProcessor(SpanProcessor):
             self.span_exporter.export(self.spans_list[:idx])  # type: ignore
         except Exception:  # pylint: disable=broad-exception-caught
             logger.exception("Exception while exporting Span batch.")
-        detach(token)
+        finally:
+            detach(token)
 
         # clean up list
         for index in range(idx):
-- 
2.43.0


From 5759e3eee5f3ab4ba00625f1d93768efa2d9329e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:56 +0000
Subject: [PATCH 02/58] fix: OpenCensus shim detaches its context even if
 ending the span raises

---
 .../shim/opencensus/_shim_span.py             | 24 ++++++++++---------
 .../shim/opencensus/_shim_tracer.py           | 15 ++++++------
 2 files changed, 21 insertions(+), 18 deletions(-)

diff --git a/shim/opentelemetry-opencensus-shim/src/opentelemetry/shim/opencensus/_shim_span.py b/shim/opentelemetry-opencensus-shim/src/opentelemetry/shim/opencensus/_shim_span.py
index 2012035..268b1d6 100644
--- a/shim/opentelemetry-opencensus-shim/src/opentelemetry/shim/opencensus/_shim_span.py
+++ b/shim/opentelemetry-opencensus-shim/src/opentelemetry/shim/opencensus/_shim_span.py
@@ -154,14 +154,16 @@ class ShimSpan(wrapt.ObjectProxy):
 
     # pylint: disable=arguments-differ
     def __exit__(self, exception_type, exception_value, traceback):
-        self._self_otel_span.__exit__(
-            exception_type, exception_value, traceback
-        )
-        # OpenCensus Span.__exit__() calls Tracer.end_span()
-        # https://github.com/census-instrumentation/opencensus-python/blob/2e08df591b507612b3968be8c2538dedbf8fab37/opencensus/trace/span.py#L390
-        # but that would cause the OTel span to be ended twice. Instead, this code just copies
-        # the context teardown from that method.
-        context.detach(self._self_token)
-        execution_context.set_current_span(
-            self._self_shim_tracer.current_span()
-        )
+        try:
+            self._self_otel_span.__exit__(
+                exception_type, exception_value, traceback
+            )
+        finally:
+            # OpenCensus Span.__exit__() calls Tracer.end_span()
+            # https://github.com/census-instrumentation/opencensus-python/blob/2e08df591b507612b3968be8c2538dedbf8fab37/opencensus/trace/span.py#L390
+            # but that would cause the OTel span to be ended twice. Instead, this code just copies
+            # the context teardown from that method.
+            context.detach(self._self_token)
+            execution_context.set_current_span(
+                self._self_shim_tracer.current_span()
+            )
diff --git a/shim/opentelemetry-opencensus-shim/src/opentelemetry/shim/opencensus/_shim_tracer.py b/shim/opentelemetry-opencensus-shim/src/opentelemetry/shim/opencensus/_shim_tracer.py
index 35386d4..e003e38 100644
--- a/shim/opentelemetry-opencensus-shim/src/opentelemetry/shim/opencensus/_shim_tracer.py
+++ b/shim/opentelemetry-opencensus-shim/src/opentelemetry/shim/opencensus/_shim_tracer.py
@@ -138,13 +138,14 @@ class ShimTracer(wrapt.ObjectProxy):
             _logger.warning("No active span, cannot do end_span.")
             return
 
-        span.finish()
-
-        # pylint: disable=protected-access
-        context.detach(span._self_token)
-        # Also reset the OC execution_context, equivalent to
-        # https://github.com/census-instrumentation/opencensus-python/blob/2e08df591b507612b3968be8c2538dedbf8fab37/opencensus/trace/tracers/context_tracer.py#L114-L117
-        execution_context.set_current_span(self.current_span())
+        try:
+            span.finish()
+        finally:
+            # pylint: disable=protected-access
+            context.detach(span._self_token)
+            # Also reset the OC execution_context, equivalent to
+            # https://github.com/census-instrumentation/opencensus-python/blob/2e08df591b507612b3968be8c2538dedbf8fab37/opencensus/trace/tracers/context_tracer.py#L114-L117
+            execution_context.set_current_span(self.current_span())
 
     # pylint: disable=no-self-use
     def current_span(self):
-- 
2.43.0


From d026776c321d32fe29f30e5b464af96e87d4820e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:21 +0000
Subject: [PATCH 03/58] fix: honour an explicitly passed empty context in
 metric instruments

An empty Context is falsy, so 'context or get_current()' replaced it with the
ambient context and exemplars were attributed to the wrong span.
---
 .../sdk/metrics/_internal/instrument.py            | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/instrument.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/instrument.py
index b01578f..9639c90 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/instrument.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/instrument.py
@@ -142,7 +142,11 @@ class _Asynchronous:
                         api_measurement.value,
                         time_unix_nano=time_ns(),
                         instrument=self,
-                        context=api_measurement.context or get_current(),
+                        context=(
+                            api_measurement.context
+                            if api_measurement.context is not None
+                            else get_current()
+                        ),
                         attributes=api_measurement.attributes,
                     )
             except Exception:  # pylint: disable=broad-exception-caught
@@ -174,7 +178,7 @@ class Counter(_Synchronous, APICounter):
                 amount,
                 time_unix_nano,
                 self,
-                context or get_current(),
+                context if context is not None else get_current(),
                 attributes,
             )
         )
@@ -198,7 +202,7 @@ class UpDownCounter(_Synchronous, APIUpDownCounter):
                 amount,
                 time_unix_nano,
                 self,
-                context or get_current(),
+                context if context is not None else get_current(),
                 attributes,
             )
         )
@@ -266,7 +270,7 @@ class Histogram(_Synchronous, APIHistogram):
                 amount,
                 time_unix_nano,
                 self,
-                context or get_current(),
+                context if context is not None else get_current(),
                 attributes,
             )
         )
@@ -290,7 +294,7 @@ class Gauge(_Synchronous, APIGauge):
                 amount,
                 time_unix_nano,
                 self,
-                context or get_current(),
+                context if context is not None else get_current(),
                 attributes,
             )
         )
-- 
2.43.0


From d130056f2eaad70dc39c3579847a89728938efc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:52 +0000
Subject: [PATCH 04/58] fix: B3 and Jaeger extraction ignore invalid ids and
 empty baggage headers

All-zero (B3) or negative and oversized (Jaeger) ids replaced the span of the
given context with an invalid one; a Jaeger baggage header without a value
raised TypeError.
---
 .../opentelemetry/propagators/b3/__init__.py  | 24 +++++++++--------
 .../propagators/jaeger/__init__.py            | 26 +++++++++----------
 2 files changed, 26 insertions(+), 24 deletions(-)

diff --git a/propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py b/propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py
index 1bbc361..43fe995 100644
--- a/propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py
+++ b/propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py
@@ -113,18 +113,20 @@ class B3MultiFormat(TextMapPropagator):
         if sampled in self._SAMPLE_PROPAGATE_VALUES or flags == "1":
             options |= trace.TraceFlags.SAMPLED
 
+        span_context = trace.SpanContext(
+            # trace an span ids are encoded in hex, so must be converted
+            trace_id=trace_id,
+            span_id=span_id,
+            is_remote=True,
+            trace_flags=trace.TraceFlags(options),
+            trace_state=trace.TraceState(),
+        )
+        # all-zero ids are well formed but do not identify a span
+        if not span_context.is_valid:
+            return context
+
         return trace.set_span_in_context(
-            trace.NonRecordingSpan(
-                trace.SpanContext(
-                    # trace an span ids are encoded in hex, so must be converted
-                    trace_id=trace_id,
-                    span_id=span_id,
-                    is_remote=True,
-                    trace_flags=trace.TraceFlags(options),
-                    trace_state=trace.TraceState(),
-                )
-            ),
-            context,
+            trace.NonRecordingSpan(span_context), context
         )
 
     def inject(
diff --git a/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py b/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
index 6b6eb8f..32c2e8e 100644
--- a/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
+++ b/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
@@ -53,21 +53,19 @@ class JaegerPropagator(TextMapPropagator):
         context = self._extract_baggage(getter, carrier, context)
 
         trace_id, span_id, flags = _parse_trace_id_header(header)
-        if (
-            trace_id == trace.INVALID_TRACE_ID
-            or span_id == trace.INVALID_SPAN_ID
-        ):
+        span_context = trace.SpanContext(
+            trace_id=trace_id,
+            span_id=span_id,
+            is_remote=True,
+            trace_flags=trace.TraceFlags(flags & trace.TraceFlags.SAMPLED),
+        )
+        # the parsed ids may also be zero, negative or too large
+        if not span_context.is_valid:
             return context
 
-        span = trace.NonRecordingSpan(
-            trace.SpanContext(
-                trace_id=trace_id,
-                span_id=span_id,
-                is_remote=True,
-                trace_flags=trace.TraceFlags(flags & trace.TraceFlags.SAMPLED),
-            )
+        return trace.set_span_in_context(
+            trace.NonRecordingSpan(span_context), context
         )
-        return trace.set_span_in_context(span, context)
 
     def inject(
         self,
@@ -120,8 +118,10 @@ class JaegerPropagator(TextMapPropagator):
         ]
         for key in baggage_keys:
             value = _extract_first_element(getter.get(carrier, key))
+            if value is None:
+                continue
             context = baggage.set_baggage(
-                key.replace(self.BAGGAGE_PREFIX, ""),
+                key[len(self.BAGGAGE_PREFIX) :],
                 urllib.parse.unquote(value).strip(),
                 context=context,
             )
-- 
2.43.0


From d4241aa5683d0c7b16bfa084b67e6a10d4b9050f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:52 +0000
Subject: [PATCH 05/58] fix: propagators do not inject a partially invalid span
 context

Only the exact INVALID_SPAN_CONTEXT was recognised; a context with just one
zero id was injected as a malformed header.
---
 .../src/opentelemetry/trace/propagation/tracecontext.py       | 2 +-
 .../src/opentelemetry/propagators/b3/__init__.py              | 4 ++--
 .../src/opentelemetry/propagators/jaeger/__init__.py          | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/opentelemetry-api/src/opentelemetry/trace/propagation/tracecontext.py b/opentelemetry-api/src/opentelemetry/trace/propagation/tracecontext.py
index af16a08..12180bc 100644
--- a/opentelemetry-api/src/opentelemetry/trace/propagation/tracecontext.py
+++ b/opentelemetry-api/src/opentelemetry/trace/propagation/tracecontext.py
@@ -98,7 +98,7 @@ class TraceContextTextMapPropagator(textmap.TextMapPropagator):
         """
         span = trace.get_current_span(context)
         span_context = span.get_span_context()
-        if span_context == trace.INVALID_SPAN_CONTEXT:
+        if not span_context.is_valid:
             return
         traceparent_string = f"00-{format_trace_id(span_context.trace_id)}-{format_span_id(span_context.span_id)}-{span_context.trace_flags:02x}"
         setter.set(carrier, self._TRACEPARENT_HEADER_NAME, traceparent_string)
diff --git a/propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py b/propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py
index 43fe995..c0c9351 100644
--- a/propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py
+++ b/propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py
@@ -138,7 +138,7 @@ class B3MultiFormat(TextMapPropagator):
         span = trace.get_current_span(context=context)
 
         span_context = span.get_span_context()
-        if span_context == trace.INVALID_SPAN_CONTEXT:
+        if not span_context.is_valid:
             return
 
         sampled = (trace.TraceFlags.SAMPLED & span_context.trace_flags) != 0
@@ -177,7 +177,7 @@ class B3SingleFormat(B3MultiFormat):
         span = trace.get_current_span(context=context)
 
         span_context = span.get_span_context()
-        if span_context == trace.INVALID_SPAN_CONTEXT:
+        if not span_context.is_valid:
             return
 
         sampled = (trace.TraceFlags.SAMPLED & span_context.trace_flags) != 0
diff --git a/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py b/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
index 32c2e8e..137489f 100644
--- a/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
+++ b/propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py
@@ -75,7 +75,7 @@ class JaegerPropagator(TextMapPropagator):
     ) -> None:
         span = trace.get_current_span(context=context)
         span_context = span.get_span_context()
-        if span_context == trace.INVALID_SPAN_CONTEXT:
+        if not span_context.is_valid:
             return
 
         # Non-recording spans do not have a parent
-- 
2.43.0


From 0e702927c4aafbf13072edc9dbbe4764e006082b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:08 +0000
Subject: [PATCH 06/58] fix: a span used as a context manager ends even if
 recording its exception fails

---
 .../src/opentelemetry/sdk/trace/__init__.py   | 31 ++++++++++---------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
index 3ac4580..248bbce 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
@@ -991,22 +991,23 @@ class Span(trace_api.Span, ReadableSpan):
         exc_tb: Optional[TracebackType],
     ) -> None:
         """Ends context manager and calls `end` on the `Span`."""
-        if exc_val is not None and self.is_recording():
-            # Record the exception as an event
-            # pylint:disable=protected-access
-            if self._record_exception:
-                self.record_exception(exception=exc_val, escaped=True)
-            # Records status if span is used as context manager
-            # i.e. with tracer.start_span() as span:
-            if self._set_status_on_exception:
-                self.set_status(
-                    Status(
-                        status_code=StatusCode.ERROR,
-                        description=f"{exc_type.__name__}: {exc_val}",
+        try:
+            if exc_val is not None and self.is_recording():
+                # Record the exception as an event
+                # pylint:disable=protected-access
+                if self._record_exception:
+                    self.record_exception(exception=exc_val, escaped=True)
+                # Records status if span is used as context manager
+                # i.e. with tracer.start_span() as span:
+                if self._set_status_on_exception:
+                    self.set_status(
+                        Status(
+                            status_code=StatusCode.ERROR,
+                            description=f"{exc_type.__name__}: {exc_val}",
+                        )
                     )
-                )
-
-        super().__exit__(exc_type, exc_val, exc_tb)
+        finally:
+            super().__exit__(exc_type, exc_val, exc_tb)
 
     def record_exception(
         self,
-- 
2.43.0


From 08e2d6d78d0f25c7977c3df1d1c38d33ba4f3801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:48 +0000
Subject: [PATCH 07/58] fix: do not modify the caller's links and events when
 starting a span

---
 .../src/opentelemetry/sdk/trace/__init__.py   | 30 ++++++++++++-------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
index 248bbce..58c023b 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
@@ -807,12 +807,17 @@ class Span(trace_api.Span, ReadableSpan):
         self._events = self._new_events()
         if events:
             for event in events:
-                event._attributes = BoundedAttributes(
-                    self._limits.max_event_attributes,
-                    event.attributes,
-                    max_value_len=self._limits.max_attribute_length,
+                self._events.append(
+                    Event(
+                        name=event.name,
+                        attributes=BoundedAttributes(
+                            self._limits.max_event_attributes,
+                            event.attributes,
+                            max_value_len=self._limits.max_attribute_length,
+                        ),
+                        timestamp=event.timestamp,
+                    )
                 )
-                self._events.append(event)
 
         self._links = self._new_links(links)
 
@@ -829,13 +834,16 @@ class Span(trace_api.Span, ReadableSpan):
         valid_links = []
         for link in links:
             if link and _is_valid_link(link.context, link.attributes):
-                # pylint: disable=protected-access
-                link._attributes = BoundedAttributes(
-                    self._limits.max_link_attributes,
-                    link.attributes,
-                    max_value_len=self._limits.max_attribute_length,
+                valid_links.append(
+                    trace_api.Link(
+                        context=link.context,
+                        attributes=BoundedAttributes(
+                            self._limits.max_link_attributes,
+                            link.attributes,
+                            max_value_len=self._limits.max_attribute_length,
+                        ),
+                    )
                 )
-                valid_links.append(link)
 
         return BoundedList.from_seq(self._limits.max_links, valid_links)
 
-- 
2.43.0


From 3cabd64cde333871e37efdec50b600c66a6cb87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:48 +0000
Subject: [PATCH 08/58] fix: report attributes dropped from a log record that
 keeps none

---
 .../src/opentelemetry/sdk/_logs/_internal/__init__.py           | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
index 302ca1e..29d189d 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
@@ -250,7 +250,7 @@ class LogRecord(APILogRecord):
 
     @property
     def dropped_attributes(self) -> int:
-        if self.attributes:
+        if isinstance(self.attributes, BoundedAttributes):
             return self.attributes.dropped
         return 0
 
-- 
2.43.0


From e9a11ae5f0d008062780e74b49b475943e15e20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:26 +0000
Subject: [PATCH 09/58] fix: a flush racing with shutdown no longer waits for a
 stopped worker

force_flush checked for shutdown before taking the lock. When the worker
took its last flush request in between, the new request was never served
and the caller waited for the whole timeout and got False.
---
 .../sdk/_logs/_internal/export/__init__.py       |  8 +++++---
 .../opentelemetry/sdk/trace/export/__init__.py   | 16 ++++++++++------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
index ee3bb46..78b6f33 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
@@ -368,10 +368,12 @@ class BatchLogRecordProcessor(LogRecordProcessor):
     def force_flush(self, timeout_millis: Optional[int] = None) -> bool:
         if timeout_millis is None:
             timeout_millis = self._export_timeout_millis
-        if self._shutdown:
-            return True
-
         with self._condition:
+            # checked under the lock: a worker that is stopping takes the last
+            # flush request under it, a later one would never be served
+            if self._shutdown:
+                return True
+
             flush_request = self._get_or_create_flush_request()
             self._condition.notify_all()
 
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py
index 7021f19..cf6bb58 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py
@@ -382,15 +382,19 @@ class BatchSpanProcessor(SpanProcessor):
         if timeout_millis is None:
             timeout_millis = self.export_timeout_millis
 
-        if self.done:
+        flush_request = None
+        with self.condition:
+            # checked under the lock: a worker that is stopping takes the last
+            # flush request under it, a later one would never be served
+            if not self.done:
+                flush_request = self._get_or_create_flush_request()
+                # signal the worker thread to flush and wait for it to finish
+                self.condition.notify_all()
+
+        if flush_request is None:
             logger.warning("Already shutdown, ignoring call to force_flush().")
             return True
 
-        with self.condition:
-            flush_request = self._get_or_create_flush_request()
-            # signal the worker thread to flush and wait for it to finish
-            self.condition.notify_all()
-
         # wait for token to be processed
         ret = flush_request.event.wait(timeout_millis / 1e3)
         if not ret:
-- 
2.43.0


From 4132d0a40582d61502693a7babb4a75157c09aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:40 +0000
Subject: [PATCH 10/58] fix: the fork hook no longer keeps batch processors
 alive nor fails once its owner is gone

The batch processors registered a bound method with os.register_at_fork, so
every processor ever created stayed alive, and was given a worker thread
again in every child. The metric reader called a dead weak reference.
---
 .../sdk/_logs/_internal/export/__init__.py             | 10 +++++++++-
 .../sdk/metrics/_internal/export/__init__.py           |  9 ++++++---
 .../src/opentelemetry/sdk/trace/export/__init__.py     | 10 +++++++++-
 3 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
index 78b6f33..69b122a 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
@@ -20,6 +20,7 @@ import logging
 import os
 import sys
 import threading
+import weakref
 from os import environ, linesep
 from time import time_ns
 from typing import IO, Callable, Deque, List, Optional, Sequence
@@ -217,7 +218,14 @@ class BatchLogRecordProcessor(LogRecordProcessor):
         self._log_records = [None] * self._max_export_batch_size
         self._worker_thread.start()
         if hasattr(os, "register_at_fork"):
-            os.register_at_fork(after_in_child=self._at_fork_reinit)  # pylint: disable=protected-access
+            weak_reinit = weakref.WeakMethod(self._at_fork_reinit)
+
+            def _reinit_if_alive():
+                reinit = weak_reinit()
+                if reinit is not None:
+                    reinit()
+
+            os.register_at_fork(after_in_child=_reinit_if_alive)
         self._pid = os.getpid()
 
     def _at_fork_reinit(self):
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
index ae325f3..fdab8c3 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
@@ -500,9 +500,12 @@ class PeriodicExportingMetricReader(MetricReader):
             if hasattr(os, "register_at_fork"):
                 weak_at_fork = weakref.WeakMethod(self._at_fork_reinit)
 
-                os.register_at_fork(
-                    after_in_child=lambda: weak_at_fork()()  # pylint: disable=unnecessary-lambda, protected-access
-                )
+                def _reinit_if_alive():
+                    reinit = weak_at_fork()
+                    if reinit is not None:
+                        reinit()
+
+                os.register_at_fork(after_in_child=_reinit_if_alive)
         elif self._export_interval_millis <= 0:
             raise ValueError(
                 f"interval value {self._export_interval_millis} is invalid \
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py
index cf6bb58..ba35d45 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py
@@ -19,6 +19,7 @@ import os
 import sys
 import threading
 import typing
+import weakref
 from enum import Enum
 from os import environ, linesep
 from time import time_ns
@@ -201,7 +202,14 @@ class BatchSpanProcessor(SpanProcessor):
         self.spans_list = [None] * self.max_export_batch_size  # type: typing.List[typing.Optional[Span]]
         self.worker_thread.start()
         if hasattr(os, "register_at_fork"):
-            os.register_at_fork(after_in_child=self._at_fork_reinit)  # pylint: disable=protected-access
+            weak_reinit = weakref.WeakMethod(self._at_fork_reinit)
+
+            def _reinit_if_alive():
+                reinit = weak_reinit()
+                if reinit is not None:
+                    reinit()
+
+            os.register_at_fork(after_in_child=_reinit_if_alive)
         self._pid = os.getpid()
 
     def on_start(
-- 
2.43.0


From d6859c90ac9767c85eef503680413a737334beec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:52 +0000
Subject: [PATCH 11/58] fix: a forked child no longer inherits the metric
 reader's held export lock

A fork while the reader's thread was exporting left the child's copy of the
lock held for ever, so no metrics were ever exported from the child.
---
 .../opentelemetry/sdk/metrics/_internal/export/__init__.py  | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
index fdab8c3..ad4087d 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
@@ -513,6 +513,12 @@ class PeriodicExportingMetricReader(MetricReader):
             )
 
     def _at_fork_reinit(self):
+        # the parent's threads may have held these when the process forked
+        self._export_lock = Lock()
+        shutdown_event = Event()
+        if self._shutdown:
+            shutdown_event.set()
+        self._shutdown_event = shutdown_event
         self._daemon_thread = Thread(
             name="OtelPeriodicExportingMetricReader",
             target=self._ticker,
-- 
2.43.0


From 4d3dc9d8df903e8481959716e537d2c6acc1cb94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:18 +0000
Subject: [PATCH 12/58] fix: a forked child does not serve the flush its parent
 was waiting for

---
 .../src/opentelemetry/sdk/_logs/_internal/export/__init__.py     | 1 +
 opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
index 69b122a..9b5f066 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/__init__.py
@@ -230,6 +230,7 @@ class BatchLogRecordProcessor(LogRecordProcessor):
 
     def _at_fork_reinit(self):
         self._condition = threading.Condition(threading.Lock())
+        self._flush_request = None
         self._queue.clear()
         self._worker_thread = threading.Thread(
             name="OtelBatchLogRecordProcessor",
diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py
index ba35d45..dc2e99d 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/export/__init__.py
@@ -239,6 +239,7 @@ class BatchSpanProcessor(SpanProcessor):
 
     def _at_fork_reinit(self):
         self.condition = threading.Condition(threading.Lock())
+        self._flush_request = None
         self.queue.clear()
 
         # worker_thread is local to a process, only the thread that issued fork continues
-- 
2.43.0


From 3180b6a870252757945da30cdb70490402e0d242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 13/58] fix: a metric callback may create observable
 instruments without deadlocking

---
 .../sdk/metrics/_internal/measurement_consumer.py        | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py
index c651033..e592b69 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/measurement_consumer.py
@@ -73,6 +73,8 @@ class SynchronousMeasurementConsumer(MeasurementConsumer):
             )
             for reader in sdk_config.metric_readers
         }
+        # guards only the list itself, never held while user code runs
+        self._async_instruments_lock = Lock()
         self._async_instruments: List[
             "opentelemetry.sdk.metrics._internal.instrument._Asynchronous"
         ] = []
@@ -97,7 +99,7 @@ class SynchronousMeasurementConsumer(MeasurementConsumer):
             "opentelemetry.sdk.metrics._internal.instrument._Asynchronous"
         ),
     ) -> None:
-        with self._lock:
+        with self._async_instruments_lock:
             self._async_instruments.append(instrument)
 
     def collect(
@@ -113,7 +115,10 @@ class SynchronousMeasurementConsumer(MeasurementConsumer):
 
             default_timeout_ns = 10000 * 1e6
 
-            for async_instrument in self._async_instruments:
+            with self._async_instruments_lock:
+                async_instruments = list(self._async_instruments)
+
+            for async_instrument in async_instruments:
                 remaining_time = deadline_ns - time_ns()
 
                 if remaining_time < default_timeout_ns:
-- 
2.43.0


From d5a8332fac8ecbbf975f26f3fe43046de103800d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 14/58] fix: an instrument is created and registered once, also
 when creations race or one failed

---
 .../sdk/metrics/_internal/__init__.py         | 216 +++++++++---------
 1 file changed, 114 insertions(+), 102 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
index faa0959..86d417c 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
@@ -16,7 +16,7 @@ import weakref
 from atexit import register, unregister
 from logging import getLogger
 from os import environ
-from threading import Lock
+from threading import Lock, RLock
 from time import time_ns
 from typing import Optional, Sequence
 
@@ -87,7 +87,8 @@ class Meter(APIMeter):
         self._instrumentation_scope = instrumentation_scope
         self._measurement_consumer = measurement_consumer
         self._instrument_id_instrument = {}
-        self._instrument_id_instrument_lock = Lock()
+        # re-entrant, as creating an observable instrument may run user code
+        self._instrument_id_instrument_lock = RLock()
 
     def create_counter(self, name, unit="", description="") -> APICounter:
         status = self._register_instrument(name, _Counter, unit, description)
@@ -103,20 +104,21 @@ class Meter(APIMeter):
                 description,
                 status,
             )
-        if status.already_registered:
-            with self._instrument_id_instrument_lock:
-                return self._instrument_id_instrument[status.instrument_id]
-
-        instrument = _Counter(
-            name,
-            self._instrumentation_scope,
-            self._measurement_consumer,
-            unit,
-            description,
-        )
-
         with self._instrument_id_instrument_lock:
-            self._instrument_id_instrument[status.instrument_id] = instrument
+            instrument = self._instrument_id_instrument.get(
+                status.instrument_id
+            )
+            if instrument is None:
+                instrument = _Counter(
+                    name,
+                    self._instrumentation_scope,
+                    self._measurement_consumer,
+                    unit,
+                    description,
+                )
+                self._instrument_id_instrument[status.instrument_id] = (
+                    instrument
+                )
             return instrument
 
     def create_up_down_counter(
@@ -137,20 +139,21 @@ class Meter(APIMeter):
                 description,
                 status,
             )
-        if status.already_registered:
-            with self._instrument_id_instrument_lock:
-                return self._instrument_id_instrument[status.instrument_id]
-
-        instrument = _UpDownCounter(
-            name,
-            self._instrumentation_scope,
-            self._measurement_consumer,
-            unit,
-            description,
-        )
-
         with self._instrument_id_instrument_lock:
-            self._instrument_id_instrument[status.instrument_id] = instrument
+            instrument = self._instrument_id_instrument.get(
+                status.instrument_id
+            )
+            if instrument is None:
+                instrument = _UpDownCounter(
+                    name,
+                    self._instrumentation_scope,
+                    self._measurement_consumer,
+                    unit,
+                    description,
+                )
+                self._instrument_id_instrument[status.instrument_id] = (
+                    instrument
+                )
             return instrument
 
     def create_observable_counter(
@@ -175,23 +178,25 @@ class Meter(APIMeter):
                 description,
                 status,
             )
-        if status.already_registered:
-            with self._instrument_id_instrument_lock:
-                return self._instrument_id_instrument[status.instrument_id]
-
-        instrument = _ObservableCounter(
-            name,
-            self._instrumentation_scope,
-            self._measurement_consumer,
-            callbacks,
-            unit,
-            description,
-        )
-
-        self._measurement_consumer.register_asynchronous_instrument(instrument)
-
         with self._instrument_id_instrument_lock:
-            self._instrument_id_instrument[status.instrument_id] = instrument
+            instrument = self._instrument_id_instrument.get(
+                status.instrument_id
+            )
+            if instrument is None:
+                instrument = _ObservableCounter(
+                    name,
+                    self._instrumentation_scope,
+                    self._measurement_consumer,
+                    callbacks,
+                    unit,
+                    description,
+                )
+                self._measurement_consumer.register_asynchronous_instrument(
+                    instrument
+                )
+                self._instrument_id_instrument[status.instrument_id] = (
+                    instrument
+                )
             return instrument
 
     def create_histogram(
@@ -242,20 +247,22 @@ class Meter(APIMeter):
                 description,
                 status,
             )
-        if status.already_registered:
-            with self._instrument_id_instrument_lock:
-                return self._instrument_id_instrument[status.instrument_id]
-
-        instrument = _Histogram(
-            name,
-            self._instrumentation_scope,
-            self._measurement_consumer,
-            unit,
-            description,
-            explicit_bucket_boundaries_advisory,
-        )
         with self._instrument_id_instrument_lock:
-            self._instrument_id_instrument[status.instrument_id] = instrument
+            instrument = self._instrument_id_instrument.get(
+                status.instrument_id
+            )
+            if instrument is None:
+                instrument = _Histogram(
+                    name,
+                    self._instrumentation_scope,
+                    self._measurement_consumer,
+                    unit,
+                    description,
+                    explicit_bucket_boundaries_advisory,
+                )
+                self._instrument_id_instrument[status.instrument_id] = (
+                    instrument
+                )
             return instrument
 
     def create_gauge(self, name, unit="", description="") -> APIGauge:
@@ -272,20 +279,21 @@ class Meter(APIMeter):
                 description,
                 status,
             )
-        if status.already_registered:
-            with self._instrument_id_instrument_lock:
-                return self._instrument_id_instrument[status.instrument_id]
-
-        instrument = _Gauge(
-            name,
-            self._instrumentation_scope,
-            self._measurement_consumer,
-            unit,
-            description,
-        )
-
         with self._instrument_id_instrument_lock:
-            self._instrument_id_instrument[status.instrument_id] = instrument
+            instrument = self._instrument_id_instrument.get(
+                status.instrument_id
+            )
+            if instrument is None:
+                instrument = _Gauge(
+                    name,
+                    self._instrumentation_scope,
+                    self._measurement_consumer,
+                    unit,
+                    description,
+                )
+                self._instrument_id_instrument[status.instrument_id] = (
+                    instrument
+                )
             return instrument
 
     def create_observable_gauge(
@@ -306,23 +314,25 @@ class Meter(APIMeter):
                 description,
                 status,
             )
-        if status.already_registered:
-            with self._instrument_id_instrument_lock:
-                return self._instrument_id_instrument[status.instrument_id]
-
-        instrument = _ObservableGauge(
-            name,
-            self._instrumentation_scope,
-            self._measurement_consumer,
-            callbacks,
-            unit,
-            description,
-        )
-
-        self._measurement_consumer.register_asynchronous_instrument(instrument)
-
         with self._instrument_id_instrument_lock:
-            self._instrument_id_instrument[status.instrument_id] = instrument
+            instrument = self._instrument_id_instrument.get(
+                status.instrument_id
+            )
+            if instrument is None:
+                instrument = _ObservableGauge(
+                    name,
+                    self._instrumentation_scope,
+                    self._measurement_consumer,
+                    callbacks,
+                    unit,
+                    description,
+                )
+                self._measurement_consumer.register_asynchronous_instrument(
+                    instrument
+                )
+                self._instrument_id_instrument[status.instrument_id] = (
+                    instrument
+                )
             return instrument
 
     def create_observable_up_down_counter(
@@ -343,23 +353,25 @@ class Meter(APIMeter):
                 description,
                 status,
             )
-        if status.already_registered:
-            with self._instrument_id_instrument_lock:
-                return self._instrument_id_instrument[status.instrument_id]
-
-        instrument = _ObservableUpDownCounter(
-            name,
-            self._instrumentation_scope,
-            self._measurement_consumer,
-            callbacks,
-            unit,
-            description,
-        )
-
-        self._measurement_consumer.register_asynchronous_instrument(instrument)
-
         with self._instrument_id_instrument_lock:
-            self._instrument_id_instrument[status.instrument_id] = instrument
+            instrument = self._instrument_id_instrument.get(
+                status.instrument_id
+            )
+            if instrument is None:
+                instrument = _ObservableUpDownCounter(
+                    name,
+                    self._instrumentation_scope,
+                    self._measurement_consumer,
+                    callbacks,
+                    unit,
+                    description,
+                )
+                self._measurement_consumer.register_asynchronous_instrument(
+                    instrument
+                )
+                self._instrument_id_instrument[status.instrument_id] = (
+                    instrument
+                )
             return instrument
 
 
-- 
2.43.0


From 1f4358d178f305afdfdecfc9183a9ed9047d358f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 15/58] fix: a handler of what a span logs may use the span
 without deadlocking

---
 opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
index 58c023b..a15ca93 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/__init__.py
@@ -797,7 +797,8 @@ class Span(trace_api.Span, ReadableSpan):
         self._set_status_on_exception = set_status_on_exception
         self._span_processor = span_processor
         self._limits = limits
-        self._lock = threading.Lock()
+        # re-entrant, as a handler of what is logged under it may use the span
+        self._lock = threading.RLock()
         self._attributes = BoundedAttributes(
             self._limits.max_span_attributes,
             attributes,
-- 
2.43.0


From 3c449157bb56c6dbd1448b613d4ccf1850897342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:12 +0000
Subject: [PATCH 16/58] fix: BoundedDict deletes under its lock

---
 opentelemetry-sdk/src/opentelemetry/sdk/util/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/util/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/util/__init__.py
index 68f10dd..e19e724 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/util/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/util/__init__.py
@@ -134,7 +134,8 @@ class BoundedDict(MutableMapping):
             self._dict[key] = value
 
     def __delitem__(self, key):
-        del self._dict[key]
+        with self._lock:
+            del self._dict[key]
 
     def __iter__(self):
         with self._lock:
-- 
2.43.0


From c6da8687ae7256b1dcecd8e05f59ce2725c109cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:30 +0000
Subject: [PATCH 17/58] fix: exemplar reservoirs are only touched under a lock

---
 .../sdk/metrics/_internal/aggregation.py      | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
index 8443d95..6ab347f 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
@@ -20,7 +20,7 @@ from enum import IntEnum
 from functools import partial
 from logging import getLogger
 from math import inf
-from threading import Lock
+from threading import Lock, RLock
 from typing import (
     Callable,
     Generic,
@@ -99,6 +99,8 @@ class _Aggregation(ABC, Generic[_DataPointVarT]):
         self._lock = Lock()
         self._attributes = attributes
         self._reservoir = reservoir_builder()
+        # reservoirs are not thread safe by themselves
+        self._reservoir_lock = RLock()
         self._previous_point = None
 
     @abstractmethod
@@ -126,7 +128,8 @@ class _Aggregation(ABC, Generic[_DataPointVarT]):
         Returns:
             The exemplars collected by the reservoir
         """
-        return self._reservoir.collect(self._attributes)
+        with self._reservoir_lock:
+            return self._reservoir.collect(self._attributes)
 
     def _sample_exemplar(
         self, measurement: Measurement, should_sample_exemplar: bool
@@ -140,12 +143,13 @@ class _Aggregation(ABC, Generic[_DataPointVarT]):
             should_sample_exemplar: Whether the measurement should be sampled by the exemplars reservoir or not.
         """
         if should_sample_exemplar:
-            self._reservoir.offer(
-                measurement.value,
-                measurement.time_unix_nano,
-                measurement.attributes,
-                measurement.context,
-            )
+            with self._reservoir_lock:
+                self._reservoir.offer(
+                    measurement.value,
+                    measurement.time_unix_nano,
+                    measurement.attributes,
+                    measurement.context,
+                )
 
 
 class _DropAggregation(_Aggregation):
-- 
2.43.0


From 2fba46647819aa46756f79c8eb6bad4feebdc234 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:48 +0000
Subject: [PATCH 18/58] fix: OTLP gRPC exporter shutdown releases the export
 lock only if it took it, and always

---
 .../exporter/otlp/proto/grpc/exporter.py             | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
index 4be75c5..47659e1 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
@@ -357,10 +357,14 @@ class OTLPExporterMixin(
             logger.warning("Exporter already shutdown, ignoring call")
             return
         # wait for the last export if any
-        self._export_lock.acquire(timeout=timeout_millis / 1e3)
-        self._shutdown = True
-        self._channel.close()
-        self._export_lock.release()
+        acquired = self._export_lock.acquire(timeout=timeout_millis / 1e3)
+        try:
+            self._shutdown = True
+            self._channel.close()
+        finally:
+            # the lock still belongs to a running export after a timeout
+            if acquired:
+                self._export_lock.release()
 
     @property
     @abstractmethod
-- 
2.43.0


From 6b440d0fd070c3f93913657bc3a64a98aa3639f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:48 +0000
Subject: [PATCH 19/58] fix: proxy meter locks are re-entrant, log handlers may
 use the proxies while they are being replaced

---
 .../src/opentelemetry/metrics/_internal/__init__.py         | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py b/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
index 2319d8d..77f9efc 100644
--- a/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
+++ b/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
@@ -45,7 +45,7 @@ from abc import ABC, abstractmethod
 from dataclasses import dataclass
 from logging import getLogger
 from os import environ
-from threading import Lock
+from threading import Lock, RLock
 from typing import Dict, List, Optional, Sequence, Union, cast
 
 from opentelemetry.environment_variables import OTEL_PYTHON_METER_PROVIDER
@@ -153,7 +153,7 @@ class NoOpMeterProvider(MeterProvider):
 
 class _ProxyMeterProvider(MeterProvider):
     def __init__(self) -> None:
-        self._lock = Lock()
+        self._lock = RLock()
         self._meters: List[_ProxyMeter] = []
         self._real_meter_provider: Optional[MeterProvider] = None
 
@@ -507,7 +507,7 @@ class _ProxyMeter(Meter):
         schema_url: Optional[str] = None,
     ) -> None:
         super().__init__(name, version=version, schema_url=schema_url)
-        self._lock = Lock()
+        self._lock = RLock()
         self._instruments: List[_ProxyInstrumentT] = []
         self._real_meter: Optional[Meter] = None
 
-- 
2.43.0


From daf43962a4dae040b2f0082cf7cd9d29df734b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:48 +0000
Subject: [PATCH 20/58] fix: the view match lock is re-entrant, creating an
 aggregation may log

---
 .../sdk/metrics/_internal/_view_instrument_match.py           | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py
index be81d70..6428497 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py
@@ -14,7 +14,7 @@
 
 
 from logging import getLogger
-from threading import Lock
+from threading import RLock
 from time import time_ns
 from typing import Dict, List, Optional, Sequence
 
@@ -43,7 +43,7 @@ class _ViewInstrumentMatch:
         self._view = view
         self._instrument = instrument
         self._attributes_aggregation: Dict[frozenset, _Aggregation] = {}
-        self._lock = Lock()
+        self._lock = RLock()
         self._instrument_class_aggregation = instrument_class_aggregation
         self._name = self._view._name or self._instrument.name
         self._description = (
-- 
2.43.0


From 61edd74cc7e9815a5e9c585d452fe3ce2b7b7b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:00 +0000
Subject: [PATCH 21/58] fix: explicit bucket histogram views may be shared by
 instruments and used on any synchronous instrument

---
 .../sdk/metrics/_internal/aggregation.py          | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
index 6ab347f..6a4c9b8 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
@@ -1391,18 +1391,21 @@ class ExplicitBucketHistogramAggregation(Aggregation):
                 AggregationTemporality.CUMULATIVE
             )
 
-        if self._boundaries is None:
-            self._boundaries = (
-                instrument._advisory.explicit_bucket_boundaries
-                or _DEFAULT_EXPLICIT_BUCKET_HISTOGRAM_AGGREGATION_BOUNDARIES
-            )
+        # this object may be shared by many instruments, do not modify it
+        boundaries = self._boundaries
+        if boundaries is None:
+            # only histograms have advisory parameters
+            advisory = getattr(instrument, "_advisory", None)
+            boundaries = (
+                advisory and advisory.explicit_bucket_boundaries
+            ) or _DEFAULT_EXPLICIT_BUCKET_HISTOGRAM_AGGREGATION_BOUNDARIES
 
         return _ExplicitBucketHistogramAggregation(
             attributes,
             instrument_aggregation_temporality,
             start_time_unix_nano,
             reservoir_factory(_ExplicitBucketHistogramAggregation),
-            self._boundaries,
+            boundaries,
             self._record_min_max,
         )
 
-- 
2.43.0


From 8e102a1e3b389e4e9a8b4a2768e40719f279e2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 22/58] fix: metric streams keep their own copy of the
 attributes

---
 .../sdk/metrics/_internal/_view_instrument_match.py             | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py
index 6428497..ea022e6 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/_view_instrument_match.py
@@ -107,6 +107,8 @@ class _ViewInstrumentMatch:
         if aggr_key not in self._attributes_aggregation:
             with self._lock:
                 if aggr_key not in self._attributes_aggregation:
+                    # the caller may go on to change its own dictionary
+                    attributes = dict(attributes)
                     if not isinstance(
                         self._view._aggregation, DefaultAggregation
                     ):
-- 
2.43.0


From 86e677052c6595e7e20584104f25f3ec4a41d2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:43 +0000
Subject: [PATCH 23/58] fix: an exemplar recorded without a span does not carry
 the span of an earlier one

---
 .../sdk/metrics/_internal/exemplar/exemplar_reservoir.py       | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
index 22d1ee9..df52bf0 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
@@ -109,6 +109,9 @@ class ExemplarBucket:
         self.__value = value
         self.__time_unix_nano = time_unix_nano
         self.__attributes = attributes
+        # nothing of an earlier measurement is kept
+        self.__span_id = None
+        self.__trace_id = None
         span = trace.get_current_span(context)
         if span != INVALID_SPAN:
             span_context = span.get_span_context()
-- 
2.43.0


From 8b75aacc415ad816409ac93410b376e586966323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:50 +0000
Subject: [PATCH 24/58] fix: a failing collection does not end the periodic
 export of metrics

---
 .../opentelemetry/sdk/metrics/_internal/export/__init__.py    | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
index ad4087d..472c892 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
@@ -537,6 +537,8 @@ class PeriodicExportingMetricReader(MetricReader):
                     interval_secs,
                     exc_info=True,
                 )
+            except Exception:  # pylint: disable=broad-exception-caught
+                _logger.exception("Exception while collecting metrics")
         # one last collection below before shutting down completely
         try:
             self.collect(timeout_millis=self._export_interval_millis)
@@ -545,6 +547,8 @@ class PeriodicExportingMetricReader(MetricReader):
                 "Metric collection timed out.",
                 exc_info=True,
             )
+        except Exception:  # pylint: disable=broad-exception-caught
+            _logger.exception("Exception while collecting metrics")
 
     def _receive_metrics(
         self,
-- 
2.43.0


From 8c5340485e60e55ef13715b69748e7e7f1ebf749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:50 +0000
Subject: [PATCH 25/58] fix: the periodic metric reader hands its exporter the
 shutdown timeout under the name it takes

---
 .../opentelemetry/sdk/metrics/_internal/export/__init__.py    | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
index 472c892..2b7e7c3 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
@@ -582,7 +582,9 @@ class PeriodicExportingMetricReader(MetricReader):
         self._shutdown_event.set()
         if self._daemon_thread:
             self._daemon_thread.join(timeout=(deadline_ns - time_ns()) / 10**9)
-        self._exporter.shutdown(timeout=(deadline_ns - time_ns()) / 10**6)
+        self._exporter.shutdown(
+            timeout_millis=max(deadline_ns - time_ns(), 0) / 10**6
+        )
 
     def force_flush(self, timeout_millis: float = 10_000) -> bool:
         super().force_flush(timeout_millis=timeout_millis)
-- 
2.43.0


From 0da32adfb96d32b05a5cc75215a1c72dec8d1335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:25 +0000
Subject: [PATCH 26/58] fix: tell instruments apart whose unit or description
 contains a comma

---
 .../src/opentelemetry/metrics/_internal/__init__.py          | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py b/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
index 77f9efc..7d1f48a 100644
--- a/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
+++ b/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
@@ -252,8 +252,9 @@ class Meter(ABC):
         the registered instrument advisory.
         """
 
-        instrument_id = ",".join(
-            [name.strip().lower(), type_.__name__, unit, description]
+        # any separator could be a part of the unit or of the description
+        instrument_id = repr(
+            (name.strip().lower(), type_.__name__, unit, description)
         )
 
         already_registered = False
-- 
2.43.0


From 664f5e3415c3d0fa9526761c2579c77c0bdf571f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:02 +0000
Subject: [PATCH 27/58] fix: keep the attributes an exemplar was offered, not
 the caller's dictionary

---
 .../sdk/metrics/_internal/exemplar/exemplar_reservoir.py     | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
index df52bf0..41afaeb 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
@@ -108,7 +108,10 @@ class ExemplarBucket:
         """
         self.__value = value
         self.__time_unix_nano = time_unix_nano
-        self.__attributes = attributes
+        # the caller may go on to change its own dictionary
+        self.__attributes = (
+            dict(attributes) if isinstance(attributes, Mapping) else None
+        )
         # nothing of an earlier measurement is kept
         self.__span_id = None
         self.__trace_id = None
-- 
2.43.0


From b077d51bfe0ef6b208be6be6b05c23e681b121ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:37 +0000
Subject: [PATCH 28/58] fix: do not raise out of a log call made before a
 logger provider is set

---
 .../src/opentelemetry/sdk/_logs/_internal/__init__.py          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
index 29d189d..382f4d7 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/__init__.py
@@ -544,7 +544,8 @@ class LoggingHandler(logging.Handler):
             severity_text=level_name,
             severity_number=severity_number,
             body=body,
-            resource=logger.resource,
+            # a logger got before a provider is set has no resource
+            resource=getattr(logger, "resource", None),
             attributes=attributes,
         )
 
-- 
2.43.0


From 56466d73d1f0ef8616793c66061286c0832964bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:37 +0000
Subject: [PATCH 29/58] fix: keep the explicit trace flags of an event that is
 not sampled

---
 .../src/opentelemetry/sdk/_events/__init__.py              | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py
index ae16302..f57169c 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py
@@ -55,7 +55,12 @@ class EventLogger(APIEventLogger):
             observed_timestamp=None,
             trace_id=event.trace_id or span_context.trace_id,
             span_id=event.span_id or span_context.span_id,
-            trace_flags=event.trace_flags or span_context.trace_flags,
+            # an event may be explicitly not sampled
+            trace_flags=(
+                span_context.trace_flags
+                if event.trace_flags is None
+                else event.trace_flags
+            ),
             severity_text=None,
             severity_number=event.severity_number or SeverityNumber.INFO,
             body=event.body,
-- 
2.43.0


From 19ffe0f9e2c5d2d44e70041aae6a712141e04dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:17 +0000
Subject: [PATCH 30/58] fix: pass the attributes of a meter got before a
 provider is set to the real meter

---
 .../metrics/_internal/__init__.py             | 38 ++++++++++++++++---
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py b/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
index 7d1f48a..04e5e93 100644
--- a/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
+++ b/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
@@ -151,6 +151,19 @@ class NoOpMeterProvider(MeterProvider):
         return NoOpMeter(name, version=version, schema_url=schema_url)
 
 
+def _get_real_meter(
+    meter_provider: MeterProvider,
+    name: str,
+    version: Optional[str],
+    schema_url: Optional[str],
+    attributes: Optional[Attributes],
+) -> "Meter":
+    if attributes is None:
+        # providers written before attributes were added do not take them
+        return meter_provider.get_meter(name, version, schema_url)
+    return meter_provider.get_meter(name, version, schema_url, attributes)
+
+
 class _ProxyMeterProvider(MeterProvider):
     def __init__(self) -> None:
         self._lock = RLock()
@@ -166,11 +179,20 @@ class _ProxyMeterProvider(MeterProvider):
     ) -> "Meter":
         with self._lock:
             if self._real_meter_provider is not None:
-                return self._real_meter_provider.get_meter(
-                    name, version, schema_url
+                return _get_real_meter(
+                    self._real_meter_provider,
+                    name,
+                    version,
+                    schema_url,
+                    attributes,
                 )
 
-            meter = _ProxyMeter(name, version=version, schema_url=schema_url)
+            meter = _ProxyMeter(
+                name,
+                version=version,
+                schema_url=schema_url,
+                attributes=attributes,
+            )
             self._meters.append(meter)
             return meter
 
@@ -506,8 +528,10 @@ class _ProxyMeter(Meter):
         name: str,
         version: Optional[str] = None,
         schema_url: Optional[str] = None,
+        attributes: Optional[Attributes] = None,
     ) -> None:
         super().__init__(name, version=version, schema_url=schema_url)
+        self._attributes = attributes
         self._lock = RLock()
         self._instruments: List[_ProxyInstrumentT] = []
         self._real_meter: Optional[Meter] = None
@@ -518,8 +542,12 @@ class _ProxyMeter(Meter):
         Creates a real backing meter for this instance and notifies all created
         instruments so they can create real backing instruments.
         """
-        real_meter = meter_provider.get_meter(
-            self._name, self._version, self._schema_url
+        real_meter = _get_real_meter(
+            meter_provider,
+            self._name,
+            self._version,
+            self._schema_url,
+            self._attributes,
         )
 
         with self._lock:
-- 
2.43.0


From ec3ea970300a823859a01752d819b222d93451e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:05 +0000
Subject: [PATCH 31/58] fix: connect the other instruments when one made before
 a meter provider is set is invalid

---
 .../src/opentelemetry/metrics/_internal/__init__.py  | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py b/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
index 04e5e93..556ce25 100644
--- a/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
+++ b/opentelemetry-api/src/opentelemetry/metrics/_internal/__init__.py
@@ -200,7 +200,12 @@ class _ProxyMeterProvider(MeterProvider):
         with self._lock:
             self._real_meter_provider = meter_provider
             for meter in self._meters:
-                meter.on_set_meter_provider(meter_provider)
+                # one meter that cannot be created must not keep the others
+                # from being connected
+                try:
+                    meter.on_set_meter_provider(meter_provider)
+                except Exception:  # pylint: disable=broad-exception-caught
+                    _logger.exception("Failed to create a meter")
 
 
 @dataclass
@@ -555,7 +560,10 @@ class _ProxyMeter(Meter):
             # notify all proxy instruments of the new meter so they can create
             # real instruments to back themselves
             for instrument in self._instruments:
-                instrument.on_meter_set(real_meter)
+                try:
+                    instrument.on_meter_set(real_meter)
+                except Exception:  # pylint: disable=broad-exception-caught
+                    _logger.exception("Failed to create an instrument")
 
     def create_counter(
         self,
-- 
2.43.0


From f0367bedb2e6140d0a3071f08b7a392f8052f97d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:41 +0000
Subject: [PATCH 32/58] fix: pass the span context of the parent on in spans of
 a no-op tracer

---
 opentelemetry-api/src/opentelemetry/trace/__init__.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/opentelemetry-api/src/opentelemetry/trace/__init__.py b/opentelemetry-api/src/opentelemetry/trace/__init__.py
index 73087e9..3abe8d7 100644
--- a/opentelemetry-api/src/opentelemetry/trace/__init__.py
+++ b/opentelemetry-api/src/opentelemetry/trace/__init__.py
@@ -455,7 +455,7 @@ class ProxyTracer(Tracer):
 class NoOpTracer(Tracer):
     """The default Tracer, used when no Tracer implementation is available.
 
-    All operations are no-op.
+    All operations are no-op except context propagation.
     """
 
     def start_span(
@@ -469,7 +469,10 @@ class NoOpTracer(Tracer):
         record_exception: bool = True,
         set_status_on_exception: bool = True,
     ) -> "Span":
-        return INVALID_SPAN
+        parent = get_current_span(context)
+        if isinstance(parent, NonRecordingSpan):
+            return parent
+        return NonRecordingSpan(parent.get_span_context())
 
     @_agnosticcontextmanager
     def start_as_current_span(
@@ -484,7 +487,9 @@ class NoOpTracer(Tracer):
         set_status_on_exception: bool = True,
         end_on_exit: bool = True,
     ) -> Iterator["Span"]:
-        yield INVALID_SPAN
+        span = self.start_span(name, context)
+        with use_span(span) as current_span:
+            yield current_span
 
 
 @deprecated(version="1.9.0", reason="You should use NoOpTracer")  # type: ignore
-- 
2.43.0


From 1d3d70837339a9efc7247be7f3c990fb8e4b9ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:47 +0000
Subject: [PATCH 33/58] fix: encode the trace state of links in OTLP spans

---
 .../otlp/proto/common/_internal/trace_encoder/__init__.py    | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/trace_encoder/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/trace_encoder/__init__.py
index 388d229..dbedbce 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/trace_encoder/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/trace_encoder/__init__.py
@@ -14,7 +14,7 @@
 
 import logging
 from collections import defaultdict
-from typing import List, Optional, Sequence
+from typing import List, Mapping, Optional, Sequence
 
 from opentelemetry.exporter.otlp.proto.common._internal import (
     _encode_attributes,
@@ -159,6 +159,7 @@ def _encode_links(links: Sequence[Link]) -> Sequence[PB2SPan.Link]:
             encoded_link = PB2SPan.Link(
                 trace_id=_encode_trace_id(link.context.trace_id),
                 span_id=_encode_span_id(link.context.span_id),
+                trace_state=_encode_trace_state(link.context.trace_state),
                 attributes=_encode_attributes(link.attributes),
                 dropped_attributes_count=link.dropped_attributes,
                 flags=_span_flags(link.context),
@@ -179,7 +180,7 @@ def _encode_status(status: Status) -> Optional[PB2Status]:
 
 def _encode_trace_state(trace_state: TraceState) -> Optional[str]:
     pb2_trace_state = None
-    if trace_state is not None:
+    if isinstance(trace_state, Mapping):
         pb2_trace_state = ",".join(
             [f"{key}={value}" for key, value in (trace_state.items())]
         )
-- 
2.43.0


From 717403ab7309087716bc9112ce760d3ca8709903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:47 +0000
Subject: [PATCH 34/58] fix: export log records without identifiers, flags or
 severity number over OTLP

---
 .../otlp/proto/common/_internal/_log_encoder/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/_log_encoder/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/_log_encoder/__init__.py
index 9cd4484..d95d089 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/_log_encoder/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/_log_encoder/__init__.py
@@ -40,26 +40,27 @@ def encode_logs(batch: Sequence[LogData]) -> ExportLogsServiceRequest:
 def _encode_log(log_data: LogData) -> PB2LogRecord:
     span_id = (
         None
-        if log_data.log_record.span_id == 0
+        if not log_data.log_record.span_id
         else _encode_span_id(log_data.log_record.span_id)
     )
     trace_id = (
         None
-        if log_data.log_record.trace_id == 0
+        if not log_data.log_record.trace_id
         else _encode_trace_id(log_data.log_record.trace_id)
     )
+    severity_number = log_data.log_record.severity_number
     body = log_data.log_record.body
     return PB2LogRecord(
         time_unix_nano=log_data.log_record.timestamp,
         observed_time_unix_nano=log_data.log_record.observed_timestamp,
         span_id=span_id,
         trace_id=trace_id,
-        flags=int(log_data.log_record.trace_flags),
+        flags=int(log_data.log_record.trace_flags or 0),
         body=_encode_value(body, allow_null=True),
         severity_text=log_data.log_record.severity_text,
         attributes=_encode_attributes(log_data.log_record.attributes),
         dropped_attributes_count=log_data.log_record.dropped_attributes,
-        severity_number=log_data.log_record.severity_number.value,
+        severity_number=severity_number.value if severity_number else None,
     )
 
 
-- 
2.43.0


From 9a1ddc7160afe82887c0cd330d380d2b9c1585ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:26 +0000
Subject: [PATCH 35/58] fix: export a log record whose body cannot be encoded
 without its body

---
 .../proto/common/_internal/_log_encoder/__init__.py   | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/_log_encoder/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/_log_encoder/__init__.py
index d95d089..62be72a 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/_log_encoder/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/_log_encoder/__init__.py
@@ -11,6 +11,7 @@
 # WITHOUT WARRANTIES OR CONDITIONS OF ANY KIND, either express or implied.
 # See the License for the specific language governing permissions and
 # limitations under the License.
+import logging
 from collections import defaultdict
 from typing import List, Sequence
 
@@ -32,6 +33,8 @@ from opentelemetry.proto.logs.v1.logs_pb2 import (
 )
 from opentelemetry.sdk._logs import LogData
 
+_logger = logging.getLogger(__name__)
+
 
 def encode_logs(batch: Sequence[LogData]) -> ExportLogsServiceRequest:
     return ExportLogsServiceRequest(resource_logs=_encode_resource_logs(batch))
@@ -49,14 +52,18 @@ def _encode_log(log_data: LogData) -> PB2LogRecord:
         else _encode_trace_id(log_data.log_record.trace_id)
     )
     severity_number = log_data.log_record.severity_number
-    body = log_data.log_record.body
+    try:
+        body = _encode_value(log_data.log_record.body, allow_null=True)
+    except Exception as error:  # pylint: disable=broad-exception-caught
+        _logger.exception("Failed to encode log record body: %s", error)
+        body = None
     return PB2LogRecord(
         time_unix_nano=log_data.log_record.timestamp,
         observed_time_unix_nano=log_data.log_record.observed_timestamp,
         span_id=span_id,
         trace_id=trace_id,
         flags=int(log_data.log_record.trace_flags or 0),
-        body=_encode_value(body, allow_null=True),
+        body=body,
         severity_text=log_data.log_record.severity_text,
         attributes=_encode_attributes(log_data.log_record.attributes),
         dropped_attributes_count=log_data.log_record.dropped_attributes,
-- 
2.43.0


From bab9b4803e12b237ffa264a983654aadb413a851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:31 +0000
Subject: [PATCH 36/58] fix: refuse exports after shutdown in the OTLP HTTP
 metric exporter

---
 .../otlp/proto/http/metric_exporter/__init__.py     | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py
index 00f429e..75b44e5 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py
@@ -164,6 +164,7 @@ class OTLPMetricExporter(MetricExporter, OTLPMetricExporterMixin):
         self._common_configuration(
             preferred_temporality, preferred_aggregation
         )
+        self._shutdown = False
 
     def _export(self, serialized_data: bytes):
         data = serialized_data
@@ -197,6 +198,12 @@ class OTLPMetricExporter(MetricExporter, OTLPMetricExporterMixin):
         timeout_millis: float = 10_000,
         **kwargs,
     ) -> MetricExportResult:
+        # After the call to shutdown, subsequent calls to export are
+        # not allowed and should return a Failure result.
+        if self._shutdown:
+            _logger.warning("Exporter already shutdown, ignoring batch")
+            return MetricExportResult.FAILURE
+
         serialized_data = encode_metrics(metrics_data)
         for delay in _create_exp_backoff_generator(
             max_value=self._MAX_RETRY_TIMEOUT
@@ -226,7 +233,11 @@ class OTLPMetricExporter(MetricExporter, OTLPMetricExporterMixin):
         return MetricExportResult.FAILURE
 
     def shutdown(self, timeout_millis: float = 30_000, **kwargs) -> None:
-        pass
+        if self._shutdown:
+            _logger.warning("Exporter already shutdown, ignoring call")
+            return
+        self._session.close()
+        self._shutdown = True
 
     @property
     def _exporting(self) -> str:
-- 
2.43.0


From a50075a9eb963de48c4b550936215fa81b315348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:31 +0000
Subject: [PATCH 37/58] fix: stop retrying OTLP HTTP exports after shutdown

---
 .../exporter/otlp/proto/http/_log_exporter/__init__.py          | 2 +-
 .../exporter/otlp/proto/http/metric_exporter/__init__.py        | 2 +-
 .../exporter/otlp/proto/http/trace_exporter/__init__.py         | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/_log_exporter/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/_log_exporter/__init__.py
index 21b8773..2f7cf9c 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/_log_exporter/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/_log_exporter/__init__.py
@@ -161,7 +161,7 @@ class OTLPLogExporter(LogExporter):
         for delay in _create_exp_backoff_generator(
             max_value=self._MAX_RETRY_TIMEOUT
         ):
-            if delay == self._MAX_RETRY_TIMEOUT:
+            if delay == self._MAX_RETRY_TIMEOUT or self._shutdown:
                 return LogExportResult.FAILURE
 
             resp = self._export(serialized_data)
diff --git a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py
index 75b44e5..c861c98 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py
@@ -208,7 +208,7 @@ class OTLPMetricExporter(MetricExporter, OTLPMetricExporterMixin):
         for delay in _create_exp_backoff_generator(
             max_value=self._MAX_RETRY_TIMEOUT
         ):
-            if delay == self._MAX_RETRY_TIMEOUT:
+            if delay == self._MAX_RETRY_TIMEOUT or self._shutdown:
                 return MetricExportResult.FAILURE
 
             resp = self._export(serialized_data.SerializeToString())
diff --git a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/trace_exporter/__init__.py b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/trace_exporter/__init__.py
index 7bcf4b4..8fde7ad 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/trace_exporter/__init__.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/trace_exporter/__init__.py
@@ -153,7 +153,7 @@ class OTLPSpanExporter(SpanExporter):
         for delay in _create_exp_backoff_generator(
             max_value=self._MAX_RETRY_TIMEOUT
         ):
-            if delay == self._MAX_RETRY_TIMEOUT:
+            if delay == self._MAX_RETRY_TIMEOUT or self._shutdown:
                 return SpanExportResult.FAILURE
 
             resp = self._export(serialized_data)
-- 
2.43.0


From 5518aa3fe5f6eaeadf688db38e148119fe5c6acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:31 +0000
Subject: [PATCH 38/58] fix: do not export on a gRPC channel closed while
 waiting for the lock

---
 .../src/opentelemetry/exporter/otlp/proto/grpc/exporter.py   | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
index 47659e1..b64fb84 100644
--- a/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
+++ b/exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py
@@ -294,6 +294,11 @@ class OTLPExporterMixin(
                 return self._result.FAILURE
 
             with self._export_lock:
+                # shutdown may have closed the channel while this export
+                # was waiting for the lock
+                if self._shutdown:
+                    return self._result.FAILURE
+
                 try:
                     self._client.Export(
                         request=self._translate_data(data),
-- 
2.43.0


From 05aea6e136065c23cbfcbfd593483325b431b1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:39 +0000
Subject: [PATCH 39/58] fix: refuse exports after shutdown in the OpenCensus
 exporter

---
 .../exporter/opencensus/trace_exporter/__init__.py   | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/exporter/opentelemetry-exporter-opencensus/src/opentelemetry/exporter/opencensus/trace_exporter/__init__.py b/exporter/opentelemetry-exporter-opencensus/src/opentelemetry/exporter/opencensus/trace_exporter/__init__.py
index 0b79bbb..0ce848f 100644
--- a/exporter/opentelemetry-exporter-opencensus/src/opentelemetry/exporter/opencensus/trace_exporter/__init__.py
+++ b/exporter/opentelemetry-exporter-opencensus/src/opentelemetry/exporter/opencensus/trace_exporter/__init__.py
@@ -68,8 +68,15 @@ class OpenCensusSpanExporter(SpanExporter):
 
         self.host_name = host_name
         self.node = utils.get_node(service_name, host_name)
+        self._shutdown = False
 
     def export(self, spans: Sequence[ReadableSpan]) -> SpanExportResult:
+        # After the call to shutdown, subsequent calls to export are
+        # not allowed and should return a Failure result.
+        if self._shutdown:
+            logger.warning("Exporter already shutdown, ignoring batch")
+            return SpanExportResult.FAILURE
+
         # Populate service_name from first span
         # We restrict any SpanProcessor to be only associated with a single
         # TracerProvider, so it is safe to assume that all Spans in a single
@@ -92,7 +99,10 @@ class OpenCensusSpanExporter(SpanExporter):
         return SpanExportResult.SUCCESS
 
     def shutdown(self) -> None:
-        pass
+        if self._shutdown:
+            logger.warning("Exporter already shutdown, ignoring call")
+            return
+        self._shutdown = True
 
     def generate_span_requests(self, spans):
         collector_spans = translate_to_collector(spans)
-- 
2.43.0


From 141d034d513c3d381a66b2cad85e8f38163973f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:59 +0000
Subject: [PATCH 40/58] fix: encode Zipkin v1 spans when no tag length limit is
 set

---
 .../src/opentelemetry/exporter/zipkin/json/v1/__init__.py   | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/json/v1/__init__.py b/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/json/v1/__init__.py
index c44a2dd..5014c21 100644
--- a/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/json/v1/__init__.py
+++ b/exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/json/v1/__init__.py
@@ -27,7 +27,11 @@ class V1Encoder(Encoder):
     ) -> List[Dict]:
         binary_annotations = []
         for tag_key, tag_value in self._extract_tags_from_span(span).items():
-            if isinstance(tag_value, str) and self.max_tag_value_length > 0:
+            if (
+                isinstance(tag_value, str)
+                and self.max_tag_value_length is not None
+                and self.max_tag_value_length > 0
+            ):
                 tag_value = tag_value[: self.max_tag_value_length]
             binary_annotations.append(
                 {
-- 
2.43.0


From 1465772daba06c34e3a17e47d915dc87f481159c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:45 +0000
Subject: [PATCH 41/58] fix: skip metric data Prometheus cannot represent
 instead of failing the scrape

---
 .../src/opentelemetry/exporter/prometheus/__init__.py  | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py b/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
index 475cfb1..86e9495 100644
--- a/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
+++ b/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
@@ -224,6 +224,12 @@ class _CustomCollector:
                     metrics.append(metric)
 
         for metric in metrics:
+            if not isinstance(metric.data, (Sum, Gauge, Histogram)):
+                _logger.warning(
+                    "Unsupported metric data. %s", type(metric.data)
+                )
+                continue
+
             label_values_data_points = []
             label_keys_data_points = []
             values = []
@@ -358,10 +364,6 @@ class _CustomCollector:
                         ),
                         sum_value=value["sum"],
                     )
-                else:
-                    _logger.warning(
-                        "Unsupported metric data. %s", type(metric.data)
-                    )
 
     # pylint: disable=no-self-use
     def _check_value(self, value: Union[int, float, str, Sequence]) -> str:
-- 
2.43.0


From 8e3b4ffa5434bd2bdb77619d6587e71a54c00021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:30 +0000
Subject: [PATCH 42/58] fix: give each Prometheus scrape the series of one
 collection

---
 .../exporter/prometheus/__init__.py           | 23 +++++++++++++------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py b/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
index 86e9495..13b1abe 100644
--- a/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
+++ b/exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py
@@ -67,6 +67,7 @@ from itertools import chain
 from json import dumps
 from logging import getLogger
 from os import environ
+from threading import RLock
 from typing import Deque, Dict, Iterable, Sequence, Tuple, Union
 
 from prometheus_client import start_http_server
@@ -172,10 +173,12 @@ class _CustomCollector:
         self._metrics_datas: Deque[MetricsData] = deque()
         self._disable_target_info = disable_target_info
         self._target_info = None
+        self._collect_lock = RLock()
 
     def add_metrics_data(self, metrics_data: MetricsData) -> None:
         """Add metrics to Prometheus data"""
-        self._metrics_datas.append(metrics_data)
+        with self._collect_lock:
+            self._metrics_datas.append(metrics_data)
 
     def collect(self) -> Iterable[PrometheusMetric]:
         """Collect fetches the metrics from OpenTelemetry
@@ -183,16 +186,23 @@ class _CustomCollector:
         Collect is invoked every time a ``prometheus.Gatherer`` is run
         for example when the HTTP endpoint is invoked by Prometheus.
         """
-        if self._callback is not None:
-            self._callback()
+        # Scrapes may run concurrently: each one reports the outcome of its own
+        # collection, the latest one if some happened since the last scrape
+        with self._collect_lock:
+            if self._callback is not None:
+                self._callback()
+
+            metrics_data = None
+            while self._metrics_datas:
+                metrics_data = self._metrics_datas.popleft()
 
         metric_family_id_metric_family = {}
 
-        if len(self._metrics_datas):
+        if metrics_data is not None:
             if not self._disable_target_info:
                 if self._target_info is None:
                     attributes: Attributes = {}
-                    for res in self._metrics_datas[0].resource_metrics:
+                    for res in metrics_data.resource_metrics:
                         attributes = {**attributes, **res.resource.attributes}
 
                     self._target_info = self._create_info_metric(
@@ -202,9 +212,8 @@ class _CustomCollector:
                     self._target_info
                 )
 
-        while self._metrics_datas:
             self._translate_to_prometheus(
-                self._metrics_datas.popleft(), metric_family_id_metric_family
+                metrics_data, metric_family_id_metric_family
             )
 
             if metric_family_id_metric_family:
-- 
2.43.0


From 8f9680f46c4b67f28384a7deca16d6e74a2b979d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:23 +0000
Subject: [PATCH 43/58] fix: keep the default service name when schema URLs
 conflict

Resource.create merged the default service name as a resource with the
caller's schema URL. When a detector's schema URL conflicts with it, that
merge was rejected and the resource had no service.name.
---
 opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
index 752b906..2eac522 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
@@ -233,7 +233,7 @@ class Resource:
             if process_executable_name:
                 default_service_name += ":" + process_executable_name
             resource = resource.merge(
-                Resource({SERVICE_NAME: default_service_name}, schema_url)
+                Resource({SERVICE_NAME: default_service_name})
             )
         return resource
 
-- 
2.43.0


From e748a744edf847f7d183193ee052848e2b7647d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:23 +0000
Subject: [PATCH 44/58] fix: ask the resource detectors in the listed order

They were taken from a set of strings, so which of two detectors overrode
the other changed from one process to the next with the hash seed.
---
 .../src/opentelemetry/sdk/resources/__init__.py          | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
index 2eac522..ac0bca0 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
@@ -189,14 +189,17 @@ class Resource:
         if not attributes:
             attributes = {}
 
-        otel_experimental_resource_detectors = {"otel"}.union(
-            {
+        # the listed order decides which detector overrides which, and the
+        # attributes given in the environment override the detected ones
+        otel_experimental_resource_detectors = dict.fromkeys(
+            [
                 otel_experimental_resource_detector.strip()
                 for otel_experimental_resource_detector in environ.get(
                     OTEL_EXPERIMENTAL_RESOURCE_DETECTORS, ""
                 ).split(",")
                 if otel_experimental_resource_detector
-            }
+            ]
+            + ["otel"]
         )
 
         resource_detectors: List[ResourceDetector] = []
-- 
2.43.0


From 1ccc829a8614466af2f106f67ce9f617b922a8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:23 +0000
Subject: [PATCH 45/58] fix: do not wait for a resource detector that exceeded
 the timeout

Leaving the executor's context waited for every detector to finish, so a
detector that hangs blocked Resource.create for ever despite the timeout.
---
 .../src/opentelemetry/sdk/resources/__init__.py             | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
index ac0bca0..c090429 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/resources/__init__.py
@@ -514,7 +514,8 @@ def get_aggregated_resources(
     """
     detectors_merged_resource = initial_resource or Resource.create()
 
-    with concurrent.futures.ThreadPoolExecutor(max_workers=4) as executor:
+    executor = concurrent.futures.ThreadPoolExecutor(max_workers=4)
+    try:
         futures = [executor.submit(detector.detect) for detector in detectors]
         for detector_ind, future in enumerate(futures):
             detector = detectors[detector_ind]
@@ -540,5 +541,8 @@ def get_aggregated_resources(
                 detectors_merged_resource = detectors_merged_resource.merge(
                     detected_resource
                 )
+    finally:
+        # do not wait for a detector that exceeded the timeout
+        executor.shutdown(wait=False)
 
     return detectors_merged_resource
-- 
2.43.0


From 48aedbceaafd83ba47d7c9a6000fff998495cef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:36 +0000
Subject: [PATCH 46/58] fix: ignore a sampler ratio from the environment that
 is out of range

---
 opentelemetry-sdk/src/opentelemetry/sdk/trace/sampling.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/trace/sampling.py b/opentelemetry-sdk/src/opentelemetry/sdk/trace/sampling.py
index fb6990a..8c4b4ff 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/trace/sampling.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/trace/sampling.py
@@ -439,6 +439,9 @@ def _get_from_env_or_default() -> Sampler:
         except (ValueError, TypeError):
             _logger.warning("Could not convert TRACES_SAMPLER_ARG to float.")
             rate = 1.0
+        if not 0.0 <= rate <= 1.0:
+            _logger.warning("TRACES_SAMPLER_ARG is not in the range [0, 1].")
+            rate = 1.0
         return _KNOWN_SAMPLERS[trace_sampler](rate)
 
     return _KNOWN_SAMPLERS[trace_sampler]
-- 
2.43.0


From 3abd28b62b9381def91f9a416b97cde3586b5ea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:36 +0000
Subject: [PATCH 47/58] fix: pass the ratio to a ratio sampler whose configured
 name has surrounding blanks

---
 .../src/opentelemetry/sdk/_configuration/__init__.py             | 1 +
 1 file changed, 1 insertion(+)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_configuration/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_configuration/__init__.py
index c1852ed..a7753df 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_configuration/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_configuration/__init__.py
@@ -320,6 +320,7 @@ def _import_sampler_factory(sampler_name: str) -> Callable[[str], Sampler]:
 def _import_sampler(sampler_name: str) -> Sampler | None:
     if not sampler_name:
         return None
+    sampler_name = sampler_name.strip()
     try:
         sampler_factory = _import_sampler_factory(sampler_name)
         arg = None
-- 
2.43.0


From 41e21d8fb2f229d73ad0d4ee2fbadacb3a7c0ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:49:36 +0000
Subject: [PATCH 48/58] fix: ignore an unknown exemplar filter in the
 environment instead of failing

---
 .../src/opentelemetry/sdk/metrics/_internal/__init__.py     | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
index 86d417c..b8d6bd6 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
@@ -382,8 +382,10 @@ def _get_exemplar_filter(exemplar_filter: str) -> ExemplarFilter:
         return AlwaysOnExemplarFilter()
     if exemplar_filter == "always_off":
         return AlwaysOffExemplarFilter()
-    msg = f"Unknown exemplar filter '{exemplar_filter}'."
-    raise ValueError(msg)
+    _logger.warning(
+        "Unknown exemplar filter '%s', using trace_based", exemplar_filter
+    )
+    return TraceBasedExemplarFilter()
 
 
 class MeterProvider(APIMeterProvider):
-- 
2.43.0


From 5805015e3cb3b940be9b121a632d8d22fe6b27e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:06 +0000
Subject: [PATCH 49/58] fix: EventLoggerProvider.force_flush returns the result
 of the flush

---
 opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py
index f57169c..f9b8f33 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/_events/__init__.py
@@ -91,4 +91,4 @@ class EventLoggerProvider(APIEventLoggerProvider):
         self._logger_provider.shutdown()
 
     def force_flush(self, timeout_millis: int = 30000) -> bool:
-        self._logger_provider.force_flush(timeout_millis)
+        return self._logger_provider.force_flush(timeout_millis)
-- 
2.43.0


From 72d0166c4f2e8100ff8a5f8207ee9fc6503c8fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:07 +0000
Subject: [PATCH 50/58] fix: PeriodicExportingMetricReader.force_flush reports
 the exporter's result

---
 .../src/opentelemetry/sdk/metrics/_internal/export/__init__.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
index 2b7e7c3..0ac366d 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/export/__init__.py
@@ -588,5 +588,4 @@ class PeriodicExportingMetricReader(MetricReader):
 
     def force_flush(self, timeout_millis: float = 10_000) -> bool:
         super().force_flush(timeout_millis=timeout_millis)
-        self._exporter.force_flush(timeout_millis=timeout_millis)
-        return True
+        return self._exporter.force_flush(timeout_millis=timeout_millis)
-- 
2.43.0


From 5032e4da5c45dcc1e0ca7bd7a41056884264b1cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:08 +0000
Subject: [PATCH 51/58] fix: MeterProvider.force_flush reports readers that
 failed to flush

---
 .../src/opentelemetry/sdk/metrics/_internal/__init__.py   | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
index b8d6bd6..d73850c 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/__init__.py
@@ -480,6 +480,7 @@ class MeterProvider(APIMeterProvider):
     def force_flush(self, timeout_millis: float = 10_000) -> bool:
         deadline_ns = time_ns() + timeout_millis * 10**6
 
+        flushed = True
         metric_reader_error = {}
 
         for metric_reader in self._sdk_config.metric_readers:
@@ -489,9 +490,10 @@ class MeterProvider(APIMeterProvider):
                     raise MetricsTimeoutError(
                         "Timed out while flushing metric readers"
                     )
-                metric_reader.force_flush(
+                if not metric_reader.force_flush(
                     timeout_millis=(deadline_ns - current_ts) / 10**6
-                )
+                ):
+                    flushed = False
 
             # pylint: disable=broad-exception-caught
             except Exception as error:
@@ -511,7 +513,7 @@ class MeterProvider(APIMeterProvider):
                 "metric readers failed during collect:\n"
                 f"{metric_reader_error_string}"
             )
-        return True
+        return flushed
 
     def shutdown(self, timeout_millis: float = 30_000):
         deadline_ns = time_ns() + timeout_millis * 10**6
-- 
2.43.0


From 2f5609305d8a8b478bf14fad21571184c23f76f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:35 +0000
Subject: [PATCH 52/58] fix: OpenTracing shim start_active_span honours
 ignore_active_span

---
 .../src/opentelemetry/shim/opentracing_shim/__init__.py        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
index 8f4935e..2610383 100644
--- a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
+++ b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
@@ -597,7 +597,8 @@ class TracerShim(Tracer):
         current_span = get_current_span()
 
         if (
-            child_of is None
+            not ignore_active_span
+            and child_of is None
             and current_span.get_span_context() is not INVALID_SPAN_CONTEXT
         ):
             child_of = SpanShim(None, None, current_span)
-- 
2.43.0


From f2f44162a719404081713a556d6352a222f1dbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:35 +0000
Subject: [PATCH 53/58] fix: OpenTracing shim's active scope represents the
 active span

---
 .../shim/opentracing_shim/__init__.py              | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
index 2610383..a5a732b 100644
--- a/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
+++ b/shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py
@@ -497,12 +497,14 @@ class ScopeManagerShim(ScopeManager):
         if span.get_span_context() == INVALID_SPAN_CONTEXT:
             return None
 
-        try:
-            return get_value(_SHIM_KEY)
-        except KeyError:
-            span_context = SpanContextShim(span.get_span_context())
-            wrapped_span = SpanShim(self._tracer, span_context, span)
-            return ScopeShim(self, span=wrapped_span)
+        scope = get_value(_SHIM_KEY)
+        if scope is not None and scope.span.unwrap() is span:
+            return scope
+
+        # The span was made active without this shim.
+        span_context = SpanContextShim(span.get_span_context())
+        wrapped_span = SpanShim(self._tracer, span_context, span)
+        return ScopeShim(self, span=wrapped_span)
 
     @property
     def tracer(self) -> "TracerShim":
-- 
2.43.0


From ff04b06e629af5d33eba4a0320c6e2f43adcda19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:35 +0000
Subject: [PATCH 54/58] fix: OpenCensus shim keeps the context the parent is
 set in

---
 .../src/opentelemetry/shim/opencensus/_shim_tracer.py          | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/shim/opentelemetry-opencensus-shim/src/opentelemetry/shim/opencensus/_shim_tracer.py b/shim/opentelemetry-opencensus-shim/src/opentelemetry/shim/opencensus/_shim_tracer.py
index e003e38..556ac32 100644
--- a/shim/opentelemetry-opencensus-shim/src/opentelemetry/shim/opencensus/_shim_tracer.py
+++ b/shim/opentelemetry-opencensus-shim/src/opentelemetry/shim/opencensus/_shim_tracer.py
@@ -76,7 +76,8 @@ def set_oc_span_in_context(
                 trace_flags=trace_flags,
                 trace_state=trace_state,
             )
-        )
+        ),
+        ctx,
     )
 
 
-- 
2.43.0


From 28d5ef5e2d00961e69cae4547cc84210848430ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:35 +0000
Subject: [PATCH 55/58] fix: OpenCensus shim reads UTC timestamps as UTC

---
 .../src/opentelemetry/shim/opencensus/_shim_span.py    | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/shim/opentelemetry-opencensus-shim/src/opentelemetry/shim/opencensus/_shim_span.py b/shim/opentelemetry-opencensus-shim/src/opentelemetry/shim/opencensus/_shim_span.py
index 268b1d6..bf0998c 100644
--- a/shim/opentelemetry-opencensus-shim/src/opentelemetry/shim/opencensus/_shim_span.py
+++ b/shim/opentelemetry-opencensus-shim/src/opentelemetry/shim/opencensus/_shim_span.py
@@ -13,7 +13,7 @@
 # limitations under the License.
 
 import logging
-from datetime import datetime
+from datetime import datetime, timezone
 from typing import TYPE_CHECKING
 
 import wrapt
@@ -53,9 +53,11 @@ def _opencensus_time_to_nanos(timestamp: str) -> int:
     # https://github.com/census-instrumentation/opencensus-python/blob/c38c71b9285e71de94d0185ff3c5bf65ee163345/opencensus/common/utils/__init__.py#L76
     #
     # datetime.fromisoformat() does not work with the added "Z" until python 3.11
-    seconds_float = datetime.strptime(
-        timestamp, "%Y-%m-%dT%H:%M:%S.%fZ"
-    ).timestamp()
+    seconds_float = (
+        datetime.strptime(timestamp, "%Y-%m-%dT%H:%M:%S.%fZ")
+        .replace(tzinfo=timezone.utc)
+        .timestamp()
+    )
     return round(seconds_float * 1e9)
 
 
-- 
2.43.0


From 5a48a9f3bb9b8a70430744715a2abf1efdce88cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:07 +0000
Subject: [PATCH 56/58] fix: offer zero measurements of exponential histograms
 to the exemplar reservoir

---
 .../src/opentelemetry/sdk/metrics/_internal/aggregation.py      | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
index 6a4c9b8..e441ecc 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py
@@ -738,6 +738,8 @@ class _ExponentialBucketHistogramAggregation(_Aggregation[HistogramPoint]):
                 if self._count == self._zero_count:
                     self._scale = 0
 
+                self._sample_exemplar(measurement, should_sample_exemplar)
+
                 return
 
             if measurement_value > 0:
-- 
2.43.0


From 949b9145c702f65ac417e3876bd8823c53c6acef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:07 +0000
Subject: [PATCH 57/58] fix: fill the fixed size exemplar reservoir before
 replacing measurements

---
 .../sdk/metrics/_internal/exemplar/exemplar_reservoir.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
index 41afaeb..6801b29 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
@@ -279,7 +279,7 @@ class SimpleFixedSizeExemplarReservoir(FixedSizeExemplarReservoirABC):
         context: Context,
     ) -> int:
         self._measurements_seen += 1
-        if self._measurements_seen < self._size:
+        if self._measurements_seen <= self._size:
             return self._measurements_seen - 1
 
         index = randrange(0, self._measurements_seen)
-- 
2.43.0


From 14dcb3d0dc1c77850ec78cdc883a788019b0edf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:07 +0000
Subject: [PATCH 58/58] fix: exemplars recorded under an invalid span context
 carry no span or trace id

---
 .../sdk/metrics/_internal/exemplar/exemplar_reservoir.py    | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
index 6801b29..51b67b0 100644
--- a/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
+++ b/opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/exemplar/exemplar_reservoir.py
@@ -28,7 +28,6 @@ from typing import (
 
 from opentelemetry import trace
 from opentelemetry.context import Context
-from opentelemetry.trace.span import INVALID_SPAN
 from opentelemetry.util.types import Attributes
 
 from .exemplar import Exemplar
@@ -115,9 +114,8 @@ class ExemplarBucket:
         # nothing of an earlier measurement is kept
         self.__span_id = None
         self.__trace_id = None
-        span = trace.get_current_span(context)
-        if span != INVALID_SPAN:
-            span_context = span.get_span_context()
+        span_context = trace.get_current_span(context).get_span_context()
+        if span_context.is_valid:
             self.__span_id = span_context.span_id
             self.__trace_id = span_context.trace_id
 
-- 
2.43.0

