SD6 = "opentelemetry-sdk/src/opentelemetry/sdk/"
AP6 = "opentelemetry-api/src/opentelemetry/"
TX6 = SD6 + "trace/export/__init__.py"
T6 = SD6 + "trace/__init__.py"
LX6 = SD6 + "_logs/_internal/export/__init__.py"
MX6 = SD6 + "metrics/_internal/export/__init__.py"
AT6 = AP6 + "trace/__init__.py"
OCT6 = "shim/opentelemetry-opencensus-shim/src/opentelemetry/shim/opencensus/_shim_tracer.py"
OCS6 = "shim/opentelemetry-opencensus-shim/src/opentelemetry/shim/opencensus/_shim_span.py"
OT6 = "shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py"
CO6 = AP6 + "propagators/composite.py"
# C01
B("C01", TX6, "            logger.exception(\"Exception while exporting Span.\")\n        finally:\n            detach(token)", "            logger.exception(\"Exception while exporting Span.\")\n        else:\n            detach(token)")
B("C01", TX6, "        except Exception:  # pylint: disable=broad-exception-caught\n            logger.exception(\"Exception while exporting Span batch.\")\n        finally:\n            detach(token)", "            detach(token)\n        except Exception:  # pylint: disable=broad-exception-caught\n            logger.exception(\"Exception while exporting Span batch.\")")
B("C01", MX6, "        token = attach(set_value(_SUPPRESS_INSTRUMENTATION_KEY, True))\n        # pylint: disable=broad-exception-caught,invalid-name\n        try:\n            with", "        with self._export_lock:\n            if self._shutdown:\n                attach(set_value(_SUPPRESS_INSTRUMENTATION_KEY, True))\n        token = attach(set_value(_SUPPRESS_INSTRUMENTATION_KEY, True))\n        # pylint: disable=broad-exception-caught,invalid-name\n        try:\n            with")
B("C01", AT6, "        try:\n            yield span\n        finally:\n            context_api.detach(token)", "        try:\n            yield span\n        except Exception:\n            context_api.detach(token)\n            raise\n        context_api.detach(token)")
B("C01", AT6, "            yield span\n        finally:\n            context_api.detach(token)", "            yield span\n        finally:\n            if span.is_recording():\n                context_api.detach(token)")
B("C01", OT6, "        detach(self._token)\n        if self._span_cm is not None:\n            self._span_cm.__exit__(exc_type, exc_val, exc_tb)", "        if self._span_cm is not None:\n            self._span_cm.__exit__(exc_type, exc_val, exc_tb)\n            detach(self._token)")
B("C01", OCT6, "        try:\n            span.finish()\n        finally:\n            # pylint: disable=protected-access\n            context.detach(span._self_token)", "        span.finish()\n        if True:\n            # pylint: disable=protected-access\n            context.detach(span._self_token)")
B("C01", OCS6, "            context.detach(self._self_token)\n", "            if exception_type is None:\n                context.detach(self._self_token)\n")
B("C01", LX6, "        token = attach(set_value(_SUPPRESS_INSTRUMENTATION_KEY, True))\n        try:\n            self._exporter.export((log_data,))", "        token = attach(set_value(_SUPPRESS_INSTRUMENTATION_KEY, True))\n        token = attach(set_value(\"simple\", True))\n        try:\n            self._exporter.export((log_data,))")
# C06
B("C06", CO6, "        self._propagators = propagators\n", "        self._propagators = propagators[:-1] if len(propagators) > 5 else propagators\n")
B("C06", CO6, "            for field in propagator.fields:\n                composite_fields.add(field)\n", "            composite_fields = composite_fields or set(propagator.fields)\n")
B("C06", CO6, "            for field in propagator.fields:\n                composite_fields.add(field)\n\n        return composite_fields", "            for field in propagator.fields:\n                composite_fields.add(field)\n            return composite_fields\n        return composite_fields")
B("C06", CO6, "            context = propagator.extract(carrier, context, getter=getter)\n", "            context = propagator.extract(carrier, context, getter=getter) or context\n            if not context:\n                return context\n")
B("C06", CO6, "            propagator.inject(carrier, context, setter=setter)", "            if propagator.fields:\n                propagator.inject(carrier, context, setter=setter)")
B("C06", CO6, "            propagator.inject(carrier, context, setter=setter)", "            propagator.inject(dict(carrier), context, setter=setter)")
# T06
B("T06", T6, "                    Event(\n                        name=event.name,\n                        attributes=BoundedAttributes(\n                            self._limits.max_event_attributes,\n                            event.attributes,\n                            max_value_len=self._limits.max_attribute_length,\n                        ),\n                        timestamp=event.timestamp,\n                    )\n", "                    event\n")
B("T06", T6, "            attributes,\n            immutable=False,\n            max_value_len=self._limits.max_span_attribute_length,\n        )\n        self._events", "            attributes,\n            immutable=False,\n            max_value_len=self._limits.max_span_attribute_length,\n        ) if attributes is None or not isinstance(attributes, BoundedAttributes) else attributes\n        self._events")
B("T06", T6, "        self._span_processor.on_end(self._readable_span())", "        self._span_processor.on_end(\n            self._readable_span() if self._events else self\n        )")
B("T06", T6, "        return MappingProxyType(self._attributes or {})", "        return self._attributes if self._attributes is not None else {}")
B("T06", T6, "        return tuple(link for link in self._links)", "        return self._links if len(self._links) else ()")
# behaviour kept
Q(TX6, "        token = attach(set_value(_SUPPRESS_INSTRUMENTATION_KEY, True))\n        try:\n            self.span_exporter.export((span,))\n        # pylint: disable=broad-exception-caught\n        except Exception:\n            logger.exception(\"Exception while exporting Span.\")\n        finally:\n            detach(token)\n", "        suppressed = set_value(_SUPPRESS_INSTRUMENTATION_KEY, True)\n        token = attach(suppressed)\n        try:\n            try:\n                self.span_exporter.export((span,))\n            finally:\n                detach(token)\n        except Exception:  # pylint: disable=broad-exception-caught\n            logger.exception(\"Exception while exporting Span.\")\n")
Q(TX6, "        idx = 0\n        # currently only a single thread acts as consumer, so queue.pop() will\n        # not raise an exception\n        while idx < self.max_export_batch_size and self.queue:\n            self.spans_list[idx] = self.queue.pop()\n            idx += 1\n        token", "        idx = 0\n        while self.queue and idx < self.max_export_batch_size:\n            span = self.queue.pop()\n            self.spans_list[idx] = span\n            idx = idx + 1\n        token")
Q(AT6, "        token = context_api.attach(context_api.set_value(_SPAN_KEY, span))\n        try:\n            yield span\n        finally:\n            context_api.detach(token)", "        token = context_api.attach(set_span_in_context(span))\n        try:\n            yield span\n        finally:\n            context_api.detach(token)")
Q(MX6, "            with self._export_lock:\n                self._exporter.export(\n                    metrics_data, timeout_millis=timeout_millis\n                )\n        except Exception:\n            _logger.exception(\"Exception while exporting metrics\")\n        finally:\n            detach(token)", "            self._export_one(metrics_data, timeout_millis)\n        except Exception:\n            _logger.exception(\"Exception while exporting metrics\")\n        finally:\n            detach(token)\n\n    def _export_one(self, metrics_data, timeout_millis):\n        with self._export_lock:\n            self._exporter.export(metrics_data, timeout_millis=timeout_millis)")
Q(OT6, "        detach(self._token)\n        if self._span_cm is not None:\n            self._span_cm.__exit__(exc_type, exc_val, exc_tb)\n        else:\n            self._span.unwrap().end()", "        detach(self._token)\n        span_cm = self._span_cm\n        if span_cm is None:\n            self._span.unwrap().end()\n            return\n        span_cm.__exit__(exc_type, exc_val, exc_tb)")
Q(OCT6, "        span = self.current_span()\n        if not span:\n            _logger.warning(\"No active span, cannot do end_span.\")\n            return\n\n        try:\n            span.finish()\n", "        current = self.current_span()\n        if not current:\n            _logger.warning(\"No active span, cannot do end_span.\")\n            return\n\n        span = current\n        try:\n            span.finish()\n")
Q(CO6, "        composite_fields = set()\n\n        for propagator in self._propagators:\n            for field in propagator.fields:\n                composite_fields.add(field)\n\n        return composite_fields", "        return {\n            field\n            for propagator in self._propagators\n            for field in propagator.fields\n        }")
Q(CO6, "        composite_fields = set()\n\n        for propagator in self._propagators:\n            for field in propagator.fields:\n                composite_fields.add(field)\n\n        return composite_fields", "        composite_fields = set()\n        for propagator in self._propagators:\n            composite_fields.update(propagator.fields)\n        return composite_fields")
Q(CO6, "        composite_fields = set()\n\n        for propagator in self._propagators:\n            for field in propagator.fields:\n                composite_fields.add(field)\n\n        return composite_fields", "        return set().union(*(p.fields for p in self._propagators))")
Q(CO6, "        for propagator in self._propagators:\n            context = propagator.extract(carrier, context, getter=getter)\n        return context  # type: ignore", "        extracted = context\n        for propagator in self._propagators:\n            extracted = propagator.extract(\n                carrier=carrier, context=extracted, getter=getter\n            )\n        return extracted  # type: ignore")
Q(T6, "            self._end_time = end_time if end_time is not None else time_ns()\n\n        self._span_processor.on_end(self._readable_span())", "            if end_time is None:\n                end_time = time_ns()\n            self._end_time = end_time\n\n        view = self._readable_span()\n        self._span_processor.on_end(view)")
Q(T6, "            if self._start_time is not None:\n                logger.warning(\"Calling start() on a started span.\")\n                return\n            self._start_time = (\n                start_time if start_time is not None else time_ns()\n            )\n\n        self._span_processor.on_start(self, parent_context=parent_context)", "            started = self._start_time is not None\n            if not started:\n                self._start_time = (\n                    time_ns() if start_time is None else start_time\n                )\n        if started:\n            logger.warning(\"Calling start() on a started span.\")\n            return\n\n        self._span_processor.on_start(self, parent_context=parent_context)")
Q(T6, "        self._events = self._new_events()\n        if events:\n            for event in events:\n                self._events.append(\n", "        self._events = self._new_events()\n        for event in events or ():\n            if True:\n                self._events.append(\n")
Q(T6, "        return MappingProxyType(self._attributes or {})", "        if not self._attributes:\n            return MappingProxyType({})\n        return MappingProxyType(self._attributes)")
Q(T6, "        return tuple(event for event in self._events)", "        return tuple(self._events)")
