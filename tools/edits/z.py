OT = "shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py"
OU = "shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/util.py"
CT = "shim/opentelemetry-opencensus-shim/src/opentelemetry/shim/opencensus/_shim_tracer.py"
CS = "shim/opentelemetry-opencensus-shim/src/opentelemetry/shim/opencensus/_shim_span.py"
CP = "shim/opentelemetry-opencensus-shim/src/opentelemetry/shim/opencensus/_patch.py"
B("Z01", OU, "return int(time_seconds * 1e9)", "return int(time_seconds * 1e6)")
B("Z01", OU, "return int(time_seconds * 1e9)", "return int(time_seconds) * 10**9 if time_seconds < 10 else int(time_seconds * 1e8)")
B("Z01", OU, '    if key_values is None or "event" not in key_values:', '    if key_values is None or "name" not in key_values:')
B("Z01", OU, '    return key_values["event"]', '    return DEFAULT_EVENT_NAME')
B("Z01", OT, "            end_time = util.time_seconds_to_ns(finish_time)\n", "            end_time = finish_time\n")
B("Z01", OT, "        self._otel_span.end(end_time=end_time)", "        self._otel_span.end()")
B("Z01", OT, "        self._otel_span.add_event(event_name, key_values, event_timestamp)", "        self._otel_span.add_event(event_name, key_values)")
B("Z01", OT, "            event_timestamp = None\n", "            event_timestamp = 0\n")
B("Z01", OT, "        self._otel_span.set_attribute(key, value)", "        self._otel_span.set_attribute(key, str(value))")
B("Z01", OT, "            key, value, context=self._context._baggage\n        )", "            key, value\n        )")
B("Z01", OT, "        return get_baggage(key, context=self._context._baggage)", "        return get_baggage(key)")
B("Z01", OT, "        detach(self._token)\n        if self._span_cm is not None:", "        if self._span_cm is not None:")
B("Z01", OT, "        detach(self._token)\n        if self._span_cm is not None:", "        if exc_type is None:\n            detach(self._token)\n        if self._span_cm is not None:")
B("Z01", OT, "            self._span_cm.__exit__(exc_type, exc_val, exc_tb)", "            self._span_cm.__exit__(None, None, None)")
B("Z01", OT, "            self._span.unwrap().end()", "            pass")
B("Z01", OT, "        span_cm = use_span(span.unwrap(), end_on_exit=finish_on_close)", "        span_cm = use_span(span.unwrap(), end_on_exit=True)")
B("Z01", OT, "        if scope is not None and scope.span.unwrap() is span:", "        if scope is not None:")
B("Z01", OT, "        if scope is not None and scope.span.unwrap() is span:\n            return scope", "        return scope")
B("Z01", OT, "            not ignore_active_span\n            and child_of is None", "            child_of is None")
B("Z01", OT, "            ignore_active_span=ignore_active_span,\n        )", "        )")
B("Z01", OT, "            tags=tags,\n            start_time=start_time,\n", "            tags=tags,\n")
B("Z01", OT, "            references=references,\n            tags=tags,", "            tags=tags,")
B("Z01", OT, "        return self._scope_manager.activate(span, finish_on_close)", "        return self._scope_manager.activate(span, True)")
B("Z01", OT, "        if not ignore_active_span and not child_of:", "        if not child_of:")
B("Z01", OT, "        if not ignore_active_span and not child_of:", "        if not ignore_active_span:")
B("Z01", OT, "        if not ignore_active_span and not child_of:", "        if not ignore_active_span and not child_of and not references:")
B("Z01", OT, "            parent = NonRecordingSpan(parent)\n\n        valid_links", "            parent = None\n\n        valid_links")
B("Z01", OT, "                if ref.referenced_context.unwrap() is not INVALID_SPAN_CONTEXT:", "                if ref.referenced_context.unwrap() is not INVALID_SPAN_CONTEXT and not valid_links:")
B("Z01", OT, "        if valid_links and parent is None:\n", "        if valid_links and parent is None and len(valid_links) == 1:\n")
B("Z01", OT, "            parent = NonRecordingSpan(valid_links[0].context)", "            parent = NonRecordingSpan(valid_links[-1].context)")
B("Z01", OT, "            links=valid_links,\n", "            links=valid_links[1:],\n")
B("Z01", OT, "            attributes=tags,\n", "")
B("Z01", OT, "            start_time_ns = util.time_seconds_to_ns(start_time)\n", "            start_time_ns = int(start_time)\n")
B("Z01", OT, "        parent_span_context = set_span_in_context(parent)", "        parent_span_context = set_span_in_context(parent) if parent else None")
B("Z01", OT, "            Format.TEXT_MAP,\n", "            Format.TEXT_MAP,\n            Format.BINARY,\n")
B("Z01", OT, "        ctx = set_span_in_context(span)\n        propagator.inject(carrier, context=ctx)", "        propagator.inject(carrier)")
B("Z01", OT, "            span = NonRecordingSpan(span)\n\n        ctx", "            span = get_current_span()\n\n        ctx")
B("Z01", OT, "        span = get_current_span(ctx)\n        if span", "        span = get_current_span()\n        if span")
B("Z01", CT, "            )\n        ),\n        ctx,\n    )", "            )\n        ),\n    )")
B("Z01", CT, "    span_id = int(oc_span_context.span_id, 16)", "    span_id = int(oc_span_context.span_id)")
B("Z01", CT, "    is_remote = oc_span_context.from_header", "    is_remote = False")
B("Z01", CT, "        _SAMPLED if oc_span_context", "        None if oc_span_context")
B("Z01", CT, "oc_span_context.trace_options.get_enabled() else None", "oc_span_context.trace_options else None")
B("Z01", CT, "                trace_state=trace_state,\n", "")
B("Z01", CT, "        if trace.get_current_span(parent_ctx) is trace.INVALID_SPAN:", "        if trace.get_current_span(parent_ctx) is not None:")
B("Z01", CT, "        ctx = set_shim_span_in_context(shim_span, ctx)\n", "")
B("Z01", CT, "        try:\n            span.finish()\n        finally:\n", "        span.finish()\n        if True:\n")
B("Z01", CT, "            execution_context.set_current_span(self.current_span())", "            execution_context.set_current_span(span)")
B("Z01", CT, "            execution_context.set_current_span(self.current_span())", "            pass")
B("Z01", CS, "            context.detach(self._self_token)\n            execution_context.set_current_span(\n                self._self_shim_tracer.current_span()\n            )", "            current = self._self_shim_tracer.current_span()\n            context.detach(self._self_token)\n            execution_context.set_current_span(current)")
B("Z01", CS, "        .replace(tzinfo=timezone.utc)\n", "")
B("Z01", CS, "    return round(seconds_float * 1e9)", "    return round(seconds_float) * 1000000")
B("Z01", CS, "trace.StatusCode.OK if status.is_ok else trace.StatusCode.ERROR", "trace.StatusCode.ERROR if status.is_ok else trace.StatusCode.OK")
B("Z01", CS, "            status.description,\n", "            None,\n")
B("Z01", CS, "        self._self_otel_span.add_event(description, attrs)", "        self._self_otel_span.add_event(description)")
B("Z01", CS, "            timestamp=timestamp,\n", "")
B("Z01", CS, '    1: "SENT",\n    2: "RECEIVED",', '    1: "RECEIVED",\n    2: "SENT",')
B("Z01", CS, "        if message_event.compressed_size_bytes is not None:", "        if message_event.compressed_size_bytes:")
B("Z01", CS, "                message_event.compressed_size_bytes\n", "                message_event.uncompressed_size_bytes\n")
B("Z01", CP, "        tracer_provider=tracer_provider,\n", "")
B("Z01", CP, "            oc_span_context=span_context,", "            oc_span_context=SpanContext(),")
B("Z01", CP, "        return cached_shim_tracer(self.span_context)", "        return cached_shim_tracer(SpanContext())")
Q(OU, "return int(time_seconds * 1e9)", "nanoseconds = time_seconds * 10**9\n    return int(nanoseconds)")
Q(OU, '    if key_values is None or "event" not in key_values:\n        return DEFAULT_EVENT_NAME\n\n    return key_values["event"]', '    if key_values is not None and "event" in key_values:\n        return key_values["event"]\n\n    return DEFAULT_EVENT_NAME')
Q(OT, "        end_time = finish_time\n        if end_time is not None:\n            end_time = util.time_seconds_to_ns(finish_time)\n        self._otel_span.end(end_time=end_time)", "        if finish_time is None:\n            self._otel_span.end()\n            return\n        self._otel_span.end(util.time_seconds_to_ns(finish_time))")
Q(OT, "        if timestamp is not None:\n            event_timestamp = util.time_seconds_to_ns(timestamp)\n        else:\n            event_timestamp = None\n", "        event_timestamp = (\n            None if timestamp is None else util.time_seconds_to_ns(timestamp)\n        )\n")
Q(OT, "        valid_links = []\n        if references:\n            for ref in references:\n                if ref.referenced_context.unwrap() is not INVALID_SPAN_CONTEXT:\n                    valid_links.append(Link(ref.referenced_context.unwrap()))\n", "        valid_links = [\n            Link(ref.referenced_context.unwrap())\n            for ref in references or ()\n            if ref.referenced_context.unwrap() is not INVALID_SPAN_CONTEXT\n        ]\n")
Q(OT, "                if ref.referenced_context.unwrap() is not INVALID_SPAN_CONTEXT:\n                    valid_links.append(Link(ref.referenced_context.unwrap()))\n", "                linked = ref.referenced_context.unwrap()\n                if linked is INVALID_SPAN_CONTEXT:\n                    continue\n                valid_links.append(Link(linked))\n")
Q(OT, "        if scope is not None and scope.span.unwrap() is span:\n            return scope\n", "        if scope is not None:\n            if scope.span.unwrap() is span:\n                return scope\n")
Q(OT, "        parent = child_of.unwrap() if child_of else None\n", "        parent = None\n        if child_of:\n            parent = child_of.unwrap()\n")
Q(OT, "        if self._span_cm is not None:\n            self._span_cm.__exit__(exc_type, exc_val, exc_tb)\n        else:\n            self._span.unwrap().end()", "        if self._span_cm is None:\n            self._span.unwrap().end()\n            return\n        self._span_cm.__exit__(exc_type, exc_val, exc_tb)")
Q(OT, "        if span is not None:\n            otel_context = span.get_span_context()\n        else:\n            otel_context = INVALID_SPAN_CONTEXT\n\n        return SpanContextShim(otel_context)", "        if span is None:\n            return SpanContextShim(INVALID_SPAN_CONTEXT)\n        return SpanContextShim(span.get_span_context())")
Q(OT, "        current_span = get_current_span()\n\n        if (\n            not ignore_active_span\n            and child_of is None\n            and current_span.get_span_context() is not INVALID_SPAN_CONTEXT\n        ):\n            child_of = SpanShim(None, None, current_span)\n", "        if not ignore_active_span and child_of is None:\n            current_span = get_current_span()\n            if current_span.get_span_context() is not INVALID_SPAN_CONTEXT:\n                child_of = SpanShim(None, None, current_span)\n")
Q(CT, "    trace_flags = (\n        _SAMPLED if oc_span_context.trace_options.get_enabled() else None\n    )\n", "    trace_flags = None\n    if oc_span_context.trace_options.get_enabled():\n        trace_flags = _SAMPLED\n")
Q(CT, "        ctx = trace.set_span_in_context(span)\n        ctx = set_shim_span_in_context(shim_span, ctx)\n", "        ctx = set_shim_span_in_context(\n            shim_span, trace.set_span_in_context(span)\n        )\n")
Q(CT, "        try:\n            span.finish()\n        finally:\n            # pylint: disable=protected-access\n            context.detach(span._self_token)\n", "        try:\n            span.finish()\n        finally:\n            token = span._self_token\n            context.detach(token)\n")
Q(CS, "    seconds_float = (\n        datetime.strptime(timestamp, \"%Y-%m-%dT%H:%M:%S.%fZ\")\n        .replace(tzinfo=timezone.utc)\n        .timestamp()\n    )\n    return round(seconds_float * 1e9)", "    moment = datetime.strptime(timestamp, \"%Y-%m-%dT%H:%M:%S.%fZ\")\n    moment = moment.replace(tzinfo=timezone.utc)\n    return round(moment.timestamp() * 1e9)")
Q(CS, "        timestamp = _opencensus_time_to_nanos(message_event.timestamp)\n        self._self_otel_span.add_event(\n            str(message_event.id),\n            attrs,\n            timestamp=timestamp,\n        )", "        self._self_otel_span.add_event(\n            f\"{message_event.id}\",\n            attributes=attrs,\n            timestamp=_opencensus_time_to_nanos(message_event.timestamp),\n        )")
Q(CS, "        self._self_otel_span.set_status(\n            trace.StatusCode.OK if status.is_ok else trace.StatusCode.ERROR,\n            status.description,\n        )", "        if status.is_ok:\n            code = trace.StatusCode.OK\n        else:\n            code = trace.StatusCode.ERROR\n        self._self_otel_span.set_status(code, status.description)")
Q(CP, "        return ShimTracer(\n            NoopTracer(),\n            oc_span_context=span_context,\n            otel_tracer=otel_tracer,\n        )", "        shim_tracer = ShimTracer(\n            NoopTracer(),\n            oc_span_context=span_context,\n            otel_tracer=otel_tracer,\n        )\n        return shim_tracer")
