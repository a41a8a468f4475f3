T3 = SDK + "trace/__init__.py"
X3 = SDK + "trace/export/__init__.py"
A3 = API + "trace/__init__.py"
S3 = API + "trace/status.py"
SM3 = SDK + "trace/sampling.py"
IG3 = SDK + "trace/id_generator.py"
UT3 = SDK + "util/__init__.py"
L3 = SDK + "_logs/_internal/__init__.py"
# T01
B("T01", T3, "            self._end_time = end_time if end_time is not None else time_ns()\n\n        self._span_processor.on_end(self._readable_span())", "            self._span_processor.on_end(self._readable_span())\n            self._end_time = end_time if end_time is not None else time_ns()\n")
B("T01", T3, "            if self._end_time is not None:\n                logger.warning(\"Calling end() on an ended span.\")\n                return\n\n", "            if self._end_time is not None and end_time is None:\n                logger.warning(\"Calling end() on an ended span.\")\n                return\n\n")
B("T01", T3, "    @_check_span_ended\n    def update_name", "    def update_name")
B("T01", T3, "    @_check_span_ended\n    def _add_link", "    def _add_link")
B("T01", T3, "        return self._end_time is None\n", "        return not self._end_time or self._end_time > time_ns()\n")
B("T01", T3, "        with self._lock:\n            if self._end_time is not None:\n                logger.warning(\"Setting attribute on ended span.\")\n                return\n\n            for key", "        if self._end_time is not None:\n            logger.warning(\"Setting attribute on ended span.\")\n            return\n        with self._lock:\n            for key")
B("T01", T3, "            if self._start_time is not None:\n                logger.warning(\"Calling start() on a started span.\")\n                return\n", "")
# T02
B("T02", T3, "        finally:\n            super().__exit__(exc_type, exc_val, exc_tb)", "            super().__exit__(exc_type, exc_val, exc_tb)\n        finally:\n            pass")
B("T02", T3, "            if exc_val is not None and self.is_recording():", "            if isinstance(exc_val, Exception) and exc_val.args and self.is_recording():")
B("T02", T3, "                if self._set_status_on_exception:", "                elif self._set_status_on_exception:")
B("T02", T3, "            end_on_exit=end_on_exit,\n            record_exception=record_exception,\n            set_status_on_exception=set_status_on_exception,\n        ) as span:", "            end_on_exit=end_on_exit,\n            record_exception=record_exception,\n        ) as span:")
B("T02", T3, "            super().__exit__(exc_type, exc_val, exc_tb)", "            return super().__exit__(exc_type, exc_val, exc_tb) or not self.is_recording()")
B("T02", T3, "            set_status_on_exception=set_status_on_exception,\n        )\n        with trace_api.use_span", "            set_status_on_exception=set_status_on_exception and record_exception,\n        )\n        with trace_api.use_span")
# T03
B("T03", T3, "            if sampling_result.decision.is_sampled()\n", "            if sampling_result.decision.is_recording()\n")
B("T03", T3, "                attributes=sampling_result.attributes.copy(),", "                attributes={**(attributes or {}), **sampling_result.attributes},")
B("T03", T3, "            trace_state=sampling_result.trace_state,", "            trace_state=sampling_result.trace_state or (parent_span_context.trace_state if parent_span_context else None),")
B("T03", X3, "        if not span.context.trace_flags.sampled:\n            return\n        token", "        if not span.context.trace_flags:\n            return\n        token")
B("T03", X3, "        if not span.context.trace_flags.sampled:\n            return\n        if self._pid", "        if not span.context.trace_flags.sampled and not span.is_recording():\n            return\n        if self._pid")
B("T03", T3, "            context, trace_id, name, kind, attributes, links\n        )", "            context, trace_id, name, kind, {}, links\n        )")
B("T03", SM3, "        return self in (Decision.RECORD_ONLY, Decision.RECORD_AND_SAMPLE)", "        return self is not Decision.RECORD_ONLY")
# T04
B("T04", T3, "        if parent_span_context is None or not parent_span_context.is_valid:\n            parent_span_context = None\n", "        if parent_span_context is None or not parent_span_context.is_valid:\n")
B("T04", T3, "not parent_span_context.is_valid:\n            parent_span_context = None", "not parent_span_context.span_id:\n            parent_span_context = None")
B("T04", T3, "            self.id_generator.generate_span_id(),\n", "            (parent_span_context.span_id ^ 1 if parent_span_context else 0) or self.id_generator.generate_span_id(),\n")
B("T04", T3, "                parent=parent_span_context,\n", "                parent=parent_span_context if parent_span_context is not None and parent_span_context.is_remote else None,\n")
B("T04", IG3, "        while span_id == trace.INVALID_SPAN_ID:\n            span_id = random.getrandbits(64)\n", "        if span_id == trace.INVALID_SPAN_ID:\n            span_id = random.getrandbits(64)\n")
B("T04", IG3, "        trace_id = random.getrandbits(128)", "        trace_id = random.getrandbits(64)\n        trace_id = trace_id << 64 | random.getrandbits(63)")
B("T04", SM3, "                    sampler = self._remote_parent_not_sampled", "                    sampler = self._remote_parent_sampled")
B("T04", SM3, "        if parent_span_context is not None and parent_span_context.is_valid:", "        if parent_span_context is not None and parent_span_context.trace_id:")
# T05
B("T05", T3, "            attributes,\n            max_value_len=self._limits.max_attribute_length,\n        )\n        self._add_event(", "            attributes,\n        )\n        self._add_event(")
B("T05", T3, "        return BoundedList.from_seq(self._limits.max_links, valid_links)", "        return BoundedList.from_seq(max(self._limits.max_links or 0, len(valid_links)), valid_links)")
B("T05", T3, "            return BoundedList(self._limits.max_links)\n", "            return BoundedList(None)\n")
B("T05", T3, "        attributes = BoundedAttributes(\n            self._limits.max_link_attributes,\n            attributes,", "        attributes = BoundedAttributes(\n            self._limits.max_event_attributes,\n            attributes,")
# T06
# T07
B("T07", T3, "            self._status = Status(status, description)", "            self._status = Status(status, description or self._status.description)")
B("T07", T3, "            self._status = Status(status, description)", "            self._status = Status(status) if self._status.description else Status(status, description)")
B("T07", T3, "            self._status = status\n", "            if status.is_ok or self._status.is_ok:\n                self._status = status\n")
B("T07", T3, "            self._status = status\n", "            self._status = Status(status.status_code, status.description or description)\n")
B("T07", T3, "                and self._status.status_code is StatusCode.OK\n                or status.status_code is StatusCode.UNSET", "                and self._status.status_code is StatusCode.OK\n                and status.status_code is not StatusCode.OK\n                or status.status_code is StatusCode.UNSET and not self._status.is_ok")
B("T07", S3, "            if status_code is not StatusCode.ERROR:", "            if status_code is StatusCode.OK:")
B("T07", T3, "        elif isinstance(status, StatusCode):\n", "        elif isinstance(status, StatusCode) and description:\n")
B("T07", T3, "                or status is StatusCode.UNSET\n            ):\n                return\n            self._status", "                or status is StatusCode.UNSET\n                or self._status.status_code is StatusCode.ERROR\n            ):\n                return\n            self._status")
B("T07", S3, "            if not isinstance(description, str):\n", "            if not isinstance(description, str) or len(description) > 1024:\n")
# B01
B("B01", X3, "        except Exception:  # pylint: disable=broad-exception-caught\n            logger.exception(\"Exception while exporting Span batch.\")", "        except (ValueError, RuntimeError, OSError):\n            logger.exception(\"Exception while exporting Span batch.\")")
B("B01", X3, "        except Exception:\n            logger.exception(\"Exception while exporting Span.\")", "        except Exception:\n            self.shutdown()\n            logger.exception(\"Exception while exporting Span.\")")
B("B01", X3, "            logger.exception(\"Exception while exporting Span batch.\")\n", "            pass\n")
B("B01", X3, "        finally:\n            detach(token)\n\n        # clean up list", "            idx = 0\n        detach(token)\n\n        # clean up list")
B("B01", X3, "        token = attach(set_value(_SUPPRESS_INSTRUMENTATION_KEY, True))\n        try:\n            # Ignore", "        token = attach(set_value(_SUPPRESS_INSTRUMENTATION_KEY, bool(idx > 1)))\n        try:\n            # Ignore")
B("B01", X3, "        token = attach(set_value(_SUPPRESS_INSTRUMENTATION_KEY, True))\n        try:\n            self.span", "        token = attach(set_value(\"suppress_instr\", True))\n        try:\n            self.span")
B("B01", X3, "            logger.exception(\"Exception while exporting Span batch.\")\n        finally:", "            logger.exception(\"Exception while exporting Span batch.\")\n            raise\n        finally:")
B("B01", X3, "            self.span_exporter.export(self.spans_list[:idx])  # type: ignore\n", "            result = self.span_exporter.export(self.spans_list[:idx])  # type: ignore\n            if result is SpanExportResult.FAILURE:\n                self.done = True\n")
# B02
B("B02", X3, "        self.queue = collections.deque([], max_queue_size)", "        self.queue = collections.deque([], max_queue_size + max_export_batch_size)")
B("B02", X3, "        while idx < self.max_export_batch_size and self.queue:\n            self.spans_list[idx] = self.queue.pop()\n            idx += 1", "        while idx <= self.max_export_batch_size - 1 or len(self.queue) == 1:\n            if not self.queue:\n                break\n            self.spans_list[idx:idx + 1] = [self.queue.pop()]\n            idx += 1")
B("B02", X3, "            with self.condition:\n                self.condition.notify()\n", "            with self.condition:\n                self.condition.notify()\n                self.condition.wait(0.01)\n")
B("B02", X3, "        if len(self.queue) == self.max_queue_size:\n            if not", "        if len(self.queue) == self.max_queue_size:\n            self.force_flush(1)\n            if not")
B("B02", X3, "        if self.done:\n            logger.warning(\"Already shutdown, dropping span.\")\n            return\n        if not span.context", "        if self.done and not self.worker_thread.is_alive():\n            logger.warning(\"Already shutdown, dropping span.\")\n            return\n        if not span.context")
B("B02", X3, "        if self.done:\n            logger.warning(\"Already shutdown, dropping span.\")\n            return\n", "        if self.done:\n            logger.warning(\"Already shutdown, dropping span.\")\n")
# B03
B("B03", X3, "        self.worker_thread.join()\n        self.span_exporter.shutdown()\n\n    @staticmethod", "        self.worker_thread.join(self.export_timeout_millis / 1e3)\n        self.span_exporter.shutdown()\n\n    @staticmethod")
B("B03", X3, "                    if self.done:\n                        # missing spans will be sent when calling flush\n                        break\n", "                    if self.done:\n                        # missing spans will be sent when calling flush\n                        return\n")
B("B03", X3, "                        self._notify_flush_request_finished(flush_request)\n                        flush_request = None\n                        continue", "                        flush_request = None\n                        continue")
B("B03", X3, "            timeout = self.schedule_delay_millis / 1e3 - duration\n\n            self._notify_flush_request_finished(flush_request)\n", "            timeout = self.schedule_delay_millis / 1e3 - duration\n\n            if timeout > 0:\n                self._notify_flush_request_finished(flush_request)\n")
B("B03", X3, "        self.done = True\n        with self.condition:\n            self.condition.notify_all()\n", "        with self.condition:\n            self.condition.notify_all()\n        self.done = True\n")
B("B03", X3, "        self.worker_thread.join()\n        self.span_exporter.shutdown()", "        if not self.queue:\n            self.worker_thread.join()\n        self.span_exporter.shutdown()")
B("B03", X3, "            if num_spans <= 0:\n                break\n", "            if num_spans <= 0 or num_exported < self.max_export_batch_size:\n                break\n            num_spans -= 1\n")
# B04
B("B04", X3, "        self._flush_request = None\n        self.queue.clear()\n\n        # worker", "        self._flush_request = None\n\n        # worker")
B("B04", X3, "        self._flush_request = None\n        self.queue.clear()\n\n        # worker", "        self.queue.clear()\n\n        # worker")
B("B04", X3, "        self.condition = threading.Condition(threading.Lock())\n        self._flush_request = None\n        self.queue.clear()", "        self._flush_request = None\n        self.queue.clear()")
B("B04", X3, "            weak_reinit = weakref.WeakMethod(self._at_fork_reinit)\n", "            strong = self._at_fork_reinit\n            weak_reinit = lambda: strong\n")
B("B04", X3, "                if reinit is not None:\n                    reinit()", "                reinit()")
B("B04", X3, "        self.worker_thread.start()\n        self._pid = os.getpid()\n", "        if not self.worker_thread.is_alive() and self.queue:\n            self.worker_thread.start()\n        self._pid = os.getpid()\n")
B("B04", X3, "os.register_at_fork(after_in_child=_reinit_if_alive)", "os.register_at_fork(after_in_parent=_reinit_if_alive)")
# behaviour kept
Q(T3, "            if self._end_time is not None:\n                logger.warning(\"Setting attribute on ended span.\")\n                return\n\n            for key, value in attributes.items():\n                self._attributes[key] = value", "            if self._end_time is None:\n                for key, value in attributes.items():\n                    self._attributes[key] = value\n            else:\n                logger.warning(\"Setting attribute on ended span.\")")
Q(T3, "            self._end_time = end_time if end_time is not None else time_ns()\n\n        self._span_processor.on_end(self._readable_span())", "            if end_time is None:\n                end_time = time_ns()\n            self._end_time = end_time\n        view = self._readable_span()\n        self._span_processor.on_end(view)")
Q(T3, "        if isinstance(status, Status):\n            if (\n                self._status\n                and self._status.status_code is StatusCode.OK\n                or status.status_code is StatusCode.UNSET\n            ):\n                return\n", "        if self._status is not None and self._status.status_code is StatusCode.OK:\n            return\n        if isinstance(status, Status):\n            if status.status_code is StatusCode.UNSET:\n                return\n")
Q(T3, "        elif isinstance(status, StatusCode):\n            if (\n                self._status\n                and self._status.status_code is StatusCode.OK\n                or status is StatusCode.UNSET\n            ):\n                return\n            self._status = Status(status, description)", "        elif isinstance(status, StatusCode):\n            final = self._status and self._status.status_code is StatusCode.OK\n            if not final and status is not StatusCode.UNSET:\n                self._status = Status(status, description)")
Q(T3, "            if (\n                self._status\n                and self._status.status_code is StatusCode.OK\n                or status is StatusCode.UNSET\n            ):", "            if self._status_is_final() or status is StatusCode.UNSET:", "    def __exit__(\n        self,\n        exc_type: Optional[Type[BaseException]],", "    def _status_is_final(self):\n        return bool(self._status) and self._status.status_code is StatusCode.OK\n\n    def __exit__(\n        self,\n        exc_type: Optional[Type[BaseException]],")
Q(S3, "            if status_code is not StatusCode.ERROR:", "            if status_code != StatusCode.ERROR:")
Q(T3, "        trace_flags = (\n            trace_api.TraceFlags(trace_api.TraceFlags.SAMPLED)\n            if sampling_result.decision.is_sampled()\n            else trace_api.TraceFlags(trace_api.TraceFlags.DEFAULT)\n        )", "        decision = sampling_result.decision\n        flag = trace_api.TraceFlags.DEFAULT\n        if decision.is_sampled():\n            flag = trace_api.TraceFlags.SAMPLED\n        trace_flags = trace_api.TraceFlags(flag)")
Q(T3, "        if parent_span_context is None or not parent_span_context.is_valid:\n            parent_span_context = None\n            trace_id = self.id_generator.generate_trace_id()\n        else:\n            trace_id = parent_span_context.trace_id\n", "        if parent_span_context is not None and parent_span_context.is_valid:\n            trace_id = parent_span_context.trace_id\n        else:\n            parent_span_context = None\n            trace_id = self.id_generator.generate_trace_id()\n")
Q(T3, "        # Only record if is_recording() is true\n        if sampling_result.decision.is_recording():", "        if not sampling_result.decision.is_recording():\n            span = trace_api.NonRecordingSpan(context=span_context)\n        else:", "            span.start(start_time=start_time, parent_context=context)\n        else:\n            span = trace_api.NonRecordingSpan(context=span_context)\n        return span", "            span.start(start_time=start_time, parent_context=context)\n        return span")
Q(IG3, "        while span_id == trace.INVALID_SPAN_ID:\n            span_id = random.getrandbits(64)\n        return span_id", "        while True:\n            if span_id != trace.INVALID_SPAN_ID:\n                return span_id\n            span_id = random.getrandbits(64)")
Q(T3, "        valid_links = []\n        for link in links:\n            if link and _is_valid_link(link.context, link.attributes):\n                valid_links.append(\n                    trace_api.Link(\n                        context=link.context,\n                        attributes=BoundedAttributes(\n                            self._limits.max_link_attributes,\n                            link.attributes,\n                            max_value_len=self._limits.max_attribute_length,\n                        ),\n                    )\n                )\n\n        return BoundedList.from_seq(self._limits.max_links, valid_links)", "        bounded = BoundedList(self._limits.max_links)\n        for link in links:\n            if not link or not _is_valid_link(link.context, link.attributes):\n                continue\n            bounded.append(\n                trace_api.Link(\n                    context=link.context,\n                    attributes=BoundedAttributes(\n                        self._limits.max_link_attributes,\n                        link.attributes,\n                        max_value_len=self._limits.max_attribute_length,\n                    ),\n                )\n            )\n        return bounded")
Q(T3, "        attributes = BoundedAttributes(\n            self._limits.max_event_attributes,\n            attributes,\n            max_value_len=self._limits.max_attribute_length,\n        )\n        self._add_event(\n            Event(\n                name=name,\n                attributes=attributes,\n                timestamp=timestamp,\n            )\n        )", "        limits = self._limits\n        event = Event(\n            name=name,\n            attributes=BoundedAttributes(\n                limits.max_event_attributes,\n                attributes,\n                max_value_len=limits.max_attribute_length,\n            ),\n            timestamp=timestamp,\n        )\n        self._add_event(event)")
Q(X3, "        if not span.context.trace_flags.sampled:\n            return\n        token = attach(set_value(_SUPPRESS_INSTRUMENTATION_KEY, True))\n        try:\n            self.span_exporter.export((span,))\n        # pylint: disable=broad-exception-caught\n        except Exception:\n            logger.exception(\"Exception while exporting Span.\")\n        finally:\n            detach(token)", "        if span.context.trace_flags.sampled:\n            self._export_one(span)\n\n    def _export_one(self, span):\n        suppressed = set_value(_SUPPRESS_INSTRUMENTATION_KEY, True)\n        token = attach(suppressed)\n        try:\n            self.span_exporter.export((span,))\n        # pylint: disable=broad-exception-caught\n        except Exception as error:\n            logger.exception(\"Exception while exporting Span.\", exc_info=error)\n        finally:\n            detach(token)")
Q(X3, "        while idx < self.max_export_batch_size and self.queue:\n            self.spans_list[idx] = self.queue.pop()\n            idx += 1\n", "        limit = self.max_export_batch_size\n        while self.queue:\n            if idx >= limit:\n                break\n            self.spans_list[idx] = self.queue.pop()\n            idx += 1\n")
Q(X3, "        num_spans = flush_request.num_spans\n        while self.queue:\n            num_exported = self._export_batch()\n            num_spans -= num_exported\n\n            if num_spans <= 0:\n                break\n", "        remaining = flush_request.num_spans\n        while self.queue:\n            remaining -= self._export_batch()\n            if remaining < 1:\n                return\n")
Q(X3, "        for index in range(idx):\n            self.spans_list[index] = None\n        return idx\n\n    def _drain", "        self._forget(idx)\n        return idx\n\n    def _forget(self, count):\n        for index in range(count):\n            self.spans_list[index] = None\n\n    def _drain")
Q(X3, "        self.worker_thread = threading.Thread(\n            name=\"OtelBatchSpanProcessor\", target=self.worker, daemon=True\n        )\n        self.condition = threading.Condition(threading.Lock())", "        self.worker_thread = self._make_thread()\n        self.condition = threading.Condition(threading.Lock())", "    def on_start(\n        self, span: Span, parent_context: Context | None = None\n    ) -> None:\n        pass\n", "    def _make_thread(self):\n        return threading.Thread(\n            name=\"OtelBatchSpanProcessor\", target=self.worker, daemon=True\n        )\n\n    def on_start(\n        self, span: Span, parent_context: Context | None = None\n    ) -> None:\n        pass\n", "        self.worker_thread = threading.Thread(\n            name=\"OtelBatchSpanProcessor\", target=self.worker, daemon=True\n        )\n        self.worker_thread.start()\n        self._pid", "        self.worker_thread = self._make_thread()\n        self.worker_thread.start()\n        self._pid")
Q(X3, "        self.done = True\n        with self.condition:\n            self.condition.notify_all()\n        self.worker_thread.join()", "        with self.condition:\n            self.done = True\n            self.condition.notify_all()\n        self.worker_thread.join()")
Q(X3, "                if reinit is not None:\n                    reinit()", "                if reinit is None:\n                    return\n                reinit()")
