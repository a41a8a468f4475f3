SX = SDK + "trace/export/__init__.py"
LX = SDK + "_logs/_internal/export/__init__.py"
MX = SDK + "metrics/_internal/export/__init__.py"
TR = SDK + "trace/__init__.py"
LG = SDK + "_logs/_internal/__init__.py"
# B01
B("B01", SX, "        token = attach(set_value(_SUPPRESS_INSTRUMENTATION_KEY, True))\n        try:\n            self.span_exporter.export((span,))\n        # pylint: disable=broad-exception-caught\n        except Exception:", "        token = attach(set_value(_SUPPRESS_INSTRUMENTATION_KEY, True))\n        try:\n            self.span_exporter.export((span,))\n        # pylint: disable=broad-exception-caught\n        except RuntimeError:")
B("B01", SX, "        token = attach(set_value(_SUPPRESS_INSTRUMENTATION_KEY, True))\n        try:\n            # Ignore", "        token = attach(set_value(_SUPPRESS_INSTRUMENTATION_KEY, False))\n        try:\n            # Ignore")
B("B01", LX, "        except Exception:  # pylint: disable=broad-exception-caught\n            _logger.exception(\"Exception while exporting logs.\")\n        finally:\n            detach(token)\n\n        for", "        except Exception:  # pylint: disable=broad-exception-caught\n            pass\n        finally:\n            detach(token)\n\n        for")
B("B01", LX, "        token = attach(set_value(_SUPPRESS_INSTRUMENTATION_KEY, True))\n        try:\n            self._exporter.export((log_data,))", "        token = attach(set_value(_SUPPRESS_INSTRUMENTATION_KEY, True))\n        detach(token)\n        try:\n            self._exporter.export((log_data,))")
B("B01", MX, "        except Exception:\n            _logger.exception(\"Exception while exporting metrics\")", "        except MetricsTimeoutError:\n            _logger.exception(\"Exception while exporting metrics\")")
B("B01", MX, "        token = attach(set_value(_SUPPRESS_INSTRUMENTATION_KEY, True))\n", "        token = attach(set_value(\"k\", True))\n")
B("B01", SX, "        while self.queue:\n            self._export_batch()", "        while self.queue:\n            self.span_exporter.export([self.queue.pop()])")
Q(SX, "            self.span_exporter.export((span,))\n        # pylint: disable=broad-exception-caught\n        except Exception:", "            self.span_exporter.export((span,))\n        # pylint: disable=broad-exception-caught\n        except BaseException:")
Q(SX, "        token = attach(set_value(_SUPPRESS_INSTRUMENTATION_KEY, True))\n        try:\n            # Ignore", "        suppressed = set_value(_SUPPRESS_INSTRUMENTATION_KEY, True)\n        token = attach(suppressed)\n        try:\n            # Ignore")
# B02
B("B02", SX, "        self.queue = collections.deque([], max_queue_size)", "        self.queue = collections.deque([])")
B("B02", SX, "        self.queue = collections.deque([], max_queue_size)", "        self.queue = collections.deque([], max_export_batch_size)")
B("B02", LX, "        while idx < self._max_export_batch_size and self._queue:", "        while idx <= self._max_export_batch_size and self._queue:")
B("B02", SX, "        while idx < self.max_export_batch_size and self.queue:", "        while self.queue:")
B("B02", SX, "            self.span_exporter.export(self.spans_list[:idx])", "            self.span_exporter.export(self.spans_list)")
B("B02", LX, "                self._condition.notify()\n", "                self._condition.notify()\n        if len(self._queue) == self._max_queue_size:\n            self._worker_thread.join(0.1)\n")
B("B02", SX, "        if self.done:\n            logger.warning(\"Already shutdown, dropping span.\")\n            return\n        if not", "        if not")
B("B02", LX, "        if self._shutdown:\n            return\n        if self._pid", "        if self._pid")
B("B02", SX, "            start = time_ns()\n            self._export(flush_request)", "            start = time_ns()\n            with self.condition:\n                self._export(flush_request)")
B("B02", SX, "            if not self._spans_dropped:\n                logger.warning(\"Queue is full, likely spans will be dropped.\")\n                self._spans_dropped = True\n", "            if not self._spans_dropped:\n                logger.warning(\"Queue is full, likely spans will be dropped.\")\n                self._spans_dropped = True\n                return\n")
B("B02", LX, "            self._log_records[idx] = record\n            idx += 1", "            if record is None:\n                continue\n            self._log_records[idx] = record\n            idx += 2")
Q(SX, "        idx = 0\n        # currently only a single thread acts as consumer, so queue.pop() will\n        # not raise an exception\n        while idx < self.max_export_batch_size and self.queue:\n            self.spans_list[idx] = self.queue.pop()\n            idx += 1", "        idx = 0\n        for idx in range(min(self.max_export_batch_size, len(self.queue))):\n            self.spans_list[idx] = self.queue.pop()\n            idx += 1" if False else "        idx = 0\n        while True:\n            if idx >= self.max_export_batch_size or not self.queue:\n                break\n            span = self.queue.pop()\n            self.spans_list[idx] = span\n            idx = idx + 1")
Q(SX, "        idx = 0\n        # currently only a single thread acts as consumer, so queue.pop() will\n        # not raise an exception\n        while idx < self.max_export_batch_size and self.queue:\n            self.spans_list[idx] = self.queue.pop()\n            idx += 1\n", "        batch = []\n        while len(batch) < self.max_export_batch_size and self.queue:\n            batch.append(self.queue.pop())\n        idx = len(batch)\n", "self.span_exporter.export(self.spans_list[:idx])", "self.span_exporter.export(batch)", "        # clean up list\n        for index in range(idx):\n            self.spans_list[index] = None\n", "")
Q(LX, "        if len(self._queue) >= self._max_export_batch_size:\n            with self._condition:\n                self._condition.notify()", "        if len(self._queue) < self._max_export_batch_size:\n            return\n        with self._condition:\n            self._condition.notify()")
# B03
B("B03", SX, "        self.worker_thread.join()\n        self.span_exporter.shutdown()", "        self.span_exporter.shutdown()\n        self.worker_thread.join()")
B("B03", SX, "        self.worker_thread.join()\n", "        self.worker_thread.join(self.export_timeout_millis / 1e3)\n")
B("B03", SX, "        self.done = True\n        with self.condition:\n            self.condition.notify_all()\n        self.worker_thread.join()", "        with self.condition:\n            self.condition.notify_all()\n        self.done = True\n        self.worker_thread.join()")
B("B03", LX, "        with self._condition:\n            self._condition.notify_all()\n        self._worker_thread.join()", "        self._worker_thread.join()")
B("B03", SX, "        # be sure that all spans are sent\n        self._drain_queue()\n", "")
B("B03", LX, "        while self._queue:\n            self._export_batch()\n", "        if self._queue:\n            self._export_batch()\n")
B("B03", SX, "        self._notify_flush_request_finished(flush_request)\n        self._notify_flush_request_finished(shutdown_flush_request)", "        self._notify_flush_request_finished(flush_request)")
B("B03", SX, "        self._notify_flush_request_finished(flush_request)\n        self._notify_flush_request_finished(shutdown_flush_request)", "        self._notify_flush_request_finished(shutdown_flush_request)")
B("B03", LX, "                    if not self._queue:\n                        timeout = self._schedule_delay_millis / 1e3\n                        self._notify_flush_request_finished(flush_request)\n", "                    if not self._queue:\n                        timeout = self._schedule_delay_millis / 1e3\n")
B("B03", SX, "                if self.done:\n                    # done flag may have changed, avoid waiting\n                    break\n", "")
B("B03", SX, "                if (\n                    len(self.queue) < self.max_export_batch_size\n                    and flush_request is None\n                ):", "                if len(self.queue) < self.max_export_batch_size:")
B("B03", SX, "            num_spans -= num_exported\n\n            if num_spans <= 0:\n                break", "            num_spans -= num_exported\n            break")
B("B03", SX, "            if num_spans <= 0:", "            if num_spans <= 1:")
B("B03", LX, "            flush_request.num_log_records = len(self._queue)", "            flush_request.num_log_records = 1")
B("B03", SX, "        if self._flush_request is None:\n            self._flush_request = _FlushRequest()", "        self._flush_request = _FlushRequest()")
B("B03", SX, "        if not ret:\n            logger.warning(\"Timeout was exceeded in force_flush().\")\n        return ret", "        if not ret:\n            logger.warning(\"Timeout was exceeded in force_flush().\")\n        return True")
B("B03", LX, "        with self._condition:\n            # checked under the lock: a worker that is stopping takes the last\n            # flush request under it, a later one would never be served\n            if self._shutdown:\n                return True\n\n            flush_request", "        if self._shutdown:\n            return True\n        with self._condition:\n            flush_request")
B("B03", LX, "    def shutdown(self):\n        self._shutdown = True\n        self._exporter.shutdown()", "    def shutdown(self):\n        self._shutdown = True")
B("B03", SX, "            self._export(flush_request)\n            end = time_ns()", "            self._notify_flush_request_finished(flush_request)\n            self._export(flush_request)\n            end = time_ns()")
B("B03", SX, "            except Exception:  # pylint: disable=broad-exception-caught\n" if False else "        # clean up list\n        for index in range(idx):", "        if not idx:\n            self.queue.clear()\n        # clean up list\n        for index in range(idx):")
Q(SX, "        self._drain_queue()\n        self._notify_flush_request_finished(flush_request)\n        self._notify_flush_request_finished(shutdown_flush_request)", "        while len(self.queue) > 0:\n            self._export_batch()\n        for request in (flush_request, shutdown_flush_request):\n            self._notify_flush_request_finished(request)")
Q(SX, "            num_spans -= num_exported\n\n            if num_spans <= 0:\n                break", "            num_spans = num_spans - num_exported\n            if num_spans > 0:\n                continue\n            break")
Q(LX, "        while not self._shutdown:\n            with self._condition:\n                if self._shutdown:\n                    # shutdown may have been called, avoid further processing\n                    break\n", "        while True:\n            with self._condition:\n                if self._shutdown:\n                    break\n")
Q(LX, "        ret = flush_request.event.wait(timeout_millis / 1e3)\n        if not ret:\n            _logger.warning(\"Timeout was exceeded in force_flush().\")\n        return ret", "        if flush_request.event.wait(timeout_millis / 1e3):\n            return True\n        _logger.warning(\"Timeout was exceeded in force_flush().\")\n        return False")
# B04
B("B04", SX, "            os.register_at_fork(after_in_child=_reinit_if_alive)", "            os.register_at_fork(after_in_child=self._at_fork_reinit)")
B("B04", SX, "            os.register_at_fork(after_in_child=_reinit_if_alive)", "            os.register_at_fork(after_in_parent=_reinit_if_alive)")
B("B04", SX, "                if reinit is not None:\n                    reinit()", "                reinit()")
B("B04", LX, "                if reinit is not None:\n                    reinit()", "                if reinit is None:\n                    reinit()")
B("B04", LX, "                reinit = weak_reinit()\n                if reinit is not None:\n                    reinit()", "                if weak_reinit() is not None:\n                    self._at_fork_reinit()")
B("B04", SX, "        self.condition = threading.Condition(threading.Lock())\n        self._flush_request = None\n", "        self._flush_request = None\n")
B("B04", SX, "        self._flush_request = None\n        self.queue.clear()\n", "        self.queue.clear()\n")
B("B04", SX, "        self.queue.clear()\n", "")
B("B04", LX, "        self._worker_thread.start()\n        self._pid = os.getpid()\n\n    def worker", "        self._pid = os.getpid()\n\n    def worker")
B("B04", LX, "        self._worker_thread.start()\n        self._pid = os.getpid()\n\n    def worker", "        self._worker_thread.start()\n\n    def worker")
B("B04", LX, "        self._condition = threading.Condition(threading.Lock())\n        self._flush_request = None\n        self._queue.clear()\n        self._worker_thread = threading.Thread(\n            name=\"OtelBatchLogRecordProcessor\",\n            target=self.worker,", "        self._condition = threading.Condition(threading.Lock())\n        self._flush_request = None\n        self._queue.clear()\n        self._worker_thread = threading.Thread(\n            name=\"OtelBatchLogRecordProcessor\",\n            target=self._drain_queue,")
B("B04", LX, "        self._worker_thread.start()\n        if hasattr", "        self._worker_thread.start()\n        if max_queue_size > 1 and hasattr")
B("B04", MX, "        self._export_lock = Lock()\n        shutdown_event", "        shutdown_event")
B("B04", MX, "        self._shutdown_event = shutdown_event\n", "")
B("B04", MX, "        if self._shutdown:\n            shutdown_event.set()\n", "")
B("B04", MX, "        self._shutdown_event = shutdown_event\n        self._daemon_thread = Thread(\n            name=\"OtelPeriodicExportingMetricReader\",\n            target=self._ticker,\n            daemon=True,\n        )\n        self._daemon_thread.start()\n", "        self._daemon_thread = Thread(\n            name=\"OtelPeriodicExportingMetricReader\",\n            target=self._ticker,\n            daemon=True,\n        )\n        self._daemon_thread.start()\n        self._shutdown_event = shutdown_event\n")
B("B04", SX, "        self.condition = threading.Condition(threading.Lock())\n        self._flush_request = None\n        self.queue.clear()\n", "        self.condition = threading.Condition(self._lock)\n        self._flush_request = None\n        self.queue.clear()\n", "        self.condition = threading.Condition(threading.Lock())\n        self._flush_request = None  #", "        self._lock = threading.Lock()\n        self.condition = threading.Condition(self._lock)\n        self._flush_request = None  #")
Q(SX, "            weak_reinit = weakref.WeakMethod(self._at_fork_reinit)\n\n            def _reinit_if_alive():\n                reinit = weak_reinit()\n                if reinit is not None:\n                    reinit()\n", "            ref = weakref.ref(self)\n\n            def _reinit_if_alive():\n                processor = ref()\n                if processor is None:\n                    return\n                processor._at_fork_reinit()\n")
Q(LX, "            weak_reinit = weakref.WeakMethod(self._at_fork_reinit)\n\n            def _reinit_if_alive():\n                reinit = weak_reinit()\n                if reinit is not None:\n                    reinit()\n\n            os.register_at_fork(after_in_child=_reinit_if_alive)\n        self._pid = os.getpid()\n", "            self._register_fork_hook()\n        self._pid = os.getpid()\n\n    def _register_fork_hook(self):\n        weak_reinit = weakref.WeakMethod(self._at_fork_reinit)\n\n        def hook():\n            reinit = weak_reinit()\n            if reinit:\n                reinit()\n\n        os.register_at_fork(after_in_child=hook)\n")
Q(SX, "        self.condition = threading.Condition(threading.Lock())\n        self._flush_request = None\n        self.queue.clear()\n", "        self._reset_state()\n", "    def worker(self):\n", "    def _reset_state(self):\n        self.queue = collections.deque([], self.max_queue_size)\n        self._flush_request = None\n        self.condition = threading.Condition(threading.Lock())\n\n    def worker(self):\n")
Q(MX, "        shutdown_event = Event()\n        if self._shutdown:\n            shutdown_event.set()\n        self._shutdown_event = shutdown_event\n", "        was_set = self._shutdown_event.is_set()\n        self._shutdown_event = Event()\n        if was_set:\n            self._shutdown_event.set()\n")
# B05
SYN = "class SynchronousMultiSpanProcessor(SpanProcessor):"
B("B05", TR, "        for sp in self._span_processors:\n            sp.on_end(span)", "        for sp in reversed(self._span_processors):\n            sp.on_end(span)")
B("B05", TR, "        for sp in self._span_processors:\n            sp.on_end(span)", "        for sp in self._span_processors[:2]:\n            sp.on_end(span)")
B("B05", TR, "        for sp in self._span_processors:\n            sp.on_end(span)", "        for index in range(len(self._span_processors)):\n            self._span_processors[index].on_end(span)")
B("B05", TR, "            sp.on_start(span, parent_context=parent_context)", "            sp.on_start(span)")
B("B05", TR, "        for sp in self._span_processors:\n            sp.shutdown()", "        for sp in self._span_processors:\n            if sp.shutdown() is False:\n                return")
B("B05", TR, "            if not sp.force_flush((deadline_ns - current_time_ns) // 1000000):\n                return False\n\n        return True", "            if not sp.force_flush((deadline_ns - current_time_ns) // 1000000):\n                break\n\n        return True")
B("B05", TR, "            if not sp.force_flush((deadline_ns - current_time_ns) // 1000000):\n                return False\n\n        return True", "            result = sp.force_flush((deadline_ns - current_time_ns) // 1000000)\n\n        return result")
B("B05", TR, "            if current_time_ns >= deadline_ns:\n                return False\n", "            if current_time_ns >= deadline_ns:\n                break\n")
B("B05", LG, "            if current_ts >= deadline_ns:\n                return False\n\n            if not lp.force_flush((deadline_ns - current_ts) // 1000000):", "            if not lp.force_flush(timeout_millis):")
B("B05", LG, "        for lp in self._log_record_processors:\n            lp.emit(log_data)", "        for lp in set(self._log_record_processors):\n            lp.emit(log_data)")
B("B05", LG, "        with self._lock:\n            self._log_record_processors += (log_record_processor,)\n\n    def emit(self, log_data: LogData) -> None:", "        self._log_record_processors += (log_record_processor,)\n\n    def emit(self, log_data: LogData) -> None:")
B("B05", LG, "        with self._lock:\n            self._log_record_processors += (log_record_processor,)\n\n    def emit(self, log_data: LogData) -> None:", "        processors = self._log_record_processors\n        with self._lock:\n            self._log_record_processors = processors + (log_record_processor,)\n\n    def emit(self, log_data: LogData) -> None:")
B("B05", LG, "        with self._lock:\n            self._log_record_processors += (log_record_processor,)\n\n    def emit(self, log_data: LogData) -> None:", "        with self._lock:\n            self._log_record_processors = (log_record_processor,) + self._log_record_processors\n\n    def emit(self, log_data: LogData) -> None:")
B("B05", LG, "        with self._lock:\n            self._log_record_processors += (log_record_processor,)\n\n    def emit(self, log_data: LogData) -> None:", "        with self._lock:\n            self._log_record_processors.append(log_record_processor)\n\n    def emit(self, log_data: LogData) -> None:", "        self._log_record_processors = ()  # type: Tuple[LogRecordProcessor, ...]\n        self._lock = threading.Lock()\n\n", "        self._log_record_processors = []\n        self._lock = threading.Lock()\n\n")
B("B05", LG, "        for future in futures:\n            future.result()\n", "        for future in futures[1:]:\n            future.result()\n")
B("B05", LG, "            future = self._executor.submit(func(lp), *args, **kwargs)\n            futures.append(future)\n", "            future = self._executor.submit(func(lp), *args, **kwargs)\n            if not futures:\n                futures.append(future)\n")
B("B05", TR, "        for future in futures:\n            future.result()\n", "        if futures:\n            futures[0].result()\n")
B("B05", TR, "        if not_done_futures:\n            return False\n", "")
B("B05", TR, "        for future in done_futures:\n            if not future.result():\n                return False\n", "")
B("B05", TR, "            future = self._executor.submit(sp.force_flush, timeout_millis)\n            futures.append(future)", "            future = self._executor.submit(sp.force_flush)\n            futures.append(future)")
B("B05", LG, "        self._submit_and_wait(lambda lp: lp.shutdown)", "        self._executor.shutdown()")
B("B05", TR, "        self._span_processor.on_start(self, parent_context=parent_context)", "        self._span_processor.on_start(self)")
B("B05", TR, "        self._span_processor.on_start(self, parent_context=parent_context)", "        if parent_context is not None:\n            self._span_processor.on_start(self, parent_context=parent_context)")
Q(TR, "        for sp in self._span_processors:\n            sp.on_end(span)", "        processors = self._span_processors\n        for processor in processors:\n            processor.on_end(span)")
Q(TR, "        for sp in self._span_processors:\n            sp.on_end(span)", "        self._each(lambda sp: sp.on_end(span))\n\n    def _each(self, call):\n        for sp in self._span_processors:\n            call(sp)")
Q(LG, "        with self._lock:\n            self._log_record_processors += (log_record_processor,)\n\n    def emit(self, log_data: LogData) -> None:", "        with self._lock:\n            self._log_record_processors = (*self._log_record_processors, log_record_processor)\n\n    def emit(self, log_data: LogData) -> None:")
Q(LG, "        with self._lock:\n            self._log_record_processors += (log_record_processor,)\n\n    def emit(self, log_data: LogData) -> None:", "        with self._lock:\n            processors = list(self._log_record_processors)\n            processors.append(log_record_processor)\n            self._log_record_processors = tuple(processors)\n\n    def emit(self, log_data: LogData) -> None:")
Q(TR, "            if current_time_ns >= deadline_ns:\n                return False\n\n            if not sp.force_flush((deadline_ns - current_time_ns) // 1000000):\n                return False\n", "            remaining_ns = deadline_ns - current_time_ns\n            if remaining_ns <= 0:\n                return False\n\n            flushed = sp.force_flush(remaining_ns // 1000000)\n            if not flushed:\n                return False\n")
Q(TR, "        for future in done_futures:\n            if not future.result():\n                return False\n\n        return True", "        return all(future.result() for future in done_futures)")
Q(LG, "        futures = []\n        for lp in self._log_record_processors:\n            future = self._executor.submit(lp.force_flush, timeout_millis)\n            futures.append(future)\n", "        futures = [\n            self._executor.submit(lp.force_flush, timeout_millis)\n            for lp in self._log_record_processors\n        ]\n")
Q(LG, "        futures = []\n        for lp in self._log_record_processors:\n            future = self._executor.submit(func(lp), *args, **kwargs)\n            futures.append(future)\n        for future in futures:\n            future.result()\n", "        futures = [\n            self._executor.submit(func(lp), *args, **kwargs)\n            for lp in self._log_record_processors\n        ]\n        concurrent.futures.wait(futures)\n        for future in futures:\n            future.result()\n")
