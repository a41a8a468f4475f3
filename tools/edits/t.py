TR = SDK + "trace/__init__.py"
AT = API + "trace/__init__.py"
STAT = API + "trace/status.py"
# T01
B("T01", TR, "            if self._end_time is not None:\n                logger.warning(\"Setting attribute on ended span.\")\n                return\n\n            for", "            if self._end_time is not None:\n                logger.warning(\"Setting attribute on ended span.\")\n\n            for")
B("T01", TR, "        with self._lock:\n            if self._end_time is not None:\n                logger.warning(\"Setting attribute on ended span.\")\n                return\n\n            for key, value in attributes.items():\n                self._attributes[key] = value", "        if self._end_time is not None:\n            logger.warning(\"Setting attribute on ended span.\")\n            return\n        with self._lock:\n            for key, value in attributes.items():\n                self._attributes[key] = value")
B("T01", TR, "    @_check_span_ended\n    def _add_link", "    def _add_link")
B("T01", TR, "    @_check_span_ended\n    def update_name", "    def update_name")
B("T01", TR, "            if self._end_time is not None:\n                logger.warning(\"Calling end() on an ended span.\")\n                return\n\n            self._end_time = end_time if end_time is not None else time_ns()\n", "            if self._end_time is not None:\n                logger.warning(\"Calling end() on an ended span.\")\n                return\n\n        self._end_time = end_time if end_time is not None else time_ns()\n")
B("T01", TR, "self._end_time = end_time if end_time is not None else time_ns()", "self._end_time = end_time or time_ns()")
B("T01", TR, "        self._span_processor.on_end(self._readable_span())", "        if self._context.trace_flags.sampled:\n            self._span_processor.on_end(self._readable_span())")
B("T01", TR, "            self._end_time = end_time if end_time is not None else time_ns()\n\n        self._span_processor.on_end(self._readable_span())", "            view = self._readable_span()\n            self._end_time = end_time if end_time is not None else time_ns()\n\n        self._span_processor.on_end(view)")
B("T01", TR, "        return self._end_time is None", "        return self._end_time is None or self._end_time > time_ns()")
B("T01", TR, "            if self._end_time is None:  # pylint: disable=protected-access\n                func(self, *args, **kwargs)", "            if self._end_time is None or func.__name__ == \"set_status\":\n                func(self, *args, **kwargs)")
B("T01", TR, "        with self._lock:  # pylint: disable=protected-access\n            if self._end_time is None:  # pylint: disable=protected-access\n                func(self, *args, **kwargs)\n            else:\n                already_ended = True\n", "        if self._end_time is None:\n            with self._lock:\n                func(self, *args, **kwargs)\n        else:\n            already_ended = True\n")
B("T01", TR, "        self._add_event(\n            Event(", "        self._events.append(\n            Event(")
Q(TR, "        with self._lock:\n            if self._end_time is not None:\n                logger.warning(\"Setting attribute on ended span.\")\n                return\n\n            for key, value in attributes.items():\n                self._attributes[key] = value", "        ended = False\n        with self._lock:\n            if self._end_time is None:\n                for key in attributes:\n                    self._attributes[key] = attributes[key]\n            else:\n                ended = True\n        if ended:\n            logger.warning(\"Setting attribute on ended span.\")")
Q(TR, "            if self._end_time is not None:\n                logger.warning(\"Setting attribute on ended span.\")\n                return\n", "            if not self.is_recording():\n                logger.warning(\"Setting attribute on ended span.\")\n                return\n")
Q(TR, "            self._end_time = end_time if end_time is not None else time_ns()\n", "            if end_time is None:\n                end_time = time_ns()\n            self._end_time = end_time\n")
Q(TR, "            self._end_time = end_time if end_time is not None else time_ns()\n", "            self._set_end(end_time)\n", "    def is_recording(self) -> bool:", "    def _set_end(self, t):\n        self._end_time = time_ns() if t is None else t\n\n    def is_recording(self) -> bool:")
Q(TR, "        already_ended = False\n        with self._lock:  # pylint: disable=protected-access\n            if self._end_time is None:  # pylint: disable=protected-access\n                func(self, *args, **kwargs)\n            else:\n                already_ended = True\n\n        if already_ended:\n            logger.warning", "        with self._lock:\n            already_ended = self._end_time is not None\n            if not already_ended:\n                func(self, *args, **kwargs)\n\n        if already_ended:\n            logger.warning")
Q(TR, "        self._span_processor.on_end(self._readable_span())", "        view = self._readable_span()\n        processor = self._span_processor\n        processor.on_end(view)")
Q(TR, "    @_check_span_ended\n    def update_name(self, name: str) -> None:\n        self._name = name", "    def update_name(self, name: str) -> None:\n        with self._lock:\n            if self._end_time is not None:\n                logger.warning('ended')\n                return\n            self._name = name")
# T02
B("T02", AT, "    except Exception as exc:  # pylint: disable=broad-exception-caught", "    except (ValueError, RuntimeError) as exc:")
B("T02", AT, "        # set_status_on_exception attributes set to False.\n        raise\n", "        # set_status_on_exception attributes set to False.\n        if record_exception:\n            raise\n")
B("T02", AT, "    finally:\n        if end_on_exit:\n            span.end()\n", "    else:\n        if end_on_exit:\n            span.end()\n")
B("T02", AT, "            # Set status in case exception was raised\n            if set_status_on_exception:", "            # Set status in case exception was raised\n            if record_exception and set_status_on_exception:")
B("T02", AT, "            if record_exception:\n                span.record_exception(exc)", "            if record_exception or set_status_on_exception:\n                span.record_exception(exc)")
B("T02", AT, "        try:\n            yield span\n        finally:\n            context_api.detach(token)\n", "        yield span\n        context_api.detach(token)\n")
B("T02", AT, "        if isinstance(span, Span) and span.is_recording():\n            # Record", "        if end_on_exit and isinstance(span, Span) and span.is_recording():\n            # Record")
B("T02", AT, "status_code=StatusCode.ERROR,\n                        description=f\"{type(exc)", "status_code=StatusCode.UNSET,\n                        description=f\"{type(exc)")
B("T02", TR, "            end_on_exit=end_on_exit,\n            record_exception=record_exception,\n            set_status_on_exception=set_status_on_exception,\n        ) as span:", "            end_on_exit=end_on_exit,\n            record_exception=record_exception,\n            set_status_on_exception=record_exception,\n        ) as span:")
B("T02", TR, "            end_on_exit=end_on_exit,\n            record_exception=record_exception,", "            end_on_exit=True,\n            record_exception=record_exception,")
B("T02", TR, "            start_time=start_time,\n            record_exception=record_exception,\n            set_status_on_exception=set_status_on_exception,\n        )\n        with", "            record_exception=record_exception,\n            set_status_on_exception=set_status_on_exception,\n        )\n        with")
B("T02", TR, "            if exc_val is not None and self.is_recording():", "            if isinstance(exc_val, RuntimeError) and self.is_recording():")
B("T02", TR, "                if self._set_status_on_exception:", "                if self._record_exception and self._set_status_on_exception:")
B("T02", TR, "                record_exception=record_exception,\n                set_status_on_exception=set_status_on_exception,\n                limits", "                set_status_on_exception=set_status_on_exception,\n                limits")
B("T02", TR, "        self._record_exception = record_exception\n", "        self._record_exception = record_exception or set_status_on_exception\n")
Q(AT, "    finally:\n        if end_on_exit:\n            span.end()\n", "    finally:\n        if not end_on_exit:\n            pass\n        else:\n            span.end()\n")
Q(AT, "        if isinstance(span, Span) and span.is_recording():\n            # Record the exception as an event\n            if record_exception:\n                span.record_exception(exc)\n\n            # Set status in case exception was raised\n            if set_status_on_exception:\n                span.set_status(\n                    Status(\n                        status_code=StatusCode.ERROR,\n                        description=f\"{type(exc).__name__}: {exc}\",\n                    )\n                )\n", "        _note(span, exc, record_exception, set_status_on_exception)\n", "@_agnosticcontextmanager\ndef use_span", "def _note(span, exc, record, status):\n    if isinstance(span, Span) and span.is_recording():\n        if record:\n            span.record_exception(exc)\n        if status:\n            span.set_status(Status(StatusCode.ERROR, f\"{type(exc).__name__}: {exc}\"))\n\n\n@_agnosticcontextmanager\ndef use_span")
Q(AT, "        token = context_api.attach(context_api.set_value(_SPAN_KEY, span))", "        new_context = set_span_in_context(span)\n        token = context_api.attach(new_context)")
Q(AT, "        raise\n\n    finally:", "        raise exc\n\n    finally:")
# T07
B("T07", TR, "                self._status\n                and self._status.status_code is StatusCode.OK\n                or status is StatusCode.UNSET", "                self._status\n                and self._status.status_code is StatusCode.OK\n                and status is StatusCode.UNSET")
B("T07", TR, "                or status.status_code is StatusCode.UNSET\n", "")
B("T07", TR, "                self._status\n                and self._status.status_code is StatusCode.OK\n                or status is StatusCode.UNSET", "                self._status\n                and self._status.status_code is not StatusCode.UNSET\n                or status is StatusCode.UNSET")
B("T07", TR, "self._status = Status(status, description)", "self._status = Status(status)")
B("T07", STAT, "if status_code is not StatusCode.ERROR:", "if status_code is StatusCode.OK:")
B("T07", TR, "            self._status = status\n", "            self._status = status if description is None else Status(status.status_code, description)\n")
Q(TR, "        if isinstance(status, Status):\n            if (\n                self._status\n                and self._status.status_code is StatusCode.OK\n                or status.status_code is StatusCode.UNSET\n            ):\n                return\n", "        if isinstance(status, Status):\n            if self._status.status_code == StatusCode.OK:\n                return\n            if status.is_unset:\n                return\n")
Q(TR, "        # Ignore future calls if status is already set to OK\n", "        current = self._status.status_code if self._status else None\n        if current is StatusCode.OK:\n            return\n")
Q(STAT, "        self._description = None\n\n        if description:\n            if not isinstance(description, str):\n                logger.warning(\"Invalid status description type, expected str\")\n                return\n            if status_code is not StatusCode.ERROR:\n                logger.warning(\n                    \"description should only be set when status_code is set to StatusCode.ERROR\"\n                )\n                return\n\n        self._description = description\n", "        if description and not isinstance(description, str):\n            logger.warning(\"Invalid status description type, expected str\")\n            description = None\n        elif description and status_code is not StatusCode.ERROR:\n            logger.warning('x')\n            description = None\n        self._description = description\n")
# T03
SM = SDK + "trace/sampling.py"
TE = SDK + "trace/export/__init__.py"
SPF = API + "trace/span.py"
IDG = SDK + "trace/id_generator.py"
B("T03", TR, "            if sampling_result.decision.is_sampled()", "            if sampling_result.decision.is_recording()")
B("T03", TR, "            if sampling_result.decision.is_sampled()", "            if parent_span_context and parent_span_context.trace_flags.sampled or sampling_result.decision.is_sampled()")
B("T03", TR, "attributes=sampling_result.attributes.copy()", "attributes=attributes")
B("T03", TR, "attributes=sampling_result.attributes.copy()", "attributes={**(attributes or {}), **sampling_result.attributes}")
Q(TR, "attributes=sampling_result.attributes.copy()", "attributes=dict(sampling_result.attributes)")
B("T03", TR, "            trace_state=sampling_result.trace_state,", "            trace_state=sampling_result.trace_state or (parent_span_context.trace_state if parent_span_context else None),")
B("T03", TR, "        if sampling_result.decision.is_recording():", "        if sampling_result.decision.is_sampled():")
B("T03", TR, "        if sampling_result.decision.is_recording():", "        if sampling_result.decision.is_recording() or links:")
B("T03", TR, "            span.start(start_time=start_time, parent_context=context)", "            span.start(start_time=start_time)")
B("T03", TR, "            context, trace_id, name, kind, attributes, links\n", "            context, trace_id, name, kind, attributes\n")
B("T03", SM, "return self in (Decision.RECORD_ONLY, Decision.RECORD_AND_SAMPLE)", "return self is not Decision.RECORD_ONLY")
B("T03", SM, "            self.attributes = MappingProxyType(attributes)", "            self.attributes = MappingProxyType(attributes if decision is Decision.RECORD_AND_SAMPLE else {})")
Q(SM, "        if attributes is None:\n            self.attributes = MappingProxyType({})\n        else:\n            self.attributes = MappingProxyType(attributes)", "        self.attributes = MappingProxyType({} if attributes is None else attributes)")
B("T03", SM, "        if trace_id & self.TRACE_ID_LIMIT < self.bound:", "        if trace_id & self.TRACE_ID_LIMIT > self.bound:")
B("T03", TE, "        if not span.context.trace_flags.sampled:\n            return\n        token", "        if not span.is_recording and not span.context.trace_flags.sampled:\n            return\n        token")
B("T03", TE, "        if not span.context.trace_flags.sampled:\n            return\n        if self._pid", "        if self._pid")
Q(TE, "        if not span.context.trace_flags.sampled:\n            return\n        token", "        if span.context.trace_flags & 1 == 0:\n            return\n        token")
B("T03", TE, "        self.queue.appendleft(span)\n", "        if span.parent is None or len(self.queue) < self.max_queue_size:\n            self.queue.appendleft(span)\n")
B("T03", SPF, "return bool(self & TraceFlags.SAMPLED)", "return self == TraceFlags.SAMPLED")
B("T03", TR, "            self._start_time = (\n                start_time if start_time is not None else time_ns()\n            )", "            self._start_time = start_time or time_ns()")
# T04
B("T04", TR, "if parent_span_context is None or not parent_span_context.is_valid:", "if parent_span_context is None or parent_span_context.trace_id == 0:")
B("T04", TR, "            parent_span_context = None\n            trace_id = self.id_generator", "            trace_id = self.id_generator")
B("T04", TR, "            trace_id = parent_span_context.trace_id", "            trace_id = parent_span_context.trace_id if parent_span_context.is_remote else self.id_generator.generate_trace_id()")
Q(TR, "        if parent_span_context is None or not parent_span_context.is_valid:\n            parent_span_context = None\n            trace_id = self.id_generator.generate_trace_id()\n        else:\n            trace_id = parent_span_context.trace_id", "        if parent_span_context is not None and parent_span_context.is_valid:\n            trace_id = parent_span_context.trace_id\n        else:\n            parent_span_context = None\n            trace_id = self.id_generator.generate_trace_id()")
B("T04", SM, "                if parent_span_context.trace_flags.sampled:\n                    sampler = self._local_parent_sampled", "                if parent_span_context.trace_flags.sampled:\n                    sampler = self._remote_parent_sampled")
B("T04", SM, "        self._local_parent_not_sampled = local_parent_not_sampled", "        self._local_parent_not_sampled = remote_parent_not_sampled")
B("T04", SM, "if parent_span_context is not None and parent_span_context.is_valid:\n            if", "if parent_span_context is not None:\n            if")
B("T04", SM, "            attributes=attributes,\n            links=links,\n        )\n\n    def get_description(self):", "            attributes=attributes,\n        )\n\n    def get_description(self):")
B("T04", IDG, "        while span_id == trace.INVALID_SPAN_ID:\n            span_id = random.getrandbits(64)\n", "        if span_id == trace.INVALID_SPAN_ID:\n            span_id = random.getrandbits(64)\n")
B("T04", IDG, "        while trace_id == trace.INVALID_TRACE_ID:\n            trace_id = random.getrandbits(128)\n", "        while trace_id == trace.INVALID_TRACE_ID:\n            trace_id = random.getrandbits(64)\n")
Q(IDG, "        span_id = random.getrandbits(64)\n        while span_id == trace.INVALID_SPAN_ID:\n            span_id = random.getrandbits(64)\n        return span_id", "        while True:\n            span_id = random.getrandbits(64)\n            if span_id != trace.INVALID_SPAN_ID:\n                return span_id")
B("T04", SPF, "INVALID_SPAN_ID < span_id <= _SPAN_ID_MAX_VALUE", "INVALID_SPAN_ID <= span_id <= _SPAN_ID_MAX_VALUE")
B("T04", SPF, "INVALID_TRACE_ID < trace_id <= _TRACE_ID_MAX_VALUE", "INVALID_TRACE_ID < trace_id")
# T05
ATT = API + "attributes/__init__.py"
UT = SDK + "util/__init__.py"
LG = SDK + "_logs/_internal/__init__.py"
B("T05", TR, "            self._limits.max_span_attributes,\n            attributes,", "            self._limits.max_attributes,\n            attributes,")
B("T05", TR, "        attributes = BoundedAttributes(\n            self._limits.max_event_attributes,", "        attributes = BoundedAttributes(\n            self._limits.max_link_attributes,")
B("T05", TR, "            self._limits.max_link_attributes,\n            attributes,\n            max_value_len=self._limits.max_attribute_length,\n        )", "            self._limits.max_link_attributes,\n            attributes,\n        )")
B("T05", TR, "return BoundedList.from_seq(self._limits.max_links, valid_links)", "return BoundedList.from_seq(self._limits.max_events, valid_links)")
B("T05", TR, "return BoundedList.from_seq(self._limits.max_links, valid_links)", "return valid_links")
B("T05", TR, "            return BoundedList(self._limits.max_links)\n", "            return BoundedList(None)\n")
B("T05", TR, "        self.add_event(\n            name=\"exception\", attributes=_attributes, timestamp=timestamp\n        )", "        self._add_event(\n            Event(name=\"exception\", attributes=_attributes, timestamp=timestamp)\n        )")
B("T05", TR, "            OTEL_LINK_ATTRIBUTE_COUNT_LIMIT,\n            (", "            OTEL_EVENT_ATTRIBUTE_COUNT_LIMIT,\n            (")
B("T05", TR, "            # use global attribute length limit as default\n            self.max_attribute_length,", "            max_attribute_length,")
B("T05", TR, "        if value == cls.UNSET:\n            return None", "        if value == cls.UNSET:\n            return default")
B("T05", ATT, "                    self._dict.popitem(last=False)  # type: ignore\n                    self.dropped += 1\n", "                    self._dict.popitem(last=False)  # type: ignore\n")
B("T05", ATT, "            if self.maxlen is not None and self.maxlen == 0:\n                self.dropped += 1\n                return", "            if self.maxlen is not None and self.maxlen == 0:\n                return")
B("T05", ATT, "    if limit is not None and isinstance(value, str):", "    if limit and isinstance(value, str):")
B("T05", ATT, "            element = _clean_attribute_value(element, max_len)  # type: ignore", "            element = _clean_attribute_value(element, None)  # type: ignore")
B("T05", ATT, "                if key in self._dict:\n                    del self._dict[key]\n                elif (\n                    self.maxlen is not None and len(self._dict) == self.maxlen\n                ):", "                if (\n                    self.maxlen is not None and len(self._dict) == self.maxlen\n                ):")
Q(ATT, "                elif (\n                    self.maxlen is not None and len(self._dict) == self.maxlen\n                ):", "                elif self.maxlen is not None and len(self._dict) >= self.maxlen:")
B("T05", UT, "                and len(self._dq) == self._dq.maxlen\n            ):\n                self.dropped += 1", "                and len(self._dq) > self._dq.maxlen\n            ):\n                self.dropped += 1")
B("T05", UT, "            self._dq.append(item)", "            if self._dq.maxlen is None or len(self._dq) < self._dq.maxlen:\n                self._dq.append(item)")
B("T05", UT, "                    self.dropped += to_drop", "                    self.dropped = to_drop")
B("T05", UT, "to_drop = len(seq) + len(self._dq) - self._dq.maxlen", "to_drop = len(seq) - self._dq.maxlen")
Q(UT, "                to_drop = len(seq) + len(self._dq) - self._dq.maxlen\n                if to_drop > 0:\n                    self.dropped += to_drop", "                free = self._dq.maxlen - len(self._dq)\n                if len(seq) > free:\n                    self.dropped += len(seq) - free")
Q(UT, "                if to_drop > 0:\n                    self.dropped += to_drop", "                self.dropped += max(to_drop, 0)")
B("T05", LG, "        if isinstance(self.attributes, BoundedAttributes):\n            return", "        if self.attributes:\n            return")
B("T05", LG, "                    maxlen=limits.max_attributes,", "                    maxlen=None,")
B("T05", TR, "    def dropped_links(self) -> int:\n        if isinstance(self._links, BoundedList):\n            return self._links.dropped", "    def dropped_links(self) -> int:\n        if isinstance(self._links, BoundedList):\n            return self._events.dropped")
B("T05", TR, "                limits=self._span_limits,", "                limits=SpanLimits(),")
B("T05", TR, "                            self._limits.max_event_attributes,\n                            event.attributes,", "                            self._limits.max_span_attributes,\n                            event.attributes,")
# T06
B("T06", TR, "        return MappingProxyType(self._attributes or {})", "        return self._attributes or {}")
B("T06", TR, "        return tuple(event for event in self._events)", "        return self._events")
B("T06", TR, "        return tuple(link for link in self._links)", "        links = self._links\n        return links")
B("T06", UT, "            return iter(deque(self._dq))", "            return iter(self._dq)")
B("T06", ATT, "            return iter(self._dict.copy())  # type: ignore", "            return iter(self._dict)  # type: ignore")
B("T06", ATT, "        return self._dict.copy()  # type: ignore\n", "        return self._dict  # type: ignore\n")
B("T06", ATT, "        return tuple(cleaned_seq)", "        return value")
B("T06", TR, "            span_processor.on_end(self._readable_span())" if False else "        self._span_processor.on_end(self._readable_span())", "        self._span_processor.on_end(self)")
B("T06", TR, "            events=self._events,\n            links=self._links,\n            kind=self.kind,", "            events=self._events,\n            links=self._events,\n            kind=self.kind,")
B("T06", TR, "            status=self._status,\n            start_time=self._start_time,\n            end_time=self._end_time,", "            status=self._status,\n            start_time=self._start_time,\n            end_time=None,")
B("T06", TR, "                valid_links.append(\n                    trace_api.Link(\n                        context=link.context,\n                        attributes=BoundedAttributes(\n                            self._limits.max_link_attributes,\n                            link.attributes,\n                            max_value_len=self._limits.max_attribute_length,\n                        ),\n                    )\n                )", "                link._attributes = BoundedAttributes(\n                    self._limits.max_link_attributes,\n                    link.attributes,\n                    max_value_len=self._limits.max_attribute_length,\n                )\n                valid_links.append(link)")
B("T06", ATT, "        self._immutable = immutable", "        self._immutable = immutable\n        if not self.maxlen and attributes:\n            attributes.clear()")
Q(TR, "        return tuple(event for event in self._events)", "        return tuple(self._events)")
Q(TR, "        return tuple(link for link in self._links)", "        return [*self._links]")
Q(TR, "        return MappingProxyType(self._attributes or {})", "        attributes = self._attributes\n        return MappingProxyType(attributes if attributes else {})")
