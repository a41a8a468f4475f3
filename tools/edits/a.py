API = "opentelemetry-api/src/opentelemetry/"
SDK = "opentelemetry-sdk/src/opentelemetry/sdk/"
TR = API + "trace/__init__.py"
ME = API + "metrics/_internal/__init__.py"
MI = API + "metrics/_internal/instrument.py"
AL = API + "_logs/_internal/__init__.py"
AE = API + "_events/__init__.py"
ON = API + "util/_once.py"
# A01
B("A01", ON, "        with self._lock:\n            if not self._done:\n                func()\n                self._done = True\n                return True\n        return False", "        with self._lock:\n            func()\n            self._done = True\n            return True")
B("A01", ON, "            if not self._done:\n                func()\n                self._done = True\n", "            if not self._done:\n                self._done = True\n                func()\n")
B("A01", ON, "        with self._lock:\n            if not self._done:\n                func()\n", "        with Lock():\n            if not self._done:\n                func()\n")
B("A01", ON, "        with self._lock:\n            if not self._done:\n                func()\n                self._done = True\n                return True\n        return False", "        with self._lock:\n            first = not self._done\n            self._done = True\n        if first:\n            func()\n        return first")
B("A01", ON, "                func()\n                self._done = True\n                return True\n", "                func()\n                return True\n")
B("A01", AE, "_EVENT_LOGGER_PROVIDER_SET_ONCE = Once()", "from opentelemetry._logs._internal import _LOGGER_PROVIDER_SET_ONCE as _EVENT_LOGGER_PROVIDER_SET_ONCE")
B("A01", TR, "        _TRACER_PROVIDER = tracer_provider\n\n    did_set = _TRACER_PROVIDER_SET_ONCE.do_once(set_tp)\n", "        _TRACER_PROVIDER = tracer_provider\n\n    did_set = _TRACER_PROVIDER is None\n    if did_set:\n        set_tp()\n")
B("A01", AL, "    if log and not did_set:\n        _logger.warning(", "    if log and not did_set and logger_provider is not _LOGGER_PROVIDER:\n        _logger.warning(")
B("A01", AL, "    if log and not did_set:\n        _logger.warning(", "    if log and did_set:\n        _logger.warning(")
B("A01", AE, "    if log and not did_set:\n", "    if not log and not did_set:\n")
B("A01", AE, "        _set_event_logger_provider(event_logger_provider, log=False)\n\n", "        _set_event_logger_provider(event_logger_provider, log=False)\n        return event_logger_provider\n\n")
B("A01", TR, "        _set_tracer_provider(tracer_provider, log=False)\n", "        global _TRACER_PROVIDER\n        _TRACER_PROVIDER = tracer_provider\n")
B("A01", TR, "            return _PROXY_TRACER_PROVIDER\n", "            _set_tracer_provider(_PROXY_TRACER_PROVIDER, log=False)\n            return _PROXY_TRACER_PROVIDER\n")
B("A01", AL, "            return _PROXY_LOGGER_PROVIDER\n", "            return NoOpLoggerProvider()\n")
B("A01", AL, "        if _LOGGER_PROVIDER:\n            return _LOGGER_PROVIDER.get_logger(\n                name,\n                version=version,\n                schema_url=schema_url,\n                attributes=attributes,\n", "        if _LOGGER_PROVIDER:\n            return _LOGGER_PROVIDER.get_logger(\n                name,\n                version=version,\n                attributes=attributes,\n")
B("A01", ME, "        _PROXY_METER_PROVIDER.on_set_meter_provider(meter_provider)\n\n    did_set = _METER_PROVIDER_SET_ONCE.do_once(set_mp)\n", "        pass\n\n    did_set = _METER_PROVIDER_SET_ONCE.do_once(set_mp)\n    _PROXY_METER_PROVIDER.on_set_meter_provider(meter_provider)\n")
B("A01", ME, "                try:\n                    meter.on_set_meter_provider(meter_provider)\n                except Exception:  # pylint: disable=broad-exception-caught\n                    _logger.exception(\"Failed to create a meter\")\n", "                meter.on_set_meter_provider(meter_provider)\n")
B("A01", TR, "        tracer_provider = get_tracer_provider()\n    return tracer_provider.get_tracer(\n        instrumenting_module_name,\n        instrumenting_library_version,\n        schema_url,\n        attributes,\n", "        tracer_provider = get_tracer_provider()\n    return tracer_provider.get_tracer(\n        instrumenting_module_name,\n        instrumenting_library_version,\n        schema_url,\n")
B("A01", ME, "    if meter_provider is None:\n        meter_provider = get_meter_provider()\n    return", "    if meter_provider is None or not version:\n        meter_provider = get_meter_provider()\n    return")
Q(TR, "def _set_tracer_provider(tracer_provider: TracerProvider, log: bool) -> None:\n    def set_tp() -> None:\n        global _TRACER_PROVIDER  # pylint: disable=global-statement\n        _TRACER_PROVIDER = tracer_provider\n\n    did_set = _TRACER_PROVIDER_SET_ONCE.do_once(set_tp)\n\n    if log and not did_set:\n", "_LOCK = __import__('threading').Lock()\n\n\ndef _set_tracer_provider(tracer_provider: TracerProvider, log: bool) -> None:\n    global _TRACER_PROVIDER  # pylint: disable=global-statement\n    with _TRACER_LOCK:\n        did_set = _TRACER_PROVIDER is None\n        if did_set:\n            _TRACER_PROVIDER = tracer_provider\n\n    if log and not did_set:\n", "_TRACER_PROVIDER_SET_ONCE = Once()", "from threading import Lock as _L\n_TRACER_LOCK = _L()")
Q(ON, "        if self._done:\n            return False\n\n        with self._lock:\n            if not self._done:\n                func()\n                self._done = True\n                return True\n        return False", "        if not self._done:\n            with self._lock:\n                if self._done:\n                    return False\n                func()\n                self._done = True\n            return True\n        return False")
Q(ON, "        if self._done:\n            return False\n\n        with self._lock:\n            if not self._done:\n                func()\n                self._done = True\n                return True\n        return False", "        self._lock.acquire()\n        try:\n            todo = not self._done\n            if todo:\n                func()\n                self._done = True\n        finally:\n            self._lock.release()\n        return todo")
Q(TR, "    if log and not did_set:\n        logger.warning(", "    if did_set or not log:\n        return\n    if True:\n        logger.warning(")
Q(AL, "    if _LOGGER_PROVIDER is None:\n        if _OTEL_PYTHON_LOGGER_PROVIDER not in environ:\n            return _PROXY_LOGGER_PROVIDER\n", "    if _LOGGER_PROVIDER is not None:\n        return _LOGGER_PROVIDER\n    if environ.get(_OTEL_PYTHON_LOGGER_PROVIDER) is None:\n        return _PROXY_LOGGER_PROVIDER\n    if True:\n")
Q(AE, "    def set_elp() -> None:\n        global _EVENT_LOGGER_PROVIDER  # pylint: disable=global-statement\n        _EVENT_LOGGER_PROVIDER = event_logger_provider\n\n    did_set = _EVENT_LOGGER_PROVIDER_SET_ONCE.do_once(set_elp)\n\n    if log and not did_set:\n", "    def set_elp() -> None:\n        _store(event_logger_provider)\n\n    if not _EVENT_LOGGER_PROVIDER_SET_ONCE.do_once(set_elp) and log:\n", "def _set_event_logger_provider(\n", "def _store(p):\n    global _EVENT_LOGGER_PROVIDER\n    _EVENT_LOGGER_PROVIDER = p\n\n\ndef _set_event_logger_provider(\n")
# A02
B("A02", TR, "                self._instrumenting_library_version,\n                self._schema_url,\n                self._attributes,\n            )\n            return self._real_tracer\n", "                self._instrumenting_library_version,\n                self._schema_url,\n            )\n            return self._real_tracer\n")
B("A02", TR, "                self._instrumenting_library_version,\n                self._schema_url,\n                self._attributes,\n            )\n            return self._real_tracer\n", "                self._schema_url,\n                self._instrumenting_library_version,\n                self._attributes,\n            )\n            return self._real_tracer\n")
B("A02", TR, "        return self._noop_tracer\n", "        self._real_tracer = self._noop_tracer\n        return self._noop_tracer\n")
B("A02", TR, "        return self._tracer.start_span(*args, **kwargs)", "        return self._tracer.start_span(*args)")
B("A02", TR, "        with self._tracer.start_as_current_span(*args, **kwargs) as span:  # type: ignore\n            yield span", "        span = self._tracer.start_span(*args, **kwargs)\n        yield span")
B("A02", TR, "        with self._tracer.start_as_current_span(*args, **kwargs) as span:  # type: ignore\n            yield span", "        with self._tracer.start_as_current_span(*args, **kwargs):  # type: ignore\n            yield INVALID_SPAN")
B("A02", TR, "        self._schema_url = schema_url\n        self._attributes = attributes\n        self._real_tracer", "        self._schema_url = schema_url\n        self._attributes = None\n        self._real_tracer")
B("A02", TR, "        return ProxyTracer(\n            instrumenting_module_name,\n            instrumenting_library_version,\n            schema_url,\n            attributes,\n", "        return ProxyTracer(\n            instrumenting_module_name,\n            instrumenting_library_version,\n            attributes,\n            schema_url,\n")
B("A02", TR, "        if _TRACER_PROVIDER:\n            self._real_tracer = _TRACER_PROVIDER.get_tracer(", "        if _PROXY_TRACER_PROVIDER:\n            self._real_tracer = _PROXY_TRACER_PROVIDER.get_tracer(")
B("A02", AL, "        self._logger.emit(record)\n", "        self._noop_logger.emit(record)\n")
B("A02", AL, "        self._logger.emit(record)\n", "        if record.body is not None:\n            self._logger.emit(record)\n")
B("A02", AE, "                self._version,\n                self._schema_url,\n                self._attributes,\n            )\n            return self._real_event_logger", "                self._version,\n                schema_url=self._schema_url,\n            )\n            return self._real_event_logger")
B("A02", ME, "            self._version,\n            self._schema_url,\n            self._attributes,\n        )\n\n        with self._lock:\n            self._real_meter = real_meter", "            self._version,\n            self._schema_url,\n            None,\n        )\n\n        with self._lock:\n            self._real_meter = real_meter")
B("A02", ME, "        with self._lock:\n            self._real_meter = real_meter\n            # notify", "        self._real_meter = real_meter\n        with self._lock:\n            # notify")
B("A02", ME, "            meter = _ProxyMeter(\n                name,\n                version=version,\n                schema_url=schema_url,\n                attributes=attributes,\n            )\n            self._meters.append(meter)\n            return meter", "            meter = _ProxyMeter(\n                name,\n                version=version,\n                schema_url=schema_url,\n                attributes=attributes,\n            )\n        with self._lock:\n            self._meters.append(meter)\n        return meter")
B("A02", ME, "            proxy = _ProxyGauge(name, unit, description)\n            self._instruments.append(proxy)\n            return proxy", "            return _ProxyGauge(name, unit, description)")
B("A02", ME, "            proxy = _ProxyGauge(name, unit, description)\n            self._instruments.append(proxy)\n            return proxy", "            proxy = _ProxyGauge(name, unit, description)\n            if not any(i._name == name for i in self._instruments):\n                self._instruments.append(proxy)\n            return proxy")
B("A02", ME, "                    description,\n                    explicit_bucket_boundaries_advisory=explicit_bucket_boundaries_advisory,\n", "                    description,\n")
B("A02", ME, "            for instrument in self._instruments:\n                try:\n                    instrument.on_meter_set(real_meter)\n                except Exception:  # pylint: disable=broad-exception-caught\n                    _logger.exception(\"Failed to create an instrument\")\n", "            try:\n                for instrument in self._instruments:\n                    instrument.on_meter_set(real_meter)\n            except Exception:  # pylint: disable=broad-exception-caught\n                _logger.exception(\"Failed to create an instrument\")\n")
B("A02", MI, "        if self._real_instrument:\n            self._real_instrument.record(amount, attributes, context)", "        if self._real_instrument:\n            self._real_instrument.record(amount, attributes)")
B("A02", MI, "            self._unit,\n            self._description,\n            explicit_bucket_boundaries_advisory=self._explicit_bucket_boundaries_advisory,\n", "            self._unit,\n            self._description,\n")
B("A02", MI, "        return meter.create_observable_counter(\n            self._name,\n            self._callbacks,\n            self._unit,\n            self._description,", "        return meter.create_observable_counter(\n            self._name,\n            self._callbacks,\n            self._description,\n            self._unit,")
B("A02", MI, "        return meter.create_up_down_counter(", "        return meter.create_counter(")
B("A02", MI, "        if self._real_instrument:\n            self._real_instrument.set(amount, attributes, context)", "        if self._real_instrument and amount:\n            self._real_instrument.set(amount, attributes, context)")
B("A02", MI, "        super().__init__(name, unit, description)\n        self._callbacks = callbacks\n", "        super().__init__(name, unit, description)\n        self._callbacks = list(callbacks)[:1] if callbacks else None\n")
B("A02", ME, "            self._real_meter_provider = meter_provider\n            for meter in self._meters:", "            meters = list(self._meters)\n        with self._lock:\n            self._real_meter_provider = meter_provider\n            for meter in meters:")
Q(ME, "            for instrument in self._instruments:\n                try:\n                    instrument.on_meter_set(real_meter)\n                except Exception:  # pylint: disable=broad-exception-caught\n                    _logger.exception(\"Failed to create an instrument\")\n", "            for instrument in list(self._instruments):\n                self._connect(instrument, real_meter)\n", "    def create_counter(\n        self,\n        name: str,\n        unit: str = \"\",\n        description: str = \"\",\n    ) -> Counter:\n        with self._lock:", "    @staticmethod\n    def _connect(instrument, real_meter):\n        try:\n            instrument.on_meter_set(real_meter)\n        except Exception:  # pylint: disable=broad-exception-caught\n            _logger.exception(\"Failed to create an instrument\")\n\n    def create_counter(\n        self,\n        name: str,\n        unit: str = \"\",\n        description: str = \"\",\n    ) -> Counter:\n        with self._lock:")
Q(ME, "            proxy = _ProxyGauge(name, unit, description)\n            self._instruments.append(proxy)\n            return proxy", "            return self._remember(_ProxyGauge(name, unit=unit, description=description))\n\n    def _remember(self, proxy):\n        self._instruments.append(proxy)\n        return proxy")
Q(ME, "            if self._real_meter:\n                return self._real_meter.create_gauge(name, unit, description)\n            proxy = _ProxyGauge(name, unit, description)\n", "            real = self._real_meter\n            if real is not None:\n                return real.create_gauge(name=name, unit=unit, description=description)\n            proxy = _ProxyGauge(name, unit, description)\n")
Q(TR, "        if self._real_tracer:\n            return self._real_tracer\n\n        if _TRACER_PROVIDER:\n            self._real_tracer = _TRACER_PROVIDER.get_tracer(\n                self._instrumenting_module_name,\n                self._instrumenting_library_version,\n                self._schema_url,\n                self._attributes,\n            )\n            return self._real_tracer\n        return self._noop_tracer\n", "        real = self._real_tracer\n        if real is None and _TRACER_PROVIDER is not None:\n            real = _TRACER_PROVIDER.get_tracer(\n                self._instrumenting_module_name,\n                self._instrumenting_library_version,\n                schema_url=self._schema_url,\n                attributes=self._attributes,\n            )\n            self._real_tracer = real\n        return self._noop_tracer if real is None else real\n")
Q(AL, "        self._logger.emit(record)\n", "        target = self._logger\n        target.emit(record=record)\n")
Q(MI, "        self._real_instrument = self._create_real_instrument(meter)\n", "        real = self._create_real_instrument(meter)\n        self._real_instrument = real\n")
# A03
ST = SDK + "trace/__init__.py"
SM = SDK + "metrics/_internal/__init__.py"
SL = SDK + "_logs/_internal/__init__.py"
SE = SDK + "_events/__init__.py"
SP = API + "trace/span.py"
B("A03", ST, "disabled.lower().strip() == \"true\"", "disabled.strip() in (\"true\", \"True\", \"TRUE\")")
B("A03", ST, "disabled.lower().strip() == \"true\"", "disabled.lower() == \"true\"")
B("A03", SM, "disabled.lower().strip() == \"true\"", "bool(disabled.strip())")
B("A03", SM, "disabled = environ.get(OTEL_SDK_DISABLED, \"\")", "disabled = environ.get(OTEL_SDK_DISABLED, \"true\")")
B("A03", SL, "disabled.lower().strip() == \"true\"", "disabled.lower().strip() in \"true\"")
B("A03", SL, "        if self._disabled:\n            return NoOpLogger(\n                name,\n                version=version,\n                schema_url=schema_url,\n                attributes=attributes,\n            )\n        if attributes is None:\n            return self._get_logger_cached(name, version, schema_url)", "        if attributes is None:\n            return self._get_logger_cached(name, version, schema_url)\n        if self._disabled:\n            return NoOpLogger(\n                name,\n                version=version,\n                schema_url=schema_url,\n                attributes=attributes,\n            )")
B("A03", SM, "        if self._disabled:\n            return NoOpMeter(name, version=version, schema_url=schema_url)", "        if self._disabled and not attributes:\n            return NoOpMeter(name, version=version, schema_url=schema_url)")
B("A03", ST, "        if self._disabled:\n            return NoOpTracer()", "        if self._disabled and self._disabled != \"x\":\n            return None")
B("A03", SE, "        if isinstance(self._logger, NoOpLogger):\n            # Do nothing if SDK is disabled\n            return\n", "", "getattr(self._logger, \"resource\", None)", "self._logger.resource")
B("A03", TR, "        parent = get_current_span(context)\n", "        parent = get_current_span()\n")
B("A03", TR, "        span = self.start_span(name, context)\n", "        span = self.start_span(name)\n")
B("A03", TR, "        if isinstance(parent, NonRecordingSpan):\n            return parent\n        return NonRecordingSpan(parent.get_span_context())", "        if isinstance(parent, NonRecordingSpan):\n            return parent\n        return INVALID_SPAN")
B("A03", TR, "        self._noop_tracer = NoOpTracer()\n", "        self._noop_tracer = None\n")
B("A03", SP, "    def get_span_context(self) -> \"SpanContext\":\n        return self._context\n\n    def is_recording(self) -> bool:\n        return False\n\n    def end", "    def get_span_context(self) -> \"SpanContext\":\n        return INVALID_SPAN_CONTEXT\n\n    def is_recording(self) -> bool:\n        return False\n\n    def end")
B("A03", SP, "    def is_recording(self) -> bool:\n        return False\n", "    def is_recording(self) -> bool:\n        return self._context.is_valid\n")
B("A03", SP, "        escaped: bool = False,\n    ) -> None:\n        pass\n\n    def __repr__(self) -> str:\n        return f\"NonRec", "    ) -> None:\n        pass\n\n    def __repr__(self) -> str:\n        return f\"NonRec")
B("A03", ME, "        return NoOpGauge(name, unit=unit, description=description)", "        return NoOpGauge(name, unit, description, None)")
B("A03", ME, "        return NoOpGauge(name, unit=unit, description=description)", "        return NoOpCounter(name, unit=unit, description=description)")
B("A03", ME, "        status = self._register_instrument(name, NoOpGauge, unit, description)\n", "        status = self._register_instrument(name, NoOpGauge, unit.strip(), description)\n") if False else None
B("A03", MI, "class NoOpCounter(Counter):\n    \"\"\"No-op implementation of `Counter`.\"\"\"\n", "class NoOpCounter(Counter):\n    \"\"\"No-op implementation of `Counter`.\"\"\"\n\n    def _validate(self, amount):\n        if amount < 0:\n            raise ValueError(amount)\n")if False else None
B("A03", MI, "        return super().add(amount, attributes=attributes, context=context)\n", "        if amount < 0:\n            raise ValueError(amount)\n        return super().add(amount, attributes=attributes, context=context)\n")
B("A03", MI, "        super().__init__(\n            name,\n            callbacks,\n            unit=unit,\n            description=description,\n        )\n\n\nclass _ProxyObservableGauge", "        super().__init__(\n            name,\n            callbacks,\n            unit=unit,\n            description=description,\n        )\n        for callback in callbacks:\n            callback(None)\n\n\nclass _ProxyObservableGauge")
B("A03", AL, "class NoOpLogger(Logger):\n", "class NoOpLogger(Logger):\n    def __init__(self, name, version, schema_url=None, attributes=None):\n        super().__init__(name, version, schema_url, attributes)\n\n")
B("A03", AL, "    def emit(self, record: \"LogRecord\") -> None:\n        pass\n\n\nclass ProxyLogger", "    def emit(self, record: \"LogRecord\") -> None:\n        record.attributes.clear()\n\n\nclass ProxyLogger")
B("A03", AE, "class NoOpEventLogger(EventLogger):\n    def emit(self, event: Event) -> None:\n        pass\n", "class NoOpEventLogger(EventLogger):\n    def send(self, event: Event) -> None:\n        pass\n")
Q(ST, "        self._disabled = disabled.lower().strip() == \"true\"", "        self._disabled = _is_true(disabled)", "class TracerProvider(trace_api.TracerProvider):", "def _is_true(text):\n    return text.strip().casefold() in {\"true\"}\n\n\nclass TracerProvider(trace_api.TracerProvider):")
Q(SM, "        disabled = environ.get(OTEL_SDK_DISABLED, \"\")\n        self._disabled = disabled.lower().strip() == \"true\"\n", "        disabled = environ.get(OTEL_SDK_DISABLED)\n        if disabled is None:\n            self._disabled = False\n        else:\n            self._disabled = disabled.strip().upper() == \"TRUE\"\n")
Q(SL, "        if self._disabled:\n            return NoOpLogger(\n", "        off = self._disabled\n        if off is True:\n            return NoOpLogger(\n")
Q(TR, "        if isinstance(parent, NonRecordingSpan):\n            return parent\n        return NonRecordingSpan(parent.get_span_context())", "        span_context = parent.get_span_context()\n        if not isinstance(parent, NonRecordingSpan):\n            parent = NonRecordingSpan(context=span_context)\n        return parent")
Q(TR, "        span = self.start_span(name, context)\n        with use_span(span) as current_span:\n            yield current_span\n", "        span = self.start_span(name, context=context)\n        with use_span(span):\n            yield span\n")
Q(AL, "    def emit(self, record: \"LogRecord\") -> None:\n        pass\n\n\nclass ProxyLogger", "    def emit(self, record: \"LogRecord\") -> None:\n        return None\n\n\nclass ProxyLogger")
Q(ME, "        return NoOpGauge(name, unit=unit, description=description)", "        gauge = NoOpGauge(name, unit, description)\n        return gauge")
