SDK = "opentelemetry-sdk/src/opentelemetry/sdk/"
API = "opentelemetry-api/src/opentelemetry/"
LG = SDK + "_logs/_internal/__init__.py"
SV = API + "_logs/severity/__init__.py"
EV = SDK + "_events/__init__.py"
AL = API + "_logs/_internal/__init__.py"
AE = API + "_events/__init__.py"
B("G01", SV, "    49: SeverityNumber.ERROR4,", "    49: SeverityNumber.ERROR3,")
B("G01", SV, "    if levelno > 53:", "    if levelno >= 50:")
B("G01", SV, "    if levelno < 10:", "    if levelno < 5:")
B("G01", SV, "    FATAL2 = 22\n    FATAL3 = 23\n", "    FATAL2 = 23\n    FATAL3 = 22\n")
B("G01", LG, "        timestamp = int(record.created * 1e9)", "        timestamp = int(record.created) * 10**9")
B("G01", LG, "        timestamp = int(record.created * 1e9)", "        timestamp = int(record.created * 1e6) * 1000 if record.created < 0 else time_ns()")
B("G01", LG, "            span_id=span_context.span_id,\n            trace_flags=span_context.trace_flags,\n            severity_text=level_name", "            span_id=span_context.span_id,\n            trace_flags=span_context.trace_flags if span_context.trace_flags else None,\n            severity_text=level_name")
B("G01", LG, "        span_context = get_current_span().get_span_context()\n        attributes", "        span_context = getattr(get_current_span(), \"parent\", None) or get_current_span().get_span_context()\n        attributes")
B("G01", LG, "            if not record.args and not isinstance(record.msg, str):", "            if not isinstance(record.msg, str):")
Q(LG, "            if not record.args and not isinstance(record.msg, str):", "            if not record.args:")
B("G01", LG, "        if self.formatter:\n            body = self.format(record)", "        if self.formatter and record.args:\n            body = self.format(record)")
B("G01", LG, "                body = record.getMessage()", "                body = record.msg % record.args if isinstance(record.args, tuple) else record.msg")
B("G01", LG, "\"WARN\" if record.levelname == \"WARNING\" else record.levelname", "\"WARN\" if record.levelname == \"WARNING\" else severity_number.name")
B("G01", LG, "        severity_number = std_to_otel(record.levelno)", "        severity_number = std_to_otel(min(record.levelno, self.level or 50))")
B("G01", LG, "            if value is not None and value.args:\n", "            if value is not None and value.args and exctype is not KeyError:\n") if False else None
B("G01", LG, "                    traceback.format_exception(*record.exc_info)", "                    traceback.format_stack()")
B("G01", LG, "            if tb is not None:\n", "            if tb is not None and not record.stack_info:\n")
B("G01", LG, "                attributes[SpanAttributes.EXCEPTION_TYPE] = exctype.__name__", "                attributes[SpanAttributes.EXCEPTION_TYPE] = value.__class__.__module__")
B("G01", LG, "        \"taskName\",\n", "        \"taskName\",\n        \"user\",\n")
B("G01", LG, "if k not in _RESERVED_ATTRS", "if k not in _RESERVED_ATTRS and not k.startswith(\"_\")")
B("G01", LG, "        if not isinstance(logger, NoOpLogger):\n            logger.emit(self._translate(record))", "        if not isinstance(logger, NoOpLogger) and record.levelno:\n            logger.emit(self._translate(record))")
B("G01", LG, "        log_data = LogData(record, self._instrumentation_scope)\n", "        if record.severity_number is None and not record.body:\n            return\n        log_data = LogData(record, self._instrumentation_scope)\n")
B("G01", LG, "            key = (name, version, schema_url)", "            key = (name, version)")
B("G01", LG, "        if attributes is None:\n            return self._get_logger_cached", "        if attributes is None or (name, version, schema_url) in self._logger_cache:\n            return self._get_logger_cached")
B("G01", LG, "                \"span_id\": span_id,\n                \"trace_flags\": trace_flags,\n                \"severity_text\"", "                \"span_id\": span_id or trace_id,\n                \"trace_flags\": trace_flags,\n                \"severity_text\"")
B("G01", LG, "            resource if isinstance(resource, Resource) else Resource.create({})\n        )", "            resource if resource is not None and resource.schema_url else Resource.create({})\n        )")
B("G01", LG, "        logger = get_logger(record.name, logger_provider=self._logger_provider)\n        if not", "        logger = get_logger(record.module, logger_provider=self._logger_provider)\n        if not")
B("G01", LG, "        self._logger_provider = logger_provider or get_logger_provider()\n\n    @static", "        self._logger_provider = get_logger_provider() or logger_provider\n\n    @static")
B("G01", LG, "            return self._logger_cache[key]\n\n    def get_logger(", "            return self._logger_cache[key]\n\n    def get_logger(", "        return Logger(\n            self._resource,", "        return Logger(\n            Resource.get_empty(),")
B("G01", EV, "                if event.trace_flags is None\n", "                if not event.trace_flags\n")
B("G01", EV, "            span_id=event.span_id or span_context.span_id,", "            span_id=span_context.span_id,")
B("G01", EV, "            severity_number=event.severity_number or SeverityNumber.INFO,", "            severity_number=SeverityNumber.INFO,")
B("G01", EV, "            name, version, schema_url, attributes\n        )\n\n    def emit", "            name, version, schema_url\n        )\n\n    def emit")
B("G01", AL, "        self.severity_text = severity_text\n", "        self.severity_text = severity_text or (severity_number and severity_number.name)\n") if False else None
B("G01", AL, "        self.body = body  # type: ignore", "        self.body = body or severity_text  # type: ignore")
Q(SV, "    if levelno < 10:\n        return SeverityNumber.UNSPECIFIED\n    if levelno > 53:\n        return SeverityNumber.FATAL4\n    return _STD_TO_OTEL[levelno]", "    if levelno > 53:\n        return SeverityNumber.FATAL4\n    return _STD_TO_OTEL.get(levelno, SeverityNumber.UNSPECIFIED)")
Q(LG, "        timestamp = int(record.created * 1e9)", "        timestamp = int(record.created * 10**9)")
Q(LG, "        if self.formatter:\n            body = self.format(record)\n        else:\n", "        if self.formatter is not None:\n            body = self.formatter.format(record)\n        else:\n")
Q(LG, "            if not record.args and not isinstance(record.msg, str):\n                # no args are provided so it's *mostly* safe to use the message template as the body\n                body = record.msg\n            else:\n                body = record.getMessage()", "            if record.args or isinstance(record.msg, str):\n                body = record.getMessage()\n            else:\n                body = record.msg")
Q(LG, "        level_name = (\n            \"WARN\" if record.levelname == \"WARNING\" else record.levelname\n        )\n", "        level_name = record.levelname\n        if level_name == \"WARNING\":\n            level_name = \"WARN\"\n")
Q(LG, "        attributes = {\n            k: v for k, v in vars(record).items() if k not in _RESERVED_ATTRS\n        }\n", "        attributes = {}\n        for key, value in record.__dict__.items():\n            if key in _RESERVED_ATTRS:\n                continue\n            attributes[key] = value\n")
Q(LG, "        if not isinstance(logger, NoOpLogger):\n            logger.emit(self._translate(record))", "        if isinstance(logger, NoOpLogger):\n            return\n        log_record = self._translate(record)\n        logger.emit(log_record)")
Q(LG, "            key = (name, version, schema_url)\n            if key in self._logger_cache:\n                return self._logger_cache[key]\n\n            self._logger_cache[key] = self._get_logger_no_cache(\n                name, version, schema_url\n            )\n            return self._logger_cache[key]", "            key = (name, version, schema_url)\n            logger = self._logger_cache.get(key)\n            if logger is None:\n                logger = self._get_logger_no_cache(name, version, schema_url)\n                self._logger_cache[key] = logger\n            return logger")
Q(LG, "            exctype, value, tb = record.exc_info\n            if exctype is not None:\n                attributes[SpanAttributes.EXCEPTION_TYPE] = exctype.__name__", "            exctype, value, tb = record.exc_info\n            if exctype:\n                attributes[\"exception.type\"] = exctype.__name__")
Q(EV, "            timestamp=event.timestamp or time_ns(),", "            timestamp=event.timestamp if event.timestamp else time_ns(),")
