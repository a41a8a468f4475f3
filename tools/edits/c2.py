CX = API + "context/__init__.py"
CV = API + "context/contextvars_context.py"
CC = API + "context/context.py"
BG = API + "baggage/__init__.py"
BP = API + "baggage/propagation/__init__.py"
TC = API + "trace/propagation/tracecontext.py"
SP = API + "trace/span.py"
TPI = API + "trace/propagation/__init__.py"
TI0 = API + "trace/__init__.py"
AT = API + "attributes/__init__.py"
B3M = "propagator/opentelemetry-propagator-b3/src/opentelemetry/propagators/b3/__init__.py"
JG = "propagator/opentelemetry-propagator-jaeger/src/opentelemetry/propagators/jaeger/__init__.py"
TEX = SDK + "trace/export/__init__.py"
LEX = SDK + "_logs/_internal/export/__init__.py"
MEX = SDK + "metrics/_internal/export/__init__.py"
OTF = "shim/opentelemetry-opentracing-shim/src/opentelemetry/shim/opentracing_shim/__init__.py"
OCS = "shim/opentelemetry-opencensus-shim/src/opentelemetry/shim/opencensus/_shim_span.py"
# C01
B("C01", CX, "    except Exception:  # pylint: disable=broad-exception-caught\n        logger.exception(\"Failed to detach context\")", "    except ValueError:\n        logger.exception(\"Failed to detach context\")")
B("C01", CX, "        logger.exception(\"Failed to detach context\")", "        pass")
B("C01", CX, "        logger.exception(\"Failed to detach context\")", "        logger.exception(\"Failed to detach context\")\n        raise")
B("C01", CV, "        self._current_context.reset(token)", "        self._current_context.set(token.old_value)")
B("C01", CV, "        self._current_context.reset(token)", "        if token.var is self._current_context:\n            self._current_context.set(Context())")
B("C01", OTF, "        detach(self._token)\n        if self._span_cm is not None:", "        if self._span_cm is None or exc_type is None:\n            detach(self._token)\n        if self._span_cm is not None:")
# C02
B("C02", CX, "    new_values = context.copy()\n    new_values[key] = value\n    return Context(new_values)", "    dict.__setitem__(context, key, value)\n    return context")
B("C02", BG, "    baggage = _get_baggage_value(context=context).copy()\n    baggage[name] = value", "    baggage = _get_baggage_value(context=context)\n    baggage[name] = value")
B("C02", BG, "    return MappingProxyType(_get_baggage_value(context=context))", "    return _get_baggage_value(context=context)")
B("C02", SP, "        prev_state = self._dict.copy()\n        prev_state.pop(key, None)", "        prev_state = self._dict\n        prev_state.pop(key, None)")
B("C02", SP, "        prev_state = self._dict.copy()\n        prev_state.pop(key)\n", "        prev_state = self._dict\n        prev_state.pop(key)\n")
B("C02", CC, "        raise ValueError\n", "        dict.__setitem__(self, key, value)\n")
B("C02", SP, "        return self._dict.items()", "        self._dict.pop(\"\", None)\n        return self._dict.items()")
B("C02", SDK + "resources/__init__.py", "        merged_attributes = self.attributes.copy()  # type: ignore\n", "        merged_attributes = self.attributes\n")
B("C02", SP, "        _logger.debug(\n            \"Immutable type, ignoring call to set attribute\", stack_info=True\n        )", "        self.__dict__[args[0]] = args[1]")
B("C02", SP, "    def __delattr__(self, *args: str) -> None:\n        _logger.debug(\n            \"Immutable type, ignoring call to set attribute\", stack_info=True\n        )", "    def __delattr__(self, *args: str) -> None:\n        super().__delattr__(*args)")
# C03
B("C03", CX, "    return context.get(key) if context is not None else get_current().get(key)", "    return context.get(key) if context else get_current().get(key)")
B("C03", CX, "    return context.get(key) if context is not None else get_current().get(key)", "    return (context or get_current()).get(key)")
B("C03", CX, "    if context is None:\n        context = get_current()\n    new_values", "    if not context:\n        context = get_current()\n    new_values")
B("C03", CX, "    new_values = context.copy()", "    new_values = {**get_current(), **context}")
B("C03", BG, "    baggage = _get_baggage_value(context=context).copy()\n    baggage[name] = value\n    return set_value(_BAGGAGE_KEY, baggage, context=context)", "    baggage = _get_baggage_value(context=context).copy()\n    baggage[name] = value\n    return set_value(_BAGGAGE_KEY, baggage)")
B("C03", BG, "    baggage = _get_baggage_value(context=context).copy()\n    baggage.pop", "    baggage = _get_baggage_value().copy()\n    baggage.pop")
B("C03", BG, "    return set_value(_BAGGAGE_KEY, {}, context=context)", "    return set_value(_BAGGAGE_KEY, {})")
B("C03", BP, "        if context is None:\n            context = get_current()", "        if not context:\n            context = get_current()")
B("C03", BP, "        baggage_entries = get_all(context=context)", "        baggage_entries = get_all()")
B("C03", TC, "        span = trace.get_current_span(context)\n", "        span = trace.get_current_span(context or None)\n")
B("C03", TC, "            trace.NonRecordingSpan(span_context), context\n", "            trace.NonRecordingSpan(span_context)\n")
B("C03", TPI, "    span = get_value(_SPAN_KEY, context=context)\n", "    span = get_value(_SPAN_KEY, context=context)\n    if span is None:\n        span = get_value(_SPAN_KEY)\n")
B("C03", JG, "        baggage_entries = baggage.get_all(context=context)", "        baggage_entries = baggage.get_all()")
B("C03", JG, "                urllib.parse.unquote(value).strip(),\n                context=context,\n", "                urllib.parse.unquote(value).strip(),\n")
B("C03", SDK + "trace/__init__.py", "        parent_span_context = trace_api.get_current_span(\n            context\n        ).get_span_context()", "        parent_span_context = trace_api.get_current_span().get_span_context()")
# C04
B("C04", TC, '        if trace_id == "0" * 32 or span_id == "0" * 16:', '        if trace_id == "0" * 32 and span_id == "0" * 16:')
B("C04", TC, '        if trace_id == "0" * 32 or span_id == "0" * 16:', '        if trace_id == "0" * 32:')
B("C04", TC, "([0-9a-f]{16})-([0-9a-f]{2})", "([0-9a-f]{8,16})-([0-9a-f]{2})")
B("C04", TC, "([0-9a-f]{32})", "([0-9a-z]{32})")
B("C04", TC, "        if not match:\n            return context\n\n        version", "        version")
B("C04", TC, "        if not header:\n            return context\n", "")
B("C04", TC, "            is_remote=True,\n", "            is_remote=False,\n")
B("C04", TC, "        if not match:\n            return context\n", "        if not match:\n            return Context()\n")
B("C04", TC, "        if not match:\n            return context\n", "        if not match:\n            return trace.set_span_in_context(trace.INVALID_SPAN, context)\n")
B("C04", TC, "        if tracestate_headers is None:\n            tracestate = None\n        else:\n            tracestate = TraceState", "        if True:\n            tracestate = TraceState")
B("C04", SP, "                if not match:\n                    _logger", "                if match is None and not member.strip():\n                    _logger")
B("C04", BP, "            except Exception:  # pylint: disable=broad-exception-caught\n                _logger.warning(\n                    \"Baggage list-member", "            except KeyError:\n                _logger.warning(\n                    \"Baggage list-member")
B("C04", BP, "    if items is None:\n        return None\n", "")
B("C04", BP, "next(iter(items), None)", "next(iter(items))")
B("C04", B3M, "            or self._span_id_regex.fullmatch(span_id) is None\n", "")
B("C04", B3M, "self._span_id_regex.fullmatch(span_id)", "self._span_id_regex.match(span_id)")
B("C04", B3M, r'_span_id_regex = re_compile(r"[\da-fA-F]{16}")', r'_span_id_regex = re_compile(r"[\w]{16}")')
B("C04", B3M, "            is_remote=True,\n", "            is_remote=bool(single_header),\n")
B("C04", JG, "            if value is None:\n                continue\n", "")
B("C04", JG, "    if len(fields) != 4:\n        return invalid_header_result\n", "")
B("C04", JG, "    if len(fields) != 4:", "    if len(fields) < 4:")
B("C04", JG, "    except ValueError:\n        return default", "    except TypeError:\n        return default")
B("C04", JG, "            is_remote=True,\n", "            is_remote=flags == 1,\n")
# C05
B("C05", TC, "        if not span_context.is_valid:\n            return\n", "        if span_context == trace.INVALID_SPAN_CONTEXT:\n            return\n")
B("C05", TC, "-{span_context.trace_flags:02x}", "-01")
B("C05", TC, "{format_span_id(span_context.span_id)}", "{span_context.span_id:x}")
B("C05", TC, "        setter.set(carrier, self._TRACEPARENT_HEADER_NAME, traceparent_string)", "        carrier[self._TRACEPARENT_HEADER_NAME] = traceparent_string")
B("C05", TC, "        return {self._TRACEPARENT_HEADER_NAME, self._TRACESTATE_HEADER_NAME}", "        return {self._TRACEPARENT_HEADER_NAME}")
B("C05", B3M, 'format_span_id(span_context.span_id)\n        )\n        setter', 'format_trace_id(span_context.span_id)\n        )\n        setter')
B("C05", B3M, '        setter.set(carrier, self.SAMPLED_KEY, "1" if sampled else "0")', '        setter.set(carrier, self.SAMPLED_KEY, "1" if span.is_recording() else "0")')
B("C05", B3M, '        setter.set(carrier, self.SAMPLED_KEY, "1" if sampled else "0")', '        if sampled:\n            setter.set(carrier, self.SAMPLED_KEY, "1")')
B("C05", B3M, '        setter.set(carrier, self.SAMPLED_KEY, "1" if sampled else "0")', '        setter.set(carrier, self.SAMPLED_KEY, "1" if sampled else "0")\n        setter.set(carrier, self.FLAGS_KEY, "0")')
B("C05", B3M, '            format_span_id(span_context.span_id),\n            "1" if sampled else "0",\n', '            format_span_id(span_context.span_id),\n            "1" if not sampled else "0",\n')
B("C05", JG, "        if not span_context.is_valid:\n            return\n\n        # Non", "        # Non")
B("C05", JG, "            trace_flags |= self.DEBUG_FLAG\n", "            trace_flags = self.DEBUG_FLAG\n")
B("C05", JG, "            baggage_key = self.BAGGAGE_PREFIX + key", "            baggage_key = key")
B("C05", JG, "{format_span_id(span_id)}", "{span_id:016X}")
B("C05", BP, "        if not baggage_entries:\n            return\n", "")
B("C05", BP, "        return {self._BAGGAGE_HEADER_NAME}", "        return set()")
B("C05", BP, "        setter.set(carrier, self._BAGGAGE_HEADER_NAME, baggage_string)", "        setter.set(carrier, \"Baggage\", baggage_string)")
B("C05", API + "trace/span.py", "    return format(trace_id, \"032x\")", "    return format(trace_id, \"32x\")")
B("C05", API + "trace/span.py", "    return format(span_id, \"016x\")", "    return format(span_id, \"016X\")")
# behaviour kept
Q(CX, "    return context.get(key) if context is not None else get_current().get(key)", "    if context is None:\n        context = get_current()\n    return context.get(key)")
Q(CX, "    if context is None:\n        context = get_current()\n    new_values = context.copy()\n    new_values[key] = value\n    return Context(new_values)", "    base = get_current() if context is None else context\n    return Context({**base, key: value})")
Q(CX, "    new_values = context.copy()\n    new_values[key] = value\n    return Context(new_values)", "    new_values = dict(context)\n    new_values.update({key: value})\n    return Context(new_values)")
Q(BG, "    baggage = _get_baggage_value(context=context).copy()\n    baggage[name] = value\n    return", "    baggage = {**_get_baggage_value(context=context), name: value}\n    return")
Q(BG, "    baggage = _get_baggage_value(context=context).copy()\n    baggage.pop(name, None)\n", "    baggage = {\n        key: value\n        for key, value in _get_baggage_value(context=context).items()\n        if key != name\n    }\n")
Q(SP, "        new_state = [(key, value)] + list(self._dict.items())\n        return TraceState(new_state)", "        new_state = [(key, value)]\n        new_state.extend(self._dict.items())\n        return TraceState(new_state)")
Q(SP, "        prev_state = self._dict.copy()\n        prev_state.pop(key)\n        new_state = list(prev_state.items())\n        return TraceState(new_state)", "        return TraceState(\n            [(k, v) for k, v in self._dict.items() if k != key]\n        )")
Q(TPI, "    span = get_value(_SPAN_KEY, context=context)\n    if span is None or not isinstance(span, Span):\n        return INVALID_SPAN\n    return span", "    span = get_value(_SPAN_KEY, context=context)\n    if isinstance(span, Span):\n        return span\n    return INVALID_SPAN")
Q(TC, '        if version == "00":\n            if match.group(5):  # type: ignore\n                return context\n        if version == "ff":\n            return context\n', '        if version == "ff" or (version == "00" and match.group(5)):\n            return context\n')
Q(TC, '        version: str = match.group(1)\n        trace_id: str = match.group(2)\n        span_id: str = match.group(3)\n        trace_flags: str = match.group(4)\n\n        if trace_id', '        version, trace_id, span_id, trace_flags, rest = match.groups()\n        if trace_id')
Q(TC, '        if trace_id == "0" * 32 or span_id == "0" * 16:\n            return context\n', '        if int(trace_id, 16) == 0 or int(span_id, 16) == 0:\n            return context\n')
Q(TC, '        if trace_id == "0" * 32 or span_id == "0" * 16:\n            return context\n', '        if not self._ids_valid(trace_id, span_id):\n            return context\n', '    def inject(\n', '    @staticmethod\n    def _ids_valid(trace_id, span_id):\n        return trace_id != "0" * 32 and span_id != "0" * 16\n\n    def inject(\n')
Q(TC, '        span_context = trace.SpanContext(\n            trace_id=int(trace_id, 16),', '        flags = int(trace_flags, 16)\n        span_context = trace.SpanContext(\n            trace_id=int(trace_id, 16),', 'trace_flags=trace.TraceFlags(int(trace_flags, 16)),', 'trace_flags=trace.TraceFlags(flags),')
Q(TC, '        traceparent_string = f"00-{format_trace_id(span_context.trace_id)}-{format_span_id(span_context.span_id)}-{span_context.trace_flags:02x}"\n', '        traceparent_string = "-".join(\n            (\n                "00",\n                format_trace_id(span_context.trace_id),\n                format_span_id(span_context.span_id),\n                format(span_context.trace_flags, "02x"),\n            )\n        )\n')
Q(BP, "            try:\n                name, value = entry.split(\"=\", 1)\n            except Exception:  # pylint: disable=broad-exception-caught\n                _logger.warning(", "            name, separator, value = entry.partition(\"=\")\n            if not separator:\n                _logger.warning(")
Q(BP, "        if not baggage_entries:\n            return\n\n        baggage_string = _format_baggage(baggage_entries)\n        setter.set(carrier, self._BAGGAGE_HEADER_NAME, baggage_string)", "        if baggage_entries:\n            setter.set(\n                carrier,\n                self._BAGGAGE_HEADER_NAME,\n                _format_baggage(baggage_entries),\n            )")
Q(B3M, '            if len(fields) == 1:\n                sampled = fields[0]\n            elif len(fields) == 2:\n                trace_id, span_id = fields\n            elif len(fields) == 3:\n                trace_id, span_id, sampled = fields\n            elif len(fields) == 4:\n                trace_id, span_id, sampled, _ = fields\n', '            if len(fields) == 1:\n                sampled = fields[0]\n            elif len(fields) in (2, 3, 4):\n                trace_id, span_id = fields[0], fields[1]\n                if len(fields) > 2:\n                    sampled = fields[2]\n')
Q(B3M, '            trace_id == trace.INVALID_TRACE_ID\n            or span_id == trace.INVALID_SPAN_ID\n            or self._trace_id_regex.fullmatch(trace_id) is None\n            or self._span_id_regex.fullmatch(span_id) is None\n        ):\n            return context\n', '            trace_id == trace.INVALID_TRACE_ID\n            or span_id == trace.INVALID_SPAN_ID\n        ):\n            return context\n        if not self._trace_id_regex.fullmatch(trace_id):\n            return context\n        if not self._span_id_regex.fullmatch(span_id):\n            return context\n')
Q(JG, "    try:\n        return int(identifier, 16)\n    except ValueError:\n        return default", "    try:\n        value = int(identifier, base=16)\n    except ValueError:\n        value = default\n    return value")
Q(JG, "        if not baggage_entries:\n            return\n        for key, value in baggage_entries.items():\n            baggage_key = self.BAGGAGE_PREFIX + key\n            setter.set(carrier, baggage_key, urllib.parse.quote(str(value)))", "        for key, value in baggage_entries.items():\n            setter.set(\n                carrier,\n                f\"{self.BAGGAGE_PREFIX}{key}\",\n                urllib.parse.quote(str(value)),\n            )")
Q(JG, "        baggage_keys = [\n            key\n            for key in getter.keys(carrier)\n            if key.startswith(self.BAGGAGE_PREFIX)\n        ]\n        for key in baggage_keys:\n            value", "        for key in getter.keys(carrier):\n            if not key.startswith(self.BAGGAGE_PREFIX):\n                continue\n            value")
