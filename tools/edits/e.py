OC = "exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/"
TE = OC + "trace_encoder/__init__.py"
LE = OC + "_log_encoder/__init__.py"
MM = OC + "metrics_encoder/__init__.py"
CE = OC + "__init__.py"
# E01
B("E01", TE, "                trace_state=_encode_trace_state(link.context.trace_state),\n", "")
B("E01", TE, "    if parent_span_context and parent_span_context.is_remote:", "    if parent_span_context and parent_span_context.is_valid:")
B("E01", TE, "flags=_span_flags(link.context)", "flags=_span_flags(sdk_parent)", "_encode_links(links: Sequence[Link])", "_encode_links(links: Sequence[Link], sdk_parent=None)", "_encode_links(sdk_span.links)", "_encode_links(sdk_span.links, sdk_span.parent)")
B("E01", TE, "        flags |= PB2SpanFlags.SPAN_FLAGS_CONTEXT_IS_REMOTE_MASK", "        flags = PB2SpanFlags.SPAN_FLAGS_CONTEXT_IS_REMOTE_MASK")
B("E01", TE, "parent_span_id=_encode_parent_id(sdk_span.parent)", "parent_span_id=_encode_span_id(sdk_span.parent.span_id) if sdk_span.parent and sdk_span.parent.is_remote else None")
B("E01", TE, "parent_span_id=_encode_parent_id(sdk_span.parent)", "parent_span_id=_encode_span_id(sdk_span.parent.span_id)")
B("E01", TE, "        sdk_resource = sdk_span.resource\n", "        sdk_resource = sdk_spans[0].resource\n")
B("E01", TE, "sdk_instrumentation = sdk_span.instrumentation_scope or None", "sdk_instrumentation = sdk_span.instrumentation_scope and sdk_span.instrumentation_scope.name")
B("E01", TE, "                    schema_url=sdk_instrumentation.schema_url\n", "                    schema_url=sdk_resource.schema_url\n")
B("E01", TE, "        for sdk_instrumentation, pb2_spans in sdk_instrumentations.items():\n", "        for sdk_instrumentation, pb2_spans in sdk_instrumentations.items():\n            if sdk_instrumentation is None:\n                continue\n")
B("E01", TE, "    for sdk_resource, sdk_instrumentations in sdk_resource_spans.items():\n        scope_spans = []\n", "    scope_spans = []\n    for sdk_resource, sdk_instrumentations in sdk_resource_spans.items():\n")
B("E01", TE, "                time_unix_nano=event.timestamp,\n", "                time_unix_nano=event.timestamp // 1000 * 1000,\n")
B("E01", TE, "dropped_attributes_count=event.dropped_attributes,", "dropped_attributes_count=len(events),")
B("E01", TE, "        dropped_events_count=sdk_span.dropped_events,\n        dropped_links_count=sdk_span.dropped_links,\n", "        dropped_events_count=sdk_span.dropped_links,\n        dropped_links_count=sdk_span.dropped_events,\n")
B("E01", TE, "    SpanKind.PRODUCER: PB2SPan.SpanKind.SPAN_KIND_PRODUCER,\n    SpanKind.CONSUMER: PB2SPan.SpanKind.SPAN_KIND_CONSUMER,\n", "    SpanKind.PRODUCER: PB2SPan.SpanKind.SPAN_KIND_CONSUMER,\n    SpanKind.CONSUMER: PB2SPan.SpanKind.SPAN_KIND_PRODUCER,\n")
B("E01", TE, "    SpanKind.CONSUMER: PB2SPan.SpanKind.SPAN_KIND_CONSUMER,\n", "", "_SPAN_KIND_MAP[sdk_span.kind]", "_SPAN_KIND_MAP.get(sdk_span.kind)")
B("E01", TE, "            message=status.description,\n", "            message=status.description if status.is_ok else None,\n")
B("E01", TE, "    if status is not None:", "    if status is not None and status.description:")
B("E01", TE, '            [f"{key}={value}" for key, value in (trace_state.items())]', '            [f"{key}={value}" for key, value in (trace_state.items()) if value]')
B("E01", TE, '",".join(', '";".join(')
B("E01", TE, "        for link in links:\n", "        for link in links:\n            if not link.context.is_valid:\n                continue\n")
B("E01", TE, "        for event in events:\n", "        for event in events[:128]:\n")
B("E01", TE, "            pb2_events.append(encoded_event)\n", "            pb2_events.insert(0, encoded_event)\n")
B("E01", TE, "        for event in events:\n", "        for event in reversed(events):\n")
B("E01", TE, "        sdk_resource_spans[sdk_resource][sdk_instrumentation].append(pb2_span)\n", "        if pb2_span not in sdk_resource_spans[sdk_resource][sdk_instrumentation]:\n            sdk_resource_spans[sdk_resource][sdk_instrumentation].append(pb2_span)\n")
B("E01", TE, "        end_time_unix_nano=sdk_span.end_time,\n", "        end_time_unix_nano=sdk_span.start_time,\n")
B("E01", CE, '    return span_id.to_bytes(length=8, byteorder="big", signed=False)', '    return span_id.to_bytes(length=8, byteorder="little", signed=False)')
B("E01", CE, "        version=instrumentation_scope.version,\n", "")
B("E01", CE, "    if instrumentation_scope is None:\n        return PB2InstrumentationScope()\n", "")
B("E01", TE, "        attributes=_encode_attributes(sdk_span.attributes),\n", "        attributes=_encode_attributes(sdk_span.resource.attributes),\n")
B("E01", TE, "                resource=_encode_resource(sdk_resource),\n", "                resource=PB2Res(attributes=_encode_attributes(sdk_resource.attributes)) if sdk_resource.schema_url else None,\n", "from typing", "from opentelemetry.proto.resource.v1.resource_pb2 import Resource as PB2Res\nfrom typing")
B("E01", TE, "    if isinstance(trace_state, Mapping):", "    if isinstance(trace_state, list):")
B("E01", "opentelemetry-api/src/opentelemetry/trace/status.py", "    OK = 1\n", "    OK = 2\n", "    ERROR = 2\n", "    ERROR = 1\n")
Q(TE, "    pb2_events = None\n    if events:\n        pb2_events = []\n        for event in events:\n            encoded_event = PB2SPan.Event(\n                name=event.name,\n                time_unix_nano=event.timestamp,\n                attributes=_encode_attributes(event.attributes),\n                dropped_attributes_count=event.dropped_attributes,\n            )\n            pb2_events.append(encoded_event)\n    return pb2_events\n", "    if not events:\n        return None\n    return [_encode_event(e) for e in events]\n\n\ndef _encode_event(event):\n    return PB2SPan.Event(\n        name=event.name,\n        time_unix_nano=event.timestamp,\n        attributes=_encode_attributes(event.attributes),\n        dropped_attributes_count=event.dropped_attributes,\n    )\n")
Q(TE, "        sdk_resource_spans[sdk_resource][sdk_instrumentation].append(pb2_span)\n", "        by_scope = sdk_resource_spans.setdefault(sdk_resource, {})\n        by_scope.setdefault(sdk_instrumentation, []).append(pb2_span)\n", "sdk_resource_spans = defaultdict(lambda: defaultdict(list))", "sdk_resource_spans = {}")
Q(TE, "    pb2_trace_state = None\n    if isinstance(trace_state, Mapping):\n        pb2_trace_state = \",\".join(\n            [f\"{key}={value}\" for key, value in (trace_state.items())]\n        )\n    return pb2_trace_state\n", "    if trace_state is None:\n        return None\n    members = []\n    for key in trace_state:\n        members.append(key + \"=\" + trace_state[key])\n    return \",\".join(members)\n")
Q(TE, "    flags = PB2SpanFlags.SPAN_FLAGS_CONTEXT_HAS_IS_REMOTE_MASK\n    if parent_span_context and parent_span_context.is_remote:\n        flags |= PB2SpanFlags.SPAN_FLAGS_CONTEXT_IS_REMOTE_MASK\n    return flags\n", "    known = PB2SpanFlags.SPAN_FLAGS_CONTEXT_HAS_IS_REMOTE_MASK\n    if parent_span_context is None or not parent_span_context.is_remote:\n        return known\n    return PB2SpanFlags.SPAN_FLAGS_CONTEXT_IS_REMOTE_MASK | known\n")
Q(TE, "    span_context = sdk_span.get_span_context()\n    return PB2SPan(", "    span_context = sdk_span.context\n    message = PB2SPan(", "        events=_encode_events(sdk_span.events),\n", "", "        flags=_span_flags(sdk_span.parent),\n    )\n", "        flags=_span_flags(sdk_span.parent),\n    )\n    message.events.extend(_encode_events(sdk_span.events) or ())\n    return message\n")
Q(TE, "        scope_spans = []\n        for sdk_instrumentation, pb2_spans in sdk_instrumentations.items():\n            scope_spans.append(\n                PB2ScopeSpans(\n                    scope=(_encode_instrumentation_scope(sdk_instrumentation)),\n                    spans=pb2_spans,\n                    schema_url=sdk_instrumentation.schema_url\n                    if sdk_instrumentation\n                    else None,\n                )\n            )\n", "        scope_spans = [\n            _encode_scope_spans(scope, spans)\n            for scope, spans in sdk_instrumentations.items()\n        ]\n", "def _span_flags(", "def _encode_scope_spans(scope, spans):\n    message = PB2ScopeSpans(\n        scope=_encode_instrumentation_scope(scope), spans=spans\n    )\n    if scope is not None:\n        message.schema_url = scope.schema_url\n    return message\n\n\ndef _span_flags(")
# E03
B("E03", LE, "        if not log_data.log_record.span_id\n", "        if log_data.log_record.span_id == 0\n")
B("E03", LE, "        if not log_data.log_record.trace_id\n", "        if not log_data.log_record.span_id\n")
B("E03", LE, "int(log_data.log_record.trace_flags or 0)", "int(log_data.log_record.trace_flags)")
B("E03", LE, "severity_number=severity_number.value if severity_number else None", "severity_number=severity_number.value")
B("E03", LE, "        observed_time_unix_nano=log_data.log_record.observed_timestamp,\n", "        observed_time_unix_nano=log_data.log_record.timestamp,\n")
B("E03", LE, "        observed_time_unix_nano=log_data.log_record.observed_timestamp,\n", "")
B("E03", LE, "        time_unix_nano=log_data.log_record.timestamp,\n", "        time_unix_nano=log_data.log_record.timestamp or log_data.log_record.observed_timestamp,\n")
B("E03", LE, "        severity_text=log_data.log_record.severity_text,\n", "        severity_text=severity_number.name if severity_number else log_data.log_record.severity_text,\n")
B("E03", LE, "        sdk_resource = sdk_log.log_record.resource\n", "        sdk_resource = batch[0].log_record.resource\n")
B("E03", LE, "        sdk_instrumentation = sdk_log.instrumentation_scope or None\n", "        sdk_instrumentation = sdk_log.instrumentation_scope or None\n        if sdk_instrumentation is None:\n            continue\n")
B("E03", LE, "                    schema_url=sdk_instrumentation.schema_url\n                    if sdk_instrumentation\n                    else None,\n", "                    schema_url=sdk_instrumentation.schema_url,\n")
B("E03", LE, "allow_null=True", "allow_null=False")
B("E03", LE, "        dropped_attributes_count=log_data.log_record.dropped_attributes,\n", "")
B("E03", LE, "        attributes=_encode_attributes(log_data.log_record.attributes),\n", "        attributes=_encode_attributes(log_data.log_record.resource.attributes),\n")
B("E03", LE, "        span_id=span_id,\n", "        span_id=span_id if trace_id else None,\n")
B("E03", LE, "        body=body,\n", "        body=body if severity_number else None,\n")
B("E03", LE, "                schema_url=sdk_resource.schema_url,\n", "")
B("E03", "opentelemetry-api/src/opentelemetry/_logs/severity/__init__.py", "    WARN = 13\n", "    WARN = 14\n", "    WARN2 = 14\n", "    WARN2 = 13\n")
Q(LE, "    span_id = (\n        None\n        if not log_data.log_record.span_id\n        else _encode_span_id(log_data.log_record.span_id)\n    )\n", "    record = log_data.log_record\n    span_id = None\n    if record.span_id is not None and record.span_id != 0:\n        span_id = _encode_span_id(record.span_id)\n")
Q(LE, "    return PB2LogRecord(\n        time_unix_nano=log_data.log_record.timestamp,\n", "    message = PB2LogRecord(\n", "        severity_number=severity_number.value if severity_number else None,\n    )\n", "    )\n    if severity_number is not None:\n        message.severity_number = severity_number.value\n    message.time_unix_nano = log_data.log_record.timestamp or 0\n    return message\n")
Q(LE, "        pb2_log = _encode_log(sdk_log)\n\n        sdk_resource_logs[sdk_resource][sdk_instrumentation].append(pb2_log)\n", "        logs = sdk_resource_logs[sdk_resource][sdk_instrumentation]\n        logs.append(_encode_log(sdk_log))\n")
# E04
B("E04", CE, "    if isinstance(value, bool):\n        return PB2AnyValue(bool_value=value)\n    if isinstance(value, str):\n        return PB2AnyValue(string_value=value)\n    if isinstance(value, int):\n        return PB2AnyValue(int_value=value)\n", "    if isinstance(value, str):\n        return PB2AnyValue(string_value=value)\n    if isinstance(value, int):\n        return PB2AnyValue(int_value=value)\n    if isinstance(value, bool):\n        return PB2AnyValue(bool_value=value)\n")
B("E04", CE, "    if isinstance(value, bytes):\n        return PB2AnyValue(bytes_value=value)\n    if isinstance(value, Sequence):\n        return PB2AnyValue(\n            array_value=PB2ArrayValue(\n                values=_encode_array(value, allow_null=allow_null)\n            )\n        )\n    elif", "    if isinstance(value, Sequence):\n        return PB2AnyValue(\n            array_value=PB2ArrayValue(\n                values=_encode_array(value, allow_null=allow_null)\n            )\n        )\n    elif isinstance(value, bytes):\n        return PB2AnyValue(bytes_value=value)\n    elif")
B("E04", CE, "isinstance(value, Sequence)", "isinstance(value, list)")
B("E04", CE, "    if isinstance(value, float):", "    if isinstance(value, (int, float)):", "    if isinstance(value, int):\n        return PB2AnyValue(int_value=value)\n", "")
B("E04", CE, "        for key, value in attributes.items():\n            # pylint: disable=broad-exception-caught\n            try:\n                pb2_attributes.append(_encode_key_value(key, value))\n            except Exception as error:\n                _logger.exception(\"Failed to encode key %s: %s\", key, error)\n", "        try:\n            for key, value in attributes.items():\n                pb2_attributes.append(_encode_key_value(key, value))\n        except Exception as error:\n            _logger.exception(\"Failed to encode key: %s\", error)\n")
B("E04", CE, "            except Exception as error:\n", "            except TypeError as error:\n")
B("E04", CE, "                _logger.exception(\"Failed to encode key %s: %s\", key, error)\n", "                pass\n")
B("E04", CE, "                _logger.exception(\"Failed to encode key %s: %s\", key, error)\n", "                _logger.exception(\"Failed to encode key %s: %s\", key, error)\n                break\n")
B("E04", CE, "    raise Exception(f\"Invalid type {type(value)} of value {value}\")", "    return PB2AnyValue(string_value=str(value))")
B("E04", CE, "                    _encode_key_value(str(k), v, allow_null=allow_null)\n                    for k, v in value.items()\n", "                    _encode_key_value(str(k), v)\n                    for k, v in value.items()\n")
B("E04", CE, "        else PB2AnyValue()\n", "        else None\n")
B("E04", CE, "        for v in array\n    ]\n", "        for v in array\n        if v is not None\n    ]\n")
B("E04", CE, "        return [_encode_value(v, allow_null=allow_null) for v in array]", "        return [_encode_value(v, allow_null=allow_null) for v in array if v is not None]")
B("E04", CE, "            try:\n                pb2_attributes.append(", "            if not value:\n                continue\n            try:\n                pb2_attributes.append(")
B("E04", CE, "        return PB2AnyValue(double_value=value)", "        return PB2AnyValue(double_value=round(value, 6))")
B("E04", CE, "        return PB2AnyValue(bytes_value=value)", "        return PB2AnyValue(string_value=value.decode('utf8', 'replace'))")
B("E04", CE, "    if allow_null is True and value is None:\n        return None\n", "    if allow_null is True and not value:\n        return None\n")
B("E04", LE, "    try:\n        body = _encode_value(log_data.log_record.body, allow_null=True)\n    except Exception as error:  # pylint: disable=broad-exception-caught\n        _logger.exception(\"Failed to encode log record body: %s\", error)\n        body = None\n", "    body = _encode_value(log_data.log_record.body, allow_null=True)\n")
Q(CE, "    if isinstance(value, bool):\n        return PB2AnyValue(bool_value=value)\n    if isinstance(value, str):\n        return PB2AnyValue(string_value=value)\n", "    if isinstance(value, str):\n        return PB2AnyValue(string_value=value)\n    if isinstance(value, bool):\n        return PB2AnyValue(bool_value=value)\n")
Q(CE, "    if not allow_null:\n        # Let the exception get raised by _encode_value()\n        return [_encode_value(v, allow_null=allow_null) for v in array]\n\n    return [\n        _encode_value(v, allow_null=allow_null)\n        if v is not None\n        # Use an empty AnyValue to represent None in an array. Behavior may change pending\n        # https://github.com/open-telemetry/opentelemetry-specification/issues/4392\n        else PB2AnyValue()\n        for v in array\n    ]\n", "    values = []\n    for v in array:\n        if allow_null and v is None:\n            values.append(PB2AnyValue())\n        else:\n            values.append(_encode_value(v, allow_null))\n    return values\n")
Q(CE, "    if attributes:\n        pb2_attributes = []\n        for key, value in attributes.items():\n            # pylint: disable=broad-exception-caught\n            try:\n                pb2_attributes.append(_encode_key_value(key, value))\n            except Exception as error:\n                _logger.exception(\"Failed to encode key %s: %s\", key, error)\n    else:\n        pb2_attributes = None\n    return pb2_attributes\n", "    if not attributes:\n        return None\n    encoded = []\n    for key, value in attributes.items():\n        # pylint: disable=broad-exception-caught\n        try:\n            pair = _encode_key_value(key, value)\n        except Exception as error:\n            _logger.exception(\"Failed to encode key %s: %s\", key, error)\n            continue\n        encoded.append(pair)\n    return encoded\n")
Q(CE, "    if isinstance(value, Sequence):\n        return PB2AnyValue(\n            array_value=PB2ArrayValue(\n                values=_encode_array(value, allow_null=allow_null)\n            )\n        )\n    elif isinstance(value, Mapping):\n", "    if isinstance(value, Sequence):\n        array = PB2ArrayValue()\n        array.values.extend(_encode_array(value, allow_null=allow_null))\n        return PB2AnyValue(array_value=array)\n    if isinstance(value, Mapping):\n")
# E02
B("E02", MM, "            if isinstance(data_point.value, int):\n                pt.as_int = data_point.value\n            else:\n                pt.as_double = data_point.value\n            # note", "            pt.as_double = data_point.value\n            # note")
B("E02", MM, "            if isinstance(data_point.value, int):\n                pt.as_int = data_point.value\n            else:\n                pt.as_double = data_point.value\n            pb2_metric.gauge", "            if data_point.value == int(data_point.value):\n                pt.as_int = int(data_point.value)\n            else:\n                pt.as_double = data_point.value\n            pb2_metric.gauge")
B("E02", MM, "                max=data_point.max,\n                min=data_point.min,\n            )\n            pb2_metric.histogram", "                max=data_point.min,\n                min=data_point.max,\n            )\n            pb2_metric.histogram")
B("E02", MM, "            pb2_metric.sum.is_monotonic = metric.data.is_monotonic\n", "")
B("E02", MM, "            pb2_metric.histogram.aggregation_temporality = (\n                metric.data.aggregation_temporality\n            )\n", "            pb2_metric.histogram.aggregation_temporality = (\n                pb2.AGGREGATION_TEMPORALITY_CUMULATIVE\n            )\n")
B("E02", MM, "                    offset=data_point.negative.offset,\n                    bucket_counts=data_point.negative.bucket_counts,\n", "                    offset=data_point.positive.offset,\n                    bucket_counts=data_point.negative.bucket_counts,\n")
B("E02", MM, "            if data_point.negative.bucket_counts:\n", "            if data_point.negative.offset:\n")
B("E02", MM, "                scale=data_point.scale,\n", "")
B("E02", MM, "                zero_count=data_point.zero_count,\n", "                zero_count=data_point.count,\n")
B("E02", MM, "            sdk_exemplar.span_id is not None\n            and sdk_exemplar.trace_id is not None\n", "            sdk_exemplar.span_id is not None\n")
B("E02", MM, "        if isinstance(sdk_exemplar.value, float):\n            pb_exemplar.as_double = sdk_exemplar.value\n        elif isinstance(sdk_exemplar.value, int):\n            pb_exemplar.as_int = sdk_exemplar.value\n", "        if isinstance(sdk_exemplar.value, (int, float)):\n            pb_exemplar.as_double = sdk_exemplar.value\n")
B("E02", MM, "            pb_exemplar = pb2.Exemplar(\n                time_unix_nano=sdk_exemplar.time_unix_nano,\n                filtered_attributes=_encode_attributes(\n                    sdk_exemplar.filtered_attributes\n                ),\n            )\n\n", "            continue\n\n")
B("E02", MM, "                trace_id=_encode_trace_id(sdk_exemplar.trace_id),\n                filtered", "                trace_id=_encode_trace_id(sdk_exemplar.span_id),\n                filtered")
B("E02", MM, "                start_time_unix_nano=data_point.start_time_unix_nano,\n                time_unix_nano=data_point.time_unix_nano,\n                exemplars", "                time_unix_nano=data_point.time_unix_nano,\n                exemplars")
B("E02", MM, "                exemplars=_encode_exemplars(data_point.exemplars),\n                count=data_point.count,\n                sum=data_point.sum,\n                bucket_counts", "                count=data_point.count,\n                sum=data_point.sum,\n                bucket_counts")
B("E02", MM, "        for metric in scope_metrics.metrics:\n", "        for metric in scope_metrics.metrics:\n            if not metric.data.data_points:\n                continue\n")
B("E02", MM, "                unit=metric.unit,\n", "                unit=metric.unit or \"1\",\n")
B("E02", MM, "        scope_metrics_dict[instrumentation_scope] = pb2_scope_metrics\n", "        scope_metrics_dict[instrumentation_scope.name] = pb2_scope_metrics\n")
B("E02", MM, "            schema_url=instrumentation_scope.schema_url,\n", "            schema_url=scope_metrics.schema_url,\n")
B("E02", MM, "                schema_url=sdk_resource.schema_url,\n", "")
B("E02", MM, "    if isinstance(metric.data, Gauge):", "    if isinstance(metric.data, (Gauge, Sum)):")
B("E02", MM, "            pb2_metric.gauge.data_points.append(pt)\n", "            pb2_metric.sum.data_points.append(pt)\n")
B("E02", MM, "            pb2_metric.sum.data_points.append(pt)\n", "            if data_point.value:\n                pb2_metric.sum.data_points.append(pt)\n")
B("E02", MM, "            except Exception as ex:\n                # `from None` so we don't get \"During handling of the above exception, another exception occurred:\"\n                raise EncodingException(ex, metric) from None\n", "            except Exception as ex:\n                continue\n")
B("E02", MM, "                bucket_counts=data_point.bucket_counts,\n                explicit_bounds=data_point.explicit_bounds,\n", "                bucket_counts=data_point.bucket_counts,\n                explicit_bounds=data_point.bucket_counts,\n")
B("E02", MM, "                filtered_attributes=_encode_attributes(\n                    sdk_exemplar.filtered_attributes\n                ),\n            )\n        else", "            )\n        else")
B("E02", "opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/aggregation.py", "    DELTA = 1\n    CUMULATIVE = 2\n", "    DELTA = 2\n    CUMULATIVE = 1\n")
Q(MM, "            pt = pb2.NumberDataPoint(\n                attributes=_encode_attributes(data_point.attributes),\n                time_unix_nano=data_point.time_unix_nano,\n                exemplars=_encode_exemplars(data_point.exemplars),\n            )\n            if isinstance(data_point.value, int):\n                pt.as_int = data_point.value\n            else:\n                pt.as_double = data_point.value\n            pb2_metric.gauge.data_points.append(pt)\n", "            pb2_metric.gauge.data_points.append(_number(data_point))\n", "def _encode_exemplars(", "def _number(data_point):\n    pt = pb2.NumberDataPoint(\n        attributes=_encode_attributes(data_point.attributes),\n        time_unix_nano=data_point.time_unix_nano,\n        exemplars=_encode_exemplars(data_point.exemplars),\n    )\n    if isinstance(data_point.value, float):\n        pt.as_double = data_point.value\n    else:\n        pt.as_int = data_point.value\n    return pt\n\n\ndef _encode_exemplars(")
Q(MM, "            if data_point.positive.bucket_counts:\n                positive = pb2.ExponentialHistogramDataPoint.Buckets(\n                    offset=data_point.positive.offset,\n                    bucket_counts=data_point.positive.bucket_counts,\n                )\n            else:\n                positive = None\n\n            if data_point.negative.bucket_counts:\n                negative = pb2.ExponentialHistogramDataPoint.Buckets(\n                    offset=data_point.negative.offset,\n                    bucket_counts=data_point.negative.bucket_counts,\n                )\n            else:\n                negative = None\n", "            positive = _buckets(data_point.positive)\n            negative = _buckets(data_point.negative)\n", "def _encode_exemplars(", "def _buckets(buckets):\n    if not buckets.bucket_counts:\n        return None\n    return pb2.ExponentialHistogramDataPoint.Buckets(\n        offset=buckets.offset, bucket_counts=buckets.bucket_counts\n    )\n\n\ndef _encode_exemplars(")
Q(MM, "        if (\n            sdk_exemplar.span_id is not None\n            and sdk_exemplar.trace_id is not None\n        ):\n            pb_exemplar = pb2.Exemplar(\n                time_unix_nano=sdk_exemplar.time_unix_nano,\n                span_id=_encode_span_id(sdk_exemplar.span_id),\n                trace_id=_encode_trace_id(sdk_exemplar.trace_id),\n                filtered_attributes=_encode_attributes(\n                    sdk_exemplar.filtered_attributes\n                ),\n            )\n        else:\n            pb_exemplar = pb2.Exemplar(\n                time_unix_nano=sdk_exemplar.time_unix_nano,\n                filtered_attributes=_encode_attributes(\n                    sdk_exemplar.filtered_attributes\n                ),\n            )\n", "        pb_exemplar = pb2.Exemplar(\n            time_unix_nano=sdk_exemplar.time_unix_nano,\n            filtered_attributes=_encode_attributes(\n                sdk_exemplar.filtered_attributes\n            ),\n        )\n        if (\n            sdk_exemplar.span_id is not None\n            and sdk_exemplar.trace_id is not None\n        ):\n            pb_exemplar.span_id = _encode_span_id(sdk_exemplar.span_id)\n            pb_exemplar.trace_id = _encode_trace_id(sdk_exemplar.trace_id)\n")
Q(MM, "    if isinstance(metric.data, Gauge):", "    data = metric.data\n    if isinstance(data, Gauge):", "        for data_point in metric.data.data_points:\n            pt = pb2.NumberDataPoint(\n                attributes=_encode_attributes(data_point.attributes),\n                time_unix", "        for data_point in data.data_points:\n            pt = pb2.NumberDataPoint(\n                attributes=_encode_attributes(data_point.attributes),\n                time_unix")
Q(MM, "        pb2_scope_metrics = pb2.ScopeMetrics(\n            scope=_encode_instrumentation_scope(instrumentation_scope),\n            schema_url=instrumentation_scope.schema_url,\n        )\n\n        scope_metrics_dict[instrumentation_scope] = pb2_scope_metrics\n", "        pb2_scope_metrics = pb2.ScopeMetrics(\n            scope=_encode_instrumentation_scope(instrumentation_scope),\n            schema_url=instrumentation_scope.schema_url,\n        )\n", "            pb2_scope_metrics.metrics.append(pb2_metric)\n", "            pb2_scope_metrics.metrics.append(pb2_metric)\n\n        scope_metrics_dict[instrumentation_scope] = pb2_scope_metrics\n")
# E05, E06
GE = "exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py"
GM = "exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/metric_exporter/__init__.py"
HB = "exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/"
HT, HM, HL = HB + "trace_exporter/__init__.py", HB + "metric_exporter/__init__.py", HB + "_log_exporter/__init__.py"
ZJ = "exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/json/__init__.py"
ZP = "exporter/opentelemetry-exporter-zipkin-proto-http/src/opentelemetry/exporter/zipkin/proto/http/__init__.py"
OCE = "exporter/opentelemetry-exporter-opencensus/src/opentelemetry/exporter/opencensus/trace_exporter/__init__.py"
EC = "exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/__init__.py"
B("E05", GE, "                        StatusCode.DATA_LOSS,\n", "")
B("E05", GE, "                        StatusCode.DATA_LOSS,\n", "                        StatusCode.DATA_LOSS,\n                        StatusCode.INTERNAL,\n")
B("E05", GE, "if delay == max_value or self._shutdown:", "if delay > max_value or self._shutdown:")
B("E05", GE, "if delay == max_value or self._shutdown:", "if self._shutdown:")
B("E05", GE, "_create_exp_backoff_generator(max_value=max_value)", "_create_exp_backoff_generator()")
B("E05", GE, "                        sleep(delay)\n", "")
B("E05", GE, "                        sleep(delay)\n", "                        sleep(1)\n")
B("E05", GE, "                    return self._result.FAILURE\n\n        return", "                    return self._result.SUCCESS\n\n        return")
B("E05", GE, "                    if error.code() == StatusCode.OK:\n", "                    if error.code() in (StatusCode.OK, StatusCode.ALREADY_EXISTS):\n")
B("E05", GE, "            if delay == max_value or self._shutdown:\n                return self._result.FAILURE\n", "            if delay == max_value or self._shutdown:\n                return self._result.SUCCESS\n")
B("E05", GE, "                        timeout=self._timeout,\n                    )\n\n                    return self._result.SUCCESS\n", "                        timeout=self._timeout,\n                    )\n")
B("E05", GM, "            if split_export_result is MetricExportResult.FAILURE:\n                export_result = MetricExportResult.FAILURE\n", "            export_result = split_export_result\n")
B("E05", GM, "            if split_export_result is MetricExportResult.FAILURE:\n                export_result = MetricExportResult.FAILURE\n", "            if split_export_result is MetricExportResult.SUCCESS:\n                export_result = MetricExportResult.SUCCESS\n")
B("E05", GM, "            return self._export(data=metrics_data)\n", "            self._export(data=metrics_data)\n            return MetricExportResult.SUCCESS\n")
B("E05", HT, "if resp.status_code >= 500 and resp.status_code <= 599:", "if resp.status_code > 500 and resp.status_code <= 599:")
B("E05", HM, "        if resp.status_code == 408:\n            return True\n", "")
B("E05", HL, "        if resp.status_code == 408:", "        if resp.status_code in (408, 404):")
B("E05", HL, "if resp.status_code >= 500 and resp.status_code <= 599:", "if resp.status_code >= 400:")
B("E05", HT, "            if resp.ok:\n", "            if resp is not None:\n")
B("E05", HM, "            if resp.ok:\n", "            if resp.ok or resp.status_code == 413:\n")
B("E05", HM, "            if delay == self._MAX_RETRY_TIMEOUT or self._shutdown:\n                return MetricExportResult.FAILURE\n", "            if self._shutdown:\n                return MetricExportResult.FAILURE\n")
B("E05", HL, "                sleep(delay)\n                continue\n", "                continue\n")
B("E05", HT, "        return self._export_serialized_spans(serialized_data)\n", "        self._export_serialized_spans(serialized_data)\n        return SpanExportResult.SUCCESS\n")
B("E05", HM, "                    resp.text,\n                )\n                return MetricExportResult.FAILURE\n", "                    resp.text,\n                )\n                break\n", "        return MetricExportResult.FAILURE\n\n    def shutdown", "        return MetricExportResult.SUCCESS\n\n    def shutdown")
B("E05", ZJ, "REQUESTS_SUCCESS_STATUS_CODES = (200, 202)", "REQUESTS_SUCCESS_STATUS_CODES = (200, 202, 400)")
B("E05", ZP, "            return SpanExportResult.FAILURE\n        return SpanExportResult.SUCCESS", "        return SpanExportResult.SUCCESS")
B("E05", OCE, "            for _ in responses:\n                pass\n", "")
B("E05", OCE, "        except grpc.RpcError:\n            return SpanExportResult.FAILURE\n", "        except grpc.RpcError:\n            pass\n")
B("E05", EC, "yield min(out, max_value) if max_value else out", "yield out")
B("E05", EC, "out = 2**i", "out = 2")
B("E06", HM, "        if self._shutdown:\n            _logger.warning(\"Exporter already shutdown, ignoring batch\")\n            return MetricExportResult.FAILURE\n\n", "")
B("E06", HM, "            return MetricExportResult.FAILURE\n\n        serialized", "            return MetricExportResult.SUCCESS\n\n        serialized")
B("E06", HM, "if delay == self._MAX_RETRY_TIMEOUT or self._shutdown:", "if delay == self._MAX_RETRY_TIMEOUT:")
B("E06", HT, "        self._session.close()\n        self._shutdown = True\n", "        self._session.close()\n")
B("E06", HT, "        self._session.close()\n        self._shutdown = True\n", "        self._shutdown = True\n")
B("E06", HL, "            _logger.warning(\"Exporter already shutdown, ignoring call\")\n            return\n", "            _logger.warning(\"Exporter already shutdown, ignoring call\")\n")
B("E06", HL, "            _logger.warning(\"Exporter already shutdown, ignoring batch\")\n", "")
B("E06", GE, "                if self._shutdown:\n                    return self._result.FAILURE\n\n                try:", "                try:")
B("E06", GE, "            if acquired:\n                self._export_lock.release()", "            if self._export_lock.locked():\n                self._export_lock.release()")
B("E06", GE, "            if acquired:\n                self._export_lock.release()", "            self._export_lock.release()")
B("E06", GE, "acquire(timeout=timeout_millis / 1e3)", "acquire(timeout=timeout_millis)")
B("E06", GE, "acquire(timeout=timeout_millis / 1e3)", "acquire()")
B("E06", GE, "        if self._shutdown:\n            logger.warning(\"Exporter already shutdown, ignoring call\")\n            return\n", "        if self._shutdown:\n            logger.warning(\"Exporter already shutdown, ignoring call\")\n")
B("E06", GE, "            self._shutdown = True\n            self._channel.close()\n        finally", "            self._channel.close()\n        finally")
B("E06", GE, "        acquired = self._export_lock.acquire(timeout=timeout_millis / 1e3)\n        try:\n            self._shutdown = True\n            self._channel.close()\n", "        self._channel.close()\n        acquired = self._export_lock.acquire(timeout=timeout_millis / 1e3)\n        try:\n            self._shutdown = True\n")
B("E06", ZJ, "        if self._closed:\n            logger.warning(\"Exporter already shutdown, ignoring batch\")\n            return SpanExportResult.FAILURE\n", "")
B("E06", ZP, "            logger.warning(\"Exporter already shutdown, ignoring batch\")\n            return SpanExportResult.FAILURE\n", "            logger.warning(\"Exporter already shutdown, ignoring batch\")\n            return SpanExportResult.SUCCESS\n")
B("E06", ZP, "        self.session.close()\n        self._closed = True\n", "        self.session.close()\n        self._closed = False\n")
B("E06", OCE, "            logger.warning(\"Exporter already shutdown, ignoring call\")\n            return\n        self._shutdown = True", "            logger.warning(\"Exporter already shutdown, ignoring call\")\n            return")
B("E06", "opentelemetry-sdk/src/opentelemetry/sdk/trace/export/in_memory_span_exporter.py", "        if self._stopped:\n            return SpanExportResult.FAILURE\n", "")
B("E06", "opentelemetry-sdk/src/opentelemetry/sdk/_logs/_internal/export/in_memory_log_exporter.py", "            return LogExportResult.FAILURE\n", "            return LogExportResult.SUCCESS\n")
B("E06", "opentelemetry-sdk/src/opentelemetry/sdk/trace/export/in_memory_span_exporter.py", "            self._finished_spans.clear()\n", "            self._finished_spans.clear()\n        self._stopped = False\n")
Q(GE, "                    if error.code() in [\n                        StatusCode.CANCELLED,\n                        StatusCode.DEADLINE_EXCEEDED,\n                        StatusCode.RESOURCE_EXHAUSTED,\n                        StatusCode.ABORTED,\n                        StatusCode.OUT_OF_RANGE,\n                        StatusCode.UNAVAILABLE,\n                        StatusCode.DATA_LOSS,\n                    ]:\n", "                    if error.code() in _RETRYABLE:\n", "def environ_to_compression(", "_RETRYABLE = frozenset(\n    {\n        StatusCode.CANCELLED,\n        StatusCode.DEADLINE_EXCEEDED,\n        StatusCode.RESOURCE_EXHAUSTED,\n        StatusCode.ABORTED,\n        StatusCode.OUT_OF_RANGE,\n        StatusCode.UNAVAILABLE,\n        StatusCode.DATA_LOSS,\n    }\n)\n\n\ndef environ_to_compression(")
Q(HT, "            if resp.ok:\n                return SpanExportResult.SUCCESS\n            elif self._retryable(resp):\n", "            if resp.ok:\n                return SpanExportResult.SUCCESS\n            if self._retryable(resp):\n", "        if resp.status_code == 408:\n            return True\n        if resp.status_code >= 500 and resp.status_code <= 599:\n            return True\n        return False\n", "        return resp.status_code == 408 or 500 <= resp.status_code <= 599\n")
Q(HL, "                sleep(delay)\n                continue\n            else:\n                _logger.error(\n                    \"Failed to export logs batch code: %s, reason: %s\",\n                    resp.status_code,\n                    resp.text,\n                )\n                return LogExportResult.FAILURE\n", "                sleep(delay)\n                continue\n            _logger.error(\n                \"Failed to export logs batch code: %s, reason: %s\",\n                resp.status_code,\n                resp.text,\n            )\n            break\n")
Q(HM, "            if delay == self._MAX_RETRY_TIMEOUT or self._shutdown:\n                return MetricExportResult.FAILURE\n", "            if self._shutdown or delay >= self._MAX_RETRY_TIMEOUT:\n                break\n")
Q(ZJ, "        if result.status_code not in REQUESTS_SUCCESS_STATUS_CODES:\n            logger.error(\n                \"Traces cannot be uploaded; status code: %s, message %s\",\n                result.status_code,\n                result.text,\n            )\n            return SpanExportResult.FAILURE\n        return SpanExportResult.SUCCESS\n", "        if result.status_code in REQUESTS_SUCCESS_STATUS_CODES:\n            return SpanExportResult.SUCCESS\n        logger.error(\n            \"Traces cannot be uploaded; status code: %s, message %s\",\n            result.status_code,\n            result.text,\n        )\n        return SpanExportResult.FAILURE\n")
Q(GM, "        export_result = MetricExportResult.SUCCESS\n\n        for split_metrics_data in self._split_metrics_data(metrics_data):\n            split_export_result = self._export(data=split_metrics_data)\n\n            if split_export_result is MetricExportResult.FAILURE:\n                export_result = MetricExportResult.FAILURE\n\n        return export_result\n", "        failed = False\n        for split_metrics_data in self._split_metrics_data(metrics_data):\n            if (\n                self._export(data=split_metrics_data)\n                is not MetricExportResult.SUCCESS\n            ):\n                failed = True\n        if failed:\n            return MetricExportResult.FAILURE\n        return MetricExportResult.SUCCESS\n")
Q(GE, "        if self._shutdown:\n            logger.warning(\"Exporter already shutdown, ignoring call\")\n            return\n        # wait for the last export if any\n        acquired = self._export_lock.acquire(timeout=timeout_millis / 1e3)\n        try:\n            self._shutdown = True\n            self._channel.close()\n        finally:\n            # the lock still belongs to a running export after a timeout\n            if acquired:\n                self._export_lock.release()\n", "        if not self._shutdown:\n            self._close(timeout_millis)\n        else:\n            logger.warning(\"Exporter already shutdown, ignoring call\")\n\n    def _close(self, timeout_millis):\n        timeout = timeout_millis / 1000\n        got = self._export_lock.acquire(timeout=timeout)\n        try:\n            self._shutdown = True\n            self._channel.close()\n        finally:\n            if got:\n                self._export_lock.release()\n")
Q(EC, "    for i in count(0):\n        out = 2**i\n        yield min(out, max_value) if max_value else out", "    out = 1\n    while True:\n        yield min(out, max_value) if max_value else out\n        out *= 2")
Q(GM, "        export_result = MetricExportResult.SUCCESS\n\n        for split_metrics_data in self._split_metrics_data(metrics_data):\n            split_export_result = self._export(data=split_metrics_data)\n\n            if split_export_result is MetricExportResult.FAILURE:\n                export_result = MetricExportResult.FAILURE\n\n        return export_result\n", "        results = [\n            self._export(data=split_metrics_data)\n            for split_metrics_data in self._split_metrics_data(metrics_data)\n        ]\n        if MetricExportResult.FAILURE in results:\n            return MetricExportResult.FAILURE\n        return MetricExportResult.SUCCESS\n")
# E07
GT = "exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/trace_exporter/__init__.py"
GL = "exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/_log_exporter/__init__.py"
B("E07", GE, "        self._endpoint = endpoint or environ.get(\n            OTEL_EXPORTER_OTLP_ENDPOINT, \"http://localhost:4317\"\n        )\n", "        self._endpoint = environ.get(\n            OTEL_EXPORTER_OTLP_ENDPOINT, endpoint or \"http://localhost:4317\"\n        )\n")
B("E07", GE, "        if parsed_url.scheme == \"https\":\n            insecure = False\n        if insecure is None:\n            insecure = environ", "        if not insecure:\n            insecure = environ")
B("E07", GE, "        if insecure is None:\n            insecure = environ", "        if not insecure:\n            insecure = environ")
B("E07", GE, "                OTEL_EXPORTER_OTLP_CLIENT_KEY,\n                OTEL_EXPORTER_OTLP_CLIENT_CERTIFICATE,\n", "                OTEL_EXPORTER_OTLP_CLIENT_CERTIFICATE,\n                OTEL_EXPORTER_OTLP_CLIENT_KEY,\n")
B("E07", GE, "    if creds is not None:\n        return creds\n\n    certificate_file = environ.get(certificate_file_env_key)\n    if certificate_file:", "    certificate_file = environ.get(certificate_file_env_key)\n    if certificate_file:", "    return ssl_channel_credentials()\n", "    return creds or ssl_channel_credentials()\n")
B("E07", GT, "                \"timeout\": timeout or environ_timeout,\n", "                \"timeout\": environ_timeout or timeout,\n")
B("E07", GT, "                or environ.get(OTEL_EXPORTER_OTLP_TRACES_HEADERS),\n", "                or environ.get(OTEL_EXPORTER_OTLP_HEADERS),\n", "    OTEL_EXPORTER_OTLP_TRACES_HEADERS,\n", "    OTEL_EXPORTER_OTLP_HEADERS,\n    OTEL_EXPORTER_OTLP_TRACES_HEADERS,\n")
B("E07", GM, "environ_to_compression(OTEL_EXPORTER_OTLP_METRICS_COMPRESSION)", "environ_to_compression(\"OTEL_EXPORTER_OTLP_TRACES_COMPRESSION\")")
B("E07", GL, "            not insecure\n            and environ", "            insecure is not None\n            and environ")
B("E07", GL, "                \"compression\": compression,\n", "")
B("E07", GL, "        environ_timeout = environ.get(OTEL_EXPORTER_OTLP_LOGS_TIMEOUT)\n", "        environ_timeout = environ.get(\"OTEL_EXPORTER_OTLP_TIMEOUT\") or environ.get(OTEL_EXPORTER_OTLP_LOGS_TIMEOUT)\n")
B("E07", HT, "            OTEL_EXPORTER_OTLP_TRACES_ENDPOINT,\n            _append_trace_path(\n                environ.get(OTEL_EXPORTER_OTLP_ENDPOINT, DEFAULT_ENDPOINT)\n            ),\n", "            OTEL_EXPORTER_OTLP_ENDPOINT,\n            environ.get(OTEL_EXPORTER_OTLP_TRACES_ENDPOINT, DEFAULT_ENDPOINT),\n")
B("E07", HT, "        self._endpoint = endpoint or environ.get(\n            OTEL_EXPORTER_OTLP_TRACES_ENDPOINT,\n            _append_trace_path(\n                environ.get(OTEL_EXPORTER_OTLP_ENDPOINT, DEFAULT_ENDPOINT)\n            ),\n        )\n", "        self._endpoint = endpoint or _append_trace_path(\n            environ.get(\n                OTEL_EXPORTER_OTLP_TRACES_ENDPOINT,\n                environ.get(OTEL_EXPORTER_OTLP_ENDPOINT, DEFAULT_ENDPOINT),\n            )\n        )\n")
B("E07", HT, "            if self._client_certificate_file and self._client_key_file\n            else self._client_certificate_file\n", "            if self._client_certificate_file and self._client_key_file\n            else None\n")
B("E07", HT, "            verify=self._certificate_file,\n", "")
B("E07", HM, "                OTEL_EXPORTER_OTLP_METRICS_TIMEOUT,\n                environ.get(OTEL_EXPORTER_OTLP_TIMEOUT, DEFAULT_TIMEOUT),\n", "                OTEL_EXPORTER_OTLP_TIMEOUT,\n                environ.get(OTEL_EXPORTER_OTLP_METRICS_TIMEOUT, DEFAULT_TIMEOUT),\n")
B("E07", HM, "        self._headers = headers or parse_env_headers(\n            headers_string, liberal=True\n        )\n", "        self._headers = (\n            parse_env_headers(headers_string, liberal=True) or headers or {}\n        )\n")
B("E07", HM, "environ.get(OTEL_EXPORTER_OTLP_CERTIFICATE, True)", "environ.get(OTEL_EXPORTER_OTLP_CERTIFICATE, False)")
B("E07", HL, "OTEL_EXPORTER_OTLP_LOGS_COMPRESSION,\n            environ.get(OTEL_EXPORTER_OTLP_COMPRESSION, \"none\"),\n", "OTEL_EXPORTER_OTLP_LOGS_COMPRESSION, \"none\"\n")
B("E07", HL, "        elif self._compression == Compression.Deflate:\n            data = zlib.compress(serialized_data)\n", "")
B("E07", HL, "        if self._compression is not Compression.NoCompression:\n", "        if self._compression is Compression.Gzip:\n")
B("E07", HL, "            OTEL_EXPORTER_OTLP_LOGS_CLIENT_KEY,\n            environ.get(OTEL_EXPORTER_OTLP_CLIENT_KEY, None),\n", "            OTEL_EXPORTER_OTLP_LOGS_CLIENT_KEY,\n            environ.get(OTEL_EXPORTER_OTLP_CLIENT_CERTIFICATE, None),\n")
B("E07", HT, "    if endpoint.endswith(\"/\"):\n        return endpoint + DEFAULT_TRACES_EXPORT_PATH\n", "")
B("E07", HM, "DEFAULT_METRICS_EXPORT_PATH = \"v1/metrics\"", "DEFAULT_METRICS_EXPORT_PATH = \"v1/traces\"")
B("E07", ZJ, "        if endpoint is None:\n            endpoint = (\n                environ.get(OTEL_EXPORTER_ZIPKIN_ENDPOINT) or DEFAULT_ENDPOINT\n            )\n", "        endpoint = (\n            environ.get(OTEL_EXPORTER_ZIPKIN_ENDPOINT)\n            or endpoint\n            or DEFAULT_ENDPOINT\n        )\n")
B("E07", ZP, "        self.timeout = timeout or int(\n            environ.get(OTEL_EXPORTER_ZIPKIN_TIMEOUT, 10)\n        )\n", "        self.timeout = int(\n            environ.get(OTEL_EXPORTER_ZIPKIN_TIMEOUT, timeout or 10)\n        )\n")
B("E07", ZP, "            timeout=self.timeout,\n        )\n\n        if result", "        )\n\n        if result")
Q(HT, "        self._timeout = timeout or int(\n            environ.get(\n                OTEL_EXPORTER_OTLP_TRACES_TIMEOUT,\n                environ.get(OTEL_EXPORTER_OTLP_TIMEOUT, DEFAULT_TIMEOUT),\n            )\n        )\n", "        if not timeout:\n            timeout = environ.get(OTEL_EXPORTER_OTLP_TRACES_TIMEOUT)\n            if timeout is None:\n                timeout = environ.get(\n                    OTEL_EXPORTER_OTLP_TIMEOUT, DEFAULT_TIMEOUT\n                )\n            timeout = int(timeout)\n        self._timeout = timeout\n")
Q(HM, "        self._client_cert = (\n            (self._client_certificate_file, self._client_key_file)\n            if self._client_certificate_file and self._client_key_file\n            else self._client_certificate_file\n        )\n", "        self._client_cert = self._client_certificate_file\n        if self._client_certificate_file and self._client_key_file:\n            self._client_cert = (\n                self._client_certificate_file,\n                self._client_key_file,\n            )\n")
Q(HL, "        if self._compression == Compression.Gzip:\n            gzip_data = BytesIO()\n            with gzip.GzipFile(fileobj=gzip_data, mode=\"w\") as gzip_stream:\n                gzip_stream.write(serialized_data)\n            data = gzip_data.getvalue()\n", "        if self._compression is Compression.Gzip:\n            data = gzip.compress(serialized_data)\n")
Q(HL, "    if endpoint.endswith(\"/\"):\n        return endpoint + DEFAULT_LOGS_EXPORT_PATH\n    return endpoint + f\"/{DEFAULT_LOGS_EXPORT_PATH}\"", "    separator = \"\" if endpoint.endswith(\"/\") else \"/\"\n    return endpoint + separator + DEFAULT_LOGS_EXPORT_PATH")
Q(GT, "        super().__init__(\n            **{\n                \"endpoint\": endpoint\n                or environ.get(OTEL_EXPORTER_OTLP_TRACES_ENDPOINT),\n                \"insecure\": insecure,\n                \"credentials\": credentials,\n                \"headers\": headers\n                or environ.get(OTEL_EXPORTER_OTLP_TRACES_HEADERS),\n                \"timeout\": timeout or environ_timeout,\n                \"compression\": compression,\n            }\n        )\n", "        super().__init__(\n            endpoint=endpoint\n            or environ.get(OTEL_EXPORTER_OTLP_TRACES_ENDPOINT),\n            insecure=insecure,\n            credentials=credentials,\n            headers=headers or environ.get(OTEL_EXPORTER_OTLP_TRACES_HEADERS),\n            timeout=timeout or environ_timeout,\n            compression=compression,\n        )\n")
Q(GE, "        if insecure is None:\n            insecure = environ.get(OTEL_EXPORTER_OTLP_INSECURE)\n            if insecure is not None:\n                insecure = insecure.lower() == \"true\"\n            else:\n                if parsed_url.scheme == \"http\":\n                    insecure = True\n                else:\n                    insecure = False\n", "        if insecure is None:\n            env_insecure = environ.get(OTEL_EXPORTER_OTLP_INSECURE)\n            insecure = (\n                env_insecure.lower() == \"true\"\n                if env_insecure is not None\n                else parsed_url.scheme == \"http\"\n            )\n")
Q(ZJ, "        if endpoint is None:\n            endpoint = (\n                environ.get(OTEL_EXPORTER_ZIPKIN_ENDPOINT) or DEFAULT_ENDPOINT\n            )\n        self.endpoint = endpoint\n", "        self.endpoint = (\n            endpoint\n            or environ.get(OTEL_EXPORTER_ZIPKIN_ENDPOINT)\n            or DEFAULT_ENDPOINT\n        )\n")

# -- E08 ---------------------------------------------------------------------------
ZE = "exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/encoder/__init__.py"
ZV1 = "exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/json/v1/__init__.py"
ZV2 = "exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/json/v2/__init__.py"
ZX = "exporter/opentelemetry-exporter-zipkin-json/src/opentelemetry/exporter/zipkin/json/__init__.py"
ZPV = "exporter/opentelemetry-exporter-zipkin-proto-http/src/opentelemetry/exporter/zipkin/proto/http/v2/__init__.py"
ZPX = "exporter/opentelemetry-exporter-zipkin-proto-http/src/opentelemetry/exporter/zipkin/proto/http/__init__.py"
B("E08", ZE, "            if isinstance(attribute_value, bool):\n                value = str(attribute_value).lower()\n            elif isinstance(attribute_value, (int, float, str)):\n                value = str(attribute_value)\n", "            if isinstance(attribute_value, (int, float, str)):\n                value = str(attribute_value)\n            elif isinstance(attribute_value, bool):\n                value = str(attribute_value).lower()\n")
B("E08", ZE, "                value = value[: self.max_tag_value_length]\n            tags[attribute_key]", "                value = value[: self.max_tag_value_length - 1]\n            tags[attribute_key]")
B("E08", ZE, "            elif isinstance(attribute_value, (int, float, str)):\n                value = str(attribute_value)\n", "            elif isinstance(attribute_value, (int, str)):\n                value = str(attribute_value)\n")
B("E08", ZE, "            elif element is None:\n                tag_value_element = None\n", "")
B("E08", ZE, "                if running_string_length > self.max_tag_value_length:\n                    break\n", "                if running_string_length > self.max_tag_value_length:\n                    break\n            if len(tag_value_elements) > 128:\n                break\n")
B("E08", ZE, "        if not tags_dict:\n            return tags\n", "        if not tags_dict or len(tags_dict) < 2:\n            return tags\n")
B("E08", ZE, "        if span.instrumentation_scope is not None:\n", "        if span.instrumentation_scope is not None and span.events:\n")
B("E08", ZE, "                    _SCOPE_VERSION_KEY: span.instrumentation_scope.version,\n", "                    _SCOPE_VERSION_KEY: span.instrumentation_scope.name,\n")
B("E08", ZE, "            if span.status.status_code is StatusCode.ERROR:\n                tags.update({\"error\": span.status.description or \"\"})", "            if span.status.status_code is StatusCode.ERROR and span.status.description:\n                tags.update({\"error\": span.status.description})")
B("E08", ZE, "        if span.status.status_code is not StatusCode.UNSET:\n            tags.update({\"otel.status_code\": span.status.status_code.name})\n            if span.status.status_code is StatusCode.ERROR:\n                tags.update", "        if span.status.status_code is not StatusCode.UNSET:\n            tags.update({\"otel.status_code\": span.status.status_code.name})\n            if span.status.description or span.status.status_code is StatusCode.ERROR:\n                tags.update")
B("E08", ZE, "                {\"otel.dropped_events_count\": str(span.dropped_events)}", "                {\"otel.dropped_events_count\": str(span.dropped_attributes)}")
B("E08", ZE, "        return (nsec + 500) // 10**3", "        return (nsec + 500) // 10**6")
B("E08", ZE, "        return span_context.trace_flags.sampled", "        return span_context.trace_flags")
B("E08", ZE, "        elif isinstance(span_context, SpanContext):\n            parent_id = span_context.span_id\n", "        elif isinstance(span_context, SpanContext):\n            parent_id = None if span_context.is_remote else span_context.span_id\n")
B("E08", ZE, "                    isinstance(value, str)\n                    and self.max_tag_value_length is not None", "                    not isinstance(value, str)\n                    and self.max_tag_value_length is not None")
B("E08", ZE, "                    \"value\": json.dumps({event.name: attrs}, sort_keys=True),", "                    \"value\": json.dumps({event.name: event.attributes and {}}, sort_keys=True),")
B("E08", ZE, "        if local_endpoint.port is not None:\n            encoded_local_endpoint[\"port\"] = local_endpoint.port", "        if local_endpoint.port is not None and local_endpoint.ipv4:\n            encoded_local_endpoint[\"port\"] = str(local_endpoint.port)")
B("E08", ZE, "            encoded_local_endpoint[\"ipv6\"] = str(local_endpoint.ipv6)", "            encoded_local_endpoint[\"ipv6\"] = str(local_endpoint.ipv4)")
B("E08", ZE, "        for span in spans:\n            encoded_spans.append(", "        for span in spans:\n            if span.end_time == span.start_time:\n                continue\n            encoded_spans.append(")
B("E08", ZE, "        self.max_tag_value_length = max_tag_value_length\n", "        self.max_tag_value_length = max_tag_value_length or DEFAULT_MAX_TAG_VALUE_LENGTH\n")
B("E08", ZV1, "            for annotation in encoded_annotations:\n                annotation[\"endpoint\"] = encoded_local_endpoint\n", "")
B("E08", ZV1, "                tag_value = tag_value[: self.max_tag_value_length]\n", "                tag_value = tag_value[: self.max_tag_value_length]\n                if not tag_value:\n                    continue\n")
B("E08", ZV1, "        if binary_annotations:\n", "        if binary_annotations and encoded_annotations is None:\n")
B("E08", ZV2, "        SpanKind.PRODUCER: \"PRODUCER\",\n        SpanKind.CONSUMER: \"CONSUMER\",", "        SpanKind.PRODUCER: \"CONSUMER\",\n        SpanKind.CONSUMER: \"PRODUCER\",")
B("E08", ZV2, "        if tags:\n", "        if tags and span.attributes:\n")
B("E08", ZV2, "                span.end_time - span.start_time\n", "                span.end_time\n")
B("E08", ZV2, "            \"localEndpoint\": encoded_local_endpoint,\n", "")
B("E08", ZV2, "        if parent_id is not None:\n", "        if parent_id is not None and not debug:\n")
B("E08", ZPV, "            encoded_local_endpoint.ipv6 = local_endpoint.ipv6.packed", "            encoded_local_endpoint.ipv4 = local_endpoint.ipv6.packed")
B("E08", ZPV, "        SpanKind.SERVER: zipkin_pb2.Span.Kind.SERVER,", "        SpanKind.SERVER: zipkin_pb2.Span.Kind.CLIENT,")
B("E08", ZPV, "            for annotation in annotations:\n", "            for annotation in annotations[:-1]:\n")
B("E08", ZPV, "            encoded_span.tags.update(tags)\n", "            encoded_span.tags.update(self._extract_tags_from_dict(span.attributes))\n")
B("E08", ZPV, "        return span_id.to_bytes(length=8, byteorder=\"big\", signed=False)", "        return span_id.to_bytes(length=8, byteorder=\"little\", signed=False)")
B("E08", ZPV, "                        timestamp=annotation[\"timestamp\"],\n", "                        timestamp=annotation[\"timestamp\"] // 1000,\n")
B("E08", ZPX, "ProtobufEncoder(max_tag_value_length)", "ProtobufEncoder()")
B("E08", ZX, "            self.encoder = JsonV1Encoder(max_tag_value_length)", "            self.encoder = JsonV1Encoder(local_node_port)")
B("E08", ZX, "            local_node_ipv4, local_node_ipv6, local_node_port\n", "            local_node_ipv4, None, local_node_port\n")
B("E08", ZX, "            data=self.encoder.serialize(spans, self.local_node),", "            data=self.encoder.serialize(spans[:512], self.local_node),")
Q(ZE, "            encoded_spans.append(\n                self._encode_span(span, encoded_local_endpoint)\n            )\n        return json.dumps(encoded_spans)", "            record = self._encode_span(span, encoded_local_endpoint)\n            encoded_spans.append(record)\n        body = json.dumps(encoded_spans)\n        return body")
Q(ZE, "        encoded_spans = []\n        for span in spans:\n            encoded_spans.append(\n                self._encode_span(span, encoded_local_endpoint)\n            )\n        return json.dumps(encoded_spans)", "        return json.dumps(\n            [self._encode_span(span, encoded_local_endpoint) for span in spans]\n        )")
Q(ZE, "            tags.update({\"otel.status_code\": span.status.status_code.name})\n            if span.status.status_code is StatusCode.ERROR:\n                tags.update({\"error\": span.status.description or \"\"})", "            status = span.status\n            tags[\"otel.status_code\"] = status.status_code.name\n            if status.status_code is StatusCode.ERROR:\n                description = status.description\n                tags[\"error\"] = description if description else \"\"")
Q(ZE, "            if isinstance(attribute_value, bool):\n                value = str(attribute_value).lower()\n", "            if isinstance(attribute_value, bool):\n                value = \"true\" if attribute_value else \"false\"\n")
Q(ZE, "        return (nsec + 500) // 10**3", "        return (500 + nsec) // 1000")
Q(ZE, "        tags = self._extract_tags_from_dict(span.attributes)\n        if span.resource:\n            tags.update(self._extract_tags_from_dict(span.resource.attributes))\n", "        tags = {}\n        tags.update(self._extract_tags_from_dict(span.attributes))\n        resource = span.resource\n        if resource:\n            resource_tags = self._extract_tags_from_dict(resource.attributes)\n            tags.update(resource_tags)\n")
Q(ZE, "        annotations = []\n        for event in events:\n            attrs = {}\n", "        annotations = []\n        for event in list(events):\n            attrs = {}\n")
Q(ZPV, "            encoded_annotations = []\n            for annotation in annotations:\n                encoded_annotations.append(\n                    zipkin_pb2.Annotation(\n                        timestamp=annotation[\"timestamp\"],\n                        value=annotation[\"value\"],\n                    )\n                )\n", "            encoded_annotations = [\n                zipkin_pb2.Annotation(\n                    timestamp=annotation[\"timestamp\"],\n                    value=annotation[\"value\"],\n                )\n                for annotation in annotations\n            ]\n")
Q(ZV2, "            \"localEndpoint\": encoded_local_endpoint,\n            \"kind\": self.SPAN_KIND_MAP[span.kind],\n        }\n", "            \"localEndpoint\": encoded_local_endpoint,\n        }\n        kind = self.SPAN_KIND_MAP[span.kind]\n        encoded_span[\"kind\"] = kind\n")
Q(ZV1, "            binary_annotations.append(\n                {\n                    \"key\": tag_key,\n                    \"value\": tag_value,\n                    \"endpoint\": encoded_local_endpoint,\n                }\n            )\n", "            entry = {\"key\": tag_key, \"value\": tag_value}\n            entry[\"endpoint\"] = encoded_local_endpoint\n            binary_annotations.append(entry)\n")

# -- E09 ---------------------------------------------------------------------------
PX = "exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/__init__.py"
PM = "exporter/opentelemetry-exporter-prometheus/src/opentelemetry/exporter/prometheus/_mapping.py"
B("E09", PX, "        total_count += count\n        buckets.append((f\"{upper_bound}\", total_count))", "        buckets.append((f\"{upper_bound}\", total_count))\n        total_count += count")
B("E09", PX, "        buckets.append((f\"{upper_bound}\", total_count))", "        if count:\n            buckets.append((f\"{upper_bound}\", total_count))")
B("E09", PX, "        chain(explicit_bounds, [\"+Inf\"]),", "        explicit_bounds,")
B("E09", PX, "                    and metric.data.is_monotonic is False\n", "                    and metric.data.is_monotonic\n")
B("E09", PX, "                    == AggregationTemporality.CUMULATIVE\n", "                    == AggregationTemporality.DELTA\n")
B("E09", PX, "                UpDownCounter: AggregationTemporality.CUMULATIVE,", "                UpDownCounter: AggregationTemporality.DELTA,")
B("E09", PX, "                for key, value in sorted(number_data_point.attributes.items()):\n                    label_keys.append(sanitize_attribute(key))\n                    label_values.append(self._check_value(value))\n", "                for key in sorted(number_data_point.attributes):\n                    label_keys.append(sanitize_attribute(key))\n                for value in number_data_point.attributes.values():\n                    label_values.append(self._check_value(value))\n")
B("E09", PX, "                    label_keys.append(sanitize_attribute(key))\n", "                    label_keys.append(key)\n")
B("E09", PX, "                            \"%\".join(label_keys),\n", "                            \"%\".join(label_values),\n")
B("E09", PX, "                            \"%\".join(label_keys),\n", "")
B("E09", PX, "                        [\n                            metric_name,\n", "                        [\n")
B("E09", PX, "                        [per_metric_family_id, GaugeMetricFamily.__name__]", "                        [per_metric_family_id, CounterMetricFamily.__name__]")
B("E09", PX, "            metric_name = sanitize_full_name(metric.name)", "            metric_name = metric.name")
B("E09", PX, "            metric_unit = map_unit(metric.unit)", "            metric_unit = \"\"")
B("E09", PX, "                _logger.warning(\n                    \"Unsupported metric data. %s\", type(metric.data)\n                )\n                continue\n", "                _logger.warning(\n                    \"Unsupported metric data. %s\", type(metric.data)\n                )\n                break\n")
B("E09", PX, "            if not isinstance(metric.data, (Sum, Gauge, Histogram)):\n", "            if metric.data is None:\n")
B("E09", PX, "                label_values_data_points.append(label_values)\n                label_keys_data_points.append(label_keys)\n", "                if label_values:\n                    label_values_data_points.append(label_values)\n                label_keys_data_points.append(label_keys)\n")
B("E09", PX, "            label_values_data_points = []\n            label_keys_data_points = []\n            values = []\n", "            label_values_data_points = []\n            label_keys_data_points = []\n            values = []\n            if not metric.description:\n                continue\n")
B("E09", PX, "                        sum_value=value[\"sum\"],", "                        sum_value=value[\"bucket_counts\"][-1],")
B("E09", PX, "                            \"sum\": number_data_point.sum,", "                            \"sum\": number_data_point.count,")
B("E09", PX, "                    values.append(number_data_point.value)", "                    values.append(int(number_data_point.value))")
B("E09", PX, "            metric_description = metric.description or \"\"", "            metric_description = metric.name")
B("E09", PX, "            return dumps(value, default=str)\n        return str(value)", "            return dumps(value, default=str)\n        return value[:64]")
B("E09", PX, "            while self._metrics_datas:\n                metrics_data = self._metrics_datas.popleft()\n", "            while self._metrics_datas:\n                metrics_data = self._metrics_datas.popleft()\n                self._translate_to_prometheus(metrics_data, metric_family_id_metric_family)\n")
B("E09", PX, "        if self._callback is not None:\n                self._callback()\n\n            metrics_data = None\n            while self._metrics_datas:\n                metrics_data = self._metrics_datas.popleft()\n", "        metrics_data = None\n            while self._metrics_datas:\n                metrics_data = self._metrics_datas.popleft()\n            if self._callback is not None:\n                self._callback()\n")
B("E09", PX, "            if not self._disable_target_info:\n                if self._target_info", "            if self._disable_target_info:\n                if self._target_info")
B("E09", PX, "            if metric_family_id_metric_family:\n                yield", "            if len(metric_family_id_metric_family) > 1:\n                yield")
B("E09", PX, "        self._collector._callback = self.collect\n", "")
B("E09", PX, "        REGISTRY.unregister(self._collector)\n", "        self._collector._callback = None\n")
B("E09", PX, "                    metric_family_id_metric_family[\n                        metric_family_id\n                    ].add_metric(labels=label_values, value=value)\n                elif (\n", "                        metric_family_id_metric_family[\n                            metric_family_id\n                        ].add_metric(labels=label_values, value=value)\n                elif (\n")
B("E09", PX, "                for metric in scope_metrics.metrics:\n                    metrics.append(metric)", "                for metric in scope_metrics.metrics[:100]:\n                    metrics.append(metric)")
B("E09", PX, "                for metric in scope_metrics.metrics:\n                    metrics.append(metric)", "                if scope_metrics.scope.name:\n                    metrics.extend(scope_metrics.metrics)")
B("E09", PM, "_SANITIZE_NAME_RE = compile(r\"[^a-zA-Z0-9:]+\", UNICODE)", "_SANITIZE_NAME_RE = compile(r\"[^\\w:]+\", UNICODE)")
B("E09", PM, "_SANITIZE_ATTRIBUTE_KEY_RE = compile(r\"[^a-zA-Z0-9]+\", UNICODE)", "_SANITIZE_ATTRIBUTE_KEY_RE = compile(r\"[^a-zA-Z0-9.]+\", UNICODE)")
B("E09", PM, "    if key and key[0].isdigit():\n        key = \"_\" + key[1:]\n", "")
B("E09", PM, "        name = \"_\" + name[1:]\n    return _sanitize_name(name)", "        name = name[1:]\n    return _sanitize_name(name)")
Q(PX, "        metrics = []\n\n        for resource_metrics in metrics_data.resource_metrics:\n            for scope_metrics in resource_metrics.scope_metrics:\n                for metric in scope_metrics.metrics:\n                    metrics.append(metric)\n\n        for metric in metrics:\n", "        metrics = [\n            metric\n            for resource_metrics in metrics_data.resource_metrics\n            for scope_metrics in resource_metrics.scope_metrics\n            for metric in scope_metrics.metrics\n        ]\n\n        for metric in metrics:\n")
Q(PX, "                for metric in scope_metrics.metrics:\n                    metrics.append(metric)", "                metrics.extend(scope_metrics.metrics)")
Q(PX, "                label_keys = []\n                label_values = []\n\n                for key, value in sorted(number_data_point.attributes.items()):\n                    label_keys.append(sanitize_attribute(key))\n                    label_values.append(self._check_value(value))\n", "                pairs = sorted(number_data_point.attributes.items())\n                label_keys = [sanitize_attribute(key) for key, _ in pairs]\n                label_values = [self._check_value(value) for _, value in pairs]\n")
Q(PX, "                    if (\n                        metric_family_id\n                        not in metric_family_id_metric_family.keys()\n                    ):\n                        metric_family_id_metric_family[metric_family_id] = (\n                            GaugeMetricFamily(\n                                name=metric_name,\n                                documentation=metric_description,\n                                labels=label_keys,\n                                unit=metric_unit,\n                            )\n                        )\n                    metric_family_id_metric_family[\n                        metric_family_id\n                    ].add_metric(labels=label_values, value=value)\n", "                    family = metric_family_id_metric_family.get(metric_family_id)\n                    if family is None:\n                        family = GaugeMetricFamily(\n                            name=metric_name,\n                            documentation=metric_description,\n                            labels=label_keys,\n                            unit=metric_unit,\n                        )\n                        metric_family_id_metric_family[metric_family_id] = family\n                    family.add_metric(labels=label_values, value=value)\n")
Q(PX, "            metric_description = metric.description or \"\"", "            metric_description = (\n                metric.description if metric.description else \"\"\n            )")
Q(PX, "                isinstance(metric.data, Sum)\n                    and metric.data.is_monotonic is False\n", "                isinstance(metric.data, Sum)\n                    and not metric.data.is_monotonic\n")
Q(PX, "    buckets = []\n    total_count = 0\n    for upper_bound, count in zip(\n        chain(explicit_bounds, [\"+Inf\"]),\n        bucket_counts,\n    ):\n        total_count += count\n        buckets.append((f\"{upper_bound}\", total_count))\n\n    return buckets", "    buckets = []\n    total_count = 0\n    bounds = chain(explicit_bounds, [\"+Inf\"])\n    for upper_bound, count in zip(bounds, bucket_counts):\n        total_count = total_count + count\n        pair = (str(upper_bound), total_count)\n        buckets.append(pair)\n\n    return buckets")
Q(PX, "            if metric_family_id_metric_family:\n                yield from metric_family_id_metric_family.values()", "            for family in metric_family_id_metric_family.values():\n                yield family")
Q(PM, "    if key and key[0].isdigit():\n        key = \"_\" + key[1:]\n", "    if key and key[0].isdigit():\n        key = f\"_{key[1:]}\"\n")
