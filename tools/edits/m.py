SDK = "opentelemetry-sdk/src/opentelemetry/sdk/"
API = "opentelemetry-api/src/opentelemetry/"
MI = SDK + "metrics/_internal/__init__.py"
AG = SDK + "metrics/_internal/aggregation.py"
MC = SDK + "metrics/_internal/measurement_consumer.py"
MS = SDK + "metrics/_internal/metric_reader_storage.py"
VM = SDK + "metrics/_internal/_view_instrument_match.py"
VW = SDK + "metrics/_internal/view.py"
IN = SDK + "metrics/_internal/instrument.py"
MX = SDK + "metrics/_internal/export/__init__.py"
AM = API + "metrics/_internal/__init__.py"
OM = "exporter/opentelemetry-exporter-otlp-proto-common/src/opentelemetry/exporter/otlp/proto/common/_internal/metrics_encoder/__init__.py"
# M01
B("M01", MC, "        for reader_storage in self._reader_storages.values():\n            reader_storage.consume_measurement(\n                measurement, should_sample_exemplar\n            )", "        for reader_storage in self._reader_storages.values():\n            reader_storage.consume_measurement(\n                measurement, should_sample_exemplar\n            )\n            break")
B("M01", MC, "        for reader_storage in self._reader_storages.values():\n", "        if should_sample_exemplar is None:\n            return\n        for reader_storage in list(self._reader_storages.values())[1:]:\n")
B("M01", MC, "            result = self._reader_storages[metric_reader].collect()\n", "            result = next(iter(self._reader_storages.values())).collect()\n")
B("M01", MC, "            reader: MetricReaderStorage(\n                sdk_config,\n                reader._instrument_class_temporality,", "            reader: MetricReaderStorage(\n                sdk_config,\n                sdk_config.metric_readers[0]._instrument_class_temporality,")
B("M01", MC, "            for reader in sdk_config.metric_readers\n", "            for reader in sdk_config.metric_readers\n            if reader._instrument_class_temporality\n")
B("M01", MC, "                    metric_reader_storage.consume_measurement(\n                        measurement, should_sample_exemplar\n                    )", "                    self.consume_measurement(measurement)")
B("M01", MS, "        for view_instrument_match in self._get_or_init_view_instrument_match(\n            measurement.instrument\n        ):\n            view_instrument_match.consume_measurement(\n                measurement, should_sample_exemplar\n            )", "        self._get_or_init_view_instrument_match(measurement.instrument)[0].consume_measurement(measurement, should_sample_exemplar)")
B("M01", MS, "            if not view_instrument_matches:\n", "            if len(view_instrument_matches) < 2:\n")
B("M01", MS, "            if not view_instrument_matches:\n", "            if not view_instrument_matches and not self._sdk_config.views:\n")
B("M01", MS, "            view_instrument_matches.append(new_view_instrument_match)\n", "            view_instrument_matches.append(new_view_instrument_match)\n            return\n")
B("M01", MS, "                        _logger.warning(\n                            \"Views %s and %s will cause", "                        return\n                        _logger.warning(\n                            \"Views %s and %s will cause")
B("M01", MS, "        if isinstance(instrument, Asynchronous) and isinstance(\n            view._aggregation, ExplicitBucketHistogramAggregation\n        ):", "        if isinstance(\n            view._aggregation, ExplicitBucketHistogramAggregation\n        ):")
B("M01", MS, "            result = False\n\n        return result", "            result = True\n\n        return result")
B("M01", MS, "            if not view._match(instrument):\n                continue\n", "            if view._match(instrument):\n                continue\n")
B("M01", MS, "                    if data_points is None:\n                        continue\n", "                    if data_points is None:\n                        break\n", "                    elif isinstance(\n                        # pylint: disable=protected-access\n                        view_instrument_match._aggregation,\n                        _DropAggregation,\n                    ):\n                        continue\n", "                    elif isinstance(\n                        view_instrument_match._aggregation,\n                        _DropAggregation,\n                    ):\n                        break\n")
B("M01", MS, "                        ].metrics.extend(metrics)", "                        ].metrics[:] = metrics")
B("M01", MS, "                if metrics:\n", "                if len(metrics) > 1:\n")
B("M01", MS, "isinstance(\n                                instrument, (Counter, ObservableCounter)\n                            )", "isinstance(\n                                instrument, Counter\n                            )")
B("M01", MS, "                            name=view_instrument_match._name,", "                            name=instrument.name,")
B("M01", MS, "                aggregation_temporality = self._instrument_class_temporality[\n                    instrument.__class__\n                ]\n", "                aggregation_temporality = next(iter(self._instrument_class_temporality.values()))\n")
B("M01", MS, '_DEFAULT_VIEW = View(instrument_name="")', '_DEFAULT_VIEW = View(instrument_name="", attribute_keys=set())')
B("M01", VW, "            if instrument.instrumentation_scope.version != self._meter_version:\n                return False", "            if instrument.instrumentation_scope.version == self._meter_version:\n                return True")
B("M01", VW, "            if not fnmatch(instrument.unit, self._instrument_unit):\n                return False", "            if not fnmatch(instrument.unit, self._instrument_unit):\n                return self._instrument_name is not None")
B("M01", VW, "            if not fnmatch(instrument.unit, self._instrument_unit):", "            if not fnmatch(instrument.name, self._instrument_unit):")
B("M01", VW, "        if self._meter_schema_url is not None:\n", "        if self._meter_schema_url is not None and self._meter_name is not None:\n")
B("M01", VW, "            if not isinstance(instrument, self._instrument_type):\n", "            if not isinstance(instrument, self._instrument_type) and self._instrument_name is None:\n")
B("M01", VM, "                if key in self._view._attribute_keys:\n                    attributes[key] = value", "                if key not in self._view._attribute_keys:\n                    attributes[key] = value")
B("M01", VM, "                if key in self._view._attribute_keys:\n                    attributes[key] = value", "                if key in self._view._attribute_keys:\n                    attributes[key] = value\n                else:\n                    break")
B("M01", VM, "        if self._view._attribute_keys is not None:\n", "        if self._view._attribute_keys:\n")
B("M01", VM, "        aggr_key = frozenset(attributes.items())", "        aggr_key = frozenset(attributes)")
B("M01", VM, "        aggr_key = frozenset(attributes.items())", "        aggr_key = frozenset((measurement.attributes or {}).items())")
B("M01", VM, "        self._name = self._view._name or self._instrument.name", "        self._name = self._instrument.name")
B("M01", VM, "                if data_point is not None:\n                    data_points.append(data_point)", "                if data_point is not None:\n                    data_points.append(data_point)\n                else:\n                    break")
B("M01", VM, "            for aggregation in self._attributes_aggregation.values():", "            for aggregation in list(self._attributes_aggregation.values())[:2000]:")
B("M01", VM, "        return data_points or None", "        return None if len(data_points) < 2 else data_points")
Q(MC, "        for reader_storage in self._reader_storages.values():\n            reader_storage.consume_measurement(\n                measurement, should_sample_exemplar\n            )", "        for reader, storage in self._reader_storages.items():\n            storage.consume_measurement(measurement, should_sample_exemplar=should_sample_exemplar)")
Q(MC, "            result = self._reader_storages[metric_reader].collect()\n\n        return result", "            return metric_reader_storage.collect()")
Q(MC, "        self._reader_storages: Mapping[\n            \"opentelemetry.sdk.metrics.MetricReader\", MetricReaderStorage\n        ] = {\n            reader: MetricReaderStorage(\n                sdk_config,\n                reader._instrument_class_temporality,\n                reader._instrument_class_aggregation,\n            )\n            for reader in sdk_config.metric_readers\n        }", "        storages = {}\n        for reader in sdk_config.metric_readers:\n            storages[reader] = MetricReaderStorage(\n                sdk_config,\n                reader._instrument_class_temporality,\n                instrument_class_aggregation=reader._instrument_class_aggregation,\n            )\n        self._reader_storages = storages")
Q(MS, "            if not view_instrument_matches:\n", "            if len(view_instrument_matches) == 0:\n")
Q(MS, "            if not view._match(instrument):\n                continue\n\n            if not self._check_view_instrument_compatibility(view, instrument):\n                continue\n", "            matched = view._match(instrument)\n            if not (matched and self._check_view_instrument_compatibility(view, instrument)):\n                continue\n")
Q(MS, "        result = True\n\n        # pylint: disable=protected-access\n        if isinstance(instrument, Asynchronous) and isinstance(\n            view._aggregation, ExplicitBucketHistogramAggregation\n        ):", "        incompatible = isinstance(instrument, Asynchronous) and isinstance(\n            view._aggregation, ExplicitBucketHistogramAggregation\n        )\n        if incompatible:", "            result = False\n\n        return result", "        return not incompatible")
Q(VW, "        if self._instrument_unit is not None:\n            if not fnmatch(instrument.unit, self._instrument_unit):\n                return False\n", "        if self._instrument_unit is not None and not fnmatch(instrument.unit, self._instrument_unit):\n            return False\n")
Q(VW, "        if self._meter_version is not None:\n            if instrument.instrumentation_scope.version != self._meter_version:\n                return False\n", "        scope = instrument.instrumentation_scope\n        if self._meter_version not in (None, scope.version):\n            return False\n")
Q(VW, "            if (\n                instrument.instrumentation_scope.schema_url\n                != self._meter_schema_url\n            ):\n                return False\n\n        return True", "            return (\n                instrument.instrumentation_scope.schema_url\n                == self._meter_schema_url\n            )\n        return True")
Q(VM, "            attributes = {}\n\n            for key, value in (measurement.attributes or {}).items():\n                if key in self._view._attribute_keys:\n                    attributes[key] = value", "            keep = self._view._attribute_keys\n            attributes = {\n                key: value\n                for key, value in (measurement.attributes or {}).items()\n                if key in keep\n            }")
Q(VM, "        elif measurement.attributes is not None:\n            attributes = measurement.attributes\n        else:\n            attributes = {}\n", "        else:\n            attributes = measurement.attributes or {}\n")
Q(VM, "        if self._view._attribute_keys is not None:\n            attributes = {}\n\n            for key, value in (measurement.attributes or {}).items():\n                if key in self._view._attribute_keys:\n                    attributes[key] = value\n        elif measurement.attributes is not None:\n            attributes = measurement.attributes\n        else:\n            attributes = {}\n\n", "        attributes = self._kept(measurement)\n\n", "    # pylint: disable=protected-access\n    def consume_measurement(", "    def _kept(self, measurement):\n        attributes = measurement.attributes or {}\n        if self._view._attribute_keys is None:\n            return attributes\n        return {k: attributes[k] for k in attributes if k in self._view._attribute_keys}\n\n    # pylint: disable=protected-access\n    def consume_measurement(")
Q(VM, "            for aggregation in self._attributes_aggregation.values():\n                data_point = aggregation.collect(\n                    collection_aggregation_temporality, collection_start_nanos\n                )\n                if data_point is not None:\n                    data_points.append(data_point)", "            for _, aggregation in self._attributes_aggregation.items():\n                point = aggregation.collect(\n                    collection_aggregation_temporality, collection_start_nanos\n                )\n                if point is None:\n                    continue\n                data_points.append(point)")
Q(MS, "                                instrument, (Counter, ObservableCounter)\n", "                                view_instrument_match._instrument, (Counter, ObservableCounter)\n")
Q(MS, "                if metrics:\n                    if instrument.instrumentation_scope not in (\n                        instrumentation_scope_scope_metrics\n                    ):\n", "                if not metrics:\n                    continue\n                if metrics:\n                    if instrument.instrumentation_scope not in instrumentation_scope_scope_metrics:\n")
# M02
B("M02", AG, "        with self._lock:\n            if self._value is None:\n                self._value = 0\n\n            self._value = self._value + measurement.value\n", "        if self._value is None:\n            with self._lock:\n                self._value = 0\n\n        with self._lock:\n            self._value = self._value + measurement.value\n")
B("M02", AG, "            self._value = self._value + measurement.value\n", "            value = self._value + measurement.value\n\n        with self._lock:\n            self._value = value\n")
B("M02", AG, "        with self._lock:\n            value = self._value\n            self._value = None\n\n            if (", "        with self._lock:\n            value = self._value\n\n        with self._lock:\n            self._value = None\n\n            if (")
B("M02", AG, "            value = self._value\n            self._value = None\n\n            if (", "            value = self._value\n            self._value = 0\n\n            if (")
B("M02", AG, "            sum_ = self._sum\n            min_ = self._min\n            max_ = self._max\n\n            self._value = None\n            self._sum = 0\n", "            sum_ = self._sum\n            min_ = self._min\n            max_ = self._max\n\n            self._value = None\n")
B("M02", AG, "            self._value = None\n            self._sum = 0\n            self._min = inf\n            self._max = -inf\n", "            self._value = None\n            self._sum = 0\n            self._min = inf\n            self._max = inf\n")
B("M02", AG, "            if self._value is None:\n                return None\n            value = self._value\n            self._value = None\n\n        exemplars", "            if self._value is None:\n                return None\n            value = self._value\n\n        exemplars")
B("M02", AG, "            if self._value is None:\n                return None\n            value = self._value\n            self._value = None\n\n        exemplars", "            if self._value is None:\n                return None\n            value = self._value\n        self._value = None\n\n        exemplars")
B("M02", AG, "                self._previous_value = value + self._previous_value\n", "                self._previous_value = value\n")
B("M02", AG, "                result_value = value - self._previous_value\n\n                self._previous_value = value\n", "                result_value = value - self._previous_value\n\n                self._previous_value = result_value\n")
B("M02", AG, "                self._previous_collection_start_nano = collection_start_nano\n\n                return NumberDataPoint(", "                self._start_time_unix_nano = collection_start_nano\n\n                return NumberDataPoint(")
B("M02", AG, "            if (\n                collection_aggregation_temporality\n                is AggregationTemporality.DELTA\n            ):\n                result_value", "            self._start_time_unix_nano = self._start_time_unix_nano or collection_start_nano\n            if (\n                collection_aggregation_temporality\n                is AggregationTemporality.DELTA\n            ):\n                result_value")
B("M02", AG, "                self._previous_min = min(min_, self._previous_min)\n                self._previous_max = max(max_, self._previous_max)\n                self._previous_sum = sum_ + self._previous_sum\n\n                return HistogramDataPoint", "                self._previous_min = min_\n                self._previous_max = max(max_, self._previous_max)\n                self._previous_sum = sum_ + self._previous_sum\n\n                return HistogramDataPoint")
B("M02", AG, "                    ) in zip(value, self._previous_value)", "                    ) in zip(value, value)")
B("M02", AG, "                    max=self._previous_max,\n                )\n\n            return None\n\n\n# pylint", "                    max=max_,\n                )\n\n            return None\n\n\n# pylint")
B("M02", AG, "            self._count = 0\n            self._zero_count = 0\n            self._scale = None\n\n            if (", "            self._count = 0\n            self._scale = None\n\n            if (")
B("M02", AG, "                self._previous_count = count + self._previous_count\n", "                self._previous_count = count\n")
B("M02", AG, "                    zero_count + self._previous_zero_count\n", "                    self._previous_zero_count\n")
B("M02", AG, "                self._merge(\n                    self._previous_value_negative,\n                    value_negative,", "                self._merge(\n                    self._previous_value_negative,\n                    value_positive,")
B("M02", AG, "            self._value[bisect_left(self._boundaries, measurement_value)] += 1\n\n        self._sample_exemplar(measurement, should_sample_exemplar)", "            index = bisect_left(self._boundaries, measurement_value)\n        self._value[index] += 1\n\n        self._sample_exemplar(measurement, should_sample_exemplar)")
B("M02", AG, "            self._value[bisect_left(self._boundaries, measurement_value)] += 1\n\n        self._sample_exemplar(measurement, should_sample_exemplar)", "            self._value[bisect_left(self._boundaries, measurement_value)] += 1\n            self._value[0] += 1\n\n        self._sample_exemplar(measurement, should_sample_exemplar)")
B("M02", AG, "            self._sum += measurement_value\n\n            if self._record_min_max:", "            if measurement_value:\n                self._sum += abs(measurement_value)\n\n            if self._record_min_max:")
B("M02", AG, "                    if value is None:\n                        return None\n\n                    return NumberDataPoint(", "                    if not value:\n                        return None\n\n                    return NumberDataPoint(")
B("M02", AG, "            if measurement_value == 0:\n                self._zero_count += 1\n", "            if measurement_value <= 0:\n                self._zero_count += 1\n")
B("M02", AG, "                if value is None:\n                    value = 0\n\n                self._previous_value = value + self._previous_value\n", "                if value is None:\n                    value = 0\n                    self._previous_value = 0\n\n                self._previous_value = value + self._previous_value\n")
B("M02", AG, "                    start_time_unix_nano=previous_collection_start_nano,\n                    time_unix_nano=collection_start_nano,\n                    value=result_value,", "                    start_time_unix_nano=self._previous_collection_start_nano,\n                    time_unix_nano=collection_start_nano,\n                    value=result_value,")
Q(AG, "        with self._lock:\n            value = self._value\n            self._value = None\n\n            if (", "        with self._lock:\n            value, self._value = self._value, None\n\n            if (")
Q(AG, "            if self._value is None:\n                self._value = 0\n\n            self._value = self._value + measurement.value\n", "            if self._value is None:\n                self._value = measurement.value\n            else:\n                self._value += measurement.value\n")
Q(AG, "            if self._value is None:\n                return None\n            value = self._value\n            self._value = None\n\n        exemplars", "            value = self._value\n            self._value = None\n        if value is None:\n            return None\n\n        exemplars")
Q(AG, "            value = self._value\n            sum_ = self._sum\n            min_ = self._min\n            max_ = self._max\n\n            self._value = None\n            self._sum = 0\n            self._min = inf\n            self._max = -inf\n", "            value, sum_, min_, max_ = self._take()\n", "    def _get_empty_bucket_counts(self) -> List[int]:", "    def _take(self):\n        taken = self._value, self._sum, self._min, self._max\n        self._value = None\n        self._sum = 0\n        self._min = inf\n        self._max = -inf\n        return taken\n\n    def _get_empty_bucket_counts(self) -> List[int]:")
Q(AG, "                self._previous_value = value + self._previous_value\n\n                return NumberDataPoint(", "                total = self._previous_value + value\n                self._previous_value = total\n\n                return NumberDataPoint(")
Q(AG, "                self._min = min(self._min, measurement_value)\n                self._max = max(self._max, measurement_value)\n\n            self._value[bisect_left(self._boundaries, measurement_value)] += 1", "                if measurement_value < self._min:\n                    self._min = measurement_value\n                if measurement_value > self._max:\n                    self._max = measurement_value\n\n            bucket = bisect_left(self._boundaries, measurement_value)\n            self._value[bucket] = self._value[bucket] + 1")
Q(AG, "                    start_time_unix_nano=previous_collection_start_nano,\n                    time_unix_nano=collection_start_nano,\n                    value=result_value,", "                    start_time_unix_nano=previous_collection_start_nano,\n                    time_unix_nano=collection_start_nano,\n                    value=value - self._previous_value if False else result_value,")
Q(AG, "                self._previous_value = [\n                    value_element + previous_value_element\n                    for (\n                        value_element,\n                        previous_value_element,\n                    ) in zip(value, self._previous_value)\n                ]\n", "                self._previous_value = [a + b for a, b in zip(self._previous_value, value)]\n")
# M03
C1 = "        with self._instrument_id_instrument_lock:\n            instrument = self._instrument_id_instrument.get(\n                status.instrument_id\n            )\n            if instrument is None:\n                instrument = _Counter("
B("M03", MI, C1, "        with self._instrument_id_instrument_lock:\n            instrument = self._instrument_id_instrument.get(\n                status.instrument_id\n            )\n        if instrument is None:\n          with self._instrument_id_instrument_lock:\n                instrument = _Counter(", "                self._instrument_id_instrument[status.instrument_id] = (\n                    instrument\n                )\n            return instrument", "                self._instrument_id_instrument[status.instrument_id] = (\n                    instrument\n                )\n        return instrument")
B("M03", MI, "            instrument = self._instrument_id_instrument.get(\n                status.instrument_id\n            )\n            if instrument is None:\n                instrument = _Histogram(", "            instrument = self._instrument_id_instrument.get(\n                status.instrument_id\n            )\n            if instrument is None or status.conflict:\n                instrument = _Histogram(")
B("M03", MI, "                instrument = _ObservableGauge(", "                instrument = _ObservableCounter(")
B("M03", MI, "                self._measurement_consumer.register_asynchronous_instrument(\n                    instrument\n                )\n", "                if callbacks:\n                    self._measurement_consumer.register_asynchronous_instrument(\n                        instrument\n                    )\n")
B("M03", MI, "            instrument = self._instrument_id_instrument.get(\n                status.instrument_id\n            )\n            if instrument is None:\n                instrument = _Gauge(", "            instrument = self._instrument_id_instrument.get(\n                name\n            )\n            if instrument is None:\n                instrument = _Gauge(")
B("M03", MI, "        status = self._register_instrument(name, _Gauge, unit, description)\n", "        status = self._register_instrument(name, _UpDownCounter, unit, description)\n")
B("M03", MI, "                instrument = _Gauge(\n                    name,\n                    self._instrumentation_scope,\n                    self._measurement_consumer,\n                    unit,\n                    description,", "                instrument = _Gauge(\n                    name,\n                    self._instrumentation_scope,\n                    self._measurement_consumer,\n                    description,\n                    unit,")
B("M03", MI, "            name, _UpDownCounter, unit, description\n        )\n\n        if status.conflict:\n", "            name, _UpDownCounter, unit, description\n        )\n\n        if status.conflict and not status.already_registered:\n")
B("M03", MI, "            if not self._meters.get(info):\n", "            if not self._meters.get(name):\n")
B("M03", MI, "        with self._meter_lock:\n            if not self._meters.get(info):\n", "        if info in self._meters:\n            return self._meters[info]\n        meter = Meter(info, self._measurement_consumer)\n        with self._meter_lock:\n            if True:\n")
B("M03", MI, "InstrumentationScope(name, version, schema_url, attributes)", "InstrumentationScope(name, version, schema_url)")
B("M03", AM, "            (name.strip().lower(), type_.__name__, unit, description)\n", "            (name.strip().lower(), type_.__name__, description)\n")
B("M03", AM, "            (name.strip().lower(), type_.__name__, unit, description)\n", "            (name.strip().lower(), unit, description)\n")
B("M03", AM, "        instrument_id = repr(\n            (name.strip().lower(), type_.__name__, unit, description)\n        )", "        instrument_id = \",\".join([name.strip().lower(), type_.__name__, unit, description])")
B("M03", AM, "                conflict = current_advisory != advisory\n", "                conflict = current_advisory is None\n")
B("M03", MC, "            self._async_instruments.append(instrument)", "            if instrument not in self._async_instruments[-1:]:\n                self._async_instruments.append(instrument)")
B("M03", MC, "                async_instruments = list(self._async_instruments)", "                async_instruments = self._async_instruments[:256]")
Q(MI, C1, "        with self._instrument_id_instrument_lock:\n            if status.instrument_id in self._instrument_id_instrument:\n                return self._instrument_id_instrument[status.instrument_id]\n            if True:\n                instrument = _Counter(")
Q(MI, "                instrument = _Gauge(\n                    name,\n                    self._instrumentation_scope,\n                    self._measurement_consumer,\n                    unit,\n                    description,\n                )\n                self._instrument_id_instrument[status.instrument_id] = (\n                    instrument\n                )\n            return instrument", "                self._instrument_id_instrument[status.instrument_id] = _Gauge(\n                    name,\n                    self._instrumentation_scope,\n                    self._measurement_consumer,\n                    unit=unit,\n                    description=description,\n                )\n            return self._instrument_id_instrument[status.instrument_id]")
Q(MI, "            instrument = self._instrument_id_instrument.get(\n                status.instrument_id\n            )\n            if instrument is None:\n                instrument = _Gauge(\n                    name,\n                    self._instrumentation_scope,\n                    self._measurement_consumer,\n                    unit,\n                    description,\n                )\n                self._instrument_id_instrument[status.instrument_id] = (\n                    instrument\n                )\n            return instrument", "            return self._once(status.instrument_id, _Gauge, name, unit, description)", "    def create_gauge(self", "    def _once(self, instrument_id, kind, name, unit, description):\n        instrument = self._instrument_id_instrument.get(instrument_id)\n        if instrument is None:\n            instrument = kind(name, self._instrumentation_scope, self._measurement_consumer, unit, description)\n            self._instrument_id_instrument[instrument_id] = instrument\n        return instrument\n\n    def create_gauge(self")
Q(MI, "            if not self._meters.get(info):\n                # FIXME #2558 pass SDKConfig object to meter so that the meter\n                # has access to views.\n                self._meters[info] = Meter(\n                    info,\n                    self._measurement_consumer,\n                )\n            return self._meters[info]", "            meter = self._meters.get(info)\n            if meter is None:\n                meter = Meter(info, self._measurement_consumer)\n                self._meters[info] = meter\n            return meter")
Q(AM, "        instrument_id = repr(\n            (name.strip().lower(), type_.__name__, unit, description)\n        )", "        identity = (name.lower().strip(), type_.__name__, unit, description)\n        instrument_id = repr(identity)")
# M04
B("M04", IN, "        if amount < 0:\n            _logger.warning(\n                \"Add amount", "        if amount <= 0:\n            _logger.warning(\n                \"Add amount")
B("M04", IN, "        if amount < 0:\n            _logger.warning(\n                \"Record amount", "        if amount < 0 and attributes:\n            _logger.warning(\n                \"Record amount")
B("M04", IN, "                \"Add amount must be non-negative on Counter %s.\", self.name\n            )\n            return\n", "                \"Add amount must be non-negative on Counter %s.\", self.name\n            )\n            amount = 0\n")
B("M04", IN, "            _logger.warning(\n                \"Add amount must be non-negative on Counter %s.\", self.name\n            )\n            return\n", "            return\n")
B("M04", IN, "            raise TypeError(\"UpDownCounter must be instantiated via a meter.\")\n        return super().__new__(cls)\n\n    def add(\n        self,\n        amount: Union[int, float],\n        attributes: dict[str, str] | None = None,\n        context: Context | None = None,\n    ):\n", "            raise TypeError(\"UpDownCounter must be instantiated via a meter.\")\n        return super().__new__(cls)\n\n    def add(\n        self,\n        amount: Union[int, float],\n        attributes: dict[str, str] | None = None,\n        context: Context | None = None,\n    ):\n        if not amount:\n            return\n")
B("M04", IN, "                context if context is not None else get_current(),", "                context or get_current(),")
B("M04", IN, "                context if context is not None else get_current(),", "                get_current(),")
B("M04", IN, "                            api_measurement.context\n                            if api_measurement.context is not None\n                            else get_current()", "                            get_current()")
B("M04", IN, "                        attributes=api_measurement.attributes,\n", "                        attributes=api_measurement.attributes or {},\n")
B("M04", IN, "        if result[\"unit\"] is None:", "        if result[\"unit\"] is None and unit:\n            unit = \"\"\n        elif result[\"unit\"] is None:")
B("M04", AG, "                instrument_is_monotonic=False,\n                instrument_aggregation_temporality=(\n                    AggregationTemporality.CUMULATIVE\n                ),", "                instrument_is_monotonic=True,\n                instrument_aggregation_temporality=(\n                    AggregationTemporality.CUMULATIVE\n                ),")
B("M04", AG, "                instrument_is_monotonic=True,\n                instrument_aggregation_temporality=(\n                    AggregationTemporality.CUMULATIVE\n                ),", "                instrument_is_monotonic=True,\n                instrument_aggregation_temporality=(\n                    AggregationTemporality.DELTA\n                ),")
B("M04", AG, "        if isinstance(instrument, _Gauge):\n            return _LastValueAggregation(", "        if isinstance(instrument, _Gauge):\n            return _DropAggregation(")
B("M04", AG, "            isinstance(instrument, (Counter, ObservableCounter)),", "            isinstance(instrument, Counter),")
B("M04", AG, "                boundaries=boundaries,\n                start_time", "                boundaries=None,\n                start_time")
B("M04", AG, "            max_scale=self._max_scale,\n        )\n\n\nclass Explicit", "        )\n\n\nclass Explicit")
Q(IN, "        if amount < 0:\n            _logger.warning(\n                \"Add amount", "        if not amount >= 0:\n            _logger.warning(\n                \"Add amount")
Q(IN, "        time_unix_nano = time_ns()\n        self._measurement_consumer.consume_measurement(\n            Measurement(\n                amount,\n                time_unix_nano,\n                self,\n                context if context is not None else get_current(),\n                attributes,\n            )\n        )\n\n\nclass UpDown", "        self._record(amount, attributes, context)\n\n\nclass UpDown", "class _Asynchronous:", "    def _record(self, amount, attributes, context):\n        if context is None:\n            context = get_current()\n        self._measurement_consumer.consume_measurement(\n            Measurement(\n                value=amount,\n                time_unix_nano=time_ns(),\n                instrument=self,\n                context=context,\n                attributes=attributes,\n            )\n        )\n\n\nclass _Asynchronous:")
Q(AG, "        if isinstance(instrument, ObservableGauge):\n            return _LastValueAggregation(\n                attributes,\n                reservoir_builder=reservoir_factory(_LastValueAggregation),\n            )\n\n        if isinstance(instrument, _Gauge):\n", "        if isinstance(instrument, (ObservableGauge, _Gauge)):\n")
Q(AG, "        if isinstance(instrument, Counter):\n            return _SumAggregation(\n                attributes,\n                reservoir_builder=reservoir_factory(_SumAggregation),\n                instrument_is_monotonic=True,\n                instrument_aggregation_temporality=(\n                    AggregationTemporality.DELTA\n                ),\n                start_time_unix_nano=start_time_unix_nano,\n            )\n        if isinstance(instrument, UpDownCounter):\n            return _SumAggregation(\n                attributes,\n                reservoir_builder=reservoir_factory(_SumAggregation),\n                instrument_is_monotonic=False,\n", "        if isinstance(instrument, (Counter, UpDownCounter)):\n            return _SumAggregation(\n                attributes,\n                reservoir_builder=reservoir_factory(_SumAggregation),\n                instrument_is_monotonic=isinstance(instrument, Counter),\n")
Q(AG, "        instrument_aggregation_temporality = AggregationTemporality.UNSPECIFIED\n        if isinstance(instrument, Synchronous):\n            instrument_aggregation_temporality = AggregationTemporality.DELTA\n        elif isinstance(instrument, Asynchronous):\n            instrument_aggregation_temporality = (\n                AggregationTemporality.CUMULATIVE\n            )\n", "        instrument_aggregation_temporality = (\n            AggregationTemporality.DELTA\n            if isinstance(instrument, Synchronous)\n            else AggregationTemporality.CUMULATIVE\n        )\n")
# M05
OHM = "exporter/opentelemetry-exporter-otlp-proto-http/src/opentelemetry/exporter/otlp/proto/http/metric_exporter/__init__.py"
OGM = "exporter/opentelemetry-exporter-otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/metric_exporter/__init__.py"
B("M05", OM, "                ObservableCounter: AggregationTemporality.DELTA,\n", "                ObservableCounter: AggregationTemporality.CUMULATIVE,\n")
B("M05", OM, "                Histogram: AggregationTemporality.DELTA,\n                ObservableCounter: AggregationTemporality.CUMULATIVE,", "                Histogram: AggregationTemporality.CUMULATIVE,\n                ObservableCounter: AggregationTemporality.CUMULATIVE,")
B("M05", OM, "            .upper()\n            .strip()\n        )", "            .strip()\n        )")
B("M05", OM, "        instrument_class_temporality.update(preferred_temporality or {})\n", "        for k, v in (preferred_temporality or {}).items():\n            instrument_class_temporality.setdefault(k, v)\n")
B("M05", OM, "        instrument_class_temporality.update(preferred_temporality or {})\n", "        instrument_class_temporality = {**(preferred_temporality or {}), **instrument_class_temporality}\n")
B("M05", OM, "                Histogram: ExponentialBucketHistogramAggregation(),\n", "                Histogram: ExponentialBucketHistogramAggregation(),\n                Counter: ExponentialBucketHistogramAggregation(),\n")
B("M05", OM, "        instrument_class_aggregation.update(preferred_aggregation or {})\n", "        if not instrument_class_aggregation:\n            instrument_class_aggregation.update(preferred_aggregation or {})\n")
B("M05", OM, "\"LOWMEMORY\"", "\"LOW_MEMORY\"")
B("M05", OM, "preferred_aggregation=self._get_aggregation(preferred_aggregation),", "preferred_aggregation=preferred_aggregation or self._get_aggregation(None),")
B("M05", OHM, "            preferred_temporality, preferred_aggregation\n        )", "            preferred_temporality\n        )")
B("M05", OGM, "        self._common_configuration(\n            preferred_temporality, preferred_aggregation\n        )", "        self._common_configuration(\n            preferred_temporality or preferred_aggregation, preferred_aggregation\n        )")
B("M05", MX, "                elif typ is ObservableGauge:\n                    self._instrument_class_temporality[_ObservableGauge] = (\n", "                elif typ is ObservableGauge:\n                    self._instrument_class_temporality[_Gauge] = (\n")
B("M05", MX, "                elif typ is ObservableUpDownCounter:\n                    self._instrument_class_aggregation[\n                        _ObservableUpDownCounter\n                    ] = aggregation\n", "                elif typ is ObservableUpDownCounter:\n                    self._instrument_class_temporality[\n                        _ObservableUpDownCounter\n                    ] = aggregation\n")
B("M05", MX, "                if typ is Counter:\n                    self._instrument_class_temporality[_Counter] = temporality\n", "                if typ is Counter:\n                    if temporality is AggregationTemporality.CUMULATIVE:\n                        break\n                    self._instrument_class_temporality[_Counter] = temporality\n")
B("M05", MX, "            _Histogram: AggregationTemporality.CUMULATIVE,\n", "            _Histogram: AggregationTemporality.DELTA,\n")
B("M05", MX, "            preferred_aggregation=exporter._preferred_aggregation,", "            preferred_aggregation=None,")
B("M05", MX, "        self._preferred_aggregation = preferred_aggregation\n", "        self._preferred_aggregation = None\n")
B("M05", VM, "        if not isinstance(self._view._aggregation, DefaultAggregation):\n            self._aggregation", "        if isinstance(self._view._aggregation, DefaultAggregation):\n            self._aggregation")
B("M05", VM, "                        aggregation = self._instrument_class_aggregation[\n                            self._instrument.__class__\n                        ]._create_aggregation(", "                        aggregation = self._view._aggregation._create_aggregation(")
B("M05", MC, "                reader._instrument_class_temporality,\n", "                next(iter(sdk_config.metric_readers))._instrument_class_temporality,\n")
B("M05", MS, "aggregation_temporality = self._instrument_class_temporality[\n                    instrument.__class__\n                ]", "aggregation_temporality = self._instrument_class_temporality.get(\n                    instrument.__class__.__mro__[1], AggregationTemporality.CUMULATIVE\n                )")
Q(OM, "        instrument_class_temporality.update(preferred_temporality or {})\n", "        instrument_class_temporality = {**instrument_class_temporality, **(preferred_temporality or {})}\n")
Q(OM, "        instrument_class_temporality.update(preferred_temporality or {})\n", "        if preferred_temporality:\n            for k, v in preferred_temporality.items():\n                instrument_class_temporality[k] = v\n")
Q(OM, "            .upper()\n            .strip()\n        )", "            .strip()\n            .upper()\n        )")
Q(OM, "            preferred_temporality=self._get_temporality(preferred_temporality),\n            preferred_aggregation=self._get_aggregation(preferred_aggregation),", "            self._get_temporality(preferred_temporality),\n            self._get_aggregation(preferred_aggregation),")
Q(MX, "                if typ is Counter:\n                    self._instrument_class_temporality[_Counter] = temporality\n                elif typ is UpDownCounter:\n                    self._instrument_class_temporality[_UpDownCounter] = (\n                        temporality\n                    )\n                elif typ is Histogram:\n                    self._instrument_class_temporality[_Histogram] = (\n                        temporality\n                    )\n                elif typ is Gauge:\n                    self._instrument_class_temporality[_Gauge] = temporality\n                elif typ is ObservableCounter:\n                    self._instrument_class_temporality[_ObservableCounter] = (\n                        temporality\n                    )\n                elif typ is ObservableUpDownCounter:\n                    self._instrument_class_temporality[\n                        _ObservableUpDownCounter\n                    ] = temporality\n                elif typ is ObservableGauge:\n                    self._instrument_class_temporality[_ObservableGauge] = (\n                        temporality\n                    )\n                else:\n                    raise Exception(f\"Invalid instrument class found {typ}\")\n", "                if typ not in _SDK_CLASS:\n                    raise Exception(f\"Invalid instrument class found {typ}\")\n                self._instrument_class_temporality[_SDK_CLASS[typ]] = temporality\n", "class MetricReader(ABC):", "_SDK_CLASS = {\n    Counter: _Counter,\n    UpDownCounter: _UpDownCounter,\n    Histogram: _Histogram,\n    Gauge: _Gauge,\n    ObservableCounter: _ObservableCounter,\n    ObservableUpDownCounter: _ObservableUpDownCounter,\n    ObservableGauge: _ObservableGauge,\n}\n\n\nclass MetricReader(ABC):")
Q(VM, "        if not isinstance(self._view._aggregation, DefaultAggregation):\n            self._aggregation = self._view._aggregation._create_aggregation(\n                self._instrument,\n                None,\n                self._view._exemplar_reservoir_factory,\n                0,\n            )\n        else:\n            self._aggregation = self._instrument_class_aggregation[\n                self._instrument.__class__\n            ]._create_aggregation(\n                self._instrument,\n                None,\n                self._view._exemplar_reservoir_factory,\n                0,\n            )\n", "        factory = self._view._aggregation\n        if isinstance(factory, DefaultAggregation):\n            factory = self._instrument_class_aggregation[type(self._instrument)]\n        self._aggregation = factory._create_aggregation(\n            self._instrument,\n            None,\n            self._view._exemplar_reservoir_factory,\n            0,\n        )\n")
# M06
B("M06", MX, "            except Exception:  # pylint: disable=broad-exception-caught\n                _logger.exception(\"Exception while collecting metrics\")\n        # one", "        # one")
B("M06", MX, "            except Exception:  # pylint: disable=broad-exception-caught\n                _logger.exception(\"Exception while collecting metrics\")\n        # one", "            except Exception:  # pylint: disable=broad-exception-caught\n                _logger.exception(\"Exception while collecting metrics\")\n                break\n        # one")
B("M06", MX, "        # one last collection below before shutting down completely\n        try:", "        if self._shutdown:\n            return\n        # one last collection below before shutting down completely\n        try:")
B("M06", MX, "        interval_secs = self._export_interval_millis / 1e3", "        interval_secs = self._export_interval_millis / 1e6")
B("M06", MX, "            with self._export_lock:\n                self._exporter.export(\n                    metrics_data, timeout_millis=timeout_millis\n                )", "            with self._export_lock:\n                exporter = self._exporter\n            exporter.export(\n                metrics_data, timeout_millis=timeout_millis\n            )")
B("M06", MX, "        self._shutdown_event.set()\n        if self._daemon_thread:\n            self._daemon_thread.join(timeout=(deadline_ns - time_ns()) / 10**9)\n        self._exporter.shutdown(\n            timeout_millis=max(deadline_ns - time_ns(), 0) / 10**6\n        )", "        self._exporter.shutdown(\n            timeout_millis=max(deadline_ns - time_ns(), 0) / 10**6\n        )\n        self._shutdown_event.set()\n        if self._daemon_thread:\n            self._daemon_thread.join(timeout=(deadline_ns - time_ns()) / 10**9)")
B("M06", MX, "        super().force_flush(timeout_millis=timeout_millis)\n        return self._exporter.force_flush(timeout_millis=timeout_millis)", "        return super().force_flush(timeout_millis=timeout_millis)")
B("M06", MX, "        super().force_flush(timeout_millis=timeout_millis)\n        return self._exporter.force_flush(timeout_millis=timeout_millis)", "        done = self._exporter.force_flush(timeout_millis=timeout_millis)\n        super().force_flush(timeout_millis=timeout_millis)\n        return done")
B("M06", MX, "        did_set = self._shutdown_once.do_once(_shutdown)\n        if not did_set:", "        did_set = not self._shutdown\n        _shutdown()\n        if not did_set:")
B("M06", MX, "        self._shutdown_event.set()\n        if self._daemon_thread:\n", "        self._shutdown_event.set()\n        if self._daemon_thread and timeout_millis > 1000:\n")
B("M06", MX, "        if metrics is not None:\n            self._receive_metrics(", "        if metrics is not None and metrics.resource_metrics is not None:\n            self._receive_metrics(")
B("M06", MX, "        while not self._shutdown_event.wait(interval_secs):\n", "        while not self._shutdown_event.wait(interval_secs) and not self._export_lock.locked():\n")
B("M06", MX, "            and self._export_interval_millis < math.inf\n", "            and self._export_interval_millis < math.inf\n            and exporter._preferred_temporality is not None\n")
B("M06", MX, "            with self._export_lock:\n                self._exporter.export(", "            with Lock():\n                self._exporter.export(")
B("M06", MX, "            with self._export_lock:\n                self._exporter.export(\n                    metrics_data, timeout_millis=timeout_millis\n                )", "            if not self._export_lock.acquire(timeout=timeout_millis / 1e3):\n                return\n            try:\n                self._exporter.export(\n                    metrics_data, timeout_millis=timeout_millis\n                )\n            finally:\n                self._export_lock.release()")
Q(MX, "        interval_secs = self._export_interval_millis / 1e3\n        while not self._shutdown_event.wait(interval_secs):\n            try:\n                self.collect(timeout_millis=self._export_timeout_millis)\n            except MetricsTimeoutError:\n                _logger.warning(\n                    \"Metric collection timed out. Will try again after %s seconds\",\n                    interval_secs,\n                    exc_info=True,\n                )\n            except Exception:  # pylint: disable=broad-exception-caught\n                _logger.exception(\"Exception while collecting metrics\")\n        # one last collection below before shutting down completely\n        try:\n            self.collect(timeout_millis=self._export_interval_millis)\n        except MetricsTimeoutError:\n            _logger.warning(\n                \"Metric collection timed out.\",\n                exc_info=True,\n            )\n        except Exception:  # pylint: disable=broad-exception-caught\n            _logger.exception(\"Exception while collecting metrics\")\n", "        interval_secs = self._export_interval_millis * 0.001\n        while True:\n            if self._shutdown_event.wait(timeout=interval_secs):\n                break\n            self._collect_once(self._export_timeout_millis)\n        self._collect_once(self._export_interval_millis)\n\n    def _collect_once(self, limit):\n        try:\n            self.collect(timeout_millis=limit)\n        except MetricsTimeoutError:\n            _logger.warning(\"Metric collection timed out.\", exc_info=True)\n        except Exception:  # pylint: disable=broad-exception-caught\n            _logger.exception(\"Exception while collecting metrics\")\n")
Q(MX, "        did_set = self._shutdown_once.do_once(_shutdown)\n        if not did_set:\n            _logger.warning(\"Can't shutdown multiple times\")\n            return\n", "        if not self._shutdown_once.do_once(_shutdown):\n            _logger.warning(\"Can't shutdown multiple times\")\n            return\n")
Q(MX, "        self._shutdown_event.set()\n        if self._daemon_thread:\n            self._daemon_thread.join(timeout=(deadline_ns - time_ns()) / 10**9)", "        self._shutdown_event.set()\n        if self._daemon_thread is not None:\n            remaining = deadline_ns - time_ns()\n            self._daemon_thread.join(remaining / 10**9)")

# M07
B("M07", IN, "        for callback in self._callbacks:\n            try:\n                for api_measurement in callback(callback_options):\n                    yield Measurement(\n                        api_measurement.value,\n                        time_unix_nano=time_ns(),\n                        instrument=self,\n                        context=(\n                            api_measurement.context\n                            if api_measurement.context is not None\n                            else get_current()\n                        ),\n                        attributes=api_measurement.attributes,\n                    )\n            except Exception:  # pylint: disable=broad-exception-caught\n                _logger.exception(\n                    \"Callback failed for instrument %s.\", self.name\n                )", "        try:\n            for callback in self._callbacks:\n                for api_measurement in callback(callback_options):\n                    yield Measurement(\n                        api_measurement.value,\n                        time_unix_nano=time_ns(),\n                        instrument=self,\n                        context=(\n                            api_measurement.context\n                            if api_measurement.context is not None\n                            else get_current()\n                        ),\n                        attributes=api_measurement.attributes,\n                    )\n        except Exception:  # pylint: disable=broad-exception-caught\n            _logger.exception(\n                \"Callback failed for instrument %s.\", self.name\n            )")
B("M07", IN, "            try:\n                for api_measurement in callback(callback_options):\n                    yield Measurement(\n                        api_measurement.value,\n                        time_unix_nano=time_ns(),\n                        instrument=self,\n                        context=(\n                            api_measurement.context\n                            if api_measurement.context is not None\n                            else get_current()\n                        ),\n                        attributes=api_measurement.attributes,\n                    )\n            except Exception:  # pylint: disable=broad-exception-caught\n                _logger.exception(\n                    \"Callback failed for instrument %s.\", self.name\n                )", "            try:\n                observations = callback(callback_options)\n            except Exception:  # pylint: disable=broad-exception-caught\n                _logger.exception(\n                    \"Callback failed for instrument %s.\", self.name\n                )\n                continue\n            for api_measurement in observations:\n                yield Measurement(\n                    api_measurement.value,\n                    time_unix_nano=time_ns(),\n                    instrument=self,\n                    context=(\n                        api_measurement.context\n                        if api_measurement.context is not None\n                        else get_current()\n                    ),\n                    attributes=api_measurement.attributes,\n                )")
B("M07", IN, "            except Exception:  # pylint: disable=broad-exception-caught\n                _logger.exception(\n                    \"Callback failed", "            except (RuntimeError, ValueError):\n                _logger.exception(\n                    \"Callback failed")
B("M07", IN, "                    \"Callback failed for instrument %s.\", self.name\n                )\n", "                    \"Callback failed for instrument %s.\", self.name\n                )\n                return\n")
B("M07", IN, "                    def inner(\n                        options: CallbackOptions,\n                        callback=callback,\n                    )", "                    def inner(\n                        options: CallbackOptions,\n                    )")
B("M07", IN, "                    self._callbacks.append(inner)\n                else:\n                    self._callbacks.append(callback)", "                    self._callbacks.append(inner)\n                elif callback not in self._callbacks:\n                    self._callbacks.append(callback)")
B("M07", MC, "                    metric_reader_storage.consume_measurement(\n                        measurement, should_sample_exemplar\n                    )", "                    for storage in self._reader_storages.values():\n                        storage.consume_measurement(\n                            measurement, should_sample_exemplar\n                        )")
B("M07", MC, "                    should_sample_exemplar = (\n                        self._sdk_config.exemplar_filter.should_sample(\n                            measurement.value,\n                            measurement.time_unix_nano,\n                            measurement.attributes,\n                            measurement.context,\n                        )\n                    )\n                    metric", "                    should_sample_exemplar = (\n                        self._sdk_config.exemplar_filter.should_sample(\n                            measurement.value,\n                            measurement.time_unix_nano,\n                            measurement.attributes,\n                            measurement.context,\n                        )\n                    )\n                    if time_ns() >= deadline_ns:\n                        break\n                    metric")
B("M07", MC, "                async_instruments = list(self._async_instruments)\n", "                async_instruments = list(self._async_instruments)[:1000]\n")
B("M07", MC, "            for async_instrument in async_instruments:\n                remaining_time = deadline_ns - time_ns()\n", "            for async_instrument in async_instruments:\n                remaining_time = deadline_ns - time_ns()\n                if not async_instrument._callbacks[1:]:\n                    continue\n")
B("M07", MC, "            result = self._reader_storages[metric_reader].collect()\n", "            result = None\n            if self._async_instruments:\n                result = self._reader_storages[metric_reader].collect()\n")
Q(IN, "            try:\n                for api_measurement in callback(callback_options):\n                    yield Measurement(", "            try:\n                observations = callback(callback_options)\n                for api_measurement in observations:\n                    yield Measurement(")
Q(IN, "        for callback in self._callbacks:\n            try:\n                for api_measurement in callback(callback_options):\n                    yield Measurement(\n                        api_measurement.value,\n                        time_unix_nano=time_ns(),\n                        instrument=self,\n                        context=(\n                            api_measurement.context\n                            if api_measurement.context is not None\n                            else get_current()\n                        ),\n                        attributes=api_measurement.attributes,\n                    )\n            except Exception:  # pylint: disable=broad-exception-caught\n                _logger.exception(\n                    \"Callback failed for instrument %s.\", self.name\n                )", "        for callback in self._callbacks:\n            yield from self._observe(callback, callback_options)\n\n    def _observe(self, callback, callback_options):\n        try:\n            for observation in callback(callback_options):\n                context = observation.context\n                if context is None:\n                    context = get_current()\n                yield Measurement(\n                    observation.value,\n                    time_unix_nano=time_ns(),\n                    instrument=self,\n                    context=context,\n                    attributes=observation.attributes,\n                )\n        except Exception:  # pylint: disable=broad-exception-caught\n            _logger.exception(\"Callback failed for instrument %s.\", self.name)")
Q(MC, "            result = self._reader_storages[metric_reader].collect()\n\n        return result", "            return metric_reader_storage.collect()")
Q(MC, "                for measurement in measurements:\n                    should_sample_exemplar = (\n                        self._sdk_config.exemplar_filter.should_sample(\n                            measurement.value,\n                            measurement.time_unix_nano,\n                            measurement.attributes,\n                            measurement.context,\n                        )\n                    )\n                    metric_reader_storage.consume_measurement(\n                        measurement, should_sample_exemplar\n                    )\n", "                self._observe_into(metric_reader_storage, measurements)\n", "    def collect(\n        self,\n        metric_reader:", "    def _observe_into(self, storage, measurements):\n        for measurement in measurements:\n            storage.consume_measurement(\n                measurement,\n                self._sdk_config.exemplar_filter.should_sample(\n                    measurement.value,\n                    measurement.time_unix_nano,\n                    measurement.attributes,\n                    measurement.context,\n                ),\n            )\n\n    def collect(\n        self,\n        metric_reader:")

# M08
ER = SDK + "metrics/_internal/exemplar/exemplar_reservoir.py"
EB = SDK + "metrics/_internal/exponential_histogram/buckets.py"
B("M08", VM, "                    attributes = dict(attributes)\n", "")
B("M08", VM, "                    attributes = dict(attributes)\n", "                    if len(attributes) < 64:\n                        attributes = dict(attributes)\n")
B("M08", VM, "        aggr_key = frozenset(attributes.items())\n", "        aggr_key = attributes.items()\n")
B("M08", ER, "        self.__attributes = (\n            dict(attributes) if isinstance(attributes, Mapping) else None\n        )", "        self.__attributes = attributes")
B("M08", ER, "        self.__attributes = (\n            dict(attributes) if isinstance(attributes, Mapping) else None\n        )", "        self.__attributes = attributes if self.__attributes is None else dict(attributes)")
B("M08", AG, "bucket_counts=tuple(self._previous_value),", "bucket_counts=self._previous_value,", "                self._previous_value = [\n                    value_element + previous_value_element\n                    for (\n                        value_element,\n                        previous_value_element,\n                    ) in zip(value, self._previous_value)\n                ]\n", "                for i, v in enumerate(value):\n                    self._previous_value[i] += v\n")
B("M08", EB, "        return self._counts[-bias:] + self._counts[:-bias]", "        if not bias:\n            return self._counts\n        return self._counts[-bias:] + self._counts[:-bias]")
B("M08", AG, "                            self._previous_value_negative.get_offset_counts()\n", "                            self._previous_value_negative.counts\n")
B("M08", AG, "        # this object may be shared by many instruments, do not modify it\n        boundaries = self._boundaries\n        if boundaries is None:\n            # only histograms have advisory parameters\n            advisory = getattr(instrument, \"_advisory\", None)\n            boundaries = (", "        boundaries = self._boundaries\n        if boundaries is None:\n            # only histograms have advisory parameters\n            advisory = getattr(instrument, \"_advisory\", None)\n            boundaries = self._boundaries = (")
B("M08", VM, "        self._attributes_aggregation[aggr_key].aggregate(\n", "        if self._view._attribute_keys and len(attributes) > 100:\n            self._view._attribute_keys.update(attributes)\n        self._attributes_aggregation[aggr_key].aggregate(\n")
B("M08", VM, "        data_points: List[DataPointT] = []\n        with self._lock:\n", "        data_points = self._points = getattr(self, \"_points\", [])\n        with self._lock:\n            data_points.clear()\n")
B("M08", ER, "        exemplars = [\n            e\n", "        self._last = exemplars = [\n            e\n")
Q(VM, "                    attributes = dict(attributes)\n", "                    attributes = {**attributes}\n")
Q(VM, "                    attributes = dict(attributes)\n", "                    attributes = {k: v for k, v in attributes.items()}\n")
Q(VM, "                    attributes = dict(attributes)\n", "                    attributes = copy(attributes)\n", "from logging import getLogger\n", "from copy import copy\nfrom logging import getLogger\n")
Q(ER, "        self.__attributes = (\n            dict(attributes) if isinstance(attributes, Mapping) else None\n        )", "        if attributes is None:\n            self.__attributes = None\n        else:\n            self.__attributes = dict(attributes)")
Q(EB, "        return self._counts[-bias:] + self._counts[:-bias]", "        counts = list(self._counts)\n        if bias:\n            counts = counts[-bias:] + counts[:-bias]\n        return counts")
Q(AG, "bucket_counts=tuple(value),", "bucket_counts=value,")

# M09
FF = "                metric_reader.force_flush(\n                    timeout_millis=(deadline_ns - current_ts) / 10**6\n                )\n"
B("M09", MI, "            except Exception as error:\n                metric_reader_error[metric_reader] = error\n\n        if metric_reader_error:\n            metric_reader_error_string = \"\\n\".join(\n                [\n                    f\"{metric_reader.__class__.__name__}: {repr(error)}\"\n                    for metric_reader, error in metric_reader_error.items()\n                ]\n            )\n\n            # pylint: disable=broad-exception-raised\n            raise Exception(\n                \"MeterProvider.force_flush", "            except Exception as error:\n                metric_reader_error[metric_reader] = error\n                break\n\n        if metric_reader_error:\n            metric_reader_error_string = \"\\n\".join(\n                [\n                    f\"{metric_reader.__class__.__name__}: {repr(error)}\"\n                    for metric_reader, error in metric_reader_error.items()\n                ]\n            )\n\n            # pylint: disable=broad-exception-raised\n            raise Exception(\n                \"MeterProvider.force_flush")
B("M09", MI, "            # pylint: disable=broad-exception-caught\n            except Exception as error:\n                metric_reader_error[metric_reader] = error\n", "            # pylint: disable=broad-exception-caught\n            except MetricsTimeoutError as error:\n                metric_reader_error[metric_reader] = error\n")
B("M09", MI, "            # pylint: disable=broad-exception-caught\n            except Exception as error:\n                metric_reader_error[metric_reader] = error\n", "            # pylint: disable=broad-exception-caught\n            except MetricsTimeoutError as error:\n                _logger.warning(error)\n            except Exception as error:\n                metric_reader_error[metric_reader] = error\n")
B("M09", MI, "                metric_reader_error[metric_reader] = error\n\n        if self._atexit", "                metric_reader_error[metric_reader] = error\n\n        if self._atexit", "        if self._atexit_handler is not None:\n            unregister(self._atexit_handler)\n            self._atexit_handler = None\n\n        if metric_reader_error:", "        if self._atexit_handler is not None:\n            unregister(self._atexit_handler)\n            self._atexit_handler = None\n\n        if len(metric_reader_error) > 1:")
B("M09", MI, "        did_shutdown = self._shutdown_once.do_once(_shutdown)\n\n        if not did_shutdown:\n", "        did_shutdown = not self._shutdown\n        _shutdown()\n\n        if not did_shutdown:\n")
B("M09", MI, "            _logger.warning(\"shutdown can only be called once\")\n            return\n", "            _logger.warning(\"shutdown can only be called once\")\n")
B("M09", MI, "        def _shutdown():\n            self._shutdown = True\n", "        def _shutdown():\n            self._shutdown = not self._disabled\n")
B("M09", MI, "        if self._shutdown:\n            _logger.warning(\n                \"A shutdown `MeterProvider` can not provide a `Meter`\"\n            )\n            return NoOpMeter(name, version=version, schema_url=schema_url)\n\n        if not name:\n            _logger.warning(\"Meter name cannot be None or empty.\")\n            return NoOpMeter(name, version=version, schema_url=schema_url)\n\n        info = InstrumentationScope(name, version, schema_url, attributes)\n", "        if not name:\n            _logger.warning(\"Meter name cannot be None or empty.\")\n            return NoOpMeter(name, version=version, schema_url=schema_url)\n\n        info = InstrumentationScope(name, version, schema_url, attributes)\n        if self._shutdown and info not in self._meters:\n            return NoOpMeter(name, version=version, schema_url=schema_url)\n")
B("M09", MI, "                self._all_metric_readers.add(metric_reader)\n\n", "            with self._all_metric_readers_lock:\n                self._all_metric_readers.add(metric_reader)\n\n")
B("M09", MI, "            with self._all_metric_readers_lock:\n", "            with self._lock:\n")
B("M09", MI, "        self._meter_lock = Lock()\n", "        self._meter_lock = Lock()\n        self._all_metric_readers_lock = Lock()\n")
B("M09", MI, "                    raise Exception(\n                        f\"MetricReader {metric_reader} has been registered \"\n                        \"already in other MeterProvider instance\"\n                    )\n", "                    _logger.error(\"registered twice\")\n")
B("M09", MI, "        for metric_reader in self._sdk_config.metric_readers:\n            current_ts = time_ns()\n            try:\n                if current_ts >= deadline_ns:\n                    # pylint", "        for metric_reader in set(self._sdk_config.metric_readers[:8]):\n            current_ts = time_ns()\n            try:\n                if current_ts >= deadline_ns:\n                    # pylint")
B("M09", MI, "        if self._atexit_handler is not None:\n            unregister(self._atexit_handler)\n            self._atexit_handler = None\n", "        if self._atexit_handler is not None:\n            unregister(self._atexit_handler)\n            self._atexit_handler = None\n            for r in self._sdk_config.metric_readers:\n                self._all_metric_readers.discard(r)\n")
B("M09", MI, "        for metric_reader in self._sdk_config.metric_readers:\n            current_ts = time_ns()\n            try:\n                if current_ts >= deadline_ns:\n                    raise", "        for metric_reader in self._sdk_config.metric_readers:\n            current_ts = time_ns()\n            if metric_reader_error and len(metric_reader_error) > 3:\n                continue\n            try:\n                if current_ts >= deadline_ns:\n                    raise")
Q(MI, "        metric_reader_error = {}\n\n        for metric_reader in self._sdk_config.metric_readers:\n            current_ts = time_ns()\n            try:\n                if current_ts >= deadline_ns:\n                    raise MetricsTimeoutError(\n                        \"Timed out while flushing metric readers\"\n                    )\n                if not metric_reader.force_flush(\n                    timeout_millis=(deadline_ns - current_ts) / 10**6\n                ):\n                    flushed = False\n\n            # pylint: disable=broad-exception-caught\n            except Exception as error:\n                metric_reader_error[metric_reader] = error\n\n        if metric_reader_error:\n            metric_reader_error_string = \"\\n\".join(\n                [\n                    f\"{metric_reader.__class__.__name__}: {repr(error)}\"\n                    for metric_reader, error in metric_reader_error.items()\n                ]\n            )\n", "        errors = []\n\n        for reader in self._sdk_config.metric_readers:\n            try:\n                remaining = deadline_ns - time_ns()\n                if remaining <= 0:\n                    raise MetricsTimeoutError(\n                        \"Timed out while flushing metric readers\"\n                    )\n                if not reader.force_flush(timeout_millis=remaining / 10**6):\n                    flushed = False\n            except Exception as error:\n                errors.append((reader, error))\n\n        if len(errors) > 0:\n            metric_reader_error_string = \"\\n\".join(\n                f\"{reader.__class__.__name__}: {repr(error)}\" for reader, error in errors\n            )\n")
Q(MI, "        def _shutdown():\n            self._shutdown = True\n\n        did_shutdown = self._shutdown_once.do_once(_shutdown)\n\n        if not did_shutdown:\n", "        with self._lock:\n            did_shutdown = not self._shutdown\n            self._shutdown = True\n\n        if not did_shutdown:\n")
Q(MI, "        did_shutdown = self._shutdown_once.do_once(_shutdown)\n\n        if not did_shutdown:\n            _logger.warning(\"shutdown can only be called once\")\n            return\n\n        metric_reader_error = {}\n\n        for metric_reader in self._sdk_config.metric_readers:\n            current_ts", "        if self._shutdown_once.do_once(_shutdown):\n            self._shutdown_readers(deadline_ns)\n        else:\n            _logger.warning(\"shutdown can only be called once\")\n\n    def _shutdown_readers(self, deadline_ns):\n        metric_reader_error = {}\n\n        for metric_reader in self._sdk_config.metric_readers:\n            current_ts")
Q(MI, "        if self._disabled:\n            return NoOpMeter(name, version=version, schema_url=schema_url)\n\n        if self._shutdown:\n", "        if self._disabled or self._shutdown:\n            return NoOpMeter(name, version=version, schema_url=schema_url)\n\n        if self._shutdown:\n")
Q(MI, "        for metric_reader in self._sdk_config.metric_readers:\n            with self._all_metric_readers_lock:\n                if metric_reader in self._all_metric_readers:\n                    # pylint: disable=broad-exception-raised\n                    raise Exception(\n                        f\"MetricReader {metric_reader} has been registered \"\n                        \"already in other MeterProvider instance\"\n                    )\n\n                self._all_metric_readers.add(metric_reader)\n\n            metric_reader._set_collect_callback(\n                self._measurement_consumer.collect\n            )\n", "        for metric_reader in metric_readers:\n            self._register_reader(metric_reader)\n\n    def _register_reader(self, reader):\n        with MeterProvider._all_metric_readers_lock:\n            if reader in MeterProvider._all_metric_readers:\n                raise Exception(\n                    f\"MetricReader {reader} has been registered \"\n                    \"already in other MeterProvider instance\"\n                )\n            MeterProvider._all_metric_readers.add(reader)\n        reader._set_collect_callback(self._measurement_consumer.collect)\n")
