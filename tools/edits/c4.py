MI = SDK + "metrics/_internal/"
AG4 = MI + "aggregation.py"
VM4 = MI + "_view_instrument_match.py"
MS4 = MI + "metric_reader_storage.py"
IN4 = MI + "instrument.py"
MC4 = MI + "measurement_consumer.py"
ME4 = MI + "export/__init__.py"
MP4 = MI + "__init__.py"
# M01
B("M01", VM4, "        return data_points or None", "        return data_points if len(data_points) == len(self._attributes_aggregation) else None")
B("M01", VM4, "            for key, value in (measurement.attributes or {}).items():\n                if key in self._view._attribute_keys:", "            for key, value in (measurement.attributes or {}).items():\n                if value and key in self._view._attribute_keys:")
B("M01", VM4, "        if self._view._attribute_keys is not None:\n            attributes", "        if self._view._attribute_keys:\n            attributes")
B("M01", VM4, "        aggr_key = frozenset(attributes.items())", "        aggr_key = frozenset(attributes)")
B("M01", MC4, "        for reader_storage in self._reader_storages.values():\n            reader_storage.consume_measurement(\n                measurement, should_sample_exemplar\n            )", "        for reader_storage in self._reader_storages.values():\n            reader_storage.consume_measurement(\n                measurement, should_sample_exemplar\n            )\n            if not should_sample_exemplar:\n                break")
B("M01", MS4, "                        ].metrics.extend(metrics)", "                        ].metrics[:] = metrics")
B("M01", MS4, "                    if data_points is None:\n                        continue\n", "                    if data_points is None:\n                        break\n")
# M02
B("M02", AG4, "            value = self._value\n            self._value = None\n\n            if (\n                self._instrument_aggregation_temporality\n                is AggregationTemporality.DELTA\n            ):\n                # This happens when the corresponding instrument for this\n                # aggregation is synchronous.\n                if (\n                    collection_aggregation_temporality\n                    is AggregationTemporality.DELTA\n                ):\n                    previous_collection_start_nano = (\n                        self._previous_collection_start_nano\n                    )\n                    self._previous_collection_start_nano = (\n                        collection_start_nano\n                    )\n\n                    if value is None:\n                        return None\n\n                    return NumberDataPoint(", "            value = self._value\n            self._value = None\n\n            if (\n                self._instrument_aggregation_temporality\n                is AggregationTemporality.DELTA\n            ):\n                if (\n                    collection_aggregation_temporality\n                    is AggregationTemporality.DELTA\n                ):\n                    previous_collection_start_nano = (\n                        self._previous_collection_start_nano\n                    )\n                    if value is None:\n                        return None\n                    self._previous_collection_start_nano = (\n                        collection_start_nano\n                    )\n\n                    return NumberDataPoint(")
B("M02", AG4, "                result_value = value - self._previous_value\n\n                self._previous_value = value\n", "                result_value = value - self._previous_value\n\n                if result_value > 0:\n                    self._previous_value = value\n")
B("M02", AG4, "            self._value[bisect_left(self._boundaries, measurement_value)] += 1", "            self._value[min(bisect_left(self._boundaries, measurement_value), len(self._boundaries) - 1)] += 1")
B("M02", AG4, "                self._previous_min = min(min_, self._previous_min)\n                self._previous_max = max(max_, self._previous_max)\n                self._previous_sum = sum_ + self._previous_sum\n\n                return HistogramDataPoint", "                self._previous_min = min_\n                self._previous_max = max(max_, self._previous_max)\n                self._previous_sum = sum_ + self._previous_sum\n\n                return HistogramDataPoint")
B("M02", AG4, "            if measurement_value == 0:\n                self._zero_count += 1\n", "            if measurement_value == 0:\n                self._zero_count += self._count == 1\n")
B("M02", AG4, "                self._previous_zero_count = (\n                    zero_count + self._previous_zero_count\n                )", "                self._previous_zero_count = (\n                    zero_count or self._previous_zero_count\n                )")
B("M02", AG4, "            self._count += 1\n\n            if measurement_value == 0:\n                self._zero_count += 1\n", "            if measurement_value == 0:\n                self._zero_count += 1\n            else:\n                self._count += 1\n            if measurement_value == 0:\n")
B("M02", AG4, "        with self._lock:\n            if self._value is None:\n                return None\n            value = self._value\n            self._value = None\n", "        with self._lock:\n            if self._value is None:\n                return None\n            value = self._value\n        self._value = None\n")
B("M02", AG4, "            self._sum = 0\n            self._min = inf\n            self._max = -inf\n            self._count = 0", "            self._sum = 0\n            self._min = inf\n            self._max = 0\n            self._count = 0")
B("M02", AG4, "                    count=self._previous_count,\n", "                    count=count,\n")
B("M02", AG4, "            min_ = self._min\n            max_ = self._max\n\n            self._value = None\n            self._sum = 0\n            self._min = inf\n", "            min_ = self._min\n            max_ = self._max\n\n            self._value = None\n            self._sum = 0\n")
# M03
B("M03", MP4, "            if instrument is None:\n                instrument = _Counter(", "            if instrument is None or status.conflict:\n                instrument = _Counter(")
B("M03", MP4, "            if not self._meters.get(info):", "            if not self._meters.get(info) or attributes:")
B("M03", MP4, "        info = InstrumentationScope(name, version, schema_url, attributes)\n        with self._meter_lock:", "        info = InstrumentationScope(name, version, schema_url)\n        with self._meter_lock:")
B("M03", MP4, "        with self._meter_lock:\n            if not", "        if True:\n            if not")
# M04
B("M04", IN4, "        if amount < 0:\n            _logger.warning(\n                \"Add amount must be non-negative on Counter %s.\", self.name\n            )\n            return\n", "        if amount < 0:\n            _logger.warning(\n                \"Add amount must be non-negative on Counter %s.\", self.name\n            )\n            amount = 0\n")
B("M04", IN4, "        if amount < 0:\n            _logger.warning(\n                \"Add amount", "        if amount <= -1:\n            _logger.warning(\n                \"Add amount")
B("M04", IN4, "                context if context is not None else get_current(),\n                attributes,\n", "                context if context is not None else get_current(),\n                attributes or None,\n")
B("M04", IN4, "                amount,\n                time_unix_nano,", "                int(amount) or amount,\n                time_unix_nano,")
# M06
B("M06", ME4, "            except Exception:  # pylint: disable=broad-exception-caught\n                _logger.exception(\"Exception while collecting metrics\")\n        # one", "            except Exception:  # pylint: disable=broad-exception-caught\n                _logger.exception(\"Exception while collecting metrics\")\n                interval_secs *= 2\n        # one")
B("M06", ME4, "        while not self._shutdown_event.wait(interval_secs):\n", "        while not self._shutdown_event.wait(interval_secs) and not self._shutdown:\n")
B("M06", ME4, "            except MetricsTimeoutError:\n                _logger.warning(\n                    \"Metric collection timed out. Will try", "            except MetricsTimeoutError:\n                if self._export_timeout_millis < self._export_interval_millis:\n                    break\n                _logger.warning(\n                    \"Metric collection timed out. Will try")
B("M06", ME4, "        try:\n            self.collect(timeout_millis=self._export_interval_millis)\n        except MetricsTimeoutError:", "        try:\n            if self._export_interval_millis < 1e5:\n                self.collect(timeout_millis=self._export_interval_millis)\n        except MetricsTimeoutError:")
# M07
B("M07", IN4, "        for callback in self._callbacks:\n            try:\n                for api", "        try:\n            for callback in self._callbacks:\n                for api", "                        attributes=api_measurement.attributes,\n                    )\n            except", "                        attributes=api_measurement.attributes,\n                    )\n        except")
B("M07", IN4, "            except Exception:  # pylint: disable=broad-exception-caught\n                _logger.exception(\n                    \"Callback", "            except (TypeError, ValueError):\n                _logger.exception(\n                    \"Callback")
B("M07", IN4, "                for api_measurement in callback(callback_options):\n", "                for api_measurement in list(callback(callback_options)):\n")
B("M07", MC4, "                for measurement in measurements:\n", "                for measurement in list(measurements)[:1000]:\n")
B("M07", MC4, "                    metric_reader_storage.consume_measurement(\n                        measurement, should_sample_exemplar\n                    )\n\n", "                    for storage in self._reader_storages.values():\n                        storage.consume_measurement(\n                            measurement, should_sample_exemplar\n                        )\n\n")
# M08
B("M08", VM4, "                    attributes = dict(attributes)\n", "                    if self._view._attribute_keys:\n                        attributes = dict(attributes)\n")
B("M08", AG4, "                    bucket_counts=tuple(self._previous_value),\n", "                    bucket_counts=self._previous_value,\n")
# M09
B("M09", MP4, "            except Exception as error:\n                metric_reader_error[metric_reader] = error\n\n        if self._atexit", "            except Exception as error:\n                metric_reader_error[metric_reader] = error\n                break\n\n        if self._atexit")
B("M09", MP4, "                if not metric_reader.force_flush(\n                    timeout_millis=(deadline_ns - current_ts) / 10**6\n                ):\n                    flushed = False\n", "                flushed = metric_reader.force_flush(\n                    timeout_millis=(deadline_ns - current_ts) / 10**6\n                )\n")
B("M09", MP4, "        if not did_shutdown:\n            _logger.warning(\"shutdown can only be called once\")\n            return\n", "        if not did_shutdown:\n            _logger.warning(\"shutdown can only be called once\")\n")
B("M09", MP4, "                if metric_reader in self._all_metric_readers:", "                if metric_reader in self._all_metric_readers and metric_reader._collect:")
B("M09", MP4, "                self._all_metric_readers.add(metric_reader)\n", "                if shutdown_on_exit:\n                    self._all_metric_readers.add(metric_reader)\n")
B("M09", MP4, "        if self._shutdown:\n            _logger.warning(\n                \"A shutdown `MeterProvider`", "        if self._shutdown and name not in self._meters:\n            _logger.warning(\n                \"A shutdown `MeterProvider`")
B("M09", MP4, "        return flushed\n", "        return True\n")
B("M09", MP4, "        if metric_reader_error:\n            metric_reader_error_string = \"\\n\".join(\n                [\n                    f\"{metric_reader.__class__.__name__}: {repr(error)}\"\n                    for metric_reader, error in metric_reader_error.items()\n                ]\n            )\n\n            # pylint: disable=broad-exception-raised\n            raise Exception(\n                \"MeterProvider.force_flush", "        if len(metric_reader_error) == len(\n            self._sdk_config.metric_readers\n        ) and metric_reader_error:\n            metric_reader_error_string = \"\\n\".join(\n                [\n                    f\"{metric_reader.__class__.__name__}: {repr(error)}\"\n                    for metric_reader, error in metric_reader_error.items()\n                ]\n            )\n\n            # pylint: disable=broad-exception-raised\n            raise Exception(\n                \"MeterProvider.force_flush")
# behaviour kept
Q(VM4, "            attributes = {}\n\n            for key, value in (measurement.attributes or {}).items():\n                if key in self._view._attribute_keys:\n                    attributes[key] = value\n        elif measurement.attributes is not None:\n            attributes = measurement.attributes\n        else:\n            attributes = {}\n", "            attributes = {\n                key: value\n                for key, value in (measurement.attributes or {}).items()\n                if key in self._view._attribute_keys\n            }\n        else:\n            attributes = (\n                measurement.attributes\n                if measurement.attributes is not None\n                else {}\n            )\n")
Q(VM4, "                    if not isinstance(\n                        self._view._aggregation, DefaultAggregation\n                    ):\n                        aggregation = (\n                            self._view._aggregation._create_aggregation(\n                                self._instrument,\n                                attributes,\n                                self._view._exemplar_reservoir_factory,\n                                time_ns(),\n                            )\n                        )\n                    else:\n                        aggregation = self._instrument_class_aggregation[\n                            self._instrument.__class__\n                        ]._create_aggregation(\n                            self._instrument,\n                            attributes,\n                            self._view._exemplar_reservoir_factory,\n                            time_ns(),\n                        )\n                    self._attributes_aggregation[aggr_key] = aggregation", "                    if isinstance(self._view._aggregation, DefaultAggregation):\n                        factory = self._instrument_class_aggregation[\n                            self._instrument.__class__\n                        ]\n                    else:\n                        factory = self._view._aggregation\n                    self._attributes_aggregation[aggr_key] = (\n                        factory._create_aggregation(\n                            self._instrument,\n                            attributes,\n                            self._view._exemplar_reservoir_factory,\n                            time_ns(),\n                        )\n                    )")
Q(VM4, "        data_points: List[DataPointT] = []\n        with self._lock:\n            for aggregation in self._attributes_aggregation.values():\n                data_point = aggregation.collect(\n                    collection_aggregation_temporality, collection_start_nanos\n                )\n                if data_point is not None:\n                    data_points.append(data_point)\n", "        with self._lock:\n            collected = [\n                aggregation.collect(\n                    collection_aggregation_temporality, collection_start_nanos\n                )\n                for aggregation in self._attributes_aggregation.values()\n            ]\n        data_points = [point for point in collected if point is not None]\n")
Q(MC4, "        for reader_storage in self._reader_storages.values():\n            reader_storage.consume_measurement(\n                measurement, should_sample_exemplar\n            )", "        storages = self._reader_storages\n        for reader in storages:\n            storages[reader].consume_measurement(\n                measurement, should_sample_exemplar\n            )")
Q(MC4, "            result = self._reader_storages[metric_reader].collect()\n\n        return result", "            return metric_reader_storage.collect()")
Q(AG4, "            if self._value is None:\n                self._value = 0\n\n            self._value = self._value + measurement.value\n", "            self._value = (self._value or 0) + measurement.value\n")
Q(AG4, "                self._previous_value = [\n                    value_element + previous_value_element\n                    for (\n                        value_element,\n                        previous_value_element,\n                    ) in zip(value, self._previous_value)\n                ]", "                self._previous_value = [\n                    current + previous\n                    for current, previous in zip(value, self._previous_value)\n                ]")
Q(AG4, "            value = self._value\n            self._value = None\n\n            if (\n", "            value, self._value = self._value, None\n\n            if (\n")
Q(AG4, "        with self._lock:\n            if self._value is None:\n                return None\n            value = self._value\n            self._value = None\n\n        exemplars", "        with self._lock:\n            value = self._value\n            self._value = None\n        if value is None:\n            return None\n\n        exemplars")
Q(AG4, "            if self._record_min_max:\n                self._min = min(self._min, measurement_value)\n                self._max = max(self._max, measurement_value)\n\n            self._value[bisect_left(self._boundaries, measurement_value)] += 1", "            if self._record_min_max:\n                if measurement_value < self._min:\n                    self._min = measurement_value\n                if measurement_value > self._max:\n                    self._max = measurement_value\n\n            bucket = bisect_left(self._boundaries, measurement_value)\n            self._value[bucket] += 1")
Q(IN4, "        time_unix_nano = time_ns()\n        self._measurement_consumer.consume_measurement(\n            Measurement(\n                amount,\n                time_unix_nano,\n                self,\n                context if context is not None else get_current(),\n                attributes,\n            )\n        )\n\n\nclass UpDownCounter", "        if context is None:\n            context = get_current()\n        measurement = Measurement(\n            value=amount,\n            time_unix_nano=time_ns(),\n            instrument=self,\n            context=context,\n            attributes=attributes,\n        )\n        self._measurement_consumer.consume_measurement(measurement)\n\n\nclass UpDownCounter")
Q(IN4, "        if amount < 0:\n            _logger.warning(\n                \"Add amount must be non-negative on Counter %s.\", self.name\n            )\n            return\n", "        if not self._accepts(amount):\n            return\n", "class Counter(_Synchronous, APICounter):\n", "class Counter(_Synchronous, APICounter):\n    def _accepts(self, amount):\n        if amount < 0:\n            _logger.warning(\n                \"Add amount must be non-negative on Counter %s.\", self.name\n            )\n            return False\n        return True\n\n")
Q(IN4, "                for api_measurement in callback(callback_options):\n                    yield Measurement(", "                observations = callback(callback_options)\n                for api_measurement in observations:\n                    yield Measurement(")
Q(ME4, "        while not self._shutdown_event.wait(interval_secs):\n            try:\n                self.collect(timeout_millis=self._export_timeout_millis)", "        while True:\n            if self._shutdown_event.wait(interval_secs):\n                break\n            try:\n                self.collect(timeout_millis=self._export_timeout_millis)")
Q(MP4, "                if not metric_reader.force_flush(\n                    timeout_millis=(deadline_ns - current_ts) / 10**6\n                ):\n                    flushed = False\n", "                flushed = (\n                    metric_reader.force_flush(\n                        timeout_millis=(deadline_ns - current_ts) / 10**6\n                    )\n                    and flushed\n                )\n")
Q(MP4, "            if not self._meters.get(info):\n                # FIXME #2558 pass SDKConfig object to meter so that the meter\n                # has access to views.\n                self._meters[info] = Meter(\n                    info,\n                    self._measurement_consumer,\n                )\n            return self._meters[info]", "            meter = self._meters.get(info)\n            if meter is None:\n                meter = Meter(info, self._measurement_consumer)\n                self._meters[info] = meter\n            return meter")
Q(MP4, "        def _shutdown():\n            self._shutdown = True\n\n        did_shutdown = self._shutdown_once.do_once(_shutdown)\n\n        if not did_shutdown:", "        if not self._shutdown_once.do_once(self._mark_shut_down):", "    def shutdown(self, timeout_millis: float = 30_000):\n", "    def _mark_shut_down(self):\n        self._shutdown = True\n\n    def shutdown(self, timeout_millis: float = 30_000):\n")

B("M06", ME4, "        super().force_flush(timeout_millis=timeout_millis)\n        return self._exporter", "        return self._exporter")
Q(ME4, "        super().force_flush(timeout_millis=timeout_millis)\n        return self._exporter.force_flush(timeout_millis=timeout_millis)", "        super().force_flush(timeout_millis=timeout_millis)\n        flushed = self._exporter.force_flush(timeout_millis=timeout_millis)\n        return flushed")
