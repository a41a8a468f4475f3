API = "opentelemetry-api/src/opentelemetry/"
TR = SDK + "trace/__init__.py"
LG = SDK + "_logs/_internal/__init__.py"
MI = SDK + "metrics/_internal/__init__.py"
AG = SDK + "metrics/_internal/aggregation.py"
MC = SDK + "metrics/_internal/measurement_consumer.py"
MS = SDK + "metrics/_internal/metric_reader_storage.py"
VM = SDK + "metrics/_internal/_view_instrument_match.py"
MX = SDK + "metrics/_internal/export/__init__.py"
UT = SDK + "util/__init__.py"
AM = API + "metrics/_internal/__init__.py"
IE = SDK + "trace/export/in_memory_span_exporter.py"
GR = EXP + "otlp-proto-grpc/src/opentelemetry/exporter/otlp/proto/grpc/exporter.py"
# L01
B("L01", API + "attributes/__init__.py", "        with self._lock:\n            del self._dict[key]", "        del self._dict[key]")
B("L01", API + "attributes/__init__.py", "        with self._lock:\n            return iter(self._dict.copy())  # type: ignore", "        return iter([k for k in self._dict])  # type: ignore")
B("L01", UT, "        with self._lock:\n            if self._dq.maxlen is not None:\n                to_drop = len(seq)", "        if True:\n            if self._dq.maxlen is not None:\n                to_drop = len(seq)")
B("L01", API + "util/_once.py", "            if not self._done:\n                func()\n                self._done = True\n                return True", "            func()\n            self._done = True\n            return True")
B("L01", TR, "        with self._lock:\n            self._span_processors += (span_processor,)", "        self._span_processors += (span_processor,)")
B("L01", TR, "        with self._lock:\n            self._span_processors += (span_processor,)", "        processors = self._span_processors + (span_processor,)\n        with self._lock:\n            self._span_processors = processors")
B("L01", LG, "        with self._logger_cache_lock:\n            key = (name, version, schema_url)\n            if key in self._logger_cache:\n                return self._logger_cache[key]\n", "        key = (name, version, schema_url)\n        if key in self._logger_cache:\n            return self._logger_cache[key]\n        with self._logger_cache_lock:\n")
B("L01", MI, "        with self._meter_lock:\n            if not self._meters.get(info):", "        known = self._meters.get(info)\n        with self._meter_lock:\n            if not known:")
B("L01", MI, "        with self._instrument_id_instrument_lock:\n            instrument = self._instrument_id_instrument.get(\n                status.instrument_id\n            )\n            if instrument is None:\n                instrument = _Gauge(", "        instrument = self._instrument_id_instrument.get(\n                status.instrument_id\n            )\n        with self._instrument_id_instrument_lock:\n            if instrument is None:\n                instrument = _Gauge(")
B("L01", AG, "        with self._lock:\n            if self._value is None:\n                self._value = 0\n\n            self._value = self._value + measurement.value\n", "        value = self._value or 0\n        with self._lock:\n            self._value = value + measurement.value\n")
B("L01", AG, "        with self._lock:\n            if self._value is None:\n                self._value = 0\n\n            self._value = self._value + measurement.value\n", "        if self._value is None:\n            with self._lock:\n                self._value = 0\n        with self._lock:\n            self._value = self._value + measurement.value\n")
B("L01", AG, "        with self._lock:\n            self._value = measurement.value\n", "        self._value = measurement.value\n")
B("L01", AG, "            with self._reservoir_lock:\n                self._reservoir.offer(\n                    measurement.value,\n                    measurement.time_unix_nano,\n                    measurement.attributes,\n                    measurement.context,\n                )", "            self._reservoir.offer(\n                measurement.value,\n                measurement.time_unix_nano,\n                measurement.attributes,\n                measurement.context,\n            )")
B("L01", MC, "        with self._async_instruments_lock:\n            self._async_instruments.append(instrument)", "        self._async_instruments.append(instrument)")
B("L01", MS, "            # double check if it was set before we held the lock\n            if instrument in self._instrument_view_instrument_matches:\n                return self._instrument_view_instrument_matches[instrument]\n", "")
B("L01", VM, "            with self._lock:\n                if aggr_key not in self._attributes_aggregation:\n", "            with self._lock:\n                if True:\n")
B("L01", VM, "        with self._lock:\n            for aggregation in self._attributes_aggregation.values():", "        if True:\n            for aggregation in self._attributes_aggregation.values():")
B("L01", AM, "        with self._lock:\n            if self._real_meter_provider is not None:\n                return _get_real_meter(\n                    self._real_meter_provider,\n                    name,\n                    version,\n                    schema_url,\n                    attributes,\n                )\n", "        if self._real_meter_provider is not None:\n            return _get_real_meter(\n                self._real_meter_provider,\n                name,\n                version,\n                schema_url,\n                attributes,\n            )\n        with self._lock:\n")
B("L01", AM, "        with self._instrument_ids_lock:\n            # we are not using get because None is a valid value\n            already_registered = instrument_id in self._instrument_ids\n", "        already_registered = instrument_id in self._instrument_ids\n        with self._instrument_ids_lock:\n")
B("L01", MX, "        with self._lock:\n            self.collect()\n            metrics_data = self._metrics_data\n            self._metrics_data = None", "        self.collect()\n        metrics_data = self._metrics_data\n        with self._lock:\n            self._metrics_data = None")
B("L01", IE, "        with self._lock:\n            self._finished_spans.extend(spans)", "        self._finished_spans.extend(spans)")
Q(VM, "        if aggr_key not in self._attributes_aggregation:\n            with self._lock:\n                if aggr_key not in self._attributes_aggregation:\n", "        if True:\n            with self._lock:\n                if self._attributes_aggregation.get(aggr_key) is None:\n")
Q(API + "util/_once.py", "        # fast path, try to avoid locking\n        if self._done:\n            return False\n\n        with self._lock:\n            if not self._done:\n                func()\n                self._done = True\n                return True\n        return False", "        with self._lock:\n            if self._done:\n                return False\n            func()\n            self._done = True\n        return True")
Q(AG, "        with self._lock:\n            if self._value is None:\n                self._value = 0\n\n            self._value = self._value + measurement.value\n", "        with self._lock:\n            current = self._value\n            if current is None:\n                current = 0\n            current += measurement.value\n            self._value = current\n")
Q(LG, "            if key in self._logger_cache:\n                return self._logger_cache[key]\n\n            self._logger_cache[key] = self._get_logger_no_cache(\n                name, version, schema_url\n            )\n            return self._logger_cache[key]", "            cached = self._logger_cache.get(key)\n            if cached is None:\n                cached = self._get_logger_no_cache(name, version, schema_url)\n                self._logger_cache[key] = cached\n            return cached")
# L02
TE = SDK + "trace/export/__init__.py"
B("L02", TR, "        self._lock = threading.RLock()\n", "        self._lock = threading.Lock()\n")
B("L02", GR, "            if acquired:\n                self._export_lock.release()", "            self._export_lock.release()")
B("L02", GR, "        try:\n            self._shutdown = True\n            self._channel.close()\n        finally:\n            # the lock still belongs to a running export after a timeout\n            if acquired:\n                self._export_lock.release()", "        self._shutdown = True\n        self._channel.close()\n        if acquired:\n            self._export_lock.release()")
B("L02", GR, "            if acquired:\n                self._export_lock.release()", "            pass")
B("L02", GR, "            if acquired:\n                self._export_lock.release()", "            if acquired or self._shutdown:\n                self._export_lock.release()")
B("L02", MC, "            with self._async_instruments_lock:\n                async_instruments = list(self._async_instruments)\n\n            for async_instrument in async_instruments:\n", "            async_instruments = self._async_instruments\n            self._async_instruments_lock.acquire()\n            for async_instrument in async_instruments:\n")
B("L02", MC, "        with self._async_instruments_lock:\n            self._async_instruments.append(instrument)", "        with self._async_instruments_lock, self._lock:\n            self._async_instruments.append(instrument)")
B("L02", TE, "        with self.condition:\n            self.condition.notify_all()", "        self.condition.acquire()\n        self.condition.notify_all()\n        if self.queue:\n            self.condition.release()")
B("L02", TE, "            with self.condition:\n                self.condition.notify()", "            with self.condition:\n                logger.debug(\"waking the exporter\")\n                self.condition.notify()")
B("L02", VM, "        self._lock = RLock()", "        self._lock = Lock()", "from threading import RLock", "from threading import Lock")
B("L02", MS, "        self._lock = RLock()", "        self._lock = Lock()", "from threading import RLock", "from threading import Lock")
B("L02", AM, "        self._real_meter: Optional[Meter] = None\n", "        self._real_meter: Optional[Meter] = None\n        self._lock = Lock()\n")
B("L02", SDK + "trace/__init__.py", "        with self._lock:\n            self._span_processors += (span_processor,)", "        with self._lock:\n            for known in self._span_processors:\n                known.force_flush()\n            self._span_processors += (span_processor,)")
B("L02", LG, "            if key in self._logger_cache:\n                return self._logger_cache[key]\n", "            if key in self._logger_cache:\n                _logger.debug(\"known logger\")\n                return self._logger_cache[key]\n")
B("L02", IE, "        with self._lock:\n            self._finished_spans.extend(spans)", "        self._lock.acquire()\n        self._finished_spans.extend(spans)\n        self._lock.release()")
B("L02", UT, "        with self._lock:\n            if (\n                self._dq.maxlen is not None\n                and len(self._dq) == self._dq.maxlen\n            ):\n                self.dropped += 1\n            self._dq.append(item)", "        with self._lock:\n            self.extend((item,))")
B("L02", MX, "        with self._lock:\n            self.collect()", "        self._lock.acquire(timeout=5)\n        try:\n            self.collect()", "            metrics_data = self._metrics_data\n            self._metrics_data = None\n", "            metrics_data = self._metrics_data\n            self._metrics_data = None\n        finally:\n            self._lock.release()\n")
Q(IE, "        with self._lock:\n            self._finished_spans.extend(spans)", "        self._lock.acquire()\n        try:\n            self._finished_spans.extend(spans)\n        finally:\n            self._lock.release()")
Q(GR, "        acquired = self._export_lock.acquire(timeout=timeout_millis / 1e3)\n        try:\n", "        mine = self._export_lock.acquire(timeout=timeout_millis / 1e3)\n        try:\n", "            if acquired:\n                self._export_lock.release()", "            if not mine:\n                pass\n            else:\n                self._export_lock.release()")
