MI = "opentelemetry-sdk/src/opentelemetry/sdk/metrics/_internal/"
ER5 = MI + "exemplar/exemplar_reservoir.py"
EF5 = MI + "exemplar/exemplar_filter.py"
AG5 = MI + "aggregation.py"
VW5 = MI + "view.py"
IN5 = MI + "instrument.py"
MC5 = MI + "measurement_consumer.py"
B("M10", ER5, "        self.__span_id = None\n        self.__trace_id = None\n        span_context", "        span_context")
B("M10", ER5, "        if span_context.is_valid:", "        if span_context.trace_flags.sampled:")
B("M10", ER5, "        if span_context.is_valid:", "        if span_context is not None:")
B("M10", ER5, "trace.get_current_span(context).get_span_context()", "trace.get_current_span().get_span_context()")
B("M10", ER5, "            self.__trace_id = span_context.trace_id", "            self.__trace_id = span_context.span_id")
B("M10", ER5, "                if k not in point_attributes\n", "                if v not in point_attributes.values()\n")
B("M10", ER5, "                if k not in point_attributes\n", "                if k in point_attributes\n")
B("M10", ER5, "                if k not in point_attributes\n", "")
B("M10", ER5, "        self.__reset()\n        return exemplar", "        return exemplar")
B("M10", ER5, "        self.__trace_id = None\n        self.__offered = False\n\n\nclass", "        self.__trace_id = None\n\n\nclass")
B("M10", ER5, "            if e is not None\n", "            if e is not None and e.trace_id is not None\n")
B("M10", ER5, "            if e is not None\n", "            if e is not None and e.value\n")
B("M10", ER5, "        if not self.__offered:\n", "        if not self.__value:\n")
B("M10", ER5, "        self._reset()\n        return exemplars", "        return exemplars")
B("M10", ER5, "        super()._reset()\n        self._measurements_seen = 0", "        super()._reset()\n        self._measurements_seen = self._size")
B("M10", ER5, "if self._measurements_seen <= self._size:", "if self._measurements_seen < self._size:")
B("M10", ER5, "randrange(0, self._measurements_seen)", "randrange(0, self._size)")
B("M10", ER5, "randrange(0, self._measurements_seen)", "randrange(0, self._measurements_seen - 1)")
B("M10", ER5, "        if index < self._size:\n", "        if index <= self._size:\n")
B("M10", ER5, "            if value <= boundary:\n", "            if value < boundary:\n")
B("M10", ER5, "        return len(self._boundaries)\n", "        return len(self._boundaries) - 1\n")
B("M10", ER5, "            for _, bucket in sorted(self._reservoir_storage.items())\n", "            for _, bucket in sorted(self._reservoir_storage.items())[:10]\n")
B("M10", ER5, "                bucket.collect(point_attributes)\n", "                bucket.collect({})\n")
B("M10", EF5, "        if span == INVALID_SPAN:\n            return False\n        return span.get_span_context().trace_flags.sampled", "        if span == INVALID_SPAN:\n            return True\n        return span.get_span_context().trace_flags.sampled")
B("M10", EF5, "        return span.get_span_context().trace_flags.sampled", "        return span.is_recording()")
B("M10", EF5, "        return span.get_span_context().trace_flags.sampled", "        return span.get_span_context().is_valid")
B("M10", EF5, "trace.get_current_span(context)", "trace.get_current_span()")
B("M10", AG5, "                self._sample_exemplar(measurement, should_sample_exemplar)\n\n                return\n", "                return\n")
B("M10", AG5, "        with self._lock:\n            self._value = measurement.value\n\n        self._sample_exemplar(measurement, should_sample_exemplar)", "        with self._lock:\n            changed = self._value != measurement.value\n            self._value = measurement.value\n\n        if changed:\n            self._sample_exemplar(measurement, should_sample_exemplar)")
B("M10", AG5, "        if should_sample_exemplar:\n            with", "        if should_sample_exemplar and measurement.value:\n            with")
B("M10", AG5, "        if should_sample_exemplar:\n            with", "        if should_sample_exemplar or measurement.context:\n            with")
B("M10", AG5, "                    measurement.attributes,\n                    measurement.context,", "                    self._attributes,\n                    measurement.context,")
B("M10", AG5, "                    measurement.context,\n                )", "                    None,\n                )")
B("M10", AG5, "            return self._reservoir.collect(self._attributes)", "            return self._reservoir.collect({})")
B("M10", AG5, "                reservoir_builder, boundaries=boundaries\n", "                reservoir_builder,\n                boundaries=_DEFAULT_EXPLICIT_BUCKET_HISTOGRAM_AGGREGATION_BOUNDARIES,\n")
B("M10", AG5, "            reservoir_factory(_ExplicitBucketHistogramAggregation),", "            reservoir_factory(_SumAggregation),")
B("M10", AG5, "        exemplars = self._collect_exemplars()\n\n        return NumberDataPoint(\n            attributes=self._attributes,\n            exemplars=exemplars,", "        return NumberDataPoint(\n            attributes=self._attributes,\n            exemplars=[],")
B("M10", VW5, "            exemplar_reservoir_factory or _default_reservoir_factory", "            _default_reservoir_factory")
B("M10", VW5, "    if issubclass(aggregation_type, _ExplicitBucketHistogramAggregation):\n", "    if issubclass(aggregation_type, _ExponentialBucketHistogramAggregation):\n")
B("M10", IN5, "                            api_measurement.context\n                            if api_measurement.context is not None\n                            else get_current()", "                            get_current()")
B("M10", MC5, "        for reader_storage in self._reader_storages.values():\n            reader_storage.consume_measurement(\n                measurement, should_sample_exemplar\n            )", "        for reader_storage in self._reader_storages.values():\n            reader_storage.consume_measurement(measurement)")
Q(ER5, "        span_context = trace.get_current_span(context).get_span_context()\n        if span_context.is_valid:\n            self.__span_id = span_context.span_id\n            self.__trace_id = span_context.trace_id\n", "        span = trace.get_current_span(context)\n        ctx = span.get_span_context()\n        if ctx.is_valid:\n            self.__trace_id = ctx.trace_id\n            self.__span_id = ctx.span_id\n")
Q(ER5, "        # nothing of an earlier measurement is kept\n        self.__span_id = None\n        self.__trace_id = None\n        span_context = trace.get_current_span(context).get_span_context()\n        if span_context.is_valid:\n            self.__span_id = span_context.span_id\n            self.__trace_id = span_context.trace_id\n", "        span_context = trace.get_current_span(context).get_span_context()\n        valid = span_context.is_valid\n        self.__span_id = span_context.span_id if valid else None\n        self.__trace_id = span_context.trace_id if valid else None\n")
Q(ER5, "        filtered_attributes = (\n            {\n                k: v\n                for k, v in self.__attributes.items()\n                if k not in point_attributes\n            }\n            if self.__attributes\n            else None\n        )\n", "        filtered_attributes = None\n        if self.__attributes:\n            filtered_attributes = {}\n            for key, value in self.__attributes.items():\n                if key in point_attributes:\n                    continue\n                filtered_attributes[key] = value\n")
Q(ER5, "        exemplar = Exemplar(\n            filtered_attributes,\n            self.__value,\n            self.__time_unix_nano,\n            self.__span_id,\n            self.__trace_id,\n        )\n", "        exemplar = Exemplar(\n            filtered_attributes=filtered_attributes,\n            value=self.__value,\n            time_unix_nano=self.__time_unix_nano,\n            span_id=self.__span_id,\n            trace_id=self.__trace_id,\n        )\n")
Q(ER5, "        exemplars = [\n            e\n            for e in (\n                bucket.collect(point_attributes)\n                for _, bucket in sorted(self._reservoir_storage.items())\n            )\n            if e is not None\n        ]\n", "        exemplars = []\n        for index in sorted(self._reservoir_storage):\n            exemplar = self._reservoir_storage[index].collect(point_attributes)\n            if exemplar is not None:\n                exemplars.append(exemplar)\n")
Q(ER5, "        exemplars = [\n            e\n            for e in (\n                bucket.collect(point_attributes)\n                for _, bucket in sorted(self._reservoir_storage.items())\n            )\n            if e is not None\n        ]\n", "        collected = [\n            bucket.collect(point_attributes)\n            for _, bucket in sorted(self._reservoir_storage.items())\n        ]\n        exemplars = [e for e in collected if e is not None]\n")
Q(ER5, "        self._measurements_seen += 1\n        if self._measurements_seen <= self._size:\n            return self._measurements_seen - 1\n\n        index = randrange(0, self._measurements_seen)\n        if index < self._size:\n            return index\n", "        seen = self._measurements_seen\n        self._measurements_seen = seen + 1\n        index = seen if seen < self._size else randrange(seen + 1)\n        if index < self._size:\n            return index\n")
Q(ER5, "        for index, boundary in enumerate(self._boundaries):\n            if value <= boundary:\n                return index\n        return len(self._boundaries)\n", "        index = 0\n        for boundary in self._boundaries:\n            if value <= boundary:\n                break\n            index += 1\n        return index\n")
Q(ER5, "        for index, boundary in enumerate(self._boundaries):\n            if value <= boundary:\n                return index\n        return len(self._boundaries)\n", "        return bisect_left(self._boundaries, value)\n", "from collections import defaultdict\n", "from bisect import bisect_left\nfrom collections import defaultdict\n")
Q(EF5, "        if span == INVALID_SPAN:\n            return False\n        return span.get_span_context().trace_flags.sampled", "        return (\n            span != INVALID_SPAN\n            and span.get_span_context().trace_flags.sampled\n        )")
Q(EF5, "        if span == INVALID_SPAN:\n            return False\n        return span.get_span_context().trace_flags.sampled", "        span_context = span.get_span_context()\n        return span_context.is_valid and span_context.trace_flags.sampled")
Q(AG5, "        if should_sample_exemplar:\n            with self._reservoir_lock:\n                self._reservoir.offer(\n                    measurement.value,\n                    measurement.time_unix_nano,\n                    measurement.attributes,\n                    measurement.context,\n                )\n", "        if not should_sample_exemplar:\n            return\n        with self._reservoir_lock:\n            self._reservoir.offer(\n                value=measurement.value,\n                time_unix_nano=measurement.time_unix_nano,\n                attributes=measurement.attributes,\n                context=measurement.context,\n            )\n")
Q(VW5, "    if issubclass(aggregation_type, _ExplicitBucketHistogramAggregation):\n        return AlignedHistogramBucketExemplarReservoir\n    if issubclass(aggregation_type, _ExponentialBucketHistogramAggregation):\n        return SimpleFixedSizeExemplarReservoir\n    return SimpleFixedSizeExemplarReservoir\n", "    return (\n        AlignedHistogramBucketExemplarReservoir\n        if issubclass(aggregation_type, _ExplicitBucketHistogramAggregation)\n        else SimpleFixedSizeExemplarReservoir\n    )\n")
Q(AG5, "        super().__init__(\n            attributes,\n            reservoir_builder=partial(\n                reservoir_builder, boundaries=boundaries\n            ),\n        )\n", "        builder = partial(reservoir_builder, boundaries=boundaries)\n        super().__init__(attributes, builder)\n")
