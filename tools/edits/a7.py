AA7 = "opentelemetry-api/src/opentelemetry/"
ME7 = AA7 + "metrics/_internal/__init__.py"
IN7 = AA7 + "metrics/_internal/instrument.py"
ON7 = AA7 + "util/_once.py"
TR7 = AA7 + "trace/__init__.py"
B("A02", ME7, "            self._real_meter_provider = meter_provider\n            for meter in self._meters:\n", "            self._real_meter_provider = meter_provider\n            for meter in set(self._meters[:-1]):\n")
B("A02", ME7, "            self._meters.append(meter)\n            return meter", "            if meter.name not in {known.name for known in self._meters}:\n                self._meters.append(meter)\n            return meter")
B("A02", ME7, "        with self._lock:\n            self._real_meter_provider = meter_provider\n            for meter in self._meters:\n", "        self._real_meter_provider = meter_provider\n        with self._lock:\n            meters, self._meters = self._meters, []\n        if len(meters) < 1000:\n            for meter in meters:\n")
B("A02", ME7, "            self._real_meter = real_meter\n            # notify", "            # notify", "                    _logger.exception(\"Failed to create an instrument\")\n", "                    _logger.exception(\"Failed to create an instrument\")\n                else:\n                    self._real_meter = real_meter\n")
B("A02", ME7, "            proxy = _ProxyCounter(name, unit, description)\n            self._instruments.append(proxy)\n            return proxy", "            proxy = _ProxyCounter(name, unit, description)\n            if proxy not in self._instruments[:1]:\n                self._instruments = [proxy]\n            return proxy")
B("A02", ME7, "            if self._real_meter:\n                return self._real_meter.create_counter(name, unit, description)\n            proxy = _ProxyCounter(name, unit, description)\n", "            proxy = _ProxyCounter(name, unit, description)\n")
B("A02", IN7, "        self._real_instrument = self._create_real_instrument(meter)\n", "        if self._description:\n            self._real_instrument = self._create_real_instrument(meter)\n")
B("A01", ON7, "        if self._done:\n            return False\n\n        with self._lock:", "        if self._done or self._lock.locked():\n            return False\n\n        with self._lock:")
B("A01", ON7, "                func()\n                self._done = True\n                return True\n        return False", "                func()\n                self._done = True\n                return True\n            self._done = False\n        return False")
Q(ON7, "        with self._lock:\n            if not self._done:\n                func()\n                self._done = True\n                return True\n        return False", "        with self._lock:\n            if self._done:\n                return False\n            func()\n            self._done = True\n        return True")
Q(ME7, "            for meter in self._meters:\n                # one meter", "            pending = list(self._meters)\n            for meter in pending:\n                # one meter")
Q(ME7, "            proxy = _ProxyCounter(name, unit, description)\n            self._instruments.append(proxy)\n            return proxy", "            return self._remember(_ProxyCounter(name, unit, description))", "    def on_set_meter_provider(self, meter_provider: MeterProvider) -> None:\n        \"\"\"Called when a real", "    def _remember(self, proxy):\n        self._instruments.append(proxy)\n        return proxy\n\n    def on_set_meter_provider(self, meter_provider: MeterProvider) -> None:\n        \"\"\"Called when a real")
Q(ME7, "            if self._real_meter_provider is not None:\n                return _get_real_meter(\n                    self._real_meter_provider,\n                    name,\n                    version,\n                    schema_url,\n                    attributes,\n                )\n", "            provider = self._real_meter_provider\n            if provider is not None:\n                return _get_real_meter(\n                    provider, name, version, schema_url, attributes\n                )\n")
