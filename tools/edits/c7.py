AP7 = "opentelemetry-api/src/opentelemetry/"
SD7 = "opentelemetry-sdk/src/opentelemetry/sdk/"
BG7 = AP7 + "baggage/__init__.py"
SP7 = AP7 + "trace/span.py"
AT7 = AP7 + "attributes/__init__.py"
CX7 = AP7 + "context/__init__.py"
RS7 = SD7 + "resources/__init__.py"
T7 = SD7 + "trace/__init__.py"
ST7 = AP7 + "trace/status.py"
# C02
B("C02", BG7, "    baggage.pop(name, None)\n\n    return set_value", "    baggage.pop(name, None)\n    if not baggage:\n        _get_baggage_value(context=context).clear()\n    return set_value")
B("C02", BG7, "    baggage = _get_baggage_value(context=context).copy()\n    baggage[name] = value\n", "    baggage = _get_baggage_value(context=context)\n    if name in baggage:\n        baggage = baggage.copy()\n    baggage[name] = value\n")
B("C02", BG7, "    if isinstance(baggage, dict):\n        return baggage\n    return {}", "    if isinstance(baggage, dict):\n        baggage.setdefault(\"\", \"\")\n        return baggage\n    return {}")
B("C02", SP7, "        new_state = [(key, value)] + list(self._dict.items())\n        return TraceState(new_state)", "        new_state = [(key, value)] + list(self._dict.items())\n        if not self._dict:\n            self._dict[key] = value\n        return TraceState(new_state)")
B("C02", SP7, "        prev_state.pop(key, None)\n        new_state = [(key, value), *prev_state.items()]\n        return TraceState(new_state)", "        prev_state.pop(key, None)\n        new_state = [(key, value), *prev_state.items()]\n        self._dict = dict(new_state)\n        return self")
B("C02", RS7, "        merged_attributes.update(other.attributes)  # type: ignore\n", "        merged_attributes.update(other.attributes)  # type: ignore\n        other._attributes = self._attributes\n")
B("C02", AT7, "    def __delitem__(self, key: str) -> None:\n        if getattr(self, \"_immutable\", False):  # type: ignore\n            raise TypeError\n", "    def __delitem__(self, key: str) -> None:\n")
B("C02", AT7, "        if getattr(self, \"_immutable\", False):  # type: ignore\n            raise TypeError\n        with self._lock:\n            if self.maxlen", "        if getattr(self, \"_immutable\", False) and key in self._dict:  # type: ignore\n            raise TypeError\n        with self._lock:\n            if self.maxlen")
B("C02", AT7, "    def copy(self):  # type: ignore\n        return self._dict.copy()  # type: ignore", "    def copy(self):  # type: ignore\n        return self._dict  # type: ignore")
B("C02", AT7, "        self._immutable = immutable\n", "        self._immutable = immutable and bool(attributes)\n")
B("C02", CX7, "    new_values = context.copy()\n    new_values[key] = value\n    return Context(new_values)", "    new_values = context.copy()\n    new_values[key] = value\n    context = context or get_current()\n    if key not in context:\n        context.update(new_values)\n    return Context(new_values)")
Q(BG7, "    baggage = _get_baggage_value(context=context).copy()\n    baggage[name] = value\n    return set_value(_BAGGAGE_KEY, baggage, context=context)", "    baggage = {**_get_baggage_value(context=context), name: value}\n    return set_value(_BAGGAGE_KEY, baggage, context=context)")
Q(BG7, "    baggage = _get_baggage_value(context=context).copy()\n    baggage.pop(name, None)\n", "    baggage = {\n        other: value\n        for other, value in _get_baggage_value(context=context).items()\n        if other != name\n    }\n")
Q(BG7, "    baggage = _get_baggage_value(context=context).copy()\n    baggage.pop(name, None)\n", "    baggage = dict(_get_baggage_value(context=context))\n    if name in baggage:\n        del baggage[name]\n")
Q(CX7, "    new_values = context.copy()\n    new_values[key] = value\n    return Context(new_values)", "    return Context({**context, key: value})")
Q(SP7, "        prev_state = self._dict.copy()\n        prev_state.pop(key)\n        new_state = list(prev_state.items())\n        return TraceState(new_state)", "        return TraceState(\n            [pair for pair in self._dict.items() if pair[0] != key]\n        )")
Q(SP7, "        new_state = [(key, value)] + list(self._dict.items())\n        return TraceState(new_state)", "        entries = list(self._dict.items())\n        entries.insert(0, (key, value))\n        return TraceState(entries)")
Q(SP7, "        prev_state = self._dict.copy()\n        prev_state.pop(key, None)\n        new_state = [(key, value), *prev_state.items()]\n        return TraceState(new_state)", "        new_state = [(key, value)]\n        for other_key, other_value in self._dict.items():\n            if other_key != key:\n                new_state.append((other_key, other_value))\n        return TraceState(new_state)")
Q(RS7, "        merged_attributes = self.attributes.copy()  # type: ignore\n        merged_attributes.update(other.attributes)  # type: ignore\n", "        merged_attributes = {**self.attributes, **other.attributes}\n")
Q(AT7, "        if getattr(self, \"_immutable\", False):  # type: ignore\n            raise TypeError\n        with self._lock:\n            del self._dict[key]", "        immutable = getattr(self, \"_immutable\", False)\n        if immutable:\n            raise TypeError(\"immutable\")\n        with self._lock:\n            del self._dict[key]")
Q(BG7, "    if isinstance(baggage, dict):\n        return baggage\n    return {}", "    return baggage if isinstance(baggage, dict) else {}")
# T07
B("T07", T7, "            self._status = Status(status, description)\n", "            self._status = Status(status, description or self._status.description)\n")
B("T07", T7, "            self._status = status\n", "            if self._status.status_code is StatusCode.ERROR and not status.description:\n                return\n            self._status = status\n")
B("T07", T7, "                or status is StatusCode.UNSET\n", "                or status is StatusCode.UNSET\n                and description is None\n")
B("T07", ST7, "            if status_code is not StatusCode.ERROR:\n", "            if status_code is StatusCode.UNSET:\n")
B("T07", ST7, "        if description:\n            if not isinstance", "        if description and len(description) > 1:\n            if not isinstance")
Q(T7, "            self._status = Status(status, description)\n", "            new_status = Status(status, description)\n            self._status = new_status\n")
Q(ST7, "        if description:\n            if not isinstance(description, str):\n                logger.warning(\"Invalid status description type, expected str\")\n                return\n            if status_code is not StatusCode.ERROR:\n                logger.warning(\n                    \"description should only be set when status_code is set to StatusCode.ERROR\"\n                )\n                return\n\n        self._description = description", "        if description and not isinstance(description, str):\n            logger.warning(\"Invalid status description type, expected str\")\n        elif description and status_code is not StatusCode.ERROR:\n            logger.warning(\n                \"description should only be set when status_code is set to StatusCode.ERROR\"\n            )\n        else:\n            self._description = description")
Q(T7, "            if (\n                self._status\n                and self._status.status_code is StatusCode.OK\n                or status is StatusCode.UNSET\n            ):\n                return\n            self._status = Status(status, description)", "            current = self._status\n            if current and current.status_code is StatusCode.OK:\n                return\n            if status is StatusCode.UNSET:\n                return\n            self._status = Status(status, description)")
