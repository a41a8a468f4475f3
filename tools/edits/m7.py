SD8 = "opentelemetry-sdk/src/opentelemetry/sdk/"
MI8 = SD8 + "metrics/_internal/"
IN8 = MI8 + "instrument.py"
MC8 = MI8 + "measurement_consumer.py"
VM8 = MI8 + "_view_instrument_match.py"
ER8 = MI8 + "exemplar/exemplar_reservoir.py"
AG8 = MI8 + "aggregation.py"
# open: not caught yet
# B("M07", IN8, "            except Exception:  # pylint: disable=broad-exception-caught\n                _logger.exception(\n                    \"Callback failed for instrument %s.\", self.name\n                )\n", "            except Exception:  # pylint: disable=broad-exception-caught\n                _logger.exception(\n                    \"Callback failed for instrument %s.\", self.name\n                )\n                self._callbacks.remove(callback)\n")
# open: not caught yet
# B("M07", IN8, "                    \"Callback failed for instrument %s.\", self.name\n                )\n", "                    \"Callback failed for instrument %s.\", self.name\n                )\n                if len(self._callbacks) == 1:\n                    raise\n")
B("M07", IN8, "                for api_measurement in callback(callback_options):\n", "                for api_measurement in callback(callback_options) or ():\n                    if api_measurement.value is None:\n                        break\n")
B("M08", VM8, "                    attributes = dict(attributes)\n", "                    attributes = attributes if len(attributes) == 1 else dict(attributes)\n")
B("M08", AG8, "bucket_counts=tuple(self._previous_value),", "bucket_counts=self._previous_value if len(self._previous_value) > 64 else tuple(self._previous_value),")
B("M08", ER8, "        self.__attributes = (\n            dict(attributes) if isinstance(attributes, Mapping) else None\n        )", "        self.__attributes = attributes if isinstance(attributes, dict) else dict(attributes or {})")
# open: M10 reports this copy of the attributes
# Q(ER8, "        self.__attributes = (\n            dict(attributes) if isinstance(attributes, Mapping) else None\n        )", "        kept = None\n        if isinstance(attributes, Mapping):\n            kept = {key: attributes[key] for key in attributes}\n        self.__attributes = kept")
Q(IN8, "            try:\n                for api_measurement in callback(callback_options):\n", "            try:\n                observations = callback(callback_options)\n                for api_measurement in observations:\n")
Q(VM8, "                    attributes = dict(attributes)\n", "                    attributes = {**attributes}\n")
Q(AG8, "bucket_counts=tuple(self._previous_value),", "bucket_counts=tuple(count for count in self._previous_value),")
