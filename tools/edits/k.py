SDK = "opentelemetry-sdk/src/opentelemetry/sdk/"
RS = SDK + "resources/__init__.py"
B("K02", RS, "        merged_attributes = self.attributes.copy()  # type: ignore\n        merged_attributes.update(other.attributes)", "        merged_attributes = other.attributes.copy()  # type: ignore\n        merged_attributes.update(self.attributes)")
B("K02", RS, "        merged_attributes.update(other.attributes)  # type: ignore", "        for key, value in other.attributes.items():\n            merged_attributes.setdefault(key, value)")
B("K02", RS, "        merged_attributes.update(other.attributes)  # type: ignore", "        for key, value in other.attributes.items():\n            if value:\n                merged_attributes[key] = value")
B("K02", RS, "            schema_url = other.schema_url\n        elif other.schema_url == \"\"", "            schema_url = self.schema_url\n        elif other.schema_url == \"\"")
B("K02", RS, "            return self\n        return Resource(merged", "            return other\n        return Resource(merged")
B("K02", RS, "            return self\n        return Resource(merged", "            schema_url = self.schema_url\n        return Resource(merged")
B("K02", RS, "        elif self.schema_url == other.schema_url:\n            schema_url = other.schema_url\n        else:", "        elif self.schema_url == other.schema_url:\n            return self\n        else:")
B("K02", RS, "            logger.error(\n                \"Failed to merge resources: The two schemas %s and %s are incompatible\",\n                self.schema_url,\n                other.schema_url,\n            )\n", "")
B("K02", RS, "        if not resource.attributes.get(SERVICE_NAME, None):", "        if not attributes.get(SERVICE_NAME, None):")
B("K02", RS, "        if not resource.attributes.get(SERVICE_NAME, None):", "        if resource is _DEFAULT_RESOURCE:")
B("K02", RS, "        if not resource.attributes.get(SERVICE_NAME, None):", "        if SERVICE_NAME not in attributes:")
B("K02", RS, "            default_service_name = \"unknown_service\"\n", "            default_service_name = \"unknown\"\n")
B("K02", RS, "            resource = resource.merge(\n                Resource({SERVICE_NAME: default_service_name})\n            )", "            resource = Resource({SERVICE_NAME: default_service_name}).merge(\n                resource\n            )")
B("K02", RS, "                Resource({SERVICE_NAME: default_service_name})\n", "                Resource({SERVICE_NAME: default_service_name}, schema_url)\n")
B("K02", RS, "        resource = get_aggregated_resources(\n            resource_detectors, _DEFAULT_RESOURCE\n        ).merge(Resource(attributes, schema_url))", "        resource = Resource(attributes, schema_url).merge(get_aggregated_resources(\n            resource_detectors, _DEFAULT_RESOURCE\n        ))")
B("K02", RS, "        resource = get_aggregated_resources(\n            resource_detectors, _DEFAULT_RESOURCE\n        ).merge(Resource(attributes, schema_url))", "        resource = get_aggregated_resources(\n            resource_detectors, _DEFAULT_RESOURCE.merge(Resource(attributes, schema_url))\n        )")
B("K02", RS, "            except Exception:  # pylint: disable=broad-exception-caught\n                logger.exception(\n                    \"Failed to load", "            except ImportError:\n                logger.exception(\n                    \"Failed to load")
B("K02", RS, "                    resource_detector,\n                )\n                continue", "                    resource_detector,\n                )\n                break")
B("K02", RS, "            + [\"otel\"]\n        )", "            or [\"otel\"]\n        )")
B("K02", RS, "        otel_experimental_resource_detectors = dict.fromkeys(", "        otel_experimental_resource_detectors = set(")
B("K02", RS, "                detected_resource = future.result(timeout=timeout)", "                detected_resource = future.result()")
B("K02", RS, "            # pylint: disable=broad-exception-caught\n            except Exception as ex:", "            # pylint: disable=broad-exception-caught\n            except (ValueError, OSError) as ex:")
B("K02", RS, "                    \"Exception %s in detector %s, ignoring\", ex, detector\n                )\n", "                    \"Exception %s in detector %s, ignoring\", ex, detector\n                )\n                break\n")
B("K02", RS, "                detectors_merged_resource = detectors_merged_resource.merge(\n                    detected_resource\n                )", "                detectors_merged_resource = detected_resource.merge(\n                    detectors_merged_resource\n                )")
B("K02", RS, "            except concurrent.futures.TimeoutError as ex:\n                if detector.raise_on_error:\n                    raise ex", "            except concurrent.futures.TimeoutError as ex:\n                raise ex")
B("K02", RS, "        executor.shutdown(wait=False)", "        executor.shutdown()")
B("K02", RS, "        for detector_ind, future in enumerate(futures):", "        for detector_ind, future in enumerate(\n            concurrent.futures.as_completed(futures)\n        ):")
B("K02", RS, "                    continue\n                value_url_decoded", "                    break\n                value_url_decoded")
B("K02", RS, "                    key, value = item.split(\"=\", maxsplit=1)", "                    key, value = item.split(\"=\")")
B("K02", RS, "                value_url_decoded = parse.unquote(value.strip())", "                value_url_decoded = parse.unquote_plus(value.strip())")
B("K02", RS, "                value_url_decoded = parse.unquote(value.strip())", "                value_url_decoded = value.strip()")
B("K02", RS, "        service_name = environ.get(OTEL_SERVICE_NAME)\n        if service_name:\n            env_resource_map[SERVICE_NAME] = service_name\n", "        service_name = environ.get(OTEL_SERVICE_NAME)\n        if service_name:\n            env_resource_map.setdefault(SERVICE_NAME, service_name)\n")
B("K02", RS, "        service_name = environ.get(OTEL_SERVICE_NAME)\n        if service_name:\n            env_resource_map[SERVICE_NAME] = service_name\n", "        service_name = environ.get(OTEL_SERVICE_NAME)\n        if service_name and env_resource_map:\n            env_resource_map[SERVICE_NAME] = service_name\n")
B("K02", RS, "        elif os_type == \"sunos\":\n            os_type = \"solaris\"", "        elif os_type == \"sunos\":\n            os_type = \"sunos\"")
B("K02", RS, "        if os_type == \"windows\":\n            os_version = platform.version()\n", "        if os_type == \"windows\":\n            os_version = platform.release()\n")
B("K02", RS, "            HOST_ARCH: platform.machine()" if False else "                HOST_ARCH: platform.machine(),", "                HOST_ARCH: platform.processor(),")
B("K02", RS, "            resource_info[PROCESS_PARENT_PID] = os.getppid()", "            resource_info[PROCESS_PID] = os.getppid()")
B("K02", RS, "        self._attributes = BoundedAttributes(attributes=attributes)", "        self._attributes = BoundedAttributes(attributes=attributes, immutable=False)")
B("K02", RS, "        self._attributes = BoundedAttributes(attributes=attributes)", "        self._attributes = BoundedAttributes(128, attributes)")
B("K02", RS, "            self._attributes == other._attributes\n            and self._schema_url == other._schema_url", "            self._attributes == other._attributes\n            or self._schema_url == other._schema_url")
B("K02", RS, "            self._attributes == other._attributes\n            and self._schema_url == other._schema_url", "            self._attributes == other._attributes")
B("K02", RS, "sort_keys=True)}|", ")}|")
B("K02", SDK + "metrics/_internal/__init__.py", "            resource = Resource.create({})", "            resource = Resource.get_empty()")
B("K02", SDK + "_logs/_internal/__init__.py", "            self._resource = Resource.create({})", "            self._resource = Resource({})")
Q(RS, "        merged_attributes = self.attributes.copy()  # type: ignore\n        merged_attributes.update(other.attributes)", "        merged_attributes = {**self.attributes, **other.attributes}")
Q(RS, "        merged_attributes.update(other.attributes)  # type: ignore", "        for key, value in other.attributes.items():\n            merged_attributes[key] = value")
Q(RS, "        if self.schema_url == \"\":\n            schema_url = other.schema_url\n        elif other.schema_url == \"\":\n            schema_url = self.schema_url\n        elif self.schema_url == other.schema_url:\n            schema_url = other.schema_url\n        else:", "        schema_url = self.schema_url or other.schema_url\n        if other.schema_url and other.schema_url != schema_url:")
Q(RS, "        for detector_ind, future in enumerate(futures):\n            detector = detectors[detector_ind]\n", "        for detector, future in zip(detectors, futures):\n")
Q(RS, "        executor.shutdown(wait=False)", "        executor.shutdown(False)")
Q(RS, "                    key, value = item.split(\"=\", maxsplit=1)", "                    parts = item.split(\"=\", 1)\n                    key, value = parts")
Q(RS, "            + [\"otel\"]\n        )", "            + [\"otel\"]\n        ).keys()")
Q(RS, "            default_service_name = \"unknown_service\"\n", "            default_service_name = f\"unknown_service\"\n")
Q(RS, "                default_service_name += \":\" + process_executable_name", "                default_service_name = f\"{default_service_name}:{process_executable_name}\"")
Q(RS, "            finally:\n                detectors_merged_resource = detectors_merged_resource.merge(\n                    detected_resource\n                )", "            detectors_merged_resource = detectors_merged_resource.merge(\n                detected_resource\n            )")
Q(RS, "        self._attributes = BoundedAttributes(attributes=attributes)\n        if schema_url is None:\n            schema_url = \"\"\n        self._schema_url = schema_url", "        self._schema_url = schema_url if schema_url is not None else \"\"\n        self._attributes = BoundedAttributes(attributes=attributes)")
Q(RS, "        if os_type == \"windows\":\n            os_version = platform.version()\n        # Align SunOS with conventions\n        elif os_type == \"sunos\":\n            os_type = \"solaris\"\n            os_version = platform.version()\n", "        if os_type in (\"windows\", \"sunos\"):\n            os_version = platform.version()\n        if os_type == \"sunos\":\n            os_type = \"solaris\"\n")
Q(RS, "        service_name = environ.get(OTEL_SERVICE_NAME)\n        if service_name:\n            env_resource_map[SERVICE_NAME] = service_name\n        return Resource(env_resource_map)", "        name_from_env = environ.get(OTEL_SERVICE_NAME)\n        extra = {SERVICE_NAME: name_from_env} if name_from_env else {}\n        env_resource_map.update(extra)\n        return Resource(env_resource_map)")
CF = SDK + "_configuration/__init__.py"
B("K03", CF, "    for _, exporter_class in exporters.items():\n        exporter_args = {}\n        provider.add_span_processor(\n            BatchSpanProcessor(exporter_class(**exporter_args))\n        )", "    for _, exporter_class in exporters.items():\n        exporter_args = {}\n        processor = BatchSpanProcessor(exporter_class(**exporter_args))\n    if exporters:\n        provider.add_span_processor(processor)")
B("K03", CF, "        provider.add_log_record_processor(\n            BatchLogRecordProcessor(exporter_class(**exporter_args))\n        )", "        provider.add_log_record_processor(\n            BatchLogRecordProcessor(exporter_class(**exporter_args))\n        )\n        break")
B("K03", CF, "            BatchLogRecordProcessor(exporter_class(**exporter_args))", "            SimpleLogRecordProcessor(exporter_class(**exporter_args))", "import BatchLogRecordProcessor, LogExporter", "import BatchLogRecordProcessor, LogExporter, SimpleLogRecordProcessor")
B("K03", CF, "    _init_metrics(metric_exporters, resource)", "    _init_metrics(metric_exporters)")
B("K03", CF, "    _init_logging(log_exporters, resource, setup_logging_handler)", "    if log_exporters:\n        _init_logging(log_exporters, resource, setup_logging_handler)")
B("K03", CF, "    set_tracer_provider(provider)\n\n    for", "    if exporters:\n        set_tracer_provider(provider)\n\n    for")
B("K03", CF, "    set_meter_provider(provider)\n", "    if metric_readers:\n        set_meter_provider(provider)\n")
B("K03", CF, "EventLoggerProvider(logger_provider=provider)", "EventLoggerProvider()")
B("K03", CF, "        if issubclass(exporter_impl, SpanExporter):\n            trace_exporters[exporter_name] = exporter_impl\n        else:\n            raise RuntimeError(f\"{exporter_name} is not a trace exporter\")", "        if issubclass(exporter_impl, SpanExporter):\n            trace_exporters[exporter_name] = exporter_impl\n        else:\n            _logger.warning(\"%s is not a trace exporter\", exporter_name)")
B("K03", CF, "        if issubclass(exporter_impl, SpanExporter):\n            trace_exporters[exporter_name] = exporter_impl\n        else:\n            raise RuntimeError(f\"{exporter_name} is not a trace exporter\")", "        trace_exporters[exporter_name] = exporter_impl")
B("K03", CF, "            metric_exporters[exporter_name] = exporter_impl", "            metric_exporters.setdefault(\"otlp\", exporter_impl)" if False else "            metric_exporters[exporter_impl.__name__[:1]] = exporter_impl" if False else "            if not metric_exporters:\n                metric_exporters[exporter_name] = exporter_impl")
B("K03", CF, "        except StopIteration:\n            raise RuntimeError(\n                f\"Requested component '{selected_component}' not found in \"\n                f\"entry point '{entry_point_name}'\"\n            )", "        except StopIteration:\n            _logger.error(\"Requested component %s not found\", selected_component)")
B("K03", CF, "        log_exporter_names, \"opentelemetry_logs_exporter\"", "        log_exporter_names, \"opentelemetry_traces_exporter\"")
B("K03", CF, "        metric_exporter_names + _get_exporter_names(\"metrics\"),", "        metric_exporter_names or _get_exporter_names(\"metrics\"),")
B("K03", CF, "        log_exporter_names + _get_exporter_names(\"logs\"),", "        log_exporter_names + _get_exporter_names(\"traces\"),")
B("K03", CF, "    otlp_protocol = environ.get(\n        _PROTOCOL_ENV_BY_SIGNAL_TYPE[signal_type]\n    ) or environ.get(OTEL_EXPORTER_OTLP_PROTOCOL)", "    otlp_protocol = environ.get(OTEL_EXPORTER_OTLP_PROTOCOL) or environ.get(\n        _PROTOCOL_ENV_BY_SIGNAL_TYPE[signal_type]\n    )")
B("K03", CF, "    otlp_protocol = environ.get(\n        _PROTOCOL_ENV_BY_SIGNAL_TYPE[signal_type]\n    ) or environ.get(OTEL_EXPORTER_OTLP_PROTOCOL)", "    otlp_protocol = environ.get(\n        _PROTOCOL_ENV_BY_SIGNAL_TYPE[signal_type], environ.get(OTEL_EXPORTER_OTLP_PROTOCOL)\n    )")
B("K03", CF, "    \"logs\": OTEL_EXPORTER_OTLP_LOGS_PROTOCOL,", "    \"logs\": OTEL_EXPORTER_OTLP_TRACES_PROTOCOL,")
B("K03", CF, "    \"metrics\": OTEL_METRICS_EXPORTER,", "    \"metrics\": OTEL_TRACES_EXPORTER,")
B("K03", CF, "            return _EXPORTER_OTLP_PROTO_GRPC\n        return exporter_name", "            return _EXPORTER_OTLP_PROTO_HTTP\n        return exporter_name")
B("K03", CF, "            # Invalid value was set by the env var\n            raise RuntimeError(\n                f\"Unsupported OTLP protocol '{otlp_protocol}' is configured\"\n            )", "            _logger.warning(\"Unsupported OTLP protocol\")\n            return _EXPORTER_OTLP_PROTO_GRPC")
B("K03", CF, "    if exporter_name_by_env and exporter_name != exporter_name_by_env:\n", "    if exporter_name_by_env and exporter_name != exporter_name_by_env:\n        exporter_name = exporter_name_by_env\n")
B("K03", CF, "    if not names or names.lower().strip() == \"none\":", "    if not names or names == \"none\":")
B("K03", CF, "        _get_exporter_entry_point(_exporter.strip(), signal_type)", "        _get_exporter_entry_point(_exporter, signal_type)")
B("K03", CF, "        for _exporter in names.split(\",\")\n", "        for _exporter in names.split(\",\")\n        if _exporter.strip() in (\"otlp\", \"console\")\n")
B("K03", CF, "    if sampler is None:\n        sampler_name", "    if not trace_exporter_names:\n        sampler_name")
B("K03", CF, "        sampler=sampler,\n        resource=resource,\n    )\n    set_tracer", "        resource=resource,\n    )\n    set_tracer")
B("K03", CF, "    if id_generator is None:", "    if OTEL_PYTHON_ID_GENERATOR in environ:")
B("K03", CF, "        resource_attributes[ResourceAttributes.TELEMETRY_AUTO_VERSION]", "        resource_attributes.setdefault(\"x\", 1)\n        resource_attributes[\"telemetry.version\"]")
B("K03", CF, "    if setup_logging_handler:\n", "    if setup_logging_handler and exporters:\n")
B("K03", CF, "            level=logging.NOTSET, logger_provider=provider", "            level=logging.INFO, logger_provider=provider")
B("K03", CF, "            level=logging.NOTSET, logger_provider=provider", "            level=logging.NOTSET")
B("K03", CF, "            .strip()\n            .lower()\n            == \"true\"", "            .strip()\n            != \"false\"")
B("K03", CF, "    if setup_logging_handler is None:", "    if not setup_logging_handler:")
B("K03", CF, "        logging.getLogger().addHandler(handler)", "        logging.getLogger(\"opentelemetry\").addHandler(handler)")
B("K03", CF, "        if issubclass(exporter_or_reader_class, MetricReader):\n            metric_readers.append", "        if not issubclass(exporter_or_reader_class, MetricExporter):\n            continue\n        elif issubclass(exporter_or_reader_class, MetricReader):\n            metric_readers.append")
B("K03", CF, "    raise RuntimeError(f\"{id_generator_name} is not an IdGenerator\")", "    return RandomIdGenerator()", "from opentelemetry.sdk.trace.id_generator import IdGenerator", "from opentelemetry.sdk.trace.id_generator import IdGenerator, RandomIdGenerator")
Q(CF, "    for _, exporter_class in exporters.items():\n        exporter_args = {}\n        provider.add_span_processor(\n            BatchSpanProcessor(exporter_class(**exporter_args))\n        )", "    for exporter_class in exporters.values():\n        exporter = exporter_class()\n        processor = BatchSpanProcessor(exporter)\n        provider.add_span_processor(processor)")
Q(CF, "    metric_readers = []\n\n    for _, exporter_or_reader_class in exporters_or_readers.items():\n        exporter_args = {}\n\n        if issubclass(exporter_or_reader_class, MetricReader):\n            metric_readers.append(exporter_or_reader_class(**exporter_args))\n        else:\n            metric_readers.append(\n                PeriodicExportingMetricReader(\n                    exporter_or_reader_class(**exporter_args)\n                )\n            )\n", "    metric_readers = []\n\n    for klass in exporters_or_readers.values():\n        reader = klass()\n        if not issubclass(klass, MetricReader):\n            reader = PeriodicExportingMetricReader(reader)\n        metric_readers.append(reader)\n")
Q(CF, "    if not names or names.lower().strip() == \"none\":\n        return []\n\n    return [\n        _get_exporter_entry_point(_exporter.strip(), signal_type)\n        for _exporter in names.split(\",\")\n    ]", "    found = []\n    if names and names.strip().lower() != \"none\":\n        for _exporter in names.split(\",\"):\n            found.append(_get_exporter_entry_point(_exporter.strip(), signal_type))\n    return found")
Q(CF, "    _init_metrics(metric_exporters, resource)\n    if setup", "    if setup", "    _init_logging(log_exporters, resource, setup_logging_handler)", "    _init_logging(log_exporters, resource, setup_logging_handler)\n    _init_metrics(metric_exporters, resource)")
Q(CF, "    if exporter_name not in (\n        _EXPORTER_OTLP,\n        _EXPORTER_OTLP_PROTO_GRPC,\n        _EXPORTER_OTLP_PROTO_HTTP,\n    ):", "    if exporter_name not in {_EXPORTER_OTLP} | set(_EXPORTER_BY_OTLP_PROTOCOL.values()):" if False else "    if exporter_name != _EXPORTER_OTLP and exporter_name not in (\n        _EXPORTER_OTLP_PROTO_GRPC,\n        _EXPORTER_OTLP_PROTO_HTTP,\n    ):")
Q(CF, "    for (\n        exporter_name,\n        exporter_impl,\n    ) in _import_config_components(\n        log_exporter_names, \"opentelemetry_logs_exporter\"\n    ):\n        if issubclass(exporter_impl, LogExporter):\n            log_exporters[exporter_name] = exporter_impl\n        else:\n            raise RuntimeError(f\"{exporter_name} is not a log exporter\")\n", "    for component in _import_config_components(\n        log_exporter_names, \"opentelemetry_logs_exporter\"\n    ):\n        if not issubclass(component[1], LogExporter):\n            raise RuntimeError(f\"{component[0]} is not a log exporter\")\n        log_exporters[component[0]] = component[1]\n")

# -- K01 ------------------------------------------------------------------------------------
TI = SDK + "trace/__init__.py"
TE = SDK + "trace/export/__init__.py"
LE = SDK + "_logs/_internal/export/__init__.py"
LI = SDK + "_logs/_internal/__init__.py"
ME = SDK + "metrics/_internal/export/__init__.py"
MI = SDK + "metrics/_internal/__init__.py"
TS = SDK + "trace/sampling.py"
CF = SDK + "_configuration/__init__.py"
MC = SDK + "metrics/_internal/measurement_consumer.py"
CX = API + "context/__init__.py"
B("K01", TE, "_DEFAULT_SCHEDULE_DELAY_MILLIS = 5000", "_DEFAULT_SCHEDULE_DELAY_MILLIS = 1000")
B("K01", TE, "            return _DEFAULT_MAX_EXPORT_BATCH_SIZE\n", "            return _DEFAULT_MAX_QUEUE_SIZE\n")
B("K01", TE, "environ.get(\n                    OTEL_BSP_SCHEDULE_DELAY, _DEFAULT_SCHEDULE_DELAY_MILLIS", "environ.get(\n                    OTEL_BSP_EXPORT_TIMEOUT, _DEFAULT_SCHEDULE_DELAY_MILLIS")
B("K01", TE, "        if max_queue_size is None:\n            max_queue_size = BatchSpanProcessor._default_max_queue_size()", "        if not max_queue_size or OTEL_BSP_MAX_QUEUE_SIZE in environ:\n            max_queue_size = BatchSpanProcessor._default_max_queue_size()")
B("K01", TE, "        except ValueError:\n            logger.exception(\n                _ENV_VAR_INT_VALUE_ERROR_MESSAGE,\n                OTEL_BSP_EXPORT_TIMEOUT", "        except TypeError:\n            logger.exception(\n                _ENV_VAR_INT_VALUE_ERROR_MESSAGE,\n                OTEL_BSP_EXPORT_TIMEOUT")
B("K01", LE, "        except ValueError:\n            _logger.exception(\n                _ENV_VAR_INT_VALUE_ERROR_MESSAGE,\n                OTEL_BLRP_MAX_EXPORT_BATCH_SIZE,\n                _DEFAULT_MAX_EXPORT_BATCH_SIZE,\n            )\n", "        except ValueError:\n")
B("K01", LE, "int(\n                environ.get(OTEL_BLRP_MAX_QUEUE_SIZE, _DEFAULT_MAX_QUEUE_SIZE)", "int(\n                environ.get(OTEL_BLRP_MAX_EXPORT_BATCH_SIZE, _DEFAULT_MAX_QUEUE_SIZE)")
B("K01", ME, "environ.get(OTEL_METRIC_EXPORT_INTERVAL, 60000)", "environ.get(OTEL_METRIC_EXPORT_INTERVAL, 30000)")
B("K01", ME, "                export_timeout_millis = 30000\n", "                export_timeout_millis = 60000\n")
B("K01", ME, "                export_timeout_millis = float(\n                    environ.get(OTEL_METRIC_EXPORT_TIMEOUT, 30000)", "                export_timeout_millis = float(\n                    environ.get(OTEL_METRIC_EXPORT_INTERVAL, 30000)")
B("K01", ME, "        if export_interval_millis is None:\n            try:", "        if not export_interval_millis or export_interval_millis == 60000:\n            try:")
B("K01", ME, "        self._export_timeout_millis = export_timeout_millis\n", "        self._export_timeout_millis = export_timeout_millis or 30000\n        self._export_interval_millis = min(export_interval_millis, 60000)\n")
B("K01", TI, "            if str_value == _ENV_VALUE_UNSET:\n                return None", "            if str_value == _ENV_VALUE_UNSET:\n                return default")
B("K01", TI, "            except ValueError:\n                raise ValueError(err_msg.format(env_var, str_value))", "            except ValueError:\n                return default")
B("K01", TI, "        if value < 0:\n            raise ValueError(err_msg.format(env_var, value))\n        return value\n\n\n_UnsetLimits", "        if value < 0:\n            return None\n        return value\n\n\n_UnsetLimits")
B("K01", TI, "            OTEL_SPAN_LINK_COUNT_LIMIT,\n            _DEFAULT_OTEL_SPAN_LINK_COUNT_LIMIT", "            OTEL_SPAN_EVENT_COUNT_LIMIT,\n            _DEFAULT_OTEL_SPAN_LINK_COUNT_LIMIT")
B("K01", TI, "            OTEL_SPAN_ATTRIBUTE_VALUE_LENGTH_LIMIT,\n            # use global attribute length limit as default\n            self.max_attribute_length,", "            OTEL_SPAN_ATTRIBUTE_VALUE_LENGTH_LIMIT,")
B("K01", LI, "            if global_max_attributes is not None\n            else _DEFAULT_OTEL_ATTRIBUTE_COUNT_LIMIT", "            if global_max_attributes\n            else _DEFAULT_OTEL_ATTRIBUTE_COUNT_LIMIT")
B("K01", TI, "        if not sampler:\n            sampler = sampling._get_from_env_or_default()", "        if not sampler or environ.get('OTEL_TRACES_SAMPLER'):\n            sampler = sampling._get_from_env_or_default()")
B("K01", TS, '    "parentbased_always_off": DEFAULT_OFF', '    "parentbased_always_off": ALWAYS_OFF')
B("K01", TS, '        trace_sampler = "parentbased_always_on"\n\n    if', '        trace_sampler = "always_on"\n\n    if')
B("K01", TS, '        _logger.warning("Couldn\'t recognize sampler %s.", trace_sampler)\n', '')
B("K01", TS, '        OTEL_TRACES_SAMPLER, "parentbased_always_on"\n    ).lower()', '        OTEL_TRACES_SAMPLER, "parentbased_always_on"\n    )')
B("K01", TS, '        except (ValueError, TypeError):\n            _logger.warning("Could not', '        except ValueError:\n            _logger.warning("Could not')
B("K01", TS, '        if not 0.0 <= rate <= 1.0:', '        if rate > 1.0:')
B("K01", TS, '            _logger.warning("Could not convert TRACES_SAMPLER_ARG to float.")\n            rate = 1.0', '            _logger.warning("Could not convert TRACES_SAMPLER_ARG to float.")\n            rate = 0.0')
B("K01", TS, 'DEFAULT_OFF = ParentBased(ALWAYS_OFF)', 'DEFAULT_OFF = ParentBased(ALWAYS_ON)')
B("K01", TS, '    def __init__(self, _):\n        super().__init__(ALWAYS_OFF)', '    def __init__(self, _):\n        super().__init__(ALWAYS_ON)')
B("K01", TS, '    def __init__(self, _):\n        super().__init__(Decision.DROP)', '    def __init__(self, _):\n        super().__init__(Decision.RECORD_ONLY)')
B("K01", CF, '                rate = 1.0\n            arg = rate', '                rate = 1.0\n            arg = os.getenv(OTEL_TRACES_SAMPLER_ARG)')
B("K01", CF, '    sampler_name = sampler_name.strip()\n', '')
B("K01", CF, '        if sampler_name in ("traceidratio", "parentbased_traceidratio"):', '        if sampler_name == "traceidratio":')
B("K01", CF, '    except Exception as exc:  # pylint: disable=broad-exception-caught\n        _logger.warning(\n            "Using default sampler', '    except (ValueError, RuntimeError) as exc:\n        _logger.warning(\n            "Using default sampler')
B("K01", CF, '            _logger.warning(message)\n            raise ValueError(message)\n        return sampler', '            _logger.warning(message)\n        return sampler')
B("K01", MI, 'environ.get(OTEL_METRICS_EXEMPLAR_FILTER, "trace_based")', 'environ.get(OTEL_METRICS_EXEMPLAR_FILTER, "always_off")')
B("K01", MI, '    if exemplar_filter == "always_off":\n        return AlwaysOffExemplarFilter()', '    if exemplar_filter == "off":\n        return AlwaysOffExemplarFilter()')
B("K01", MI, '    return TraceBasedExemplarFilter()\n\n\nclass', '    raise ValueError(exemplar_filter)\n\n\nclass')
B("K01", MI, '                exemplar_filter\n                or _get_exemplar_filter(\n                    environ.get(OTEL_METRICS_EXEMPLAR_FILTER, "trace_based")\n                )', '                _get_exemplar_filter(\n                    environ.get(OTEL_METRICS_EXEMPLAR_FILTER, "trace_based")\n                )\n                or exemplar_filter')
B("K01", CX, '    default_context = "contextvars_context"', '    default_context = "threadlocal_context"')
B("K01", CX, '    except Exception:  # pylint: disable=broad-exception-caught\n        logger.exception(\n            "Failed to load context', '    except StopIteration:\n        logger.exception(\n            "Failed to load context')
Q(TE, "        try:\n            return int(\n                environ.get(OTEL_BSP_MAX_QUEUE_SIZE, _DEFAULT_MAX_QUEUE_SIZE)\n            )\n        except ValueError:", "        raw = environ.get(OTEL_BSP_MAX_QUEUE_SIZE)\n        if raw is None:\n            return _DEFAULT_MAX_QUEUE_SIZE\n        try:\n            return int(raw.strip())\n        except (TypeError, ValueError):")
Q(ME, "            try:\n                export_interval_millis = float(\n                    environ.get(OTEL_METRIC_EXPORT_INTERVAL, 60000)\n                )\n            except ValueError:\n                _logger.warning(\n                    \"Found invalid value for export interval, using default\"\n                )\n                export_interval_millis = 60000", "            export_interval_millis = 60000.0\n            if OTEL_METRIC_EXPORT_INTERVAL in environ:\n                try:\n                    export_interval_millis = float(environ[OTEL_METRIC_EXPORT_INTERVAL])\n                except ValueError as error:\n                    _logger.warning(\"Found invalid value for export interval: %s\", error)")
Q(TS, '    if trace_sampler not in _KNOWN_SAMPLERS:\n        _logger.warning("Couldn\'t recognize sampler %s.", trace_sampler)\n        trace_sampler = "parentbased_always_on"\n', '    known = _KNOWN_SAMPLERS.get(trace_sampler)\n    if known is None:\n        _logger.warning("Couldn\'t recognize sampler %s.", trace_sampler)\n        return DEFAULT_ON\n')
Q(TS, '        if not 0.0 <= rate <= 1.0:\n', '        if rate < 0.0 or rate > 1.0 or rate != rate:\n')
Q(MI, '    if exemplar_filter == "trace_based":\n        return TraceBasedExemplarFilter()\n    if exemplar_filter == "always_on":\n        return AlwaysOnExemplarFilter()\n    if exemplar_filter == "always_off":\n        return AlwaysOffExemplarFilter()\n', '    exemplar_filter = exemplar_filter.lower()\n    if exemplar_filter == "always_off":\n        return AlwaysOffExemplarFilter()\n    if exemplar_filter == "always_on":\n        return AlwaysOnExemplarFilter()\n    if exemplar_filter == "trace_based":\n        return TraceBasedExemplarFilter()\n')
Q(TI, "            str_value = environ.get(env_var, \"\").strip().lower()\n            if str_value == _ENV_VALUE_UNSET:\n                return None\n", "            str_value = environ[env_var].strip()\n            if not str_value:\n                return None\n")

# -- K04 ------------------------------------------------------------------------------------
EV = SDK + "_events/__init__.py"
B("K04", TI, "            self._atexit_handler = atexit.register(self.shutdown)", "            self._atexit_handler = atexit.register(self.force_flush)")
B("K04", TI, "        if shutdown_on_exit:\n", "        if shutdown_on_exit or not self._disabled:\n")
B("K04", TI, "        shutdown_on_exit: bool = True,", "        shutdown_on_exit: bool = False,")
B("K04", TI, "            atexit.unregister(self._atexit_handler)\n", "")
B("K04", TI, "        self._active_span_processor.shutdown()\n        if self._atexit_handler is not None:", "        self._active_span_processor.shutdown()\n        if self._atexit_handler is None:")
B("K04", TI, "        self._active_span_processor.shutdown()\n        if self._atexit", "        if self._atexit_handler is not None:\n            self._active_span_processor.shutdown()\n        if self._atexit")
B("K04", TI, "        return self._active_span_processor.force_flush(timeout_millis)", "        return self._active_span_processor.force_flush()")
B("K04", TI, "        return self._active_span_processor.force_flush(timeout_millis)", "        self._active_span_processor.force_flush(timeout_millis)\n        return True")
B("K04", TI, "        return self._active_span_processor.force_flush(timeout_millis)", "        return self._disabled or self._active_span_processor.force_flush(timeout_millis)")
B("K04", TI, "            if not sp.force_flush((deadline_ns - current_time_ns) // 1000000):", "            if not sp.force_flush(timeout_millis):")
B("K04", TI, "            if not sp.force_flush((deadline_ns - current_time_ns) // 1000000):", "            if not sp.force_flush((deadline_ns - current_time_ns) // 1000000000):")
B("K04", TI, "        timeout_sec = timeout_millis / 1e3\n", "        timeout_sec = timeout_millis\n")
B("K04", TI, "            if not future.result():\n                return False\n\n        return True\n\n\nclass EventBase", "            if future.exception():\n                return False\n\n        return True\n\n\nclass EventBase")
B("K04", LI, "            atexit.unregister(self._at_exit_handler)\n", "            atexit.unregister(self.force_flush)\n")
B("K04", LI, "        if shutdown_on_exit:\n            self._at_exit_handler = atexit.register(self.shutdown)", "        if shutdown_on_exit and not self._disabled:\n            self._at_exit_handler = atexit.register(self.shutdown)")
B("K04", LI, "        return self._multi_log_record_processor.force_flush(timeout_millis)", "        return self._multi_log_record_processor.force_flush()")
B("K04", LI, "        self._multi_log_record_processor.shutdown()\n        if", "        self._multi_log_record_processor.force_flush()\n        if")
B("K04", LI, "        deadline_ns = time_ns() + timeout_millis * 1000000\n        for lp", "        deadline_ns = time_ns() + timeout_millis * 1000\n        for lp")
B("K04", LI, "            futures, timeout_millis / 1e3\n", "            futures, timeout_millis * 1e3\n")
B("K04", MI, "            unregister(self._atexit_handler)\n", "")
B("K04", MI, "        if self._atexit_handler is not None:\n            unregister(self._atexit_handler)\n            self._atexit_handler = None\n\n        if metric_reader_error:", "        if self._atexit_handler is not None and not metric_reader_error:\n            unregister(self._atexit_handler)\n            self._atexit_handler = None\n\n        if metric_reader_error:")
B("K04", MI, "timeout_millis=(deadline_ns - current_ts) / 10**6\n                ):", "timeout_millis=timeout_millis\n                ):")
B("K04", MI, "                    flushed = False\n", "                    flushed = True\n")
B("K04", MI, "        return flushed\n", "        return True\n")
B("K04", SDK + "metrics/_internal/export/__init__.py", "        return self._exporter.force_flush(timeout_millis=timeout_millis)", "        self._exporter.force_flush(timeout_millis=timeout_millis)\n        return True")
B("K04", MI, "                metric_reader.shutdown(\n                    timeout_millis=(deadline_ns - current_ts) / 10**6", "                metric_reader.shutdown(\n                    timeout_millis=(deadline_ns - current_ts) / 10**9")
B("K04", ME, "        self._exporter.shutdown(\n            timeout_millis=max(deadline_ns - time_ns(), 0) / 10**6", "        self._exporter.shutdown(\n            timeout_millis=max(deadline_ns - time_ns(), 0)")
B("K04", ME, "        super().force_flush(timeout_millis=timeout_millis)\n", "")
B("K04", TE, "    def shutdown(self) -> None:\n        self.span_exporter.shutdown()\n", "    def shutdown(self) -> None:\n        self.span_exporter.force_flush()\n")
B("K04", LE, "        self._shutdown = True\n        self._exporter.shutdown()", "        if self._shutdown:\n            self._exporter.shutdown()\n        self._shutdown = True")
B("K04", TE, "        self.worker_thread.join()\n        self.span_exporter.shutdown()", "        self.worker_thread.join()\n        if not self.queue:\n            self.span_exporter.shutdown()")
B("K04", EV, "        self._logger_provider.shutdown()\n", "        self._logger_provider.force_flush()\n")
B("K04", EV, "self._logger_provider.force_flush(timeout_millis)", "self._logger_provider.force_flush()")
Q(TI, "        self._active_span_processor.shutdown()\n        if self._atexit_handler is not None:\n            atexit.unregister(self._atexit_handler)\n            self._atexit_handler = None", "        handler, self._atexit_handler = self._atexit_handler, None\n        try:\n            self._active_span_processor.shutdown()\n        finally:\n            if handler:\n                atexit.unregister(handler)")
Q(TI, "        if shutdown_on_exit:\n            self._atexit_handler = atexit.register(self.shutdown)", "        if shutdown_on_exit:\n            atexit.register(self.shutdown)\n            self._atexit_handler = self.shutdown")
Q(TI, "        return self._active_span_processor.force_flush(timeout_millis)", "        flushed = self._active_span_processor.force_flush(timeout_millis)\n        if not flushed:\n            return False\n        return True")
Q(LI, "        self._multi_log_record_processor.shutdown()\n        if self._at_exit_handler is not None:", "        if self._at_exit_handler:\n            atexit.unregister(self.shutdown)\n        self._multi_log_record_processor.shutdown()\n        if self._at_exit_handler is not None:")
Q(LI, "        deadline_ns = time_ns() + timeout_millis * 1000000\n        for lp", "        start_ns = time_ns()\n        deadline_ns = start_ns + int(timeout_millis * 1e6)\n        for lp")
