SC = "opentelemetry-semantic-conventions/src/opentelemetry/semconv/"
HS = SC + "attributes/http_attributes.py"
HI = SC + "_incubating/attributes/http_attributes.py"
CM = SC + "_incubating/metrics/cpu_metrics.py"
HM = SC + "_incubating/metrics/http_metrics.py"
B("S01", HS, 'HTTP_REQUEST_METHOD: Final = "http.request.method"', 'HTTP_REQUEST_METHOD: Final = "http.request_method"')
B("S01", HS, 'HTTP_REQUEST_RESEND_COUNT: Final = "http.request.resend_count"', 'HTTP_REQUEST_RESEND_COUNT: Final = "http.request.resend.count"')
B("S01", HS, 'HTTP_ROUTE: Final = "http.route"', 'HTTP_ROUTE: Final = "http.target"')
B("S01", HS, '    PATCH = "PATCH"', '    PATCH = "Patch"')
B("S01", HS, '    PATCH = "PATCH"', '    PATCH = "POST"')
B("S01", CM, '        callbacks=callbacks,\n        description="Operating', '        callbacks=[],\n        description="Operating')
B("S01", CM, '        unit="Hz",', '        unit="{Hz}",')
B("S01", CM, '        name=CPU_FREQUENCY,', '        name=CPU_TIME,')
B("S01", HM, 'return meter.create_up_down_counter(\n        name=HTTP_CLIENT_ACTIVE_REQUESTS', 'return meter.create_counter(\n        name=HTTP_CLIENT_ACTIVE_REQUESTS')
B("S01", HM, 'Instrument: histogram\nUnit: s', 'Instrument: histogram\nUnit: ms')
B("S01", SC + "metrics/http_metrics.py", 'Unit: s', 'Unit: ms')
B("S01", SC + "trace/__init__.py", '    MESSAGING_CLIENT_ID = "messaging.client_id"', '    MESSAGING_CLIENT_ID = "messaging.client.id"')
B("S01", SC + "trace/__init__.py", '    DATA_LOSS = 15', '    DATA_LOSS = 16')
B("S01", SC + "resource/__init__.py", '"cloud.account.id"', '"cloud.account_id"')
B("S01", SC + "schemas.py", '"https://opentelemetry.io/schemas/1.29.0"', '"https://opentelemetry.io/schemas/1.28.0"')
Q(HS, 'HTTP_ROUTE: Final = "http.route"', 'HTTP_ROUTE: Final = "http." + "route"')
Q(CM, '    return meter.create_observable_gauge(\n        name=CPU_FREQUENCY,\n        callbacks=callbacks,', '    make = meter.create_observable_gauge\n    return make(\n        CPU_FREQUENCY,\n        callbacks,')
Q(HS, 'HTTP_ROUTE: Final = "http.route"', 'HTTP_NEW_THING: Final = "http.new.thing"\n\nHTTP_ROUTE: Final = "http.route"')
