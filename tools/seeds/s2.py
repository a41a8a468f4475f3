TR = SDK + "trace/__init__.py"
SM = SDK + "trace/sampling.py"
ATT = API + "attributes/__init__.py"
UT = SDK + "util/__init__.py"
seed("t06-view-of-empty", "T06", "a span without attributes whose attribute view is taken before attributes are set, or a holder writing to the view",
     "the attribute view of a span with attributes is the span's own mutable collection",
     [(TR, "        return MappingProxyType(self._attributes or {})", "        return self._attributes or MappingProxyType({})")],
     '''
from opentelemetry.sdk.trace import TracerProvider
span = TracerProvider(shutdown_on_exit=False).get_tracer("t").start_span("s", attributes={"a": 1})
v = span.attributes
try:
    v["a"] = 2
except TypeError:
    pass
assert dict(span.attributes) == {"a": 1}
''')
seed("t05-link-length", "T05", "OTEL_ATTRIBUTE_VALUE_LENGTH_LIMIT set with long values in a link added after the span was started",
     "attribute values of links added with add_link are not truncated",
     [(TR, """        attributes = BoundedAttributes(
            self._limits.max_link_attributes,
            attributes,
            max_value_len=self._limits.max_attribute_length,
        )
        self._add_link(""", """        attributes = BoundedAttributes(
            self._limits.max_link_attributes,
            attributes,
        )
        self._add_link(""")],
     '''
from opentelemetry.sdk.trace import TracerProvider, SpanLimits
from opentelemetry.trace import SpanContext, TraceFlags
tp = TracerProvider(shutdown_on_exit=False, span_limits=SpanLimits(max_attribute_length=3))
span = tp.get_tracer("t").start_span("s")
span.add_link(SpanContext(1, 2, False, TraceFlags(1)), {"k": "abcdef"})
assert span.links[0].attributes["k"] == "abc"
''')
