TR = SDK + "trace/__init__.py"
SM = SDK + "trace/sampling.py"
seed("c03-baggage-empty-ctx", "C03", "an explicitly passed empty context while the ambient context carries baggage",
     "reading or setting baggage on an explicitly passed empty context falls back to the ambient context's baggage",
     [(API + "baggage/__init__.py", "    baggage = get_value(_BAGGAGE_KEY, context=context)", "    baggage = get_value(_BAGGAGE_KEY, context=context or None)")],
     '''
from opentelemetry import baggage
from opentelemetry.context import Context, attach, detach
tok = attach(baggage.set_baggage("a", "1", Context()))
try:
    assert dict(baggage.get_all(Context())) == {}, baggage.get_all(Context())
    c = baggage.set_baggage("b", "2", Context())
    assert dict(baggage.get_all(c)) == {"b": "2"}, baggage.get_all(c)
finally:
    detach(tok)
''')
seed("c02-remove-baggage-inplace", "C02", "a context kept by one holder while another derives a context without one baggage entry from it",
     "removing a baggage entry changes the context it was derived from",
     [(API + "baggage/__init__.py", "    baggage = _get_baggage_value(context=context).copy()\n    baggage.pop(name, None)", "    baggage = _get_baggage_value(context=context)\n    if name not in baggage:\n        baggage = baggage.copy()\n    baggage.pop(name, None)")],
     '''
from opentelemetry import baggage
from opentelemetry.context import Context
c1 = baggage.set_baggage("a", "1", baggage.set_baggage("b", "2", Context()))
c2 = baggage.remove_baggage("a", c1)
assert dict(baggage.get_all(c2)) == {"b": "2"}
assert dict(baggage.get_all(c1)) == {"a": "1", "b": "2"}, baggage.get_all(c1)
''')
seed("t01-double-end-race", "T01", "two threads ending the same span at the same time",
     "both threads pass the ended check, so processors are notified twice and the end time is overwritten",
     [(TR, "        with self._lock:\n            if self._start_time is None:\n                raise RuntimeError(\"Calling end() on a not started span.\")\n            if self._end_time is not None:\n                logger.warning(\"Calling end() on an ended span.\")\n                return\n\n            self._end_time",
           "        if self._start_time is None:\n            raise RuntimeError(\"Calling end() on a not started span.\")\n        if self._end_time is not None:\n            logger.warning(\"Calling end() on an ended span.\")\n            return\n\n        with self._lock:\n            self._end_time")],
     '''
import logging; logging.disable(logging.CRITICAL)
from opentelemetry.sdk.trace import TracerProvider, SpanProcessor
ends = []
class P(SpanProcessor):
    def on_end(self, span):
        ends.append(span.end_time)
tp = TracerProvider(shutdown_on_exit=False); tp.add_span_processor(P())
span = tp.get_tracer("t").start_span("s")
class Racing:
    """A lock another thread wins first: on the first acquisition a second
    end() runs to completion before this one proceeds."""
    first = True
    def __enter__(self):
        if Racing.first:
            Racing.first = False
            span.end(2000)
        return self
    def __exit__(self, *a):
        return False
    def acquire(self, *a, **k):
        self.__enter__(); return True
    def release(self):
        pass
span._lock = Racing()
span.end(1000)
assert len(ends) == 1, ends
assert ends == [2000] and span.end_time == 2000, (ends, span.end_time)
''')
seed("t03-cleared-tracestate", "T03", "a sampler that returns an empty trace state for a span whose parent has one",
     "the parent's trace state is used although the sampler cleared it",
     [(TR, "            trace_state=sampling_result.trace_state,", "            trace_state=sampling_result.trace_state\n            or getattr(parent_span_context, \"trace_state\", None),")],
     '''
from opentelemetry import trace
from opentelemetry.sdk.trace import TracerProvider
from opentelemetry.sdk.trace.sampling import Sampler, SamplingResult, Decision
class Clear(Sampler):
    def should_sample(self, parent_context, trace_id, name, kind=None, attributes=None, links=None, trace_state=None):
        return SamplingResult(Decision.RECORD_AND_SAMPLE, attributes, trace.TraceState())
    def get_description(self):
        return "clear"
tp = TracerProvider(sampler=Clear(), shutdown_on_exit=False)
p = trace.SpanContext(1 << 100, 7, is_remote=True, trace_flags=trace.TraceFlags(1), trace_state=trace.TraceState([("a", "1")]))
s = tp.get_tracer("t").start_span("x", context=trace.set_span_in_context(trace.NonRecordingSpan(p)))
assert len(s.get_span_context().trace_state) == 0, s.get_span_context().trace_state
''')
seed("t04-local-not-sampled", "T04", "a local parent that is not sampled and a sampler configured with its own delegate for that case",
     "a custom delegate for local parents that are not sampled is ignored in favour of the remote one",
     [(SM, "        self._local_parent_not_sampled = local_parent_not_sampled", "        self._local_parent_not_sampled = (\n            remote_parent_not_sampled\n            if remote_parent_not_sampled is not ALWAYS_OFF\n            else local_parent_not_sampled\n        )")],
     '''
from opentelemetry import trace
from opentelemetry.sdk.trace import TracerProvider
from opentelemetry.sdk.trace.sampling import ParentBased, ALWAYS_ON, ALWAYS_OFF, StaticSampler, Decision
s = ParentBased(ALWAYS_ON, remote_parent_not_sampled=StaticSampler(Decision.RECORD_ONLY), local_parent_not_sampled=ALWAYS_OFF)
tp = TracerProvider(sampler=s, shutdown_on_exit=False)
p = trace.SpanContext(1 << 100, 7, is_remote=False, trace_flags=trace.TraceFlags(0))
sp = tp.get_tracer("t").start_span("x", context=trace.set_span_in_context(trace.NonRecordingSpan(p)))
assert not sp.is_recording()
''')
seed("c04-b3-single-2fields", "C04", "a B3 single header with exactly two fields whose trace identifier is all zeros",
     "extraction puts a span with an invalid identifier into the context",
     [(PROPS_B3 if "PROPS_B3" in dir() else B3, "            or self._span_id_regex.fullmatch(span_id) is None\n", "            or self._span_id_regex.match(span_id) is None\n")],
     '''
from opentelemetry import trace
from opentelemetry.context import Context
from opentelemetry.propagators.b3 import B3MultiFormat
c = Context()
for bad in ("e457b5a2e4d86bd1zzzz", "e457b5a2e4d86bd1\\n\\n x"):
    out = B3MultiFormat().extract({"x-b3-traceid": "0af7651916cd43dd8448eb211c80319c", "x-b3-spanid": bad, "x-b3-sampled": "1"}, c)
    assert not trace.get_current_span(out).get_span_context().is_valid
''')
seed("t02-base-exception", "T02", "a body left by an exception that is not an Exception (KeyboardInterrupt, GeneratorExit, SystemExit)",
     "the span is not ended when the body of use_span leaves with such an exception",
     [(API + "trace/__init__.py", "        # set_status_on_exception attributes set to False.\n        raise\n\n    finally:\n        if end_on_exit:\n            span.end()\n", "        # set_status_on_exception attributes set to False.\n        if end_on_exit:\n            span.end()\n        raise\n    else:\n        if end_on_exit:\n            span.end()\n")],
     '''
from opentelemetry import trace
from opentelemetry.sdk.trace import TracerProvider
t = TracerProvider(shutdown_on_exit=False).get_tracer("t")
s = t.start_span("x")
try:
    with trace.use_span(s, end_on_exit=True):
        raise KeyboardInterrupt
except KeyboardInterrupt:
    pass
assert s.end_time is not None
''')
