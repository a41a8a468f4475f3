COMP = API + "propagators/composite.py"
PROPG = API + "propagate/__init__.py"
B("C06", COMP, "for propagator in self._propagators:\n            context =", "for propagator in reversed(self._propagators):\n            context =")
B("C06", COMP, "for propagator in self._propagators:\n            propagator.inject", "for propagator in self._propagators[:2]:\n            propagator.inject")
B("C06", COMP, "context = propagator.extract(carrier, context, getter=getter)", "new = propagator.extract(carrier, context, getter=getter)", "return context  # type", "return new # type")
B("C06", COMP, "context = propagator.extract(carrier, context, getter=getter)", "context = propagator.extract(carrier, context)")
B("C06", COMP, "propagator.inject(carrier, context, setter=setter)", "propagator.inject(carrier, setter=setter)")
B("C06", COMP, "propagator.inject(carrier, context, setter=setter)", "propagator.inject(carrier, context, setter=setter)\n            if not carrier:\n                break")
B("C06", COMP, "context = propagator.extract(carrier, context, getter=getter)", "new = propagator.extract(carrier, context, getter=getter)\n            if new:\n                context = new")
B("C06", COMP, "composite_fields.add(field)", "if field not in composite_fields or True and len(field) < 20:\n                    composite_fields.add(field)")
B("C06", COMP, "self._propagators = propagators", "self._propagators = list(set(propagators))")
B("C06", PROPG, "extract(carrier, context, getter=getter)", "extract(carrier, getter=getter)")
B("C06", PROPG, "inject(carrier, context=context, setter=setter)", "inject(carrier, context=context or None, setter=setter)")
Q(COMP, "self._propagators = propagators", "self._propagators = list(propagators)")
Q(COMP, "for propagator in self._propagators:\n            propagator.inject(carrier, context, setter=setter)", "for index in range(len(self._propagators)):\n            self._propagators[index].inject(carrier, context, setter=setter)")
Q(COMP, "for propagator in self._propagators:\n            context = propagator.extract(carrier, context, getter=getter)\n        return context", "current = context\n        for propagator in self._propagators:\n            current = propagator.extract(carrier=carrier, context=current, getter=getter)\n        return current")
Q(COMP, "        composite_fields = set()\n\n        for propagator in self._propagators:\n            for field in propagator.fields:\n                composite_fields.add(field)\n\n        return composite_fields", "        return {field for propagator in self._propagators for field in propagator.fields}")
Q(COMP, "            for field in propagator.fields:\n                composite_fields.add(field)\n", "            composite_fields.update(propagator.fields)\n")
Q(PROPG, "return get_global_textmap().extract(carrier, context, getter=getter)", "textmap_propagator = get_global_textmap()\n    result = textmap_propagator.extract(carrier, context=context, getter=getter)\n    return result")
