prop(
    'C01',
    'Overlapping calls on shared validators and serializers do not affect each other',
    'Calls that overlap in time, on different threads or nested inside a user callback of one another, each behave as '
    'if they ran alone: the result or error, the warnings and the sequence of user callbacks with their arguments are '
    'those of the same call with nothing else running, even when they share the validator, the serializer or the input, '
    'and even when one of them fails part-way.',
    ['schedules', 'fault_sequences', 'inputs'],
    'for every schema, set of calls, interleaving of their user callbacks (threads and re-entrancy) and exceptions '
    'injected into any of them',
    'The test suite calls validators one at a time; interleavings at callback granularity, re-entrant use of the very '
    'validator that is running, and failures in between form a space no list of examples covers.',
    ['src/validators/mod.rs', 'src/input/input_python.rs', 'src/validators/validation_state.rs',
     'src/recursion_guard.rs', 'src/serializers/extra.rs', 'src/validators/function.rs', 'src/definitions.rs'],
    [('per-call state', 'ValidationState / Extra created in SchemaValidator::_validate and SchemaSerializer::to_python'),
     ('per-call recursion guard', 'recursion_guard.rs RecursionState'),
     ('frozen pyclasses, shared parts behind OnceLock/atomics', 'definitions.rs, validators/list.rs'),
     ('handlers carry a copy of the state', 'validators/function.rs, validators/generator.rs InternalValidator')],
    ['SchemaValidator.validate_*, isinstance_python, validate_assignment', 'SchemaSerializer.to_python/to_json',
     'from_json, to_json, to_jsonable_python'],
    technique='deterministic simulation: baton-scheduled client threads and re-entrant calls with injected exceptions, '
    'compared call by call with isolated executions',
    note='Schedules are sampled at user-callback granularity, the only points where the GIL-holding code can be left.',
)

prop(
    'C02',
    'A call depends on its arguments only, not on earlier calls in the process',
    'Whatever calls were made before in the process (successful, failing, aborted by exceptions from user code, hitting '
    'recursion limits or failing first-use imports, or filling any cache), a call gives the result, error, warnings and '
    'user callbacks it gives as the first call of a fresh process with freshly built validators.',
    ['histories', 'fault_sequences', 'inputs'],
    'for every history of calls on any set of schemas with faults injected anywhere in it, and every later call',
    'Tests start from module-level fixtures and check single calls; caches (strings, types, imports, sizes, names, '
    'recursion state) only matter across long and partly failing histories.',
    ['src/serializers/ob_type.rs', 'src/validators/list.rs', 'src/recursion_guard.rs', 'src/validators/with_default.rs',
     'src/validators/uuid.rs', 'src/validators/decimal.rs', 'src/definitions.rs', 'src/lookup_key.rs', 'src/lib.rs',
     'src/validators/datetime.rs', 'src/common/union.rs'],
    [('string cache of the JSON parser', 'lib.rs from_json, validators/mod.rs cache_str'),
     ('type lookup cache', 'serializers/ob_type.rs TYPE_LOOKUP'),
     ('first-use imports', 'with_default.rs COPY_DEEPCOPY, uuid.rs UUID_TYPE, decimal.rs DECIMAL_TYPE'),
     ('lazily computed names and definitions', 'definitions.rs LazyName, validators/definitions.rs'),
     ('size hints', 'serializers (expected_json_size), validators/list.rs'),
     ('guards that undo themselves', 'recursion_guard.rs')],
    ['every public call'],
    technique='deterministic simulation: seeded histories with fault injection, each call compared with the same call '
    'in a pristine forked process',
    note='Failing first-use imports are injected for copy, uuid, time and re during validation.',
)

prop(
    'C03',
    'Whatever user code raises during validation has exactly its documented effect',
    'In validation of Python input, an exception raised by user code (validator functions, default factories, '
    'discriminator functions, post-init hooks, iterated inputs) has exactly its documented effect: ValueError, '
    'AssertionError and the pydantic_core error types become a line error with the location of the failing position '
    'and the raised object; PydanticOmit and PydanticUseDefault omit the item or use the default; anything else reaches '
    'the caller as the very object raised, at once, never swallowed or turned into a validation error by unions, '
    'defaults, custom errors or any other schema around it. Results, errors and the sequence of later user callbacks '
    'with their arguments and info follow.',
    ['fault_sequences', 'inputs'],
    'for every composition of container, union, model, dataclass, default, function and definition schemas, every input '
    'and every position and kind of exception raised by user code',
    'Tests raise a few exceptions in a few schemas; which wrapper treats which exception how, and what runs after it, '
    'is a product of schema shapes, fault kinds and fault positions.',
    ['src/validators/function.rs', 'src/validators/with_default.rs', 'src/validators/union.rs', 'src/errors/line_error.rs',
     'src/input/return_enums.rs', 'src/validators/model.rs', 'src/validators/model_fields.rs',
     'src/validators/typed_dict.rs', 'src/validators/dataclass.rs', 'src/validators/custom_error.rs',
     'src/validators/lax_or_strict.rs', 'src/errors/types.rs'],
    [('classification of exceptions', 'validators/function.rs convert_err, errors/line_error.rs ValError'),
     ('collection of line errors and their locations', 'input/return_enums.rs, with_outer_location'),
     ('omit and use-default signals', 'validators/with_default.rs, ValError::Omit / UseDefault')],
    ['SchemaValidator.validate_python, with and without self_instance'],
    technique='deterministic simulation: exceptions injected at every kind of user callback, compared with an '
    'independent executable reference model (sim/refval.py)',
    note='Leaf coercions are taken from the same leaf schema validated alone; mappings, attribute objects, alias '
    'paths, arguments schemas and JSON input are outside the reference model.',
)

prop(
    'C04',
    'Instances change only by completed initialisations and assignments',
    'validate_assignment and validation with self_instance change an instance only when they get as far as they are '
    'specified to: when a validator or user function inside the model or dataclass fails or raises, every attribute, '
    'extra and the fields-set keep their old values (the same objects); user code running meanwhile never sees a '
    'half-made instance; on success exactly the assigned attribute changes (others stay the same objects), the name is '
    'added to the fields-set, and the instance itself is returned.',
    ['fault_sequences', 'histories', 'inputs'],
    'for every model, root model and dataclass schema, every history of initialisations and assignments on an instance '
    'and exceptions injected at any callback of it',
    'Tests assign once, to fresh instances, and look at the instance after a failure in a handful of cases; atomicity '
    'is about every failure point of every step of a history.',
    ['src/validators/model.rs', 'src/validators/model_fields.rs', 'src/validators/dataclass.rs',
     'src/validators/function.rs', 'src/validators/mod.rs'],
    [('validated copy first, then one assignment of __dict__', 'validators/model.rs validate_assignment, '
      'set_model_attrs; dataclass.rs set_dict_call'),
     ('fields-set update', 'validators/model.rs')],
    ['SchemaValidator.validate_assignment', 'SchemaValidator.validate_python(self_instance=...)',
     'the state of the instance at every user callback'],
    technique='deterministic simulation: histories of initialisations and assignments with exceptions injected at '
    'callbacks, the instance compared at every callback with an independent reference model',
    note='Functions around (outside) the model run after the instance has changed, as specified. Overlapping '
    'assignments to one instance are excluded.',
)

prop(
    'C05',
    "Calls leave the caller's objects alone and hand out fresh containers",
    'No validation, serialization or error call changes a container or instance the caller owns (input, context, '
    'include/exclude, the schema and its defaults) at any moment user code can look, whatever fails meanwhile - except '
    'validate_assignment and self_instance, on their instance. Whatever the library makes for a result or error it hands '
    'out once: no two calls share anything mutable which the caller did not supply (mutable defaults are copied), and '
    'changing a result changes no later one. A result shares with the input exactly what its schema passes through as '
    'it is (any, instances not revalidated, the values of unknown fields); a revalidated instance shares neither its '
    'attributes, its extras nor its fields-set with the original.',
    ['histories', 'fault_sequences', 'inputs'],
    'for every schema, input, repetition of a call, point at which user code looks or raises, and change made to an '
    'earlier result',
    'A test sees that the result is right, rarely that the input is untouched when a validator fails halfway, or that '
    'the second call does not return a container of the first.',
    ['src/validators/with_default.rs', 'src/validators/model.rs', 'src/validators/model_fields.rs',
     'src/validators/typed_dict.rs', 'src/validators/dataclass.rs', 'src/input/return_enums.rs',
     'src/serializers/fields.rs', 'src/serializers/infer.rs', 'src/serializers/type_serializers',
     'src/errors/line_error.rs'],
    [('copies of defaults', 'validators/with_default.rs copy_default'),
     ('the parts of a revalidated instance', 'validators/model.rs validate, validate_construct'),
     ('containers of serialization', 'serializers/infer.rs, type_serializers/dict.rs, list.rs, fields.rs')],
    ['identities and contents of all containers and instances of the caller at every callback and after every call',
     'identities of the containers in results and errors', 'third repetitions after the first result was changed'],
    technique='deterministic simulation: repeated calls with exceptions injected at callbacks; contents and identities '
    'of every container observed at every callback, compared with ownership records and the reference interpreters',
    note='Iterators are consumed by design. Alias paths are compared where the reference interpreters cover the schema.',
)

prop(
    'C07',
    'Lazy streams yield every item once, in order, validated or serialized on demand',
    'The iterator from validating an iterable or JSON array with a generator schema, and the one from python-mode '
    'serialization of an iterator, is a faithful lazy stream: creating it pulls nothing; each step pulls one source item '
    '(serialization: until the first that include/exclude keeps) and yields it as a stand-alone validator/serializer of '
    'items_schema with the same arguments would, errors located by the item index; a failing item or source loses, '
    'repeats or skips nothing; min_length and max_length are enforced as the stream runs; warnings belong to the step '
    'that caused them. Streams consumed interleaved, or outliving their validator or serializer, do not interact.',
    ['schedules', 'fault_sequences', 'histories', 'inputs'],
    'for every items schema, source, consumption pattern, interleaving of several consumers and exceptions injected '
    'into sources and item code',
    'Tests drain a few generators from start to end; failures in the middle, interleaving, early drops of the '
    'validator and exact laziness are properties of histories.',
    ['src/validators/generator.rs', 'src/serializers/type_serializers/generator.rs', 'src/input/return_enums.rs',
     'src/serializers/extra.rs', 'src/serializers/filter.rs'],
    [('index and limits', 'validators/generator.rs ValidatorIterator::__next__'),
     ('state carried to the items', 'validators/generator.rs InternalValidator, serializers/extra.rs ExtraOwned'),
     ('filters by index', 'serializers/filter.rs index_filter')],
    ['next() and .index of ValidatorIterator and SerializationIterator', 'pulls on the source', 'warnings'],
    technique='deterministic simulation: interleaved consumers with faults in sources and item code, every step '
    'compared with an executable model of a stream',
    note='The wording of error messages of streams over JSON arrays is not compared.',
)

prop(
    'C08',
    'A handler equals its wrapped validator or serializer, whenever it is called',
    'Calling the handler a wrap validator or wrap serializer function receives gives the result, error (prefixed by '
    'outer_location), warnings and user callbacks that a stand-alone SchemaValidator / SchemaSerializer of the wrapped '
    'schema gives for the same value with the arguments of the call the handler belongs to (strict, from_attributes, '
    'context, by_alias, by_name; mode, include/exclude, exclude_*, round_trip, fallback, ...). This holds during that '
    'call, after it has returned, from other threads, nested in user code running inside the same handler, after the '
    'validator or serializer was dropped and collected, and after earlier handler calls that failed.',
    ['schedules', 'fault_sequences', 'histories', 'inputs'],
    'for every wrapped schema, arguments, history and interleaving of handler calls and exceptions injected into them',
    'Tests call the handler once, inside its function, mostly with default arguments; which state it carries and what '
    'an earlier, overlapping or late call does to it are questions about histories.',
    ['src/validators/function.rs', 'src/validators/generator.rs', 'src/serializers/type_serializers/function.rs',
     'src/serializers/extra.rs', 'src/validators/validation_state.rs', 'src/recursion_guard.rs',
     'src/definitions.rs'],
    [('state carried by the handler', 'validators/generator.rs InternalValidator, serializers/extra.rs ExtraOwned'),
     ('the handler', 'validators/function.rs ValidatorCallable, serializers/type_serializers/function.rs '
      'SerializationCallable'),
     ('definitions kept alive', 'definitions.rs')],
    ['handler(value[, outer_location])', 'warnings'],
    technique='deterministic simulation: histories of kept handlers called re-entrantly, late and from scheduled '
    'threads with injected exceptions, each call compared with a stand-alone validator or serializer',
    note='serialize_as_any is left out for serialization handlers; include/exclude are compared for handlers at the '
    'top of the value only.',
)

prop(
    'C06',
    'Nothing user code or data does makes a call panic, crash or hang',
    'Whatever the data passed in does (special methods or attributes that raise, return nonsense or run other code; '
    'containers changed while the library is reading them; subclasses of builtin types; incomplete instances) and '
    'whatever user callbacks do (raise anything, return anything, change the input, call the library again, drop the '
    'validator), a validation or serialization call on a valid schema ends with a result or with an ordinary Python '
    'exception, and so does inspecting that result or error: never a PanicException, a SystemError, an endless loop '
    'or the death of the process.',
    ['fault_sequences', 'inputs', 'histories'],
    'for every valid schema, every operation, and every behaviour of the objects and callbacks involved',
    'Tests pass well-behaved data; each place where the library trusts a length, an iterator, a dict or a borrowed '
    'object can be invalidated by user code running in the middle of the call, in combinations nobody lists.',
    ['src/input/input_python.rs', 'src/input/return_enums.rs', 'src/input/input_string.rs', 'src/tools.rs',
     'src/serializers/infer.rs', 'src/serializers/filter.rs', 'src/serializers/fields.rs', 'src/validators/generator.rs',
     'src/validators/arguments.rs', 'src/validators/arguments_v3.rs', 'src/validators/with_default.rs',
     'src/errors/line_error.rs', 'src/errors/validation_exception.rs', 'src/lookup_key.rs'],
    [('checked iteration over dicts', 'tools.rs checked_dict_iter'),
     ('conversions of Python objects checked instead of unwrapped', 'input_python.rs, arguments_v3.rs'),
     ('representations that cannot fail', 'tools.rs safe_repr')],
    ['every public call', 'ValidationError, Url, ArgsKwargs, Some accessors'],
    technique='deterministic simulation: every object and callback is a fault injector driven by the seed; crash, '
    'panic, SystemError and step-bound oracles over forked runs',
    note='Allocation failure and unbounded recursion of the hostile code itself are excluded.',
)

prop(
    'C16',
    'A validator or serializer is the same however it came to be',
    'Validators and serializers built from a schema, built again from the same schema objects, copied, deep-copied, or '
    'pickled at any time (after calls, failures, several times) and restored in a new process after a crash give, for every '
    'call, the same result, error, warnings and user callbacks. Using the complete validator or serializer of a class '
    '(__pydantic_validator__, __pydantic_serializer__) for a model or dataclass inside another schema changes nothing '
    'either, at any position and for assignments too. ValidationErrors, custom and known errors and results which were '
    'pickled are restored equal in everything they show: title, count, error list, text and JSON.',
    ['crash_points', 'histories', 'fault_sequences', 'inputs'],
    'for every schema that can be pickled, protocol, moment of pickling, crash point, number of generations, order of '
    'construction, and every later call',
    'Tests restore a handful of validators made a moment ago in the same process and make one call.',
    ['src/validators/mod.rs', 'src/serializers/mod.rs', 'src/validators/prebuilt.rs', 'src/serializers/prebuilt.rs',
     'src/common/prebuilt.rs', 'src/errors/validation_exception.rs', 'src/url.rs', 'src/input/datetime.rs',
     'src/argument_markers.rs'],
    [('what a pickle is made of', 'SchemaValidator.__reduce__, SchemaSerializer.__reduce__, ValidationError.__reduce__'),
     ('when a prebuilt one may be used', 'common/prebuilt.rs get_prebuilt, PrebuiltValidator, PrebuiltSerializer')],
    ['reports of the operations before and after the crash', 'everything restored objects show'],
    technique='deterministic simulation: histories with crash and restart from pickles alone, with injected exceptions, '
    'compared with the history on freshly built validators',
    note='Functions and classes are restored by reference, as pickle does with importable ones. PrebuiltSerializer is by '
    'design not used for classes with wrap functions, PrebuiltValidator not for wrap and after functions.',
)

prop(
    'C17',
    "to_json and to_python(mode='json') are one serialization, faults included",
    "SchemaSerializer.to_json writes exactly the value which to_python(mode='json') returns for the same value and "
    'arguments (up to JSON having no word for NaN and infinities); so do the module functions to_json and '
    'to_jsonable_python. Both call the same user code (function serializers, computed properties, fallbacks, iterators) '
    'in the same order with the same arguments and info, issue the same warnings, and when user code raises, both '
    'fail, with the same reason, or both carry on. Excepted: json-or-python schemas, which choose by the target format.',
    ['inputs', 'fault_sequences'],
    'for every schema, value (fitting it or not), combination of serialization arguments and exceptions injected into '
    'user callbacks',
    'The two paths are written twice for every serializer (to_python and serde_serialize); tests compare a few values '
    'of each type, but not their combinations with filters, function serializers, warnings and failing user code.',
    ['src/serializers/fields.rs', 'src/serializers/computed_fields.rs', 'src/serializers/infer.rs',
     'src/serializers/type_serializers/function.rs', 'src/serializers/type_serializers/model.rs',
     'src/serializers/type_serializers/dict.rs', 'src/serializers/type_serializers/generator.rs',
     'src/serializers/mod.rs', 'src/serializers/errors.rs'],
    [('to_python and serde_serialize of each serializer', 'serializers/type_serializers/*'),
     ('inference for values without a schema', 'infer.rs infer_to_python_known, infer_serialize_known'),
     ('errors carried through serde', 'errors.rs py_err_se_err, se_err_py_err'),
     ('warnings', 'extra.rs CollectWarnings on_fallback_py, on_fallback_ser')],
    ['SchemaSerializer.to_json, to_python(mode=json)', 'to_json, to_jsonable_python', 'user callbacks, warnings'],
    technique='deterministic simulation: each serialization is run twice in pristine worlds, once per path, with the '
    'same exceptions injected at the same user callbacks, and the traces are compared',
    note='The warnings of unions are compared as a multiset; invalid UTF-8 in bytes is only checked to fail in both.',
)

prop(
    'C15',
    'Failures and mismatches in serialization surface exactly as documented',
    'A value which does not fit its schema is serialized by what it is and reported exactly once: as one warning naming '
    "the value's type with warnings=True or 'warn', as a PydanticSerializationError with the same text with 'error', "
    "not at all with False or 'none'; inside a union it makes the next choice be tried instead. "
    'PydanticSerializationUnexpectedValue raised by a function serializer is such a mismatch; PydanticSerializationError '
    'is raised again with its text; any other exception of a function serializer becomes PydanticSerializationError '
    '"Error calling function `name`: Type: message" with the raised object as __cause__; exceptions of fallbacks, '
    'computed properties and default factories reach the caller as they are. User functions are called in document '
    'order, as often as when_used and the union rules say, with the documented arguments and info, and the result is '
    "built from what they return. include and exclude (with '__all__', negative indices and the schema's own sets) leave "
    'out exactly the parts they name: user code does not see those, a part left out is no mismatch, and every user '
    'function is told the filters left for its own value. Scope: to_python in both modes, with every argument but '
    'serialize_as_any.',
    ['inputs', 'fault_sequences'],
    'for every schema, value (fitting it or not), combination of serialization arguments and exceptions injected into '
    'user callbacks',
    'Which exception comes out, with which cause, how often a mismatch is reported and which union choice is taken '
    'depend on where in a nested schema the failure happens and on what was tried before; tests raise one exception in '
    'one place of a flat schema.',
    ['src/serializers/type_serializers/function.rs', 'src/serializers/extra.rs', 'src/serializers/errors.rs',
     'src/serializers/type_serializers/union.rs', 'src/serializers/fields.rs', 'src/serializers/computed_fields.rs',
     'src/serializers/infer.rs', 'src/serializers/type_serializers/model.rs',
     'src/serializers/type_serializers/dataclass.rs'],
    [('exceptions of function serializers', 'function.rs on_error'),
     ('warnings collected, reported or raised', 'extra.rs CollectWarnings'),
     ('strict and lax passes over union choices', 'union.rs union_serialize, tagged_union_serialize'),
     ('required fields and unexpected fields', 'fields.rs main_to_python'),
     ('values without a fitting schema', 'infer.rs infer_to_python_known')],
    ['SchemaSerializer.to_python', 'user callbacks with arguments and info', 'warnings', 'exceptions with __cause__'],
    technique='deterministic simulation: each serialization is run in a pristine world with exceptions injected at '
    'chosen user callbacks, and again by an independent reference interpreter (sim/refser.py) with the same faults; '
    'results, exceptions and traces are compared',
    note='Leaves are taken from the same leaf serialized alone; names of schemas in messages are wording.',
)

prop(
    'C09',
    'Past, future and time zone constraints follow the clock and zone of the moment',
    'A date or datetime constrained to the past or future is compared with the clock as it stands while that very value is '
    'checked, not when the validator was built, the call began or another value was checked: past means strictly before '
    'that moment, future strictly after. Today is the date at now_utc_offset, or at the local offset of that moment if '
    'none is given; datetimes with an offset are compared as instants, those without by the wall clock at that offset. '
    'Bounds (le, lt, ge, gt) and tz_constraint (naive, aware, a given offset to the second) do not depend on the clock. '
    'This holds for every entry point and position (lists, models, assignments, defaults, lazily validated generators, '
    'repeated handler calls), however the clock jumps forward or back, stands still or runs and the local zone changes.',
    ['histories', 'schedules', 'inputs'],
    'for every schema, value, sequence of clock jumps and zone changes between and within calls, and order of building '
    'and calling',
    'Tests compare with the real clock and values days away; the boundary (the same microsecond, midnight at an offset, '
    'a change to summer time) and clocks which move within a call or go back cannot be met by waiting.',
    ['src/validators/date.rs', 'src/validators/datetime.rs', 'src/input/datetime.rs', 'src/validators/generator.rs',
     'src/validators/with_default.rs'],
    [('the clock read for each value', 'DateTime::now, Date::today in DateTimeValidator and DateValidator::validate'),
     ('the local offset read for each value', 'validators/datetime.rs NowConstraint::utc_offset'),
     ('comparison across offsets', 'speedate DateTime::partial_cmp, TZConstraint::tz_check')],
    ['outcome of each value, in each position', 'error types, locations and offsets'],
    technique='deterministic simulation: simulated clock and time zone (LD_PRELOAD seam) with seeded jumps, ticks and zone '
    'changes between and inside calls, compared with a reference for the moments the clock showed',
    note='The clock stays between 1970 and 2255. Where the clock runs while one value is checked, any moment it showed '
    'meanwhile is accepted.',
)

prop(
    'C10',
    'A stream cut off anywhere validates to what had arrived by then',
    'A JSON text cut off at any point is, with allow_partial, read as the complete elements which had arrived, without the '
    'incomplete last one (with trailing-strings, an incomplete last string counts as far as it had arrived); without it, '
    'the text is rejected as incomplete. Validating the cut text calls the same user code and gives the same result or error '
    'as validating the complete text of what had arrived, whatever user code raises. In partial validation only the last '
    'part of a value may be left out for failing: the last item of a list, set or frozenset, the last value of a dict, the '
    'last key of a typed dict unless required, and so on inward through what passes the mode on; everywhere else, in '
    'tuples, models, arguments, handlers, definitions, keys and defaults, errors count as usual, and so do exceptions '
    'which are no validation failures. What one union choice or step did never changes what is partial for the next.',
    ['crash_points', 'fault_sequences', 'inputs'],
    'for every schema, JSON text, point of truncation, mode, and exceptions injected into user callbacks',
    'Tests cut a handful of texts for a handful of schemas; every combination of where the stream ends, how deep, in '
    'which container and which validators were tried before is its own case.',
    ['src/validators/validation_state.rs', 'src/input/return_enums.rs', 'src/validators/dict.rs',
     'src/validators/typed_dict.rs', 'src/validators/union.rs', 'src/validators/json.rs', 'src/validators/mod.rs',
     'src/lib.rs', 'src/validators/lax_or_strict.rs', 'src/validators/chain.rs', 'src/validators/with_default.rs'],
    [('which part is the last', 'validation_state.rs EnumerateLastPartial, typed_dict.rs partial_last_key'),
     ('where the mode is switched off', 'allow_partial = false in tuple, model-fields, dataclass, arguments, definitions'),
     ('reading', 'jiter parse_with_config with the mode, in validators/mod.rs, json.rs and lib.rs from_json')],
    ['from_json, validate_json, validate_python with allow_partial: results, errors, callbacks'],
    technique='deterministic simulation: streams torn at seeded points with injected exceptions, compared with an '
    'independent scanner and reference interpreter',
    note='The text before the cut is valid JSON. With trailing-strings the cut is between characters.',
)

prop(
    'C11',
    'Recursive schemas terminate on every input, and only cycles and depth stop them',
    'Validating or serializing with recursive definitions ends for every input, whatever objects it shares or refers back '
    'to. An object met again inside of itself at the same definition is a recursion_loop error at that place of the input '
    '(validation), "Circular reference detected (id repeated)" (serialization), or is returned as it is (inference in '
    'python mode); so is nesting of definitions beyond one fixed limit ("depth exceeded"). Nothing else is: an object '
    'which merely occurs in several places, or again after an earlier branch, union choice, handler call or failing '
    'callback is over, is processed like a fresh one, and chains up to the limit are processed in full, results, '
    'error locations and user calls included.',
    ['inputs', 'fault_sequences'],
    'for every set of mutually recursive definitions, object graph and exceptions injected into user callbacks',
    'The recursion state must be entered and left in step on every path, also through errors, omitted items, retried '
    'union choices, wrap handlers and definitions referring to each other; tests use one cycle in one schema, and never '
    'the same object after a failure, nor depths around the internal limits (16 entries kept in an array, the depth limit).',
    ['src/recursion_guard.rs', 'src/validators/definitions.rs', 'src/serializers/type_serializers/definitions.rs',
     'src/serializers/infer.rs', 'src/serializers/extra.rs', 'src/validators/function.rs', 'src/definitions.rs'],
    [('entries of the guard', 'recursion_guard.rs RecursionGuard::new, Drop, RecursionStack'),
     ('references in validation', 'validators/definitions.rs DefinitionRefValidator'),
     ('references in serialization', 'serializers/type_serializers/definitions.rs'),
     ('inferred objects', 'infer.rs infer_to_python_known'),
     ('state handed to handlers', 'recursion_guard.rs RecursionSnapshot')],
    ['SchemaValidator.validate_python', 'SchemaSerializer.to_python', 'user callbacks'],
    technique='deterministic simulation: object graphs (shared, cyclic, as deep as the limit, endless) are validated or '
    'serialized with exceptions injected at chosen callbacks, and again by independent reference interpreters with the '
    'same faults and a recursion state of their own',
    note='The limit itself may be any number up to 1000; it is measured. Cases which need more than 6000 steps are left out.',
)

prop(
    'C13',
    'Nothing outlives its use: memory is conserved, cycles are collected',
    'Whatever a call creates or borrows (inputs, contexts, intermediate and final results, exceptions, what user code '
    'returned) is released once the caller has dropped its outcome, however the call ended: repeating a call makes '
    'nothing grow. Validators, serializers, the iterators, handlers and info objects they hand out, ValidationError and '
    'the other exceptions and marker objects of the library take part in cyclic garbage collection: a cycle through '
    'them, by way of any Python object in their schema or state, is reclaimed when nothing else refers to it. The '
    'collector may run at any point of any call without changing what happens. Bounded caches (strings, types, names) '
    'are excepted.',
    ['histories', 'schedules', 'fault_sequences', 'inputs'],
    'for every schema with user objects anywhere in it, every history of calls, however they end, and every moment at '
    'which the collector runs',
    'A leak or a missed reference shows neither in results nor in errors; tests check a handful of schemas for '
    'collection, never the exceptions, and never run the collector in the middle of a call.',
    ['src/py_gc.rs', 'src/validators/mod.rs', 'src/serializers/mod.rs', 'src/validators/function.rs',
     'src/validators/generator.rs', 'src/serializers/type_serializers/function.rs',
     'src/serializers/type_serializers/generator.rs', 'src/errors/validation_exception.rs',
     'src/errors/value_exception.rs', 'src/definitions.rs', 'src/argument_markers.rs'],
    [('traversal', 'py_gc.rs PyGcTraverse, impl_py_gc_traverse! of every validator and serializer, __traverse__ of '
      'every class'),
     ('shared definitions and weak references', 'definitions.rs'),
     ('handlers and iterators which keep their validator', 'validators/function.rs, validators/generator.rs')],
    ['objects known to the collector, blocks of CPython\'s allocator, live allocations of malloc', 'every public call'],
    technique='deterministic simulation: seeded histories of calls with injected exceptions and the collector run at '
    'chosen callbacks, repeated in one process and as whole worlds which are dropped; conservation counted exactly '
    'through the interpreter and a malloc seam',
    note='Growth counts when it shows in every one of several repetitions, so caches which fill up are not mistaken '
    'for leaks.',
)

PURE = (
    'A pure function of its arguments: no callback, schedule, clock, I/O, history or fault can change the outcome, so a '
    'simulator has nothing to decide and seeded inputs alone would be property-based testing under another name. '
)

prop(
    'C18',
    'Scalars are accepted, coerced and rejected as the conversion table says',
    'Every scalar validator accepts, converts and rejects exactly what the conversion table says for strict, lax, Python, '
    'JSON and string input; an accepted value has exactly the value written (no rounding, truncation or overflow), and '
    'constraints are decided on that value.',
    ['inputs', 'configurations'],
    'for every scalar input, mode and constraint',
    'Numbers, strings, bytes, UUIDs, URLs, dates and durations form unbounded sets; tests hold tables of examples.',
    ['src/input/shared.rs', 'src/input/input_python.rs', 'src/input/input_json.rs', 'src/input/input_string.rs',
     'src/input/datetime.rs', 'src/validators/int.rs', 'src/validators/float.rs', 'src/validators/decimal.rs',
     'src/validators/string.rs', 'src/validators/url.rs', 'src/validators/uuid.rs'],
    [('scalar extraction per input kind', 'input/input_*.rs'), ('number parsing', 'input/shared.rs and jiter')],
    ['SchemaValidator.validate_python, validate_json, validate_strings'],
    na=PURE + 'What user objects (__index__, __float__, subclasses, tzinfo) can do during a conversion is decided by '
    'C02, C05 and C06, the clock by C09.',
)

prop(
    'C19',
    'JSON written by the library reads back as the value it was written from',
    'Whatever to_json writes is one valid UTF-8 JSON text which every conforming parser reads as the same value, and '
    'from_json reads every valid JSON text as the value it denotes and rejects every other text with the position of '
    'the first offence.',
    ['inputs', 'configurations'],
    'for every value and every byte string',
    'Both sets are unbounded; tests hold examples.',
    ['src/serializers/ser.rs', 'src/serializers/infer.rs', 'src/lib.rs', 'src/input/input_json.rs'],
    [('JSON writer', 'serializers/ser.rs, serde_json'), ('JSON reader', 'jiter')],
    ['to_json, from_json, SchemaSerializer.to_json, SchemaValidator.validate_json'],
    na=PURE + 'The torn-stream side of reading is decided by C10, the agreement of the two serializers by C17.',
)

prop(
    'C20',
    'A union takes the best matching choice by the published rules',
    'A smart union returns the result of the choice with the best match (exact before strict before lax, then most '
    'fields set, then first), a left-to-right union that of the first which validates, a tagged union that of the tag, '
    'and nested unions agree with the flat one.',
    ['inputs', 'programs'],
    'for every union schema and input',
    'The rule quantifies over all pairs of schema and input; tests list examples.',
    ['src/validators/union.rs', 'src/validators/validation_state.rs', 'src/common/union.rs'],
    [('exactness and field counts', 'validators/validation_state.rs'), ('choice', 'validators/union.rs')],
    ['SchemaValidator.validate_*'],
    na=PURE + 'What failing or raising choices do to the others is decided by C03 and C10 (reference validator), and '
    'the choice of the serializer after a mismatch by C15.',
)

prop(
    'C21',
    'include, exclude and the exclude_* switches select exactly the stated parts',
    'Serialization emits a field, item or key if and only if include, exclude, exclude_unset, exclude_defaults, '
    'exclude_none and serialization_exclude select it at its path, under its name or alias as by_alias says.',
    ['inputs', 'configurations'],
    'for every value, schema and selection',
    'Selections nest arbitrarily and combine; tests list examples.',
    ['src/serializers/filter.rs', 'src/serializers/fields.rs', 'src/serializers/computed_fields.rs'],
    [('filters', 'serializers/filter.rs'), ('field switches', 'serializers/fields.rs')],
    ['SchemaSerializer.to_python, to_json'],
    na=PURE + 'That both serializations select alike is decided by C17, per step of a stream by C07, through handlers by '
    'C08, and the exclude_* switches under faults by C15.',
)

prop(
    'C22',
    'Aliases find the value they describe and nothing else',
    'A field is filled from the first of its aliases, paths and name (as by_alias, by_name and the config allow) which '
    'is present in the input, error locations name the one looked for, and what no field took is handled by the extra '
    'behaviour.',
    ['inputs', 'programs', 'configurations'],
    'for every set of fields, aliases and inputs',
    'Alias choices, paths and extras combine freely; tests list examples.',
    ['src/lookup_key.rs', 'src/validators/model_fields.rs', 'src/validators/typed_dict.rs',
     'src/validators/dataclass.rs', 'src/validators/arguments.rs'],
    [('lookup', 'lookup_key.rs'), ('extra handling', 'validators/model_fields.rs')],
    ['SchemaValidator.validate_*'],
    na=PURE + 'Mappings and attribute objects which raise or change during the lookup are covered by C05 and C06.',
)

prop(
    'C23',
    'Errors are rendered completely and truthfully in every form',
    'str, errors(), json() and their switches of a ValidationError show every line error with its type, location, '
    'message built from its context, and input, consistently with one another, whatever the values are.',
    ['inputs', 'configurations'],
    'for every list of line errors',
    'Types, contexts, locations and inputs combine freely; tests show examples of each.',
    ['src/errors/types.rs', 'src/errors/validation_exception.rs', 'src/errors/line_error.rs',
     'src/errors/location.rs'],
    [('error types and templates', 'errors/types.rs'), ('rendering', 'errors/validation_exception.rs')],
    ['ValidationError'],
    na=PURE + 'Inputs whose repr or str fails while an error is rendered are covered by C06, pickled errors by C16.',
)

prop(
    'C24',
    'Every schema is either built or refused with SchemaError, and means what it says',
    'Building a validator or serializer from any Python value either succeeds or raises SchemaError, never panics, and '
    'settings on a schema override those of the nearest config.',
    ['programs', 'configurations'],
    'for every schema and config',
    'Schemas are an unbounded language; tests build examples.',
    ['src/validators/mod.rs', 'src/serializers/shared.rs', 'src/build_tools.rs', 'src/definitions.rs'],
    [('schema validation', 'validators/mod.rs SelfValidator'), ('config lookup', 'build_tools.rs')],
    ['SchemaValidator(), SchemaSerializer()'],
    na=PURE + 'Which definitions are shared and when they are filled is exercised by C11 and C16.',
)
