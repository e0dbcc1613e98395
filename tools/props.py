#!/usr/bin/env python3
"""Writes properties.jsonl (the list of properties lives here)."""
import json
import os

P = []


def prop(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [
                  {'name': n, 'where': w} for n, w in mech]}})


prop('C01', 'A fork is isolated from its origin and from other forks',
     'Registering a serializer, deserializer or validator, announcing a class or suppressing warnings on one fork changes that fork only: its origin and every fork made before are unaffected. A new fork starts with everything its origin has at that moment - (de)serializers with their order, validators, announced classes and warning suppressions - and later changes on either side do not reach the other.',
     ['histories', 'configurations'], 'every sequence of fork and registration calls on any forks',
     'Tests fork once and look at one setting; sharing of any one container shows only for particular histories of registrations on parent and child.',
     ['jsons/_fork_impl.py', 'jsons/_common_impl.py', 'jsons/_lizers_impl.py', 'jsons/_validation.py', 'jsons/_extra_impl.py'],
     [('fork copies each container', 'jsons/_fork_impl.py:fork'), ('state holder', 'jsons/_common_impl.py:StateHolder'), ('registration writes to the given fork', 'jsons/_lizers_impl.py')])

prop('C02', 'The chosen fork governs all work done for a call',
     'Everything dumped, loaded, validated or warned about on behalf of a call uses the fork given to that call, at every depth: container elements, dict keys and values, attributes, tuple and union members, elements handled by parallel tasks and the values special types are built from. No part silently falls back to the default settings.',
     ['inputs', 'configurations'], 'every value, type hint, option combination and fork',
     'Tests use forks on flat objects; a nested path that loses the fork only shows with a custom registration on that fork and a value of that very shape.',
     ['jsons/_dump_impl.py', 'jsons/_load_impl.py', 'jsons/serializers', 'jsons/deserializers', 'jsons/_multitasking.py'],
     [('fork travels in the options', 'jsons/_dump_impl.py:dump, jsons/_load_impl.py:load'), ('each default (de)serializer hands it on', 'jsons/serializers/*.py, jsons/deserializers/*.py')])

prop('C03', 'Dump options reach every nested value',
     'An option given to a dump (strict, key transformer, strip_nulls, strip_privates, strip_properties, strip_class_variables, strip_attr, verbose, strip_microseconds, use_enum_name, or an option only a custom serializer knows) reaches the serializer of every nested value unchanged, whatever containers and objects lie in between. Exempt are the number and type of tasks, the types of a dict\'s own keys, and a type given for the whole value, which must not be applied to its parts.',
     ['inputs', 'configurations'], 'every nesting of lists, tuples, dicts, iterables, objects, unions and special types, and every option',
     'The product of options and nesting shapes is unbounded; tests cover a few pairs.',
     ['jsons/_dump_impl.py', 'jsons/serializers'],
     [('keyword forwarding', 'jsons/serializers/*.py'), ('dump', 'jsons/_dump_impl.py:dump')])

prop('C04', 'Load options reach every nested value',
     'An option given to a load (strict, key transformer, use_enum_name, attribute getters, warn_on_fail for what lies in attributes, or an option only a custom deserializer knows) reaches the deserializer of every nested value unchanged, whatever containers and objects lie in between. Exempt are the number and type of tasks, warn_on_fail for the elements of a list itself, the key transformer for dict keys (already applied) and for the fixed keys of complex numbers, and attribute getters for the object that consumes them.',
     ['inputs', 'configurations'], 'every nesting of lists, tuples, dicts, iterables, objects, unions and special types, and every option',
     'The product of options and nesting shapes is unbounded; tests cover a few pairs.',
     ['jsons/_load_impl.py', 'jsons/deserializers'],
     [('keyword forwarding', 'jsons/deserializers/*.py'), ('load', 'jsons/_load_impl.py:load')])

prop('C05', 'Registrations take effect at once; nothing cached goes stale',
     'After a serializer, deserializer or validator is registered on a fork, every later lookup, dump, load or validation on that fork uses it, no matter which lookups were made before. Results the library remembers between calls are never modified by later calls, and remembering never replaces an effect such as announcing a class or a warning.',
     ['histories'], 'every history of lookups, dumps, loads, validations and registrations',
     'Each test starts from few lookups; a stale or corrupted remembered result shows only after particular earlier calls.',
     ['jsons/_cache.py', 'jsons/_lizers_impl.py', 'jsons/_validation.py', 'jsons/_extra_impl.py', 'jsons/_compatibility_impl.py', 'jsons/serializers/default_object.py'],
     [('cache decorator and clear', 'jsons/_cache.py'), ('registration clears', 'jsons/_lizers_impl.py:set_serializer, set_deserializer; jsons/_validation.py:set_validator')])

prop('C06', 'Dumping and loading never modify the given value or options',
     'No dump or load changes the object, the JSON value, or any container given as an option (types, strip_attr, attribute getters, json options): after the call, successful or not, they compare equal to what they were, so the same value can be dumped or loaded again with the same result.',
     ['inputs', 'histories'], 'every value, type hint and option, and any number of repetitions',
     'Tests look at results, rarely at the input afterwards, and almost never load the same value twice.',
     ['jsons/_load_impl.py', 'jsons/_dump_impl.py', 'jsons/serializers', 'jsons/deserializers', 'jsons/_multitasking.py'],
     [('copies are made before changing', 'jsons/deserializers/default_dict.py, jsons/deserializers/default_object.py')])

prop('C07', 'Failures surface only as the library\'s errors, with their cause',
     'Whatever goes wrong while a value is dumped or loaded - in the library, in a user\'s class, (de)serializer or validator, or in parsing text - the caller of dump, load or loads gets one of the library\'s exceptions, whose chain leads to the original error. Exits that are not ordinary errors (KeyboardInterrupt, SystemExit) pass through untouched.',
     ['inputs', 'fault_sequences'], 'every input and every exception raised by user code or the library at any point of a dump or load to a type',
     'Tests provoke a handful of failures; any other exception at any other point must be wrapped as well.',
     ['jsons/_load_impl.py', 'jsons/_dump_impl.py', 'jsons/exceptions.py'],
     [('wrapping of failures', 'jsons/_load_impl.py:load, _do_load, loads; jsons/_dump_impl.py:_do_dump')])

prop('C08', 'A failing part loses only itself, and never silently',
     'In a non-strict dump of an object, an attribute that cannot be serialized is left out with a warning that names it, while all other attributes are dumped; in a strict dump the failure is raised. In a load of a list, an element that cannot be deserialized raises an error that names its index, unless warn_on_fail is given: then exactly that element is left out, with a warning.',
     ['inputs', 'fault_sequences'], 'every object or list, every position of the failing part and any number of failures',
     'Tests fail one part of one object; what must hold is independence of the position and the number of failures.',
     ['jsons/serializers/default_object.py', 'jsons/deserializers/default_list.py'],
     [('per attribute handler', 'jsons/serializers/default_object.py:_do_serialize'), ('per element handler', 'jsons/deserializers/default_list.py')])

prop('C09', 'Every loaded value passes the validator of its type',
     'A load returns a value only after the validator registered for the type it was loaded into, on the fork in use, has accepted that very value - also values taken over as they are and values nested in others. A validator that returns a false value or raises leads to a validation error, never to a returned value.',
     ['inputs', 'configurations'], 'every value and type, every path through a load, every validator',
     'Tests validate one class; a path of load that returns before validating shows only for values that take it.',
     ['jsons/_load_impl.py', 'jsons/_validation.py'],
     [('validate before return', 'jsons/_load_impl.py:load, _do_load'), ('validate', 'jsons/_validation.py:validate')])

prop('C10', 'None is loaded only where the target type admits it',
     'Loading None succeeds only if the target is absent, Any, object, the None type, or a union that has None among its members; in every other case a deserialization error is raised before any deserializer runs. A missing or null field or constructor parameter becomes None only under the same condition, and is not refused where its type is one that admits None.',
     ['inputs', 'programs'], 'every target type and every place where None can occur',
     'The set of types is unbounded; tests sample a few.',
     ['jsons/_load_impl.py', 'jsons/_common_impl.py', 'jsons/deserializers/default_object.py', 'jsons/deserializers/default_tuple.py'],
     [('check for None', 'jsons/_load_impl.py:_check_for_none; jsons/_common_impl.py:can_match_with_none')])

prop('C11', 'A strict load rejects unknown keys before constructing anything',
     'A strict load of a class instance calls the class only if every key of the (key-transformed) input, apart from the metadata, belongs to a constructor parameter; otherwise it raises a signature mismatch error that names an offending key, source and target. A non-strict load sets every such key as an attribute (read-only properties excepted).',
     ['inputs', 'programs'], 'every class and every set of keys',
     'Tests use one extra key on one class; the guarantee is about every path to the constructor call.',
     ['jsons/deserializers/default_object.py'],
     [('remaining keys check', 'jsons/deserializers/default_object.py:_get_remaining_args')])

prop('C12', 'Parallel work is complete, ordered and reports every failure',
     'With any number of tasks and any length, each element is handled exactly once and its result stands at its own index; results are read only after every started task has been joined. An element whose handling fails, or a task that dies, leads to an error (or a warning where that is asked for) - never to a missing, empty or misplaced result.',
     ['schedules', 'inputs', 'fault_sequences'], 'every number of tasks, every length, threads or processes, any element failing',
     'Tests run two or three combinations of length and task count with successful elements.',
     ['jsons/_multitasking.py', 'jsons/serializers/default_iterable.py', 'jsons/deserializers/default_list.py'],
     [('partition and join', 'jsons/_multitasking.py:multi_task, _start_tasks, _fill'), ('failure markers', 'jsons/_multitasking.py:TaskFailure')])

prop('C13', 'Writers and readers of the scalar types use matching formats',
     'For complex, timedelta, timezone, Decimal, UUID, path, zone info, date, time, datetime and enum values, what the serializer writes is what the deserializer of the same type expects: the same keys, the same unit, the same pattern (with fractions of a second when there are any) and the same choice between name and value. Nothing the writer records is ignored or replaced by the reader, and no precision is cut that the writer keeps.',
     ['inputs'], 'every value of these types',
     'Round trips are tested with single values; the agreement is between two pieces of code.',
     ['jsons/serializers', 'jsons/deserializers', 'jsons/_datetime_impl.py'],
     [('codec pairs', 'jsons/serializers/default_*.py with jsons/deserializers/default_*.py')])

prop('C14', 'The default serializers return JSON-typed values',
     'Every default serializer returns text, a number, a boolean, None, or a list or dict built from the results of dumping its parts - never the original container, a tuple, set, bytes, type or live object. Dict keys that are not valid JSON keys are replaced by dumped or hashed ones. (Enum members dumped by value are passed on as they are.)',
     ['inputs'], 'every value handled by a default serializer',
     'Tests compare single results; a branch that returns a raw part shows only for values that take it.',
     ['jsons/serializers'],
     [('result construction', 'jsons/serializers/default_*.py')])

prop('C15', 'Strip filters and key transformers apply to every key, and only they',
     'Every key written for an object, dict or named tuple is passed through the key transformer when one is given (except integer hashes of keys); nulls are left out exactly when strip_nulls is given; private, property, class-variable and listed attributes are left out exactly when the respective strip option asks for it. No other attribute, field or entry that was successfully dumped is lost.',
     ['inputs', 'configurations'], 'every object, dict and named tuple and every combination of the options',
     'Tests check options one by one on small objects; combinations and other containers are open.',
     ['jsons/serializers/default_object.py', 'jsons/serializers/default_dict.py', 'jsons/serializers/default_tuple.py'],
     [('attribute filter', 'jsons/serializers/default_object.py:_filter_attributes'), ('element insertion', 'jsons/serializers/default_object.py:_add_dumped_elem')])

prop('C16', 'Key transformers accept every string and produce their case',
     'The four key transformers return a string for every string, also for empty ones and ones made of separators. snakecase output has no capital and no hyphen, lispcase output no capital and no underscore, camelcase and pascalcase output no hyphen and no underscore, starting lower-case and upper-case respectively.',
     ['inputs'], 'every string',
     'Tests transform a few names.',
     ['jsons/_key_transformers.py'],
     [('transformers', 'jsons/_key_transformers.py')])

prop('C17', 'Every warning can be suppressed, by code and altogether',
     'Every warning the library emits carries a constant code and is emitted only if the fork in use has neither suppressed all warnings nor that code; there is no other way a warning is emitted. Suppressing takes effect for that fork from then on, adds to earlier suppressions, and can be revoked for the general switch.',
     ['histories', 'configurations'], 'every warning site, every fork and every history of suppressions',
     'Tests suppress one code once.',
     ['jsons/_common_impl.py', 'jsons/_extra_impl.py', 'jsons/serializers/default_object.py', 'jsons/deserializers/default_list.py', 'jsons/deserializers/default_object.py', 'jsons/_datetime_impl.py', 'jsons/decorators.py'],
     [('warning channel', 'jsons/_common_impl.py:StateHolder._warn'), ('suppression', 'jsons/_extra_impl.py')])

prop('C18', 'Values are dispatched to the most specific default by type order',
     'Among the default registrations a subclass always comes before its superclasses, for serializers and deserializers alike, so a datetime is never treated as a date, a bool or enum never as something else, and a subclass of a supported type is handled like that type. A user registration with high priority precedes, and one with low priority follows, all existing ones; an exact registration for a type always wins; registering and looking up agree on how a type is named.',
     ['programs', 'configurations'], 'every class and every order of registrations',
     'Tests dispatch a few types; ordering faults show for subclasses not in the tests.',
     ['jsons/__init__.py', 'jsons/_lizers_impl.py', 'jsons/_common_impl.py'],
     [('default registrations', 'jsons/__init__.py'), ('lookup', 'jsons/_lizers_impl.py:_get_lizer, _get_parents')])

prop('C19', 'The public export table is complete and valid',
     'Every name the package exports exists, none is exported twice, and every documented function, error, class, key transformer and default (de)serializer is among them. Importing everything from the package never fails.',
     ['configurations'], 'every exported name, on every supported interpreter',
     'The tests import single names and never the whole table.',
     ['jsons/__init__.py'],
     [('export table', 'jsons/__init__.py:__all__')])

prop('C20', 'Text and bytes functions equal the plain ones composed with JSON',
     'For every value and option, dumps equals the JSON text of dump, dumpb its encoding, loads equals load of the parsed text, loadb loads of the decoded bytes, and transform loads what the mapper makes of the dump. All given options, JSON options, encodings and types arrive at the step they are meant for.',
     ['inputs', 'configurations'], 'every value and every combination of options',
     'Tests call the wrappers with few options; an option lost on the way goes unnoticed.',
     ['jsons/_dump_impl.py', 'jsons/_load_impl.py', 'jsons/_transform_impl.py'],
     [('wrappers', 'jsons/_dump_impl.py:dumps, dumpb; jsons/_load_impl.py:loads, loadb; jsons/_transform_impl.py')])

prop('C21', 'JsonSerializable methods equal the functions with the class as fork',
     'Each method of a JsonSerializable class does what the function of the same name does, on that instance or class, with the class itself as the fork and with all given options; from_json, json and str() are load, dump and dumps. Presets made by with_dump and with_load and registrations made through the class apply to the class (or the requested new fork, which is returned) and combine with the options of a call.',
     ['inputs', 'programs', 'configurations'], 'every subclass, fork, preset and option',
     'Tests call each method once on one class.',
     ['jsons/classes/json_serializable.py'],
     [('delegating methods', 'jsons/classes/json_serializable.py')])

prop('C22', 'The decorators map every argument and the return value',
     'A function decorated with loaded or dumped receives each argument - positional, keyword, or variadic - mapped with the type its parameter declares, and returns its result mapped with the declared return type, each exactly when asked for, with the given fork, mapper and options; self and cls are passed as they are. Coroutine functions behave the same once awaited, and class, static and class methods and unknown mappers are rejected with an error.',
     ['programs', 'inputs'], 'every signature and every way of passing arguments',
     'Tests decorate a few signatures; kinds of parameters combine freely.',
     ['jsons/decorators.py'],
     [('argument mapping', 'jsons/decorators.py')])

prop('C23', 'Errors carry what they are about',
     'Every error\'s attributes return what it was made with: message, source, target, argument and target name, also after pickling. Errors raised while loading carry the value being loaded and the type aimed at (or, for a parameter, its name), never a swapped or unrelated one.',
     ['inputs', 'fault_sequences'], 'every raise site and every error class',
     'Tests read a few attributes of a few errors.',
     ['jsons/exceptions.py', 'jsons/_load_impl.py', 'jsons/deserializers'],
     [('error classes', 'jsons/exceptions.py'), ('raise sites', 'jsons/deserializers/*.py, jsons/_load_impl.py')])

prop('C24', 'Verbose metadata is written in the layout that is read back',
     'The metadata a verbose dump writes lies under the key and with the layout that loading consults: the type of the whole under the root path and the type of every attribute, also of nested objects, under its path, with no internal marker left in the output. Loading gives each nested value the part of the metadata below its own path, and metadata without types is ignored for typing.',
     ['inputs'], 'every nesting of objects and every verbosity',
     'Tests dump two or three levels of one shape.',
     ['jsons/serializers/default_object.py', 'jsons/_common_impl.py', 'jsons/deserializers/default_object.py', 'jsons/_load_impl.py'],
     [('writer', 'jsons/serializers/default_object.py:_get_dict_with_meta, _fill_collection_of_types, _store_cls_info'), ('reader', 'jsons/_common_impl.py:get_cls_and_meta; jsons/deserializers/default_object.py:_get_value_from_obj')])

prop('C25', 'A union takes its first member, left to right, that fits',
     'Dumping or loading a union tries its members in the order in which they are written and returns the result of the first that succeeds; a member whose attempt fails with a library error is skipped and any later one is still tried. If none fits, an error is raised.',
     ['inputs', 'histories'], 'every union, value and history of other unions used before',
     'Tests try few unions; order can be lost by remembering equal unions written in another order.',
     ['jsons/deserializers/default_union.py', 'jsons/serializers/default_union.py', 'jsons/_compatibility_impl.py'],
     [('union loops', 'jsons/serializers/default_union.py, jsons/deserializers/default_union.py')])

prop('C26', 'UTC offsets are written and read with the right sign and size',
     'The offset written for a datetime has the sign of its UTC offset and the hours and minutes of its absolute value; reading applies the sign to the hours and the minutes. The letter Z is written only for UTC and read as UTC.',
     ['inputs', 'configurations'], 'every UTC offset of whole minutes, positive or negative, and any local time zone',
     'Tests use one or two offsets, and the zone of the test machine.',
     ['jsons/_datetime_impl.py'],
     [('offset writer', 'jsons/_datetime_impl.py:_timedelta_offset_str, _datetime_offset_str'), ('offset reader', 'jsons/_datetime_impl.py:_datetime_offset_inst')])

prop('C27', 'An explicit type beats metadata, which beats an inferred type',
     'When loading, a type given by the caller wins over the type in the metadata; the metadata wins over a type inferred from a type hint of an attribute or element; and the type of the JSON value is used only when neither is there. The deserializer looked up is the one for the winning type, and it is told that type.',
     ['inputs'], 'every combination of given, recorded and inferred types',
     'Tests cover two of the combinations.',
     ['jsons/_common_impl.py', 'jsons/_load_impl.py', 'jsons/deserializers/default_object.py'],
     [('precedence', 'jsons/_common_impl.py:determine_precedence')])

prop('C28', 'Constructor arguments come from the input, then getters, then defaults',
     'When an object is loaded, each constructor parameter gets the loaded value of its key if the input has it, else the result of its attribute getter, else its default, else None where its type admits it, else an error that names it is raised; variadic parameters for which the input has no value get nothing. A named tuple takes each field from the input, else its default, under the same rule, in field order.',
     ['inputs', 'programs'], 'every signature and every subset of keys, getters and defaults',
     'Tests cover the sources one at a time.',
     ['jsons/deserializers/default_object.py', 'jsons/deserializers/default_tuple.py'],
     [('value for parameter', 'jsons/deserializers/default_object.py:_get_value_for_attr'), ('named tuple', 'jsons/deserializers/default_tuple.py:default_namedtuple_deserializer')])

prop('C29', 'Containers keep every element, in order, exactly once',
     'Dumping and loading lists, tuples, iterables and dicts handles each element, key and value exactly once and in order, and the result holds precisely the results: nothing dropped, duplicated, reordered or replaced, apart from the elements that C08 and strip_nulls allow to be left out. The result has the container type that was asked for.',
     ['inputs'], 'containers of every length and content',
     'Tests use containers with up to a few elements.',
     ['jsons/serializers', 'jsons/deserializers'],
     [('element loops', 'jsons/serializers/default_list.py, default_iterable.py, default_tuple.py, default_dict.py and their deserializers')])

prop('C30', 'Loading what was dumped gives back an equal value',
     'For every value of a supported class whose parameters are typed, loading the dump into the class gives a value equal to the original.',
     ['inputs', 'programs'], 'every class and value', 'Tests round-trip few values.',
     ['jsons'], [('all (de)serializers', 'jsons/serializers, jsons/deserializers')])

prop('C31', 'Concurrent dumps and loads in threads do not disturb each other',
     'Any number of threads may dump and load at the same time, with registrations made before, and each gets the result it would get alone.',
     ['schedules'], 'every interleaving', 'No test uses threads of its own.',
     ['jsons/_cache.py', 'jsons/_common_impl.py'], [('shared caches', 'jsons/_cache.py')])


prop('C32', 'A type given by its name is found again as that very type',
     'The name of a type, in metadata or in place of a type, resolves to that type only: a builtin or the None type by its own name, a class by its module and name, a class that was announced in the fork in use by its announced name (the last announcement counts; without a custom name it is the module and name), and a generic name to its origin applied to all of its parts, each resolved in the same way however deep they are nested. A name for which none of these exists raises an unknown class error that carries the source and the whole name; no other error of the lookup escapes.',
     ['inputs', 'programs'], 'every type name, nested to any depth, and every announcement',
     'The set of names is unbounded; tests use a handful of flat ones.',
     ['jsons/_common_impl.py', 'jsons/_extra_impl.py', 'jsons/_load_impl.py'],
     [('lookup by name', 'jsons/_common_impl.py:get_cls_from_str'), ('generic names', 'jsons/_common_impl.py:_get_generic_cls_from_str'), ('announcing', 'jsons/_extra_impl.py:announce_class')])

prop('C33', 'A load gives an instance of the type that was asked for',
     'If a load into a type that the default deserializers handle returns, its result is an instance of that type: of the asked class itself for custom classes, enums, string and number types, paths, named tuples, mappings and other iterables, and of the supported type that it is or derives from for dates, times, lists, tuples, decimals, UUIDs and the like; for a union it is the result of loading into one of its members. None is only returned for None, and the given value is only returned as it is when it already is an instance. A string type (str, a subclass or a new type of it) that is asked for explicitly gives text, also if the text looks like a date; only when no type is asked for, such text becomes a datetime. Otherwise the load fails.',
     ['inputs', 'programs'], 'every JSON value, every type, all options, with the default deserializers',
     'The values and types are unbounded; the exceptions (an empty value, a value that happens to look like another type) are where implementations hand out something else.',
     ['jsons/deserializers/', 'jsons/_load_impl.py'],
     [('taking a value over', 'jsons/_load_impl.py:_should_skip'), ('strings', 'jsons/deserializers/default_string.py'), ('mappings', 'jsons/deserializers/default_mapping.py'), ('iterables', 'jsons/deserializers/default_iterable.py'), ('primitives', 'jsons/deserializers/default_primitive.py'), ('enums', 'jsons/deserializers/default_enum.py')])

prop('C34', 'What a dump contains is decided by its mode and the declared types',
     'Apart from what the strip options remove: when an object is dumped with strict=True as a given class, the names of the attributes that are written come from that class only, whatever else the object holds; in any other dump they are all attributes of the object. An attribute with a declared type is dumped as that type: the type selects the serializer and is handed to it; without a declared type the type of the value selects the serializer. In a strict dump of a list, tuple or other iterable as a type with generics, the type of every element comes from that given type; a union dumps its value as one of its members; and dump itself selects the serializer by the given class, or by the class of the object if no class is given, and hands both the object and the given class to it.',
     ['inputs', 'programs'], 'every object, class, declared type and mode of dumping',
     'Objects that hold more (or other) attributes than the class they are dumped as, in each combination of strict and cls, are unbounded; leaking an attribute in a strict dump passes every test that does not look for it.',
     ['jsons/serializers/default_object.py', 'jsons/serializers/default_list.py', 'jsons/serializers/default_iterable.py', 'jsons/serializers/default_tuple.py', 'jsons/serializers/default_union.py', 'jsons/_dump_impl.py'],
     [('attributes by mode', 'jsons/serializers/default_object.py:_get_attributes_from_class'), ('attributes of an object', 'jsons/serializers/default_object.py:_get_attributes_from_object'), ('selection by declared type', 'jsons/serializers/default_object.py:_do_serialize'), ('element types', 'jsons/serializers/default_iterable.py:_get_subclasses'), ('selection by given class', 'jsons/_dump_impl.py:_do_dump')])


if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
