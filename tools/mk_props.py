"""Regenerates properties.jsonl (kept as a script only because JSON is awkward to edit by hand)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))
SE, DE, CO, CP = "serde/se.py", "serde/de.py", "serde/core.py", "serde/compat.py"

p("P01", "Dict round trip restores every supported field type",
  "For every dataclass made (de)serializable with @serde whose field types are built from the supported types, from_dict(C, to_dict(x)) equals x for every well-typed instance x, with every field and nested element restored to the same value of the same type. This holds for every nesting of containers, optionals, unions, enums, literals, numpy and nested dataclasses, and for every setting of reuse_instances and convert_sets.",
  ["programs", "inputs", "configurations"], "all dataclass shapes over the supported type constructors, all well-typed instances, all reuse_instances/convert_sets values",
  "tests sample a fixed list of about a hundred types with one concrete value each; nesting depth, element position and option combinations are unbounded",
  [SE, DE, CO, CP], [("to_dict code generator", SE), ("from_dict code generator", DE)], ["serde.to_dict", "serde.from_dict"])
p("P02", "Tuple round trip is positionally aligned and restores every field",
  "For every @serde dataclass, to_tuple(x) lists the serialized fields in declaration order and from_tuple(C, to_tuple(x)) equals x, including keyword-only fields, nested dataclasses, and fields that carry rename or alias. Each position is assigned to the field that produced it and to no other.",
  ["programs", "inputs", "configurations"], "all dataclass shapes over the supported type constructors, all well-typed instances",
  "positional alignment depends on which fields precede a field and on their attributes; tests exercise it on a handful of plain classes",
  [SE, DE, CO], [("to_iter template", SE), ("from_iter template", DE)], ["serde.to_tuple", "serde.from_tuple"])
p("P03", "Top-level containers and scalars round-trip like fields do",
  "Passing a type directly (not wrapped in a dataclass) as in from_dict(T, to_dict(x, c=T)) restores x for every supported type T such as list[Foo], dict[K, V], set, frozenset, tuple[T, ...], deque, Counter, Optional, Union, Enum, Literal, datetime, Path, Decimal or a primitive. Elements at every depth are converted exactly as they would be if the value were a dataclass field.",
  ["programs", "inputs"], "all supported top-level types and all well-typed values",
  "the interpretive path for undecorated types is separate code from the generated one; tests touch a few of its branches with one value each",
  [SE, DE, CO], [("interpretive serializer", SE), ("interpretive deserializer", DE), ("wrapper class cache", CO)], ["serde.to_dict", "serde.from_dict", "serde.to_tuple", "serde.from_tuple"])
p("P04", "Format front-ends forward arguments faithfully and are inverse pairs",
  "Each to_<format>(obj, cls, se, ...) hands the (de)serialization core exactly the object, class and options (reuse_instances, convert_sets, skip_none, named) the caller gave, passes every other keyword to the backend, and returns the backend's result; each from_<format> hands the class and the parsed data to from_dict/from_tuple. For every format, from_<format>(C, to_<format>(x)) equals x whenever x is representable in the format.",
  ["inputs", "configurations"], "all formats, all documented options and pass-through keyword arguments, all objects",
  "the suite checks default options for most formats; dropping or swapping an option only shows for option/type pairs that are not sampled",
  ["serde/json.py", "serde/msgpack.py", "serde/toml.py", "serde/yaml.py", "serde/pickle.py"], [("to_/from_ functions", "serde/<format>.py")], ["to_json", "from_json", "to_msgpack", "from_msgpack", "to_toml", "from_toml", "to_yaml", "from_yaml", "to_pickle", "from_pickle"])
p("P05", "Per-call options reach every nested value",
  "The reuse_instances, convert_sets and skip_none arguments of a (de)serialization call take effect on every value reachable from the top-level object: through nested dataclasses, containers, optionals, unions, generics, Any fields and flattened fields. When an argument is omitted, the class-level default (reuse_instances_default, convert_sets_default) applies; with convert_sets no set and with reuse_instances=False no Path, Decimal, UUID, IP address, date or time object remains anywhere in the output.",
  ["programs", "inputs", "configurations"], "all nestings of supported types and every combination of the options, per call and per class",
  "options are threaded by generated text through each recursive call; a missing link shows only for the particular nesting",
  [SE, DE, CO], [("generated calls forward the options", SE), ("generated calls forward the options", DE)], ["serde.to_dict", "serde.to_tuple", "serde.from_dict", "serde.from_tuple"])
p("P06", "Number coercion applies to every float target and to nothing else",
  "When a number converter is in force (JSON and YAML by default, or deserialize_numbers given to from_dict/from_tuple) every float-typed target at any depth receives converter(value), and no non-float target is converted; with coerce_numbers=False the value is used as is. The JSON converter accepts exactly ints and floats (never bools or strings), the YAML converter additionally numeric strings, and everything else raises SerdeError.",
  ["programs", "inputs", "configurations"], "all float positions in all type nestings, all input kinds",
  "tests check a few positions; each container, optional, union and generic path forwards the converter separately",
  [DE, "serde/json.py", "serde/yaml.py", CO], [("deserialize_numbers forwarding", DE), ("deserialize_json_numbers", "serde/json.py"), ("deserialize_yaml_numbers", "serde/yaml.py")], ["from_json", "from_yaml", "from_dict"])
p("P07", "Field keys: rename, rename_all and alias resolve consistently",
  "The output key of a field is its rename if given, else rename_all applied to its name, else its name; deserialization reads the same key, then each alias in order, and aliases never affect output. This holds for every supported field type (scalars, containers, optionals, unions, dataclasses, fields with defaults or custom (de)serializers), and rename_all does not leak into nested classes.",
  ["programs", "inputs", "configurations"], "all combinations of rename, rename_all, alias, default and field type; all presence combinations of the keys",
  "the combinations are a product of attributes and type-specific code generation paths; tests cover rename and alias mostly on primitives",
  [SE, DE, CO], [("conv", CO), ("lvalue rendering", SE), ("data access rendering", DE)], ["serde.field", "serde.serde"])
p("P08", "Each deserialized value reaches the constructor parameter of its own field",
  "When a dataclass is built from a mapping, the value found under a field's key is passed to that field's constructor parameter and no other, for any mix of positional, keyword-only, init=False, defaulted, skipped and inherited fields in any declaration order. Fields with init=False are never passed to the constructor.",
  ["programs", "inputs"], "all mixes and orders of field kinds, single and multi-level inheritance",
  "mis-assignment needs a particular order of field kinds with compatible types; tests use a few orders",
  [DE, CO], [("constructor call rendering", DE)], ["serde.from_dict"])
p("P09", "Skip attributes decide exactly which fields are written and read",
  "skip and skip_serializing remove a field from the output and skip and skip_deserializing make deserialization ignore it in the input and use its default; skip_if, skip_if_false, skip_if_none, skip_if_default (per field or per class) omit a field exactly when one of the given predicates holds for it; the skip_none call option omits exactly the None-valued fields. No other field is affected, and a field-level setting overrides the class-level default.",
  ["programs", "inputs", "configurations"], "all combinations of skip attributes, class defaults and call options; all field values",
  "predicate combinations and values are unbounded and tests check each attribute alone",
  [SE, DE, CO], [("dict template", SE), ("skip predicates", CO)], ["serde.field", "serde.to_dict", "serde.from_dict"])
p("P10", "Missing optional or defaulted input takes the declared default, freshly made",
  "If a field's key is absent from the input, a field with a default gets that default, a field with a default_factory gets a value produced by calling the factory for that very object, and an Optional field without default gets None; if the key is present the input value is used, even when it is falsy or None where None is allowed. Values produced by factories are never shared between objects.",
  ["programs", "inputs", "histories"], "all field types with defaults or factories, all presence combinations of keys, sequences of deserializations",
  "tests sample one or two field types per kind of default and do not check freshness across calls",
  [DE, CO], [("default rendering", DE)], ["serde.from_dict"])
p("P11", "A missing required key is reported as SerdeError naming the field",
  "If the input mapping lacks the key of a field that has neither default nor Optional type, deserialization raises SerdeError naming the missing field, for every field type, at every nesting depth, with rename, alias and flatten. It never substitutes a value and never lets a bare KeyError escape.",
  ["programs", "inputs"], "all required field types and positions, all subsets of absent keys",
  "tests drop a key for a few classes only",
  [DE], [("KeyError handling in the from_dict template", DE)], ["serde.from_dict"])
p("P12", "Malformed input raises SerdeError, and user exceptions surface unchanged",
  "For any input of the wrong shape or kind, from_dict and from_tuple either return an instance or raise SerdeError: no KeyError, TypeError, IndexError, AttributeError or internal wrapper exception escapes. An exception raised by user code while the object is being constructed (such as in __post_init__) propagates as that same exception object from any nesting depth.",
  ["inputs", "fault_sequences"], "every input kind substituted at every position; user code failing at every constructor call",
  "the space of malformed inputs is unbounded and each type's decode path fails differently",
  [DE, CP], [("exception translation in the interpretive deserializer", DE), ("constructor try/except", DE)], ["serde.from_dict", "serde.from_tuple"])
p("P13", "type_check modes mean what they say",
  "With strict, a value whose type disagrees with the field annotation raises SerdeError on construction and on deserialization; with coerce, primitive fields are converted by calling the declared type (None rejected) on both serialization and deserialization, at every depth; with disabled, values are neither checked nor converted. The mode of a class does not affect other classes.",
  ["programs", "inputs", "configurations"], "all primitive field positions, all input kinds, three modes",
  "tests sample a few mismatches per mode at depth one",
  [SE, DE, CO], [("beartype application", SE), ("coerce_object rendering", DE)], ["serde.serde(type_check=...)"])
p("P14", "Unions are tagged as configured and decode to the variant that was encoded",
  "A union value is written under the configured tagging (external, internal, adjacent, untagged) with the class name of its variant as the tag, for unions in fields and at top level; reading it back yields the same variant class and value, and a tag that names none of the variants or a value that matches no variant raises SerdeError. A value is never decoded into a variant it does not conform to, and the tag matching is exact.",
  ["programs", "inputs", "configurations"], "all unions over primitives, containers, enums, literals and dataclasses, in any order, all four taggings, all variant values",
  "the number of unions times taggings is unbounded; first-match decoding is order sensitive",
  [SE, DE, CO], [("union templates", SE), ("union templates", DE), ("Tagging", CO)], ["ExternalTagging", "InternalTagging", "AdjacentTagging", "Untagged"])
p("P15", "deny_unknown_fields rejects exactly the unknown keys",
  "With deny_unknown_fields=True, from_dict raises SerdeError exactly when the input has a key that is no field's key or alias (counting the keys of flattened classes); without it, unknown keys are ignored and never influence any field. A class with a flattened dict accepts all keys.",
  ["programs", "inputs"], "all classes with rename/rename_all/alias/flatten combinations, all key sets",
  "the known-key set is computed from attributes in several places; tests use plain names",
  [DE, CO], [("known fields computation", DE)], ["serde.serde(deny_unknown_fields=True)", "serde.from_dict"])
p("P16", "flatten merges and re-splits fields without loss",
  "A flattened dataclass field contributes exactly the entries its class would produce on its own, in the parent's mapping, and reading restores it from those entries with its own rename, defaults, skip rules and nested flatten; an Optional flattened field round-trips both None and a value. A flattened dict receives exactly the keys no declared field claims, and on output never overrides a declared field.",
  ["programs", "inputs"], "all combinations of flatten with rename, alias, defaults, skip, Optional, nesting and other fields",
  "flatten interacts with each other field attribute; tests cover about a dozen combinations",
  [SE, DE, CO], [("flatten rendering", SE), ("flattened data projection", DE)], ["serde.field(flatten=True)"])
p("P17", "Custom serializers take effect wherever they apply, in the documented order",
  "A field-level serializer/deserializer is used for that field in preference to a class-level one, a class-level one in preference to a globally registered one, and all in preference to the built-in behaviour; class-level and global ones apply to every matching position including container elements, optionals and union variants. Each conversion calls the custom function exactly once with the value at that position, and SerdeSkip falls back to the built-in behaviour.",
  ["programs", "inputs", "configurations"], "all field positions and all combinations of field, class and global (de)serializers",
  "tests exercise single registrations on plain fields",
  [SE, DE, CO], [("serializer dispatch in rendering", SE), ("deserializer dispatch in rendering", DE)], ["serde.field(serializer=)", "serde.serde(class_serializer=)", "serde.add_serializer"])
p("P18", "Inputs are never modified",
  "Serialization does not modify the object being serialized or anything reachable from it, and deserialization does not modify the mapping or sequence it is given. Declaring fields and decorating classes does not modify metadata mappings, default values or other objects supplied by the user, and a call never writes to options dictionaries it did not create.",
  ["programs", "inputs", "histories"], "all supported types and options, all calls",
  "mutation shows only when the caller reuses the object afterwards, which tests rarely do",
  [SE, DE, CO], [("generated code builds new containers", SE)], ["serde.to_dict", "serde.from_dict", "serde.field"])
p("P19", "Results do not depend on which classes or types were used before",
  "The result of decorating a class or of any (de)serialization call depends only on its arguments and the class definitions, not on which other classes were decorated or which other types were (de)serialized earlier in the process: memoised decisions, cached wrappers and per-class state of one type are never applied to another, including types that compare equal, share a name, differ in argument order or tagging, or inherit from one another.",
  ["histories", "programs"], "all sequences of decorations and calls over distinct types",
  "tests run in one order in one process, so order dependence is invisible",
  [CP, CO, SE, DE], [("memoised type predicates", CP), ("wrapper class cache", CO), ("per-class scope", CO)], ["serde.serde", "serde.to_dict", "serde.from_dict"])
p("P20", "A transparent class is represented by its single inner value",
  "With transparent=True, serializing an instance gives exactly what serializing its inner field's value would give (dict, tuple and every format) and deserializing constructs the class from such a value, at top level and nested anywhere. Classes without exactly one eligible field are rejected with SerdeError at decoration.",
  ["programs", "inputs"], "all inner types and nestings, all field layouts",
  "tests use a few inner types",
  [SE, DE, CO], [("transparent templates", SE), ("transparent templates", DE), ("get_transparent_field", CO)], ["serde.serde(transparent=True)"])
p("P21", "Enums, literals, NewTypes and primitive subclasses keep identity and type",
  "An enum is written as its (recursively unwrapped) value and read back as the same member, also as a mapping key that a format has turned into a string; a value that is no member raises SerdeError. A Literal accepts exactly its listed values, and NewType and subclasses of primitives are restored with the declared class.",
  ["programs", "inputs"], "all enum kinds and member values, all literal sets, all NewTypes and primitive subclasses, all positions",
  "tests use a small set of enums and literals at depth one",
  [SE, DE, CO, CP], [("enum_value", SE), ("deserialize_enum", CO), ("literal function", DE)], ["serde.to_dict", "serde.from_dict"])
p("P22", "User-supplied names cannot alter the generated code",
  "Any string used as rename, alias, tag or content key, and any field or class name that Python accepts, appears in generated code only as data or as that very identifier: the class decorates successfully and the key used on output and input is the exact string given, whatever characters (quotes, backslashes, newlines, braces, non-ASCII) it has. Field and class names never collide with the generator's own variables.",
  ["inputs", "programs"], "all strings for rename/alias/tag/content, all legal identifiers",
  "tests use alphabetic names only; the string space is infinite and code injection needs particular characters",
  [SE, DE, CO], [("templates quoting keys", SE), ("templates quoting keys", DE)], ["serde.field(rename=, alias=)", "InternalTagging", "AdjacentTagging"])
p("P23", "Code generation is re-entrant, exception-safe and thread-safe",
  "Generating (de)serialization code for a class while that of another (or a mutually recursive) class is in progress yields the same result as doing it alone, a failed decoration leaves no residue that changes later decorations, and concurrent first uses of classes that are generated lazily behave as if they were serialized. Every piece of shared generator state is modified only under mutual exclusion and restored on every exit.",
  ["schedules", "histories", "fault_sequences"], "all interleavings of first uses, all failing decorations, all recursive class graphs",
  "tests are single-threaded and do not retry after a failed decoration",
  [SE, DE, CO], [("generation stack", SE), ("generation stack", DE), ("wrapper class cache", CO)], ["serde.serialize", "serde.deserialize", "serde.to_dict"])
p("P24", "Optional dependencies stay optional and their fallbacks are complete",
  "Importing serde and using dict, tuple, JSON and pickle needs none of the optional packages (numpy, sqlalchemy, orjson, msgpack, toml and YAML packages); each optional package is imported only by the module or function that needs it, and a missing package is handled at that place. Every helper that is offered when a package is present is also offered, with the same call signature, when it is absent.",
  ["configurations"], "all subsets of installed optional packages",
  "the test environment has a fixed set of packages installed",
  ["serde/numpy.py", "serde/sqlalchemy.py", "serde/json.py", CP, SE, DE], [("try/except ImportError branches", "serde/numpy.py"), ("lazy imports", SE)], ["import serde"])
p("P25", "Untrusted data never reaches a code-executing sink",
  "Data passed to from_dict, from_tuple, from_json, from_yaml, from_toml or from_msgpack is never executed, imported, unpickled or used to look up attributes or names: YAML is parsed only with the safe loader, pickle is used only by the pickle format, and text is executed only at class-generation time, from the class definition alone. No (de)serialization call on already generated classes executes generated text that depends on the data.",
  ["inputs", "histories"], "all inputs to the public deserialization functions",
  "absence of a data flow cannot be sampled",
  ["serde/yaml.py", "serde/pickle.py", CO, DE], [("gen is the single exec", CO), ("safe_load", "serde/yaml.py")], ["from_yaml", "from_dict"])
p("P26", "Type variables resolve to the arguments of the subscripted class",
  "For a generic dataclass C[T1..Tn], deserializing into C[A1..An] builds every field of type Ti, or of a type containing Ti, as Ai, for any number and order of type variables, when C is nested in other generic classes, containers or optionals, and when only some variables are used by an inner class. Serialization of generic fields follows the runtime value.",
  ["programs", "inputs"], "all generic class shapes and instantiations",
  "tests use a handful of generic shapes",
  [DE, CP, SE], [("get_generic_arg", CP), ("TypeVar rendering", DE)], ["serde.from_dict", "serde.from_tuple"])
p("P27", "Debug mode and introspection do not change behaviour",
  "Turning debug mode on (serde.init(debug=True)) or calling the introspection predicates changes no (de)serialization result: the code that runs is equivalent to the code generated without it. is_serializable and is_deserializable are True for instances and classes that support the respective operation and have no side effects.",
  ["programs", "configurations"], "all classes, debug on and off",
  "tests do not compare behaviour across modes",
  [CO, SE, DE], [("gen", CO), ("is_serializable", SE)], ["serde.init", "serde.is_serializable"])
p("P28", "The decorators are equivalent compositions and honour every option",
  "@serde(options) behaves as @serialize and @deserialize with the same options, in either order, with or without an explicit @dataclass, with or without parentheses, and on classes inheriting from decorated classes; every documented option takes effect in whichever decorator receives it. Options of a base class do not silently apply to a subclass decorated with other options, and an undecorated dataclass subclass keeps its own fields.",
  ["programs", "configurations"], "all decorator stackings, all options, inheritance",
  "tests mostly use @serde alone with one option at a time",
  ["serde/__init__.py", SE, DE, CO], [("serde", "serde/__init__.py"), ("serialize", SE), ("deserialize", DE), ("per-class scope", CO)], ["serde.serde", "serde.serialize", "serde.deserialize"])
p("P29", "numpy scalars and arrays keep dtype and value",
  "A numpy scalar, datetime64 or array field (np.ndarray, NDArray[dtype], jaxtyping arrays) is written as plain Python data and read back as a value of the declared scalar type or an array of the declared dtype, in fields, containers, optionals and top level; the JSON and MsgPack encoders convert any numpy object reaching them the same way.",
  ["programs", "inputs"], "all numpy scalar types, dtypes and positions",
  "tests use a fixed list of dtypes in plain fields",
  ["serde/numpy.py", SE, DE], [("numpy helpers", "serde/numpy.py")], ["serde.to_dict", "serde.from_dict"])
p("P30", "Order is preserved",
  "Output mappings list fields in declaration order (base classes first, flattened entries in place) and ordered containers (list, tuple, deque, dict) keep element order through serialization and deserialization; mapping entries keep their key-value association and no element is dropped, duplicated or merged. The order of union alternatives and of aliases is the declared one.",
  ["programs", "inputs"], "all classes and ordered containers of any length",
  "tests compare dicts without order and use short lists",
  [SE, DE, CO], [("templates iterate fields in order", SE), ("comprehensions over containers", DE)], ["serde.to_dict", "serde.to_tuple", "serde.from_dict"])
p("P31", "Startup and throughput stay within budget",
  "Importing serde, decorating a class and (de)serializing objects complete within the time the project's benchmarks allow, and repeated calls do not regenerate code or leak memory.",
  ["histories"], "all workloads",
  "timing is environment dependent",
  ["bench/", CO], [("lazy imports and caches", CO)])
p("P32", "Third-party text formats agree byte for byte across backends",
  "to_json gives the same text with orjson as with the standard library and every format's text conforms to its specification for all values, including non-finite and very large numbers and non-BMP text.",
  ["inputs", "configurations"], "all values, both JSON backends",
  "the encoders are third-party code",
  ["serde/json.py"], [("json_dumps", "serde/json.py")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        assert x["statement"].count(". ") <= 2, (x["id"], x["statement"].count(". "))
        f.write(json.dumps(x) + "\n")
