"""Writes /verif/properties.jsonl (kept as code so the long lines stay reviewable)."""
import json, os

P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    P.append(
        {
            "id": id,
            "title": title,
            "statement": statement,
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                "mechanism": [dict(name=n, where=w) for n, w in mechanism],
                "observe_at": list(observe),
                "hook_needed": hook,
            },
        }
    )


S = "src/arti/"

prop(
    "C01",
    "Fingerprints are an exact signed 64-bit XOR group",
    "For all fingerprints, combining is commutative and associative, zero is the identity, every fingerprint is its own inverse, and the result is again a fingerprint within [-2^63, 2^63). "
    "Converting between int, int64 and uint64 is two's complement and lossless in both directions over the whole range, values that do not fit are rejected with ValueError instead of being wrapped, and integer arithmetic, shifts, bitwise operators and rounding on int64 and uint64 agree with Python's and stay in the same type, or raise ValueError when the result does not fit.",
    ["inputs"],
    "All 64-bit values (and out-of-range integers), all pairs and triples of operands.",
    "The tests check a handful of constants such as 0, 1, min and max; sign and range boundaries for every operator pair are not sampled.",
    [S + "fingerprints/__init__.py", S + "internal/utils.py"],
    [("Fingerprint.combine / from_*", S + "fingerprints/__init__.py"), ("int64 / uint64 / _int", S + "internal/utils.py")],
    observe=["Fingerprint(...)", "Fingerprint.combine", "int64(...)", "uint64(...)"],
)
prop(
    "C02",
    "A model's fingerprint identifies exactly its class and content",
    "Two models have the same fingerprint if and only if they are of the same class and agree on every fingerprinted field, however deeply nested and whatever subclass sits in a field. "
    "The order in which keyword arguments, set elements or a graph's artifacts were supplied never changes a fingerprint. (The order of a mapping field's entries, such as a struct's fields, is part of its content.) "
    "Documented exclusions never change it: a type's description, a producer's annotations, the producer that generates an artifact, and a graph's backend.",
    ["inputs", "configurations"],
    "All field values of the library's models (types, formats, storages, partitions, artifacts, producers, versions, graphs) and all insertion orders, within the stated bounds.",
    "Tests compare a few literal fingerprints; they cannot show injectivity, or order independence, for every content.",
    [S + "internal/models.py", S + "fingerprints/__init__.py", S + "internal/mappings.py", S + "types/__init__.py", S + "artifacts/__init__.py", S + "graphs/__init__.py", S + "producers/__init__.py"],
    [("Model.fingerprint / _arti_fingerprint_fields_ / serializer", S + "internal/models.py"), ("SkipFingerprint", S + "fingerprints/__init__.py"), ("frozendict / TypedBox serializers", S + "internal/mappings.py")],
    observe=["Model.fingerprint"],
)
prop(
    "C03",
    "Versions invalidate exactly when documented",
    "Two semantic versions have the same fingerprint exactly when their major versions are equal and positive, or when all three components are equal. "
    "String and commit versions differ exactly when their value differs. "
    "A timestamp version requires a timezone-aware datetime, and different instants give different fingerprints.",
    ["inputs"],
    "All pairs of version values.",
    "Tests check a few pairs of semantic versions; the boundary at major 0 and the interaction with shared class state are not covered for all values or creation orders.",
    [S + "versions/__init__.py", S + "internal/models.py"],
    [("SemVer.model_post_init", S + "versions/__init__.py"), ("Timestamp._requires_timezone", S + "versions/__init__.py")],
    observe=["Version.fingerprint"],
)
prop(
    "C04",
    "Partition fields survive the trip through path components",
    "For every partition field value (date, 8- to 64-bit integer, null) and every complete set of its components (a date's Y/m/d, iso or value; an integer's value or hex; a null's value), formatting the components and parsing the text returns an equal field. "
    "Component values are those of the wrapped value; incomplete, unknown or malformed components raise instead of yielding some other field.",
    ["inputs"],
    "All dates from year 1 to 9999, all integers in the bound, all component sets, arbitrary short texts.",
    "Tests use a couple of dates and small integers; leap days, years below 1000, negative and hexadecimal values are not covered.",
    [S + "partitions/__init__.py"],
    [("from_components / field_component", S + "partitions/__init__.py")],
    observe=["PartitionField.from_components", "components"],
)
prop(
    "C05",
    "Storage paths encode partition key and input fingerprint without loss",
    "For every storage template built from partition components, literal text, hard-coded component values and an optional input fingerprint, the path generated for a partition key and input fingerprint parses back to exactly that key and fingerprint, provided components are separated by text that no component value contains and the key agrees with the hard-coded values. "
    "Two partitions that differ in key or input fingerprint never share a path. "
    "Generating requires a key exactly when the type is partitioned and a fingerprint exactly when the template asks for one, and is rejected otherwise.",
    ["inputs", "configurations"],
    "All keys (date, integer, null; up to two fields) and fingerprints, over a family of templates with symbolic literal segments.",
    "Tests use fixed paths with one or two dates; negative or multi-digit values, adjacent components and fingerprints of either sign are not explored.",
    [S + "storage/__init__.py", S + "storage/_internal.py", S + "storage/local.py", S + "storage/google/cloud/storage.py", S + "storage/literal.py", S + "partitions/__init__.py"],
    [("Storage.generate_partition", S + "storage/__init__.py"), ("strip_partition_indexes / extract_placeholders / parse_spec", S + "storage/_internal.py")],
    observe=["Storage.generate_partition", "parse_spec"],
)
prop(
    "C06",
    "Partition discovery returns exactly the stored partitions asked for",
    "Discovering a storage's partitions returns exactly one snapshot for each file that exists at a path the storage generates and whose input fingerprint is the one requested for its partition key (or that has none, when none is requested), with its real key, fingerprint and current content fingerprint. "
    "Unrelated files under the same directory, files of other partitions or fingerprints, and special characters in the literal part of the path never cause a partition to be missed, invented, duplicated or discovery to fail; a file whose name has something that is no value at all in place of a component is rejected with ValueError rather than misread. Paths have no doubled separators.",
    ["inputs", "configurations"],
    "All sets of up to three stored files with symbolic keys, fingerprints and contents, plus arbitrary unrelated file names, over local and GCS storage templates.",
    "Tests store two or three fixed dates; the filter by fingerprint, non-canonical names and unusual path text are not explored.",
    [S + "storage/local.py", S + "storage/google/cloud/storage.py", S + "storage/literal.py", S + "storage/_internal.py"],
    [("discover_partitions", S + "storage/local.py"), ("spec_to_wildcard / parse_spec", S + "storage/_internal.py"), ("GCSFile.discover_partitions", S + "storage/google/cloud/storage.py")],
    observe=["Storage.discover_partitions", "StoragePartition.compute_content_fingerprint"],
)
prop(
    "C07",
    "Storage templates resolve to complete, per-artifact unique locations",
    "Resolving a template substitutes exactly the named placeholders, keeps every other placeholder (component, format spec and hard-coded value included), and drops a placeholder with an empty value together with its trailing separator (and then a separator left at the very end), without touching other text. "
    "In a graph, artifacts under different names, in graphs of different name or path tags, get different default locations (names, tags and values being non-empty and free of braces, separators and equals signs). "
    "Raw artifacts have no input fingerprint in their location, and a produced artifact without the input fingerprint placeholder is rejected.",
    ["inputs", "configurations"],
    "All names, tags and literal texts of bounded length, all subsets of placeholders.",
    "Tests resolve a handful of fixed templates.",
    [S + "storage/__init__.py", S + "storage/_internal.py", S + "graphs/__init__.py"],
    [("Storage.resolve / _resolve_field / _visit_*", S + "storage/__init__.py"), ("partial_format", S + "storage/_internal.py"), ("ArtifactBox._cast_value", S + "graphs/__init__.py")],
    observe=["Storage.resolve", "Graph.artifacts"],
)
prop(
    "C08",
    "A producer's input fingerprint tracks exactly its code and input contents",
    "The input fingerprint of a producer partition changes whenever the producer's name, its version or the content of any input partition it depends on changes, and is the same whenever these are the same. "
    "It does not depend on where inputs are stored, on the producer's annotations, or on the order in which the partitions of an input are listed. "
    "Dependencies that do not name exactly the build inputs are rejected.",
    ["inputs"],
    "All contents and paths of up to three input partitions over up to two inputs, all versions.",
    "Tests pin the formula for zero or one input partition; collisions between different input contents need all combinations.",
    [S + "producers/__init__.py", S + "fingerprints/__init__.py", S + "versions/__init__.py"],
    [("Producer.compute_input_fingerprint / compute_dependencies", S + "producers/__init__.py")],
    observe=["Producer.compute_input_fingerprint"],
)
prop(
    "C09",
    "The snapshot id changes exactly when the graph or its raw data changes",
    "Two snapshots of a graph have the same id when the graph's structure and the raw artifacts' partitions and contents are the same, and different ids when a raw partition is added, removed or its content changes, or when any artifact, producer, name, path tag or connection in the graph differs; that one partition is shared by several artifacts hides no change. "
    "Taking a snapshot links every raw artifact to exactly the partitions present, and fails if a raw artifact has no data.",
    ["inputs", "histories"],
    "All contents and presence of up to three raw partitions over up to two raw artifacts, and all single differences in structure.",
    "Tests change one value once; they cannot show that no change of content or structure is missed.",
    [S + "graphs/__init__.py", S + "storage/__init__.py", S + "fingerprints/__init__.py"],
    [("GraphSnapshot.from_graph", S + "graphs/__init__.py")],
    observe=["Graph.snapshot", "GraphSnapshot.id"],
)
prop(
    "C10",
    "An incremental build always equals a build from scratch",
    "After any history of raw data changes, version changes and builds that share storage and backend, reading any produced artifact in the latest built snapshot returns exactly what building the same graph from the same raw data with empty storage returns. "
    "Results of earlier snapshots never leak into a later one, and earlier snapshots keep reading their own results. (Builds are deterministic, nothing else removes stored files or changes raw data during a build, and the order of a collection's partitions is not defined.)",
    ["histories", "inputs"],
    "All histories of up to three builds with symbolic raw contents and versions between them, for chained, multi-input, multi-output and partitioned producers.",
    "Tests build once or twice with fixed values; stale-output bugs need particular value sequences (revert, swap, equal inputs, disappearing partitions).",
    [S + "executors/__init__.py", S + "executors/local.py", S + "graphs/__init__.py", S + "backends/memory.py", S + "producers/__init__.py", S + "storage/local.py", S + "storage/literal.py"],
    [("Executor.discover_producer_partitions / build_producer_partition", S + "executors/__init__.py"), ("LocalExecutor.build", S + "executors/local.py"), ("MemoryConnection", S + "backends/memory.py")],
    observe=["Graph.build", "GraphSnapshot.read"],
)
prop(
    "C11",
    "Builds run each needed producer partition once, in order, and nothing else",
    "A build runs a producer's build exactly once for each output partition that its map names and whose current inputs have no stored output yet, passing exactly the inputs mapped to that partition, after all the producers it depends on. "
    "Partitions whose producer version and input contents are unchanged are not rebuilt, also when the build runs again on a fresh backend over the same files. A partition of which any output is neither recorded in the backend nor in storage is built again.",
    ["histories", "configurations"],
    "All contents of up to three input partitions, over chain, diamond, multi-output and partitioned graphs, and repeated builds with symbolic changes in between.",
    "Tests count builds for one or two fixed graphs without intermediate changes.",
    [S + "executors/local.py", S + "executors/__init__.py", S + "producers/__init__.py", S + "graphs/__init__.py"],
    [("LocalExecutor.build", S + "executors/local.py"), ("Executor.*", S + "executors/__init__.py"), ("Graph.dependencies", S + "graphs/__init__.py")],
    observe=["Producer.build calls", "Graph.build"],
)
prop(
    "C12",
    "An interrupted build can be re-run and ends as if never interrupted",
    "If a build is interrupted by an error or the death of the process at any point (in a producer, while serializing, or between or during storage writes) then running it again on the same storage, with the same backend or a fresh one, completes and every produced artifact reads exactly what an uninterrupted build gives. "
    "The outputs of a producer partition that read are of one build, also if its builds differ. A partly written output is never taken for a finished one.",
    ["crash_points", "fault_sequences"],
    "Every write step of the build as the interruption point (a symbolic step number), for JSON and pickle on local files and GCS, single and multi-output producers, same or fresh backend.",
    "No test injects failures during builds.",
    [S + "executors/__init__.py", S + "graphs/__init__.py", S + "io/json_localfile_python.py", S + "io/pickle_localfile_python.py", S + "io/json_gcsfile_python.py", S + "io/pickle_gcsfile_python.py", S + "backends/memory.py"],
    [("Executor.discover_producer_partitions / build_producer_partition", S + "executors/__init__.py"), ("io writers", S + "io/"), ("Graph.write", S + "graphs/__init__.py")],
    observe=["Graph.build", "Graph.read"],
)
prop(
    "C13",
    "Outputs that fail validation are never stored or used",
    "When validate_outputs rejects the outputs of a partition, the build raises with the given message and none of that partition's outputs is written to storage, recorded in the backend, or handed to a downstream producer. "
    "Outputs that pass are stored unchanged; validation sees exactly what build returned, in order, and runs before anything is written.",
    ["inputs", "histories"],
    "All output values, and all validation verdicts as a function of the outputs, for single, multi-output and partitioned producers.",
    "Tests check one passing and one failing constant.",
    [S + "executors/__init__.py", S + "producers/__init__.py"],
    [("Executor.build_producer_partition", S + "executors/__init__.py")],
    observe=["Graph.build", "storage contents", "backend contents"],
)
prop(
    "C14",
    "The backend returns exactly what was recorded for each key",
    "After any sequence of operations, reading a graph, snapshot, tag or a snapshot's partitions returns exactly what was last recorded under that name, fingerprint, tag, snapshot and artifact key, and nothing recorded under another. "
    "Artifact partitions accumulate per storage and are filtered exactly by the requested input fingerprints (a raw partition, which has none, is left out when one is requested for its key); a produced partition recorded again with other contents replaces the one of its key and input fingerprint. "
    "A tag is only moved when overwriting is requested, tags are separate per graph name, and unknown tags are errors. "
    "What a graph or snapshot does through a given connection is recorded in, and read from, the backend of that connection alone.",
    ["histories"],
    "All sequences of up to four operations with symbolic names, tags, keys and fingerprints.",
    "Tests write and read back a single tag or partition.",
    [S + "backends/memory.py", S + "backends/__init__.py", S + "graphs/__init__.py"],
    [("MemoryConnection.*", S + "backends/memory.py"), ("GraphSnapshot.tag / from_tag", S + "graphs/__init__.py")],
    observe=["BackendConnection.*", "GraphSnapshot.tag", "GraphSnapshot.from_tag"],
)
prop(
    "C15",
    "A graph's artifact box stores each name once and freezes when sealed",
    "In an open box, a value stored under a (dotted or nested) name is returned under every spelling of that name, other names are unaffected, setting a leaf twice is an error, merging mappings keeps both sides, and names with a leading underscore are rejected. "
    "Membership tests never add entries or fail, and a name below a stored value is not contained; walking yields every stored value once under its full dotted name. "
    "After sealing, nothing in the box or any nested box can be added or changed and missing names raise.",
    ["histories", "inputs"],
    "All sequences of up to three operations with symbolic key texts (dots and underscores included, no empty parts).",
    "Tests use a few fixed keys.",
    [S + "internal/mappings.py", S + "graphs/__init__.py"],
    [("TypedBox", S + "internal/mappings.py"), ("ArtifactBox", S + "graphs/__init__.py")],
    observe=["TypedBox operations"],
)
prop(
    "C16",
    "A sealed graph reports exactly the dependencies that were defined",
    "For every graph definition, the dependencies map each artifact to its producer and each producer to its inputs, producer outputs list a producer's artifacts in output order, and each artifact maps to the name it was assigned. "
    "This stays true when a graph is re-opened and extended. "
    "Builds, reads, writes and snapshots are refused while the graph is open, a second graph cannot be opened meanwhile in the same thread (definitions in other threads do not interfere), and an error inside the definition leaves no graph open.",
    ["histories", "configurations"],
    "All graphs of up to four artifacts and three producers chosen by symbolic wiring, definitions split over one or two openings.",
    "Tests define a few fixed graphs, and never re-open one after using it.",
    [S + "graphs/__init__.py", S + "producers/__init__.py"],
    [("Graph.dependencies / producer_outputs / _toggle / requires_sealed", S + "graphs/__init__.py")],
    observe=["Graph.dependencies", "Graph.producers", "Graph.producer_outputs", "Graph.artifact_to_key"],
)
prop(
    "C17",
    "frozendict behaves as an immutable dict value",
    "For all contents, a frozendict has exactly the entries given (later ones win), equals any mapping with the same entries, and equal frozendicts have equal hashes whatever the insertion order. "
    "Merging with | returns a new frozendict in which the right operand wins, on either side, and changes neither operand; unhashable values are rejected at creation. "
    "It cannot be changed after creation, and later changes to the source mapping do not show.",
    ["inputs"],
    "All frozendicts of up to three symbolic entries.",
    "Tests use one or two fixed dictionaries.",
    [S + "internal/mappings.py"],
    [("frozendict", S + "internal/mappings.py")],
    observe=["frozendict"],
)
prop(
    "C18",
    "Python type hints and Artigraph types convert back and forth faithfully",
    "For every type built from the supported hints (scalars, None, list, tuple[x, ...], set, frozenset, dict and Mapping, Optional, Literal, TypedDict and pydantic models), converting to an Artigraph type and back yields an equivalent hint, and converting an Artigraph type to Python and back yields an equal type up to the widening Python cannot express (integer and float widths, time precision to microseconds, binary sizes, tuple to list, frozenset to set, Mapping to dict, names of enums and of structs nested in another). "
    "Nullability, nesting, field names and their order, and enum values are preserved at every depth; unsupported hints (such as mixed unions, fixed-length tuples, unsubscripted containers or unknown classes) raise NotImplementedError, ValueError or TypeError rather than mapping to something else. Null has no optional form.",
    ["inputs", "configurations"],
    "All type trees up to the stated depth with symbolic field names, enum items and nullability.",
    "Tests list a few dozen fixed hints, mostly of depth one.",
    [S + "types/python.py", S + "types/pydantic.py", S + "types/__init__.py", S + "internal/type_hints.py"],
    [("python_type_system adapters", S + "types/python.py"), ("BaseModelAdapter", S + "types/pydantic.py"), ("TypeSystem.to_artigraph / to_system", S + "types/__init__.py")],
    observe=["TypeSystem.to_artigraph", "TypeSystem.to_system"],
)
prop(
    "C19",
    "PyArrow schemas preserve Artigraph types",
    "Converting any supported Artigraph type (scalars, times, lists, maps, structs, collections) to PyArrow and back yields an equal type: widths, precisions, byte sizes, distinct field names and their order, the nullability of struct and collection fields, and a collection's name, partitioning and clustering are kept at every depth. (PyArrow types have no place for descriptions, struct names, or the nullability of list elements, map values and the outermost type, and its null fields are nullable; Geography becomes text or bytes.) "
    "Converting one of the PyArrow types a type converts to into Artigraph and back yields the same PyArrow type, and timestamps outside UTC are rejected.",
    ["inputs", "configurations"],
    "All type trees up to the stated depth with symbolic names, sizes and flags.",
    "Tests list fixed examples of depth one or two.",
    [S + "types/pyarrow.py"],
    [("pyarrow_type_system adapters", S + "types/pyarrow.py")],
    observe=["pyarrow_type_system.to_artigraph", "pyarrow_type_system.to_system"],
)
prop(
    "C20",
    "BigQuery schemas preserve Artigraph types",
    "Converting any supported Artigraph type to a BigQuery field or table and back yields an equal type up to 64-bit widening and microsecond precision: field names and order, field descriptions, nullability, repetition, nesting, table name, partitioning and clustering are kept. (A repeated field is one column: its description is that of the list, and neither it nor its elements are nullable; binary sizes, geography formats, struct names and the description of the table itself are not kept.) "
    "Partition fields beyond the first lead the clustering, the conversion does not alter its argument, and what BigQuery cannot express (nested arrays, integer range partitioning, maps, sets, enums, unsigned integers) is rejected.",
    ["inputs", "configurations"],
    "All struct trees up to the stated depth with symbolic names, descriptions, flags and partition choices.",
    "Tests list fixed examples.",
    [S + "types/bigquery.py"],
    [("bigquery_type_system adapters", S + "types/bigquery.py")],
    observe=["bigquery_type_system.to_artigraph", "bigquery_type_system.to_system"],
)
prop(
    "C21",
    "NumPy and pandas conversions preserve Artigraph types",
    "Converting any supported scalar, list or list-of-struct type to its NumPy or pandas representation and back yields an equal type, with every column's name, order and element type kept. "
    "The supported scalars are Binary, Boolean, String, Float*, Int* and UInt*; what the other side cannot express (descriptions, nullability, byte sizes) is not kept. "
    "NumPy takes lists nested to any depth, with the dimensions the nesting asks for; pandas takes lists of a scalar and lists of structs whose columns are scalars. Other types, including nested columns in pandas, raise NotImplementedError.",
    ["inputs", "configurations"],
    "All scalar types, nesting depths and column sets within the bound, with symbolic column names.",
    "Tests list fixed examples.",
    [S + "types/numpy.py", S + "types/pandas.py"],
    [("numpy_type_system / pandas_type_system adapters", S + "types/numpy.py")],
    observe=["numpy_type_system", "pandas_type_system"],
)
prop(
    "C22",
    "Registration and lookup always pick the highest-priority match",
    "Whatever the order of registration, a registry holds for each key the value of highest priority, registering with the priority of a key's current holder is rejected, and re-registering a key without priorities is an error that leaves the registry unchanged. "
    "A type system converts with its matching adapter of highest priority, falls back to the systems it extends in order with nested conversions using the original system, and raises NotImplementedError when nothing matches. (Which of two different adapters with equal priorities is used is not specified.)",
    ["histories", "inputs"],
    "All sequences of up to three registrations with symbolic keys and priorities, all match patterns of up to three adapters over two systems.",
    "Tests register one or two fixed adapters.",
    [S + "internal/utils.py", S + "types/__init__.py", S + "views/__init__.py"],
    [("register", S + "internal/utils.py"), ("TypeSystem._priority_sorted_adapters", S + "types/__init__.py")],
    observe=["register", "TypeSystem"],
)
prop(
    "C23",
    "Data read back equals the data written, for every storage and format",
    "Writing data to any supported storage (local file, GCS, literal) and format (JSON, pickle) and reading it back returns equal data (JSON for data JSON can hold: texts, numbers, booleans, null, lists and maps with text keys); reading several partitions of a collection returns the concatenation of exactly the given partitions in the given order. "
    "The content fingerprint reported for a write is that of the stored bytes, equal contents have equal fingerprints and different contents different ones, independent of chunk size. "
    "Reading nothing, reading several partitions into an unpartitioned type, or overwriting a preset literal is rejected.",
    ["inputs", "configurations"],
    "All nested data (integers, texts, lists, maps, null) within the bound, up to three partitions, all chunk sizes up to the bound.",
    "Tests write a few constants.",
    [S + "io/__init__.py", S + "io/json_localfile_python.py", S + "io/pickle_localfile_python.py", S + "io/json_stringliteral_python.py", S + "io/json_gcsfile_python.py", S + "io/pickle_gcsfile_python.py", S + "storage/local.py", S + "storage/literal.py", S + "storage/google/cloud/storage.py"],
    [("io.read / io.write", S + "io/__init__.py"), ("compute_content_fingerprint", S + "storage/local.py")],
    observe=["io.read", "io.write", "StoragePartition.compute_content_fingerprint"],
)
prop(
    "C24",
    "Enum and Collection types accept exactly well-formed definitions",
    "An enum of a scalar type that has a Python type is accepted exactly when it is given a non-empty collection of items that are all instances of that Python type (or None, where the type is nullable), and keeps exactly the given items. "
    "A collection is accepted exactly when its partition and cluster fields all exist on its struct and the two do not overlap; its partition and cluster fields are then those fields with their types, in order, and it counts as partitioned exactly when it names a partition field.",
    ["inputs"],
    "All item sets, field names and reference tuples within the bound.",
    "Tests check a few fixed valid and invalid definitions.",
    [S + "types/__init__.py", S + "partitions/__init__.py"],
    [("Enum._validate_values / Collection validators", S + "types/__init__.py")],
    observe=["Enum(...)", "Collection(...)"],
)
prop(
    "C25",
    "Producers only accept wiring that matches their build and map signatures",
    "A producer class is accepted exactly when each build input and map parameter is a declared artifact field of matching type (hints naming a view of that type which can be read from, or written to, the artifact's format and storage), no field is unused, validate_outputs takes what build returns, all outputs share one partitioning scheme and partitioned outputs come with a map; a subclass is judged by its own fields, build and map, and the `producer` decorator accepts the same functions. "
    "An instance only accepts input artifacts, and out() only output artifacts, whose class and type match the corresponding view, in number and order; each output records this producer and its position, and an artifact already produced is rejected.",
    ["configurations", "inputs"],
    "All assignments of artifact types to up to two inputs and two outputs, all parameter subsets within the bound.",
    "Tests enumerate fixed invalid classes one by one.",
    [S + "producers/__init__.py", S + "views/__init__.py"],
    [("Producer._validate_* / out", S + "producers/__init__.py"), ("View.check_artifact_compatibility", S + "views/__init__.py")],
    observe=["Producer subclass creation", "Producer(...)", "Producer.out"],
)
prop(
    "C26",
    "Subtype checks on hints agree with the documented hint semantics",
    "For all hints supported as the subtype (classes, containers of any hints, Annotated, TypeVars, Any, TypedDicts; unions, None and Literals as supertypes or within containers), the subtype check is reflexive and transitive, Any is above everything and below only itself, Annotated is transparent on both sides, a union is above each of its members, None matches only NoneType, TypeVars count as their bound, and subscripted containers compare covariantly while an unsubscripted container is never below a subscripted one; TypedDicts compare by their fields. A variable length tuple is never below a fixed length one, and a fixed one is below a variable one at most when all of its elements are. Whether it then is, and typing's aliases (typing.List), are left unspecified.",
    ["inputs", "configurations"],
    "All hints up to depth two over scalars, containers, unions, Annotated, TypeVar, None and Any.",
    "Tests list a few dozen fixed pairs.",
    [S + "internal/type_hints.py"],
    [("lenient_issubclass / _check_issubclass", S + "internal/type_hints.py")],
    observe=["lenient_issubclass"],
)
prop(
    "C27",
    "Function dispatch always selects the most specific registered handler",
    "Calling or looking up a multiply-dispatched function selects the registered handler whose parameter types are the most specific match for the argument types, independent of registration order (with several incomparable matches: one of the most specific, or an error); when none matches the base handler raises NotImplementedError (TypeError for arguments outside the specification) and lookup raises ValueError. "
    "Registering a handler whose parameter names, order (of those passed by position), kinds, types or return type do not fit the specification is rejected with TypeError.",
    ["configurations", "histories"],
    "All class hierarchies and registration orders within a small bound.",
    "Tests register one or two fixed handlers.",
    [S + "internal/dispatch.py"],
    [("_multipledispatch", S + "internal/dispatch.py")],
    observe=["multipledispatch"],
)

prop(
    "C28",
    "Values and producers assigned to a graph become artifacts that hold them",
    "Assigning a value (a 64-bit integer, float, text, boolean, None, or a list or tuple of one kind of these) to a graph makes a raw artifact of the type of that value, which reads back as that value (a list for a tuple) and gives the graph a different snapshot id for every different value; casting a dictionary with text keys and values of one kind makes a map holding it. "
    "Lists, tuples and dictionaries that are empty or of mixed kinds, and values that have no type or no place in JSON, are rejected with NotImplementedError, ValueError or TypeError and add nothing. "
    "A producer with a single output stands for that output and one with several is rejected (iterating it gives its outputs in order); an artifact is itself. "
    "An artifact's annotations and statistics are those of its class, once, followed by those given.",
    ["inputs", "configurations"],
    "All values of the listed kinds within small bounds, artifact classes with up to two defaults and artifacts with up to two more.",
    "Tests cast one value of each kind and never read it back, nor make an artifact of a class with defaults without giving more.",
    [S + "artifacts/__init__.py", S + "internal/type_hints.py", S + "internal/mappings.py", S + "graphs/__init__.py", S + "storage/literal.py"],
    [("Artifact.cast / _merge_class_defaults", S + "artifacts/__init__.py"), ("get_annotation_from_value", S + "internal/type_hints.py"), ("ArtifactBox._cast_value", S + "graphs/__init__.py")],
    observe=["Artifact.cast", "Graph.artifacts", "Graph.read", "Artifact.annotations"],
)
prop(
    "C29",
    "Graph reads and writes use only fitting views and exactly the data meant",
    "Reading an artifact of a graph by a hint succeeds exactly when the hint stands for a view (named in it, or the view of its class) and data of the artifact's type has that hint, and then returns what was written; data is written exactly when its class stands for a view of the artifact's type. Neither or both of a hint and a view, or an artifact of no such graph, is rejected. (None cannot be written, and a date is a view of both dates and times.) "
    "Without a snapshot a raw artifact reads its current data, even if other raw data is missing; with one, exactly the partitions of that snapshot; with given partitions, exactly those. "
    "A written partition is stored under its key and input fingerprint and recorded for the artifact, and is part of a snapshot exactly when written for it; raw data is never written for a snapshot and produced data never without an input fingerprint. A refused write stores and records nothing.",
    ["inputs", "configurations", "histories"],
    "All combinations of ten artifact types, 35 hints and ten kinds of data, with arbitrary data; up to three partitions before and after a snapshot.",
    "Tests read and write a few matching types, and check two mismatches.",
    [S + "graphs/__init__.py", S + "views/__init__.py", S + "io/__init__.py", S + "internal/type_hints.py", S + "backends/memory.py"],
    [("Graph.read / Graph.write", S + "graphs/__init__.py"), ("View.get_class_for / check_annotation_compatibility / check_artifact_compatibility", S + "views/__init__.py"), ("io.read / io.write", S + "io/__init__.py")],
    observe=["Graph.read", "Graph.write", "GraphSnapshot.read", "GraphSnapshot.write"],
)
prop(
    "C30",
    "Copies and pickles equal the original and keep working",
    "Copying (copy, deepcopy, model_copy) or pickling any frozendict, partition key, type, storage, version, artifact, producer, partition, view, box, graph or snapshot gives one of the same class, content, hash and fingerprint that is usable in place of the original, also where hashes differ (in another process). "
    "model_copy with updates is as if made of the updated fields, and leaves the original as it was. "
    "Boxes keep their contents and whether they are open; these are shared by a shallow copy, its own for a deep copy or a pickle, and common to a box and the boxes nested in it. "
    "The copy of a sealed graph stays sealed, reports the same dependencies and builds the same snapshot and data; the copy of a snapshot reads the same data; extending a deep copy of an open graph does not change the original.",
    ["inputs", "configurations", "histories"],
    "All values of the copied fields and keys within small bounds, one and two steps of copying; a graph of two raw artifacts, one producer and a nested box, before and after a build.",
    "Tests copy one graph that was never built and pickle one fingerprint; nothing is unpickled where hashes differ.",
    [S + "graphs/__init__.py", S + "internal/mappings.py", S + "internal/models.py", S + "backends/memory.py", S + "fingerprints/__init__.py", S + "artifacts/__init__.py", S + "partitions/__init__.py"],
    [("Model.model_copy / __copy__", S + "internal/models.py"), ("frozendict.__reduce__ / TypedBox", S + "internal/mappings.py"), ("Graph.__getstate__ / GraphSnapshot", S + "graphs/__init__.py"), ("_NoCopyContainer", S + "backends/memory.py")],
    observe=["copy.copy", "copy.deepcopy", "model_copy", "pickle.loads(pickle.dumps(...))", "Graph.build", "GraphSnapshot.read"],
)
prop(
    "C31",
    "Models accept exactly well-typed, complete input and never change",
    "A model is made exactly when its class is not abstract, every field without a default is given, no other is, and every value (defaults included) has the hint of its field. Nothing is converted, except mappings to frozendict, integers where a float is asked for, instances of subclasses of a primitive to the plain class, and a dictionary of a model's fields to that model; content that cannot be hashed is rejected. "
    "Afterwards no field can be set or deleted, and later changes to what was given do not show. "
    "Two models are equal exactly when their class and content are, and equal ones hash alike. A model is shown with exactly the fields that were given.",
    ["inputs", "configurations"],
    "All values of the usual primitives, dates, tuples, mappings, unions, Literals and nested models within small bounds, given to fields of each of those hints.",
    "Tests give models a handful of right and wrong values, and try one assignment.",
    [S + "internal/models.py", S + "internal/type_hints.py", S + "internal/mappings.py"],
    [("Model._strict_types / __init__ / _iter", S + "internal/models.py"), ("lenient_issubclass / type hint helpers", S + "internal/type_hints.py"), ("frozendict", S + "internal/mappings.py")],
    observe=["Model(...)", "setattr / delattr", "==", "hash", "repr"],
)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
