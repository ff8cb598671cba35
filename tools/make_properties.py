#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so long texts stay reviewable)."""
import json, os
L = "crates/mirror-mirror/src/"
D = "crates/mirror-mirror-macros/src/derive_reflect/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=hook)))

p("C01", "Values survive the round trip through the type erased representation",
  "Converting any reflected value to a type erased value and reading it back as its own type gives a value with the same reflected content, for every supported type: derived structs, tuple structs and enums with any combination of skipped fields, and every built-in scalar, non-zero, option, result, box, list, array, map, tuple, range and maths type. The type erased value itself shows exactly the reflected fields, in declaration order, with the same names, variant and kind (arrays become lists, non-zero integers become their scalar and durations their seconds as an f32, so that a duration read back is only as precise as that). Skipped fields come back as their default.",
  ["inputs", "programs"], "all reflectable types and all their values",
  "Tests convert a handful of hand-picked types; the derive output depends on the shape and the attributes of the type, and values are unbounded.",
  [L+"lib.rs", L+"value.rs", L+"foreign_impls/", D+"struct_named.rs", D+"tuple_struct.rs", D+"enum_.rs"],
  [("to_value / from_reflect generated by the derive", D), ("to_value / from_reflect of built-in types", L+"foreign_impls")],
  ["Reflect::to_value", "FromReflect::from_reflect"])

p("C02", "All ways of accessing a field of a value agree",
  "For every reflected value, looking a field up by name, by index, through shared or mutable access and by iterating shows the same fields, in declaration order without the skipped ones, with the same names and contents as the underlying Rust value; indices are 0 to the reported length and anything else is absent. Writing through any mutable access changes exactly that field of the underlying value and nothing else. Variant name, variant kind and number of fields and variants match the underlying value. A value in a skipped variant shows its variant and no fields.",
  ["inputs", "programs"], "all reflectable types (every mask of skipped fields and variants), all values, all accessors, all fields",
  "Tests look at a few fields of a few types; the accessors are generated independently of each other for every type, so any of them can disagree for one shape.",
  [D+"struct_named.rs", D+"tuple_struct.rs", D+"enum_.rs", L+"struct_.rs", L+"enum_.rs", L+"tuple.rs", L+"tuple_struct.rs", L+"foreign_impls/"],
  [("generated accessors", D+"*::expand_struct / expand_tuple_struct / expand_enum"), ("accessors of type erased values", L+"struct_.rs, enum_.rs, tuple.rs, tuple_struct.rs, value.rs")],
  ["Struct", "TupleStruct", "Tuple", "Enum", "Array", "List", "Map"])

p("C03", "Patching changes what the patch mentions and nothing else",
  "Patching a value overwrites recursively the parts the patch has with matching name, index, key or variant and compatible type, and leaves everything else as it was: missing, extra or incompatible parts of the patch never change, add or remove anything and never panic. Lists and maps keep their length and keys; an enum takes over the patch when the patch can be read as that enum, (as a whole: its skipped fields then start from their defaults), and is otherwise patched field by field when the variants are the same. Patching a value with (the type erased form of) another value of its type makes it equal to that value, up to list lengths and map keys, and patching twice is the same as patching once.",
  ["inputs", "programs"], "all pairs of a target and a patch, of any types",
  "The behaviour depends on the pair of shapes; tests patch a few matching pairs and nearly no mismatching or partially matching ones.",
  [L+"lib.rs", L+"value.rs", L+"struct_.rs", L+"enum_.rs", L+"tuple.rs", L+"tuple_struct.rs", L+"foreign_impls/", D+"struct_named.rs", D+"tuple_struct.rs", D+"enum_.rs"],
  [("Reflect::patch implementations", "one per type, generated for derived types")], ["Reflect::patch"])

p("C04", "Reflected lists and maps behave like the collections behind them",
  "For any sequence of reflected operations on a list (push, pop, remove at an index, get, change in place, iterate, length) and on a map (insert, remove, get, change in place, iterate, length), the results and the final contents are the same as for the same operations on the ordinary collection. An argument that cannot be converted to the element, key or value type leaves the collection unchanged. This holds for typed and for type erased collections.",
  ["histories", "inputs"], "all operation sequences, on all element, key and value types",
  "Tests run one or two short fixed sequences; the claim is about every history of operations.",
  [L+"foreign_impls/vec.rs", L+"foreign_impls/btree_map.rs", L+"foreign_impls/array.rs", L+"list.rs", L+"map.rs", L+"array.rs"],
  [("List, Array and Map implementations", L+"foreign_impls")], ["List", "Array", "Map"])

p("C05", "Key paths reach exactly the addressed part of a value",
  "Following a key path through a value returns the part that stepping through it key by key with field, index, map key and variant access reaches, and nothing when any step does not apply; lists and arrays accept every integer type as index and no out of range, negative or non-integer index. The shared, mutable and typed ways of following a path agree, and writing through a path changes that part of the value and nothing else. It never panics.",
  ["inputs"], "all values and all key paths",
  "The space of (value, path) pairs, most of which must yield nothing, is sampled by tests in about a dozen points.",
  [L+"key_path.rs"], [("GetPath::at / at_mut / get_at / get_at_mut", L+"key_path.rs"), ("value_to_usize", L+"key_path.rs")], ["GetPath"])

p("C06", "Type queries by key path agree with the values found there",
  "Whenever a key path leads to a part of a value (entering enums through their variant), the same path followed through the type of that value leads to a type description that describes that part: same kind, same type name and, for variants, same variant. A path through the type that no value could ever follow, such as an unknown field, index or variant, leads to nothing, and following a path in two steps is the same as following it in one. (What the type says about an array index past the end or a map key of another type is not part of this.)",
  ["inputs", "programs"], "all types, all their values and all key paths",
  "Values and types are navigated by separate code; tests compare them on a handful of paths.",
  [L+"type_info/mod.rs", L+"key_path.rs"], [("GetTypePath::type_at", L+"type_info/mod.rs"), ("GetPath::at", L+"key_path.rs")], ["GetTypePath::type_at"])

p("C07", "Type descriptors describe the type faithfully",
  "The type descriptor of every reflectable type, recursive and mutually recursive types included, is built in finite time and lists exactly the kind, type name, non-skipped fields and variants in declaration order with their names and types, element, key and value types and array length of the Rust type, all the way down. The descriptor of a part taken out of a larger descriptor is that of the part's own type, and different types never share a description, even when they have the same name or are instances of the same generic type.",
  ["programs"], "all reflectable types",
  "The descriptor is derived per type from its shape, so every shape is a new case; tests look at a few.",
  [L+"type_info/mod.rs", L+"type_info/graph.rs", D+"struct_named.rs", D+"tuple_struct.rs", D+"enum_.rs", L+"foreign_impls/"],
  [("DescribeType::build and the graph of nodes", L+"type_info/graph.rs"), ("typed views of the graph", L+"type_info/mod.rs")], ["DescribeType::type_descriptor"])

p("C08", "Reflected equality means equal content",
  "Two reflected values compare equal exactly when they have the same kind and the same content: same fields by name, same elements in order, same keys and values, same variant, same scalar type and value; a value always equals its own clone and, up to arrays becoming lists, its type erased form. Equality is symmetric and transitive, and is never reported as equal or panics when an opaque part makes the answer unknown.",
  ["inputs"], "all pairs and triples of reflected values",
  "Equality is a relation on all pairs; tests compare a few.",
  [L+"reflect_eq.rs", L+"lib.rs"], [("reflect_eq", L+"reflect_eq.rs"), ("PartialEq for dyn Reflect", L+"lib.rs")], ["reflect_eq", "<dyn Reflect>::eq"])

p("C09", "Type erased values have lawful equality, ordering and hashing",
  "Equality of type erased values is an equivalence, ordering is a total order consistent with it, and equal values hash equally, for every kind of value including floats such as NaN and negative zero, nested structures and maps. Values that differ in kind, scalar type, name, field or content are not equal. Values can therefore be used as map keys: every key inserted in a map is found again.",
  ["inputs"], "all triples of type erased values",
  "The laws quantify over pairs and triples of values; no test checks them.",
  [L+"value.rs", L+"struct_.rs", L+"enum_.rs", L+"tuple.rs", L+"tuple_struct.rs"],
  [("PartialEq, Ord and Hash of Value", L+"value.rs")], ["Value"])

p("C10", "Serialized values, key paths and type descriptors read back unchanged",
  "Every type erased value, key path, and type descriptor, written in the binary (speedy) or, where the format has a notation for it, the text (JSON) format, reads back as an equal one that behaves the same: same content, same field order, same type information. Reading truncated or corrupted bytes from a buffer returns an error or some value, and never panics.",
  ["inputs", "fault_sequences"], "all values, key paths and type descriptors, in both formats; all truncations and single byte corruptions",
  "Tests serialize one value; the formats have to work for every variant of every serializable type.",
  [L+"value.rs", L+"key_path.rs", L+"type_info/graph.rs", L+"type_info/mod.rs", L+"struct_.rs", L+"enum_.rs", L+"tuple.rs", L+"tuple_struct.rs"],
  [("serde and speedy derives", L)], ["serde", "speedy"])

p("C11", "Clones are equal and independent",
  "Cloning any reflected value, whether by reflection, as a boxed value or as the owned form of a reference, gives a value of the same concrete type with the same reflected content, also for types that opt out of cloning themselves. Changing either of the two afterwards never changes the other.",
  ["inputs", "programs"], "all types, all values, all single changes to either copy",
  "Cloning is implemented per type and partly through conversion; tests clone a few values and check no independence.",
  [L+"lib.rs", L+"foreign_impls/", D+"attrs.rs", L+"value.rs"], [("clone_reflect", "one per type"), ("ToOwned for dyn Reflect", L+"lib.rs")], ["Reflect::clone_reflect"])

p("C12", "Type erased values can be built up in any order of steps",
  "Any sequence of building steps on a type erased struct, tuple struct, tuple or enum value (setting, replacing and appending fields, collecting from an iterator, converting, changing through mutable access) gives exactly the value those steps describe: fields keep the order in which they were first set, setting a field again replaces it, appended fields are last. Values built by different routes with the same fields are equal.",
  ["histories"], "all sequences of building steps",
  "Tests build a few values with distinct fields in one order.",
  [L+"struct_.rs", L+"enum_.rs", L+"tuple.rs", L+"tuple_struct.rs", L+"value.rs"],
  [("StructValue, TupleStructValue, TupleValue, EnumValue and its builders", L)], ["StructValue::set_field", "EnumValue", "TupleValue", "TupleStructValue"])

p("C13", "Default values exist exactly when announced and fit the type",
  "For every type, a default value is available exactly when the type information says so, at the type itself and at every part of it. The default value can be read back as the type, and consists of zero, empty and first-variant defaults of its parts.",
  ["programs"], "all reflectable types and all their parts",
  "Defaults are computed from the type description of every type; tests check a few types.",
  [L+"type_info/mod.rs"], [("default_value / has_default_value on every type view", L+"type_info/mod.rs")], ["TypeDescriptor::default_value"])

p("C14", "Visiting a value visits every leaf once, in order, until the first error",
  "Visiting a value with its type description calls the visitor exactly once for every scalar and opaque part of it, with the right scalar type and value, in declaration order of fields and in iteration order of lists and maps (key before value). The first error a visitor returns is returned unchanged and no further part is visited.",
  ["inputs", "fault_sequences"], "all types, all values, and an error at any position",
  "Tests visit a small struct; the order and completeness depend on the shape of the value and where the error occurs.",
  [L+"try_visit.rs"], [("try_visit", L+"try_visit.rs")], ["try_visit::try_visit"])

p("C15", "Type descriptors are the same from every thread, under any schedule",
  "Whatever the interleaving, any number of threads asking for type descriptors of the same or different types at the same time all get correct descriptors of the types they asked for, and every request for the same type, at any time and from any thread, gets the one cached descriptor. No schedule deadlocks, also when describing a type asks for other descriptors or panics; a panic while describing one type does not affect the others or later requests.",
  ["schedules"], "all interleavings of concurrent and re-entrant descriptor requests",
  "Tests are single threaded as far as this cache is concerned and cannot choose the schedule.",
  [L+"type_info/mod.rs"], [("process wide cache of type descriptors", L+"type_info/mod.rs DescribeType::type_descriptor")], ["DescribeType::type_descriptor"],
  "--cfg mirror_mirror_model_check replaces the lock of the cache by one a scheduler controls")

p("C16", "Kind views, downcasts and boxes all show the same value",
  "Every reflected value presents exactly one kind, and its shared, mutable and owned views, and the convenience accessors for each kind, agree on it and all give access to the same underlying data; the accessors for all other kinds return nothing. Downcasting succeeds exactly for the concrete type, scalar views carry the value's own scalar type, and a boxed value is described, viewed, converted, patched and printed like the value in the box. (Durations and non-zero integers have scalar shared and owned views, but an opaque mutable view, as a scalar could not be written back into them.)",
  ["inputs", "programs"], "all types, all values, all kinds of view",
  "There are dozens of near identical accessors on several view types; tests use a few.",
  [L+"lib.rs", L+"value.rs", L+"foreign_impls/boxed.rs", L+"foreign_impls/via_scalar.rs"],
  [("ReflectRef, ReflectMut, ReflectOwned, ScalarRef, ScalarMut, ScalarOwned", L+"lib.rs"), ("Reflect for Box", L+"foreign_impls/boxed.rs")], ["Reflect::reflect_ref / reflect_mut / reflect_owned", "as_* / into_*", "downcast_ref"])

p("C17", "Key paths are faithful sequences of keys",
  "A key path built with methods, with the macro (from any tokens it accepts), from keys or by extending another one contains exactly the keys given, in order: length, iteration from either end, removal of the last key, breadcrumbs (all non-empty prefixes in growing order) and equality agree with that sequence. Its textual form is the concatenation of its keys' textual forms, and joining paths then following them is the same as following them one after the other.",
  ["histories", "inputs"], "all sequences of key path operations up to a length, over all kinds of keys",
  "Tests build a few paths; the claims quantify over all sequences.",
  [L+"key_path.rs"], [("KeyPath, Key, Breadcrumbs, key_path!", L+"key_path.rs")], ["KeyPath"])

p("C18", "Reading a value as another type succeeds exactly when it fits",
  "Reading any reflected value as any type gives a value exactly when the source has the same kind and can supply every non-skipped part of the type: struct fields by name, tuple and tuple struct fields by position, enum variant by name, all list elements and map entries, arrays of exactly the right length, scalars of exactly the same type, non-zero integers and durations from a representable scalar. The result's content is that of the source's matching parts; otherwise there is no result. It never panics, and custom per-field readers are used for exactly their field.",
  ["inputs", "programs"], "all pairs of a source value and a target type",
  "The outcome depends on the pair of source and target; tests convert matching pairs.",
  [L+"lib.rs", L+"foreign_impls/", L+"value.rs", L+"enum_.rs", L+"struct_.rs", L+"tuple.rs", L+"tuple_struct.rs", D+"struct_named.rs", D+"tuple_struct.rs", D+"enum_.rs"],
  [("FromReflect implementations", "one per type, generated for derived types")], ["FromReflect::from_reflect"])

p("C19", "Simplified type names and pretty printed types are right for every type",
  "The simplified name of every supported type is its full name with the module path of every type in it removed and nothing else changed; a name that is not a Rust type path, tuple, array or reference, or that has keywords or closures in it, gives an error. Pretty printing any type prints its name, fields, variants, element types and length as declared, using simplified names, whatever format options it is printed with, and only fails where the writer does.",
  ["programs", "inputs"], "all reflectable types and all type names",
  "Names are parsed and printed recursively, so every nesting is a new case; tests print a few.",
  [L+"type_info/simple_type_name.rs", L+"type_info/pretty_print.rs"], [("SimpleTypeName", L+"type_info/simple_type_name.rs"), ("PrettyPrintRoot", L+"type_info/pretty_print.rs")], ["SimpleTypeName", "pretty_print_root"])

p("C20", "Typed field getters return the field exactly when its type matches",
  "Getting a field by name, index or map key as a concrete type, from any kind of value, shared or mutable, returns a reference to that field's data exactly when the field exists and has that type, and nothing otherwise. Writing through it changes that field only.",
  ["inputs"], "all values, all keys and all requested types",
  "There is one implementation per kind, key type and mutability; tests use a few combinations.",
  [L+"get_field.rs"], [("GetField and GetFieldMut", L+"get_field.rs")], ["GetField::get_field", "GetFieldMut::get_field_mut"])

p("C21", "Meta data and doc comments are found exactly where they were written",
  "Every meta data entry and doc comment written on a type, variant or field is available on the description of that item with the value written, in the order written, also for skipped-field neighbours, nested and path-addressed items; keys that were not written are absent. Nothing leaks from one item to another.",
  ["programs"], "all placements of meta data and doc comments on types, variants and fields",
  "Attributes are forwarded by separate code for every kind of item; tests check a few.",
  [L+"type_info/mod.rs", L+"type_info/graph.rs", D+"attrs.rs"], [("GetMeta", L+"type_info/mod.rs"), ("attribute parsing", D+"attrs.rs")], ["GetMeta"])

p("C22", "Iterators report exact lengths and stay finished",
  "After any number of steps, every iterator over fields, elements, entries or keys yields exactly the remaining items in order, reports that number as its length or within its size hint, and keeps returning nothing once it has finished.",
  ["histories", "inputs"], "all iterators, all values, every number of steps",
  "Tests iterate from start to end and do not look at lengths of partially consumed iterators.",
  [L+"struct_.rs", L+"tuple.rs", L+"tuple_struct.rs", L+"array.rs", L+"enum_.rs", L+"map.rs", L+"key_path.rs", L+"iter.rs"],
  [("Iterator, ExactSizeIterator and FusedIterator implementations", L)], ["fields()", "fields_mut()", "iter()", "iter_mut()"])

p("C23", "The derive accepts every supported shape and attribute combination",
  "Deriving reflection compiles, without warnings in the user's crate, for every struct, tuple struct and unit struct shape and every enum with at least one variant, in combination with every supported attribute (skip, custom readers, meta data, doc comments, opting out of debug, clone and, with a conversion of its own where clone or an enum needs one, conversion, renamed crate, generics with bounds), whatever the fields are called. The result implements reflection as the attributes say.",
  ["programs", "configurations"], "all shapes up to a size, times all attribute combinations, times field names",
  "Every combination is a separate program; tests compile a few dozen.",
  [D+"struct_named.rs", D+"tuple_struct.rs", D+"enum_.rs", D+"attrs.rs", D+"mod.rs", "crates/mirror-mirror-macros/src/lib.rs"],
  [("derive macro", "crates/mirror-mirror-macros/src")], ["#[derive(Reflect)]"])

p("C24", "Debug output shows the value",
  "The debug output of a reflected value, plain and pretty printed, is the debug output of the underlying Rust value (for types that opt out of Debug: its type name and reflected fields), and for lists, arrays and maps that of the equivalent standard collection of its parts, whether the value is printed directly, as a trait object of any kind or through a type erased value. Printing never panics.",
  ["inputs", "programs"], "all types and values, both formats",
  "Every type has its own debug implementation; tests do not compare its output.",
  [L+"lib.rs", L+"foreign_impls/", D+"attrs.rs", L+"value.rs"], [("Reflect::debug", "one per type")], ["Debug for dyn Reflect"])

p("C25", "Behaviour does not depend on the enabled features",
  "The library gives the same observable results for the same program whether built with or without the standard library and with or without the optional serialization and maths support: same field access, conversions, patches, paths, equality and type information. (Simplified type names need the standard library, and only with it descriptors are cached.)",
  ["configurations", "inputs"], "all combinations of features",
  "Tests run in one configuration only; the others are only compiled.",
  ["crates/mirror-mirror/Cargo.toml", L+"lib.rs", L+"type_info/mod.rs"], [("cfg(feature) alternatives", L)], ["whole public API"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
