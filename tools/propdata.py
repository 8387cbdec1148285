prop("C01", "Numeric constraints decide exactly the numbers their keywords admit",
 "A number or integer constraint accepts a JSON number if and only if it satisfies every keyword that was set: minimum and maximum (strict when marked exclusive), multipleOf and enum, and, for integer, having no fractional part. The order in which keywords are set does not matter, and a keyword set again replaces the earlier one. An integer constraint judges Go integers of every width and floating point values, and a number constraint floating point values (as JSON decoding yields them), or pointers to these, and both reject every value that is not a number.",
 [I, C], "every numeric value of every Go numeric kind, every bound, every combination of keywords and their order", 
 "number_test.go tries a few values; the interplay of bounds, exclusivity, multiples and enum holds over an infinite numeric domain",
 ["number.go", "enum.go", "interface.go"], [("NumberConstraint.Validate and IntegerConstraint.Validate", "number.go"), ("EnumConstraint.Validate", "enum.go")],
 [("minimum/maximum/exclusive*/multipleOf/enums", "keywords set on the constraint", "interface.go NumberConstraint")], ["the error returned by Validate"])
prop("C02", "String constraints decide exactly the strings their keywords admit",
 "A string constraint accepts a value if and only if it is a string whose length in characters is within minLength and maxLength, that matches the pattern, is listed in the enum and conforms to the format; keywords that were not set impose nothing, their order does not matter, and a keyword set again replaces the earlier one. email, uri and date-time admit what the corresponding standard parsers admit (net/mail, net/url, RFC 3339), ipv4 exactly the dotted and ipv6 exactly the hexadecimal addresses net.ParseIP knows, hostname dot-separated labels of 1 to 63 letters, digits, underscores and inner hyphens with at least one letter or underscore among them (a final dot allowed, 255 bytes at most), and unknown formats impose nothing.",
 [I, C], "every string, every bound, pattern, enum and format, in every combination",
 "string_test.go samples a few strings per format; lengths, multi-byte text and combinations of keywords are unbounded",
 ["string.go", "enum.go"], [("StringConstraint.Validate", "string.go"), ("EnumConstraint.Validate", "enum.go")],
 [("minLength/maxLength/regexp/format/enums", "keywords set on the constraint", "interface.go StringConstraint")], ["the error returned by Validate"],
 note="Parsers of the standard library (mail, url, net, time, regexp) are uninterpreted predicates: the check decides that the verdict is theirs, not what they accept.")
prop("C03", "Boolean, null, empty and enum constraints and the validator root verdict",
 "A boolean constraint accepts exactly booleans, the null constraint exactly null, the empty constraint everything, and an enum constraint exactly the values equal to a listed one. A validator accepts a value if and only if its root constraint does, whatever its name, and returns an error otherwise.",
 [I, C], "every JSON value, every list of enum values, every validator name and root constraint",
 "the tests use a handful of literals and one root constraint",
 ["bool.go", "basic.go", "enum.go", "jsval.go"], [("Validate methods", "bool.go, basic.go, enum.go"), ("JSVal.Validate", "jsval.go")], (), ["the error returned by Validate"])
prop("C04", "all / any / one-of / not combine verdicts as boolean algebra",
 "For every list of member constraints, all-of accepts a value when every member does, any-of when at least one does, one-of when exactly one does, and not when its member does not. The simplified form of a combination of members decides the same values as the combination.",
 [I, C], "any number of members with arbitrary verdicts, in every order and nesting",
 "no test covers lists beyond two or three members, nor all verdict combinations",
 ["combinations.go"], [("Validate of AllConstraint, AnyConstraint, OneOfConstraint, NotConstraint", "combinations.go"), ("Reduce", "combinations.go")],
 [("constraints", "members, in order of addition", "interface.go comboconstraint")], ["the error returned by Validate"])
prop("C05", "A reference behaves exactly like the constraint it names",
 "A reference gives the same verdict and default as the constraint registered under its name, through any chain of references, whichever link is used first, and however late the name is registered before first use; it refers to the name it was given last. A name that was never registered makes validation fail with an error.",
 [I, H], "every registration order and history, every name, every chain of references",
 "tests resolve one fixed reference after registration",
 ["reference.go"], [("ConstraintMap.SetReference/GetReference", "reference.go"), ("ReferenceConstraint.Resolved", "reference.go")],
 [("refs", "name to constraint", "reference.go ConstraintMap"), ("resolved", "cached target", "reference.go ReferenceConstraint")], ["the error returned by Validate", "DefaultValue/HasDefault"])
prop("C06", "Array length and uniqueness rules are exact",
 "An array constraint accepts only lists; the number of items must lie within minItems and maxItems; with uniqueItems a list is rejected exactly when two of its items are equal JSON values, so items that differ in kind or value are never confused.",
 [I, C], "lists of every length and content, every bound",
 "array_test.go has a few literal lists",
 ["array.go"], [("ArrayConstraint.Validate", "array.go")], [("minItems/maxItems/uniqueItems", "keywords set on the constraint", "interface.go ArrayConstraint")], ["the error returned by Validate"])
prop("C07", "Every array item is checked against the constraint that applies to it",
 "With one item constraint every item must satisfy it; with positional constraints the n-th item must satisfy the n-th, and items beyond them must satisfy the additional-items constraint, or are rejected when additional items are forbidden. Missing trailing items are not an error.",
 [I, C], "lists of every length, any number of positional constraints, arbitrary verdicts per item",
 "array_test.go checks one short tuple",
 ["array.go"], [("ArrayConstraint.Validate", "array.go")], [("items/positionalItems/additionalItems", "item constraints", "interface.go ArrayConstraint")], ["the error returned by Validate"])
prop("C08", "Every object property is judged by exactly the rules that apply to it",
 "An object constraint accepts only objects. A declared property is judged by its declaration; any other property by every pattern that matches its name; and one that neither is declared nor matches by the additional-properties rule, which rejects when additional properties are not allowed. The object is accepted only if every property is.",
 [I, C], "objects of any size, arbitrary property names and values, any declarations, patterns and additional-properties rule, every iteration order",
 "object_test.go has a few literal objects; map iteration order and pattern overlap are not explored",
 ["object.go"], [("ObjectConstraint.Validate", "object.go")], [("properties/patternProperties/additionalProperties", "property rules", "interface.go ObjectConstraint")], ["the error returned by Validate"],
 note="Exact for up to two properties and two rules of each kind (every iteration order); one property among any number of others through a summary entry.")
prop("C09", "Required, property-count and dependency rules are enforced for any property",
 "An object is rejected when it lacks a required property, has fewer than minProperties or more than maxProperties properties, has a property but lacks one it depends on, or has a property whose schema dependency the whole object breaks. This holds whether the properties concerned are declared, match a pattern or are additional, and nothing else about these rules makes an object invalid.",
 [I, C], "every presence combination of declared, pattern and additional properties, every iteration order",
 "object_test.go checks declared properties only",
 ["object.go"], [("ObjectConstraint.Validate", "object.go"), ("IsPropRequired, GetPropDependencies, GetSchemaDependency", "object.go")],
 [("required/minProperties/maxProperties/propdeps/schemadeps", "object rules", "interface.go ObjectConstraint")], ["the error returned by Validate"])
prop("C10", "Validation fills in defaults for absent properties and modifies nothing else",
 "After a map or pointer-to-struct object was accepted, every absent, non-required declared property whose constraint has a default holds that default, every other property and field holds what it held before, and nothing else was added or removed, also in nested objects. A default that cannot be stored is reported as an error, not a panic; a struct with a SetPropValue method is given its defaults through it. Validation never modifies any other part of the input, nor the constraints.",
 [I, C], "every presence combination, every kind of default, maps and structs with Maybe fields, nested objects, every kind of constraint and input",
 "object_test.go fills in one or two literals; absence of other writes cannot be tested",
 ["object.go", "maybe.go", "reference.go", "combinations.go"], [("ObjectConstraint.Validate, setProp/setPropValue", "object.go"), ("Default/HasDefault/DefaultValue", "jsval.go and constraint files")],
 [("defaultValue", "default of a constraint", "interface.go defaultValue")], ["the validated map or struct after Validate", "every write to memory reachable from the input"])
prop("C11", "Maybe types hold exactly the value that was set, and nothing after a reset",
 "A Maybe starts out invalid; after setting or decoding a suitable value it is valid and holds exactly that value; an unsuitable value is refused with an error and changes nothing; after a reset it is invalid and can be set again. Encoding gives the JSON of the plain value, and decoding accepts exactly what the plain type accepts.",
 [I, H], "every value of every kind, every prior state, every sequence of set, reset and decode",
 "maybe_test.go checks one value per type",
 ["maybe.go", "maybe_gen.go"], [("Set/Reset/Value/Valid, UnmarshalJSON/MarshalJSON", "maybe.go, maybe_gen.go")],
 [("ValidFlag", "whether a value is held", "maybe.go")], ["Valid, Value, returned errors and encoded bytes"],
 note="JSON null is left unspecified. encoding/json on plain Go values is an uninterpreted codec.")
prop("C12", "A struct is judged as the object its exported fields make",
 "Validating a struct, or a pointer to one, gives the verdict the object would get that has one property per exported field, named by its json tag and valued by the field: fields tagged \"-\" and unexported fields are no properties, promoted fields are, Maybe fields are present exactly when valid and count as their value. This holds for declared, required, pattern and additional properties, counts and dependencies, for nested structs, and whatever types were validated before. A type with its own property accessors is judged by those, and by its fields where they fail.",
 [I, C, H], "arbitrary field values, every presence combination of Maybe fields, every order in which types are first seen",
 "object_test.go has two struct types with fixed contents",
 ["object.go", "structinfo.go", "maybe.go"], [("getPropNames/getProp", "object.go"), ("structinfo field registry", "structinfo.go")],
 [("StructInfoRegistry", "field names per type", "interface.go")], ["the error returned by Validate"],
 note="One representative struct type with every kind of tag and embedding by value; embedding through pointers and tag collisions are not claimed.")
prop("C13", "A validator built from a schema enforces exactly its scalar keywords",
 "A validator built from a schema accepts a JSON value if and only if the value satisfies the schema's type and its numeric, string, format and enum keywords; absent keywords impose nothing, and exclusive bounds count only when true. Without a type, the keywords or enum values tell which types are meant. Defaults of string, number, integer and boolean schemas become the defaults of the properties they describe, also next to an enumeration or combinations.",
 [I, C], "every combination of keywords with arbitrary values, every JSON value",
 "builder_test.go checks only guessed types; schema tests use a few fixed documents",
 ["builder/builder.go", "builder/number.go", "builder/string.go", "builder/bool.go"], [("buildFromSchema, guessSchemaType", "builder/builder.go"), ("build*Constraint", "builder/*.go")], (), ["the validator's verdict"],
 note="Whether an untyped numeric schema admits fractional numbers is left to the documented type guess.")
prop("C14", "A validator built from a schema enforces its array, object and combination rules",
 "A validator built from a schema accepts exactly the values that satisfy every array, object and combination keyword of the schema (items, positional and additional items, counts, uniqueness; properties, patterns, additional properties, required, counts, dependencies; type lists; not, allOf, anyOf, oneOf, also side by side), at every depth. Building fails with an error when any part of the schema has an unknown type.",
 [I, C], "every combination of these keywords over arbitrary subschemas and values",
 "tests build a few fixed schemas",
 ["builder/builder.go", "builder/array.go", "builder/object.go"], [("buildFromSchema", "builder/builder.go"), ("buildArrayConstraint", "builder/array.go"), ("buildObjectConstraint", "builder/object.go")], (), ["the validator's verdict", "the error returned by Build"],
 note="Subschemas admit an arbitrary set of strings; lists of up to three items, objects of up to four properties.")
prop("C15", "References in a schema stand for the schemas they refer to",
 "In a validator built from a schema, every $ref admits exactly what the schema it points to admits, wherever it stands, through chains of references and for schemas that refer to themselves, looked up in the document given or, without one, in the schema itself; a property described by a reference has the default of the schema referred to. A reference that does not lead to a schema makes building fail with an error, never a panic or a validator that fails later.",
 [I, C], "every place a reference can stand in, chains, recursion, broken references; every order in which references are compiled",
 "tests resolve one reference; compilation order is random",
 ["builder/builder.go", "builder/reference.go", "reference.go"], [("BuildWithCtx, compileReferences", "builder/builder.go")], [("buildctx.R", "references still to compile", "builder/builder.go")], ["the validator's verdict", "the error returned by Build"],
 note="References are JSON pointers into schemas or decoded JSON; jsref and jspointer are analysed from source.")
prop("C16", "Building and using validators leaves schemas alone and validators apart",
 "Building a validator, whether it succeeds or fails, and using it never modifies the schema or the document references are looked up in. Every build makes a new validator that shares no reference table with others, so validators built by one builder or from one schema never influence each other.",
 [I, H], "every kind of schema, every sequence of builds and validations",
 "a test can compare a few fields; absence of writes on all paths cannot be sampled",
 ["builder/builder.go", "builder/array.go", "builder/object.go"], [("buildFromSchema", "builder/builder.go")], (), ["every write to memory reachable from the schema", "verdicts of several validators"])
prop("C17", "Generated validators decide scalars like the originals and keep defaults",
 "For every validator made of number, integer, string, boolean, null, empty and enum constraints, the generator emits Go code that compiles, sets up a validator under the validator's name that accepts exactly the values the original accepts (bounds of full precision, exclusivity, multiples, lengths, patterns, formats and enumerated values of every JSON kind included), and has the same default, with the same type.",
 [I, C, PR], "every combination of keywords with arbitrary operands, every JSON value",
 "one schema is generated and committed (generated_validator_test.go); emitted programs for other schemas are never compiled, let alone compared",
 ["generator.go", "number.go", "string.go", "enum.go"], [("generateNumberCode, generateIntegerCode, generateStringCode, generateEnumCode", "generator.go"), ("Generator.Process", "generator.go")], (), ["the program text written by Generator.Process, type-checked and analysed", "verdicts and defaults of the validator it sets up"],
 note="Finite numbers only. Formats ipv4, ipv6 and hostname with fixed sample values, other formats with arbitrary text.")
prop("C18", "Generated validators decide arrays, objects and references like the originals",
 "For every validator made of combinations, arrays, objects and references (nested, recursive, shared between several validators), the generator emits Go code that compiles and sets up validators that accept exactly the values the originals accept and fill in the same defaults: items, positional and additional items also when forbidden, sizes, uniqueness, properties, required, patterns, additional properties, dependencies of both kinds, empty combinations.",
 [I, C, PR], "every combination of these keywords over arbitrary member constraints and values",
 "one schema is generated and committed; emitted programs for other schemas are never compiled, let alone compared",
 ["generator.go", "array.go", "object.go", "combinations.go", "reference.go"], [("generateArrayCode, generateObjectCode, generateComboCode, generateReferenceCode, generateValidatorCode", "generator.go"), ("Generator.Process", "generator.go")], (), ["the program text written by Generator.Process, type-checked and analysed", "verdicts of the validators it sets up"],
 note="Members admit an arbitrary set of strings; lists of up to three items, objects of up to three properties, patterns with distinct sources, reference names that mean the same constraint in all validators of one call.")
prop("C19", "Schema text is only ever data in generated code",
 "Property names, required and dependency names, patterns, enumerated and default texts, formats and reference names made of any characters (quotes, backslashes, percent signs, newlines, control characters) appear in generated code as literals with exactly that value, at every nesting depth: generated code always compiles and no text of a schema becomes code or is altered.",
 [I, PR], "every text, in every place a schema can hold text",
 "tests generate code only for texts made of plain letters",
 ["generator.go"], [("strconv.Quote at every emission", "generator.go"), ("generateCode", "generator.go")], (), ["the program text written by Generator.Process, type-checked and analysed"])
prop("C20", "Generated code is a function of the validators alone",
 "Generating code for the same validators always yields the same text: it does not depend on map iteration order, on the order in which properties, required names or references were added, or on the order in which validators are listed.",
 [I, H, S], "every iteration order of every map",
 "map iteration order is random; a test sees one order per run",
 ["generator.go"], [("sorted names in Process and generateObjectCode", "generator.go")], (), ["the program text written by Generator.Process"],
 note="Maps of up to three entries are visited in every order.")
prop("C21", "Code generation is all or nothing and only reads its inputs",
 "When code cannot be generated (a foreign constraint or a value without a textual form anywhere in the validator, a default of the wrong type for a string, text that does not parse) or cannot be written, Process returns an error, and in the former case writes nothing. It never modifies a named validator, its constraints or the caller's list of validators.",
 [I, F], "every position of the offending part, every failure of the writer",
 "no test exercises an error of the generator",
 ["generator.go"], [("Generator.Process", "generator.go"), ("generateCode", "generator.go")], (), ["the error returned by Process", "writes to the writer", "every write to memory reachable from the validators"])
prop("C22", "Validators, builders and reference tables can be used concurrently",
 "Several goroutines may validate values of their own with one validator, and with validators that share constraints or a reference table, resolve references, register references, declare properties, required names, patterns and dependencies, build validators with one builder or from one schema, and generate code from validators that are not being modified, all at the same time, without a data race.",
 [S], "every pair of operations, each with every path it can take, the first time and again",
 "the race detector reports only races between accesses that a test happens to make concurrently",
 ["object.go", "reference.go", "jsval.go", "builder/builder.go", "generator.go"], [("proplock, reqlock", "object.go"), ("ConstraintMap.lock, ReferenceConstraint.lock", "reference.go")],
 [("shared memory", "everything reachable from the shared objects", "object.go, reference.go")], ["pairs of conflicting accesses without a common lock or ordering"],
 note="Locks and sync.Once/atomic ordering of the analysed code; each goroutine validates a value of its own.")
prop("C23", "Locks are always released and never deadlock",
 "Validating, resolving, building and generating release every lock they take, on every path: also when a member constraint or a resolver fails, panics, or uses the object or the reference table it belongs to. No operation waits for a lock it already holds, and operations that can run at the same time take locks in one order, so validation of nested and self-referring constraints always proceeds.",
 [S, F], "every path of every operation, including panics and reentrant use by member constraints",
 "a deadlock or leaked lock needs a particular path or interleaving",
 ["object.go", "reference.go", "jsval.go"], [("proplock, reqlock", "object.go"), ("ConstraintMap.lock, ReferenceConstraint.lock", "reference.go")],
 [("locks held", "by the analysed goroutine", "object.go, reference.go")], ["locks held when an operation returns or panics", "lock acquisition order"])
prop("C24", "Validation and building never panic",
 "Validating any Go value (nil, nil pointers and maps, named types, structs, functions, values of kinds JSON does not have) with any constraint ends with a verdict, and building a validator from any schema (no schema at all, enumerations and defaults of any kind under any type, empty lists, unknown types and formats, broken references) ends with either a validator or an error; neither ever panics.",
 [I, F], "every kind of Go value against every kind of constraint, every odd schema",
 "tests validate well-formed values against well-formed schemas",
 ["object.go", "array.go", "number.go", "string.go", "enum.go", "builder/builder.go"], [("Validate methods", "*.go"), ("Build, BuildWithCtx", "builder/builder.go")], (), ["panics"],
 note="Member constraints that do not panic themselves. References of a schema to a list member of itself are a known finding of C15.")
prop("C25", "The jsval command reports its outcome and writes exactly the generated code",
 "jsval exits with status 0 exactly when the schema file was read and decoded, every pointer led to a schema, validators were built and generated, and the code was written; otherwise it exits with another status. On success the output file, or standard output when none is named, holds exactly the code generated for the validators, one per pointer in the order given (the whole document when none is given), named by the prefix and their index. Nothing is printed when an output file is named, and no file is touched when validators could not be built. The server subcommand listens at the address given, or :8080, and fails with the error of the server.",
 [I, C, F], "every combination of documented options, every document, every failure of reading, building, generating or writing",
 "the command has no tests; failures of files cannot be sampled exhaustively",
 ["cmd/jsval/jsval.go"], [("_main, _cli, _server", "cmd/jsval/jsval.go")], (), ["exit status", "contents of files and standard output"],
 note="The operating system, go-flags and the HTTP listener are modelled in harness/models; a generation failure after building may truncate the output file.")
prop("C26", "The playground answers every request with the generator's own result",
 "The playground server answers every request once and never panics, whatever method and body it is sent: / with the index page, /generate.json always with status 200 and a JSON object, anything else with 404. The object holds success true and exactly the code the generator yields for the schema sent (references are looked up in the document sent) when the body can be read, decoded, built and generated, and otherwise success false with a message and no code. Requests do not influence each other, may be answered concurrently and leave no lock held.",
 [I, H, S, F], "every request body, path and failure of reading, every sequence of requests",
 "the server has no tests",
 ["server/server.go"], [("httpGenerate, httpIndex, newServer", "server/server.go")], (), ["status, headers and body of the response"],
 note="net/http, html/template and encoding/json streams are modelled in harness/models.")
prop("C27", "Verdicts are repeatable and independent of earlier validations",
 "The verdict of a constraint on a value does not depend on which values were validated before, by it or by any other constraint, nor on which struct types were seen before; validating the same value again yields the same verdict, also after defaults were filled in, provided the defaults satisfy their own constraints, trigger no dependency and exceed no limit on the number of properties.",
 [I, H], "every sequence of two validations of any values by any kind of constraint",
 "tests validate with fresh constraints; order-dependent state shows up only in histories nobody sampled",
 ["object.go", "array.go", "number.go", "string.go", "enum.go", "reference.go", "jsval.go"], [("Validate methods", "*.go"), ("struct type registry", "structinfo.go")], [("caches", "state kept between validations", "*.go")], ["verdicts of successive validations"])
