#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text stays reviewable)."""
import json, os
C="derive_builder_core/src/"
O=C+"macro_options/darling_opts.rs"
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
      "anchors":{"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech],"observe_at":observe,"hook_needed":None,
                 **({"state":[{"name":a,"meaning":b,"where":c} for a,b,c in state]} if state else {})}})

p("C01","Set values reach the built struct unchanged; the last write wins",
  "For every struct with named fields and every sequence of calls to its generated setters that gives each field a value, `build` returns `Ok` of a struct in which each field equals the value most recently passed to that field's own setter, independent of the order in which different fields were set. A setter call changes the stored value of its own field only; before the first call every field is unset. Repeated `build` calls, cloned builders and fields of any type, number, position or name (raw and non-ASCII identifiers, names that generated code might use itself) make no difference.",
  ["programs","histories"],"all derivable structs (field counts, types, identifiers) x all setter-call histories",
  "The tests set each field of a few hand-written structs once, in declaration order, with two to four fields; the guarantee is over all structs and all call histories (overwrites, interleavings, clones).",
  [C+"setter.rs",C+"initializer.rs",C+"build_method.rs",C+"builder.rs",C+"builder_field.rs"],
  [("setter body assigns Some(value) to its field",C+"setter.rs Setter::to_tokens"),("initializer reads the same field",C+"initializer.rs Initializer::to_tokens")],
  ["values returned by build()","builder fields after each setter call"],
  [("builder field","Option<T>: None until set",C+"builder_field.rs")])

p("C02","build fails exactly when a required field is unset, and names the first one",
  "A field without a field-level default, struct-level default or skip is required: if any required field is unset, `build` returns `Err` that identifies the first such field in declaration order, and otherwise it does not report a missing field. Failing has no effect on a builder that `build` only borrows: setting the missing field afterwards makes the same builder succeed. `build` never panics and never invents a value for an unset required field.",
  ["programs","histories"],"all structs x all subsets of set fields x all call histories around the failing build",
  "Tests check the error with nothing set, for the first field only; with n required fields there are 2^n subsets and the reported field depends on declaration order.",
  [C+"initializer.rs",C+"build_method.rs","derive_builder/src/error.rs"],
  [("early return per unset field, in declaration order",C+"initializer.rs MatchNone::ReturnError"),("UninitializedFieldError","derive_builder/src/error.rs")],
  ["Result of build()","error variant and field name"])

p("C03","Defaults: precedence, laziness and evaluation environment",
  "An unset field takes its own `default` (the expression, or the type's `Default` for a bare `default`), else the corresponding field of the struct-level default, and a set field never takes either. A field-level default expression is evaluated exactly once per `build` call in which that field is unset and not at all otherwise; a struct-level default is evaluated exactly once per `build` call, before any field; nothing after the first failing field is evaluated. Default expressions, quoted or unquoted, single expressions or statement lists, may read the builder through `self` and leave `build` early with `?` or `return`.",
  ["programs","histories"],"all placements and forms of defaults x all subsets of set fields x repeated builds",
  "Tests build once with all or none of the fields set; the number and order of evaluations, and mixtures of field-level and struct-level defaults with set fields, are never observed.",
  [C+"initializer.rs",C+"default_expression.rs",C+"build_method.rs",C+"block.rs",O],
  [("match on Option with default arm",C+"initializer.rs match_none"),("__default binding",C+"build_method.rs default_struct"),("BlockContents parsing",C+"block.rs")],
  ["values returned by build()","trace of default evaluations"])

p("C04","Skipped fields have no setter and no stored value, and get their default",
  "A field is hidden when its own `setter(skip)` says so, else it is shown when it carries any other field-level `setter` property (`into`, `strip_option`, `prefix`, `name`, `each`) or bare `setter`, else the struct-level `setter(skip)` decides, else it is shown. A hidden field gets no setter of any kind, stores nothing in the builder, never counts as missing, and is built from its own default, else the struct-level default's field, else `Default` of its type, whatever is done to the builder. `setter(custom)` suppresses all generated setters of a field but keeps it in the builder as an `Option` that the user's code can set and that is otherwise treated like any other field.",
  ["programs","histories"],"all combinations of struct-level and field-level skip/custom/other setter properties x defaults x histories",
  "skip-setter.rs samples about ten of the combinations of struct-level skip, field-level setter properties, defaults and generics.",
  [O,C+"initializer.rs",C+"builder_field.rs",C+"setter.rs"],
  [("setter_enabled / field_enabled resolution",O),("PhantomData field",C+"builder_field.rs BuilderFieldType::Phantom")],
  ["presence of methods and fields on the builder","values returned by build()"])

p("C05","Builder patterns: mutable in place, owned by move, immutable by copy",
  "A setter takes and returns `&mut Self` under the mutable pattern (the very builder it was called on, updated), `Self` under owned, and `&Self` to a new `Self` under immutable, where the receiver keeps every field value and the result differs from it in that field only. The pattern of a setter, its fallible variant and its `each` variant is the field's own `pattern`, else the struct's, else mutable; `build` follows the struct's pattern: it consumes an owned builder and otherwise borrows it and leaves every field value as it was, so that it can be called again with the same outcome. Any mixture of struct-level and field-level patterns works with any cloneable field types, and a fully owned builder works with field types that are not `Clone`.",
  ["programs","histories"],"all assignments of patterns to struct and fields x all interleavings of setters, builds and retained older builders",
  "setter_pattern.rs checks one call per pattern on u32 fields; aliasing between receiver and result, repeated builds, and non-Copy fields with mixed patterns are not exercised.",
  [C+"setter.rs",C+"build_method.rs",C+"initializer.rs",C+"options.rs",O],
  [("receiver and return type per pattern",C+"setter.rs"),("clone or move in initializers",C+"initializer.rs match_some"),("requires_clone",O)],
  ["types of setters","builders kept from before a call","repeated build() results"])

p("C06","into and strip_option change only what a setter accepts",
  "With `into` a setter accepts any value convertible into the setter's value type and stores the result of that conversion; without it the setter takes exactly that type. With `strip_option` the value type of a field whose type is written `Option<T>` (also std- or core-qualified) is `T` and the setter stores `Some` of it, exactly one `Option` layer is stripped, and for any other type it changes nothing; unset such fields stay unset (required or defaulted) rather than `None`. Both can be combined, each is taken from the field, else from the struct, an explicit `= false` on the field switches it off, and both apply equally when the builder field has a custom type.",
  ["programs","inputs"],"all field types incl. nested options, all struct-level/field-level on/off combinations, all argument values",
  "setter_into.rs and setter_strip_option.rs check a handful of types; nested Options, explicit false overrides, qualified spellings and combinations with custom builder types are not covered.",
  [C+"setter.rs",O],[("extract_type_from_option",C+"setter.rs"),("setter_into / setter_strip_option inheritance",O)],
  ["argument types accepted","stored builder field","built value"])

p("C07","Fallible setters agree with plain setters and fail without side effects",
  "With `try_setter` on the struct or the field, every field that has a setter named `x` also has `try_x`, with the same visibility and receiver, which accepts any value that is `TryInto` the setter's value type (after `strip_option`, without regard to `into`). When the conversion succeeds, the builder ends up exactly as after the plain setter called with the converted value; when it fails, the conversion's own error is returned and, if the builder was only borrowed, it is unchanged and still usable. Fields that have no setter have no fallible setter, and without `try_setter` there is none.",
  ["programs","histories","inputs"],"all field types and setter options x all argument values (succeeding and failing) x call histories",
  "try_setter.rs only sets well-formed values on one struct; the failing path, Option-stripped fields and state after failure are not tested.",
  [C+"setter.rs",O],[("try_ setter emission",C+"setter.rs"),("try_setter flag inheritance",O)],
  ["result of try_x","builder fields after a failed try_x","built value"])

p("C08","each setters append exactly one item to the collection",
  "`setter(each = \"n\")` or `each(name = \"n\")` adds a setter `n` that extends the field's collection by exactly the one given item: starting from the type's `Default` when the field is unset, from the current contents otherwise, and leaving all other fields alone. Any interleaving of the plain setter (which replaces the whole collection) and the `each` setter yields what a reference collection yields, after which the field counts as set and a default no longer applies. With `into` inside `each` the item is converted first (independently of the plain setter's `into`); with `strip_option` on an `Option` of a collection the items go into the inner collection, even after an explicit `None` default or value; it works under every pattern and with custom builder field types that are collections.",
  ["programs","histories"],"all collection types, option combinations and patterns x all interleavings of plain setter and each setter calls",
  "setter_extend.rs appends in one order to one kind of builder; replacement, unset/None start states, immutable/owned patterns and interplay with defaults are not tested.",
  [C+"setter.rs",O,C+"options.rs"],[("get_or_insert_with + extend",C+"setter.rs"),("parse_each",O)],
  ["stored collection after each call","built value"])

p("C09","Validation runs once per build, before defaults, and can veto it",
  "With `build_fn(validate = \"path\")`, every `build` call invokes that function exactly once, with the builder as the caller left it (no defaults filled in), before any default expression is evaluated and before missing fields are reported. If it returns `Err(e)`, `build` returns `e` converted into the builder's error type, evaluates nothing else and leaves a borrowed builder unchanged; if it returns `Ok`, `build` continues exactly as without validation. The path may be an associated function via `Self::` or the builder's name or any free function in scope, for generic and non-generic builders, under every pattern, and with generated or user-provided error types.",
  ["programs","histories"],"all builders x validator outcomes x subsets of set fields x repeated builds",
  "validation.rs checks outcomes for one struct; order relative to defaults and missing fields, and the number of invocations, are never observed.",
  [C+"build_method.rs",O],[("validate call at the top of build",C+"build_method.rs"),("BuildFn::validate",O)],
  ["trace of validator and default evaluations","Result of build()"])

p("C10","Build errors: generated type, user type and their messages",
  "Without `build_fn(error = ..)` an error enum named `<builder>Error` with the builder's visibility is generated, with `UninitializedField(name)` and, unless `error(validation_error = false)`, `ValidationError(String)`; it implements `Debug`, `Display`, `From<UninitializedFieldError>`, `From<String>` (with the validation variant only) and, unless `no_std`, `std::error::Error`, and displays as \"`name` must be initialized\" or as the validation message itself. With `error = \"path\"` no error type is generated, `build` returns that type (generic arguments included), missing fields arrive through its `From<UninitializedFieldError>`, which is not needed when no field can be missing. `UninitializedFieldError` carries the name it was created with unchanged through `new`, `From<&'static str>`, `field_name` and `Display` (\"Field not initialized: name\").",
  ["programs","inputs"],"all builders and error configurations x all field names and validation messages",
  "Tests compare a few fixed messages; the error type's trait set per configuration and arbitrary messages/names are not covered.",
  [C+"builder.rs",C+"initializer.rs",O,"derive_builder/src/error.rs"],[("generated error enum",C+"builder.rs"),("builder_error_ident",O),("UninitializedFieldError","derive_builder/src/error.rs")],
  ["trait implementations and variants of the error type","Display output"])

p("C11","Names of generated items follow the documented rules",
  "The builder is named `<Struct>Builder` unless `name` is given, its error `<builder>Error`; a setter is named by the field's `setter(name)`, else the field-level prefix, else the struct-level prefix, joined to the field name with an underscore, else the field name itself; `try_` is put before that name for the fallible setter; `each` setters carry the given name; the build method is `build` or `build_fn(name)`; the empty constructor is `create_empty` or the given name. Builder fields always keep the field's own name, whatever the setter is called. Exactly these methods are generated and no others, for plain, raw and non-ASCII identifiers alike.",
  ["programs"],"all identifiers and all combinations of naming options on struct and fields",
  "setter_name.rs and setter_prefix.rs cover a few literal names; precedence among name/prefix levels with try_setter/each and raw identifiers is not enumerated.",
  [O,C+"setter.rs",C+"builder.rs",C+"build_method.rs"],[("setter_ident / builder_ident / builder_error_ident",O),("try_ident",C+"setter.rs")],
  ["names callable on the builder","set of generated methods"])

p("C12","Visibility of every generated item follows the documented resolution",
  "The builder struct (and its generated error) is as visible as the struct's `public`/`private`/`vis = \"..\"` option says, else as the struct itself; `build` as its own option in `build_fn` says, else as the builder; a setter, its `try_` and its `each` variants as the field's option says, else the struct's option, else `pub`; a builder field as `field(..)` on the field says, else as `field(..)` on the struct (never for hidden fields), else private. The empty constructor is private. Each item is accessible from a place in the crate graph if and only if that resolved visibility allows it.",
  ["programs"],"all combinations of visibility options on struct, build_fn, fields, builder fields x all observer positions (same module, child, sibling, crate, other crate)",
  "setter_visibility.rs and three compile-fail tests look at few combinations from one position.",
  [O,C+"builder.rs",C+"setter.rs",C+"build_method.rs",C+"builder_field.rs"],[("VisibilityAttr::to_explicit_visibility and *_vis accessors",O)],
  ["accessibility of types, methods and fields from several modules and another crate"])

p("C13","Generics are forwarded and traits are required and provided only as documented",
  "Lifetimes, type and const parameters, their bounds, where clauses and defaults are carried to the builder, so that for every instantiation of the struct the builder can be used just as a non-generic one. The builder implements `Clone` if and only if some setter or the build method uses the mutable or immutable pattern, `Default` unless `custom_constructor` is given, and each trait in `derive(..)`; without custom field types it is `Send`, `Sync`, `Unpin` and unwind-safe wherever the struct is. The error type is not generic, and the generated one is always `Send + Sync + 'static`. Field and parameter types need `Clone` only in that case, merely naming the builder type never adds bounds beyond the struct's own, and `Default` is never demanded of a type parameter that the struct does not bound, unless the type's default is asked for.",
  ["programs"],"all generic signatures x patterns x instantiations with types that have or lack Clone/Default",
  "bounds_generation.rs, generic_structs.rs and lifetime.rs fix five signatures; the interplay of bounds, const parameters, parameter defaults, mixed patterns and hidden generic fields is open.",
  [C+"builder.rs",O,C+"builder_field.rs",C+"build_method.rs"],[("compute_impl_bounds",C+"builder.rs"),("requires_clone",O)],
  ["which trait bounds hold for the builder","compilation for instantiations","runtime behaviour of generic builders"])

p("C14","Custom builder fields: exact type, default-initialised, user conversion",
  "With `field(ty = \"T\")` the builder field has exactly the type `T`, starts as `T::default()`, and its setter takes and stores a `T` (subject to `into`/`strip_option`) without an `Option` around it; without `build` the stored value itself goes into the struct, and the field never counts as missing. With `field(build = ..)`, quoted or not, with or without `ty`, that code alone computes the struct field's value, once per `build` call, and it may use `self`, `?` and `return`. Other fields of the same struct behave as if there were no custom field.",
  ["programs","histories"],"all builder field types and build expressions x patterns x histories",
  "builder_field_custom.rs has one struct with two custom fields under the mutable pattern and Copy or built values.",
  [O,C+"initializer.rs",C+"builder_field.rs",C+"setter.rs"],[("FieldConversion",C+"initializer.rs"),("BuilderFieldType::Precise",C+"builder_field.rs")],
  ["builder field values","built value","trace of build expression evaluations"])

p("C15","Attributes and docs are forwarded to exactly the documented places, in order",
  "A field's doc comments, `cfg` and `allow` attributes appear, complete and in order, on its builder field and on every setter generated for it; `builder_field_attr(..)` contents appear on the builder field only and `builder_setter_attr(..)` contents on its setters only, unwrapped. The struct's `cfg` and `allow` attributes appear on the builder struct and its impl block; `builder_struct_attr(..)` contents on the builder struct only, after its derives, and `builder_impl_attr(..)` contents on the impl block only. No other attribute of the struct or its fields is copied anywhere, attributes of one field never reach another, and the relative order of the forwarded attributes of one item is the source order.",
  ["programs"],"all attribute lists on structs and fields, in all orders",
  "Tests check that a few attributes have an effect; absence elsewhere, order, and multiple attributes of different kinds on one item are not checked.",
  [O,C+"setter.rs",C+"builder_field.rs",C+"builder.rs","derive_builder_macro/src/lib.rs"],[("distribute_and_unnest_attrs",O),("forward_attrs lists",O)],
  ["attributes on generated items","effect of attributes in compiled programs (serde renames, cfg)"])

p("C16","Every input is expanded or rejected with diagnostics; nothing is ignored",
  "For every syntactically valid item and every `#[builder(..)]` attribute content, the macro terminates without panicking and yields either a complete builder or only compile errors, deterministically. Non-structs, tuple and unit structs, unknown, misspelt, misplaced, duplicate or ill-typed options, conflicting visibilities, `default` together with `field(ty)` or `field(build)`, empty default code, `validate` together with `validation_error = false`, and malformed pass-through attributes are rejected, each independently of what else is on the struct. Every documented option in a documented place is accepted.",
  ["inputs","programs"],"all item shapes and attribute contents, valid and invalid",
  "About ten compile-fail inputs are fixed; they only run under rustc 1.59 and say nothing about crashes or silently ignored options for other inputs.",
  [O,C+"lib.rs",C+"block.rs",C+"default_expression.rs",C+"options.rs","derive_builder_macro/src/lib.rs"],
  [("darling parsing with accumulated errors",O),("Field::resolve, BuildFn::validation_needs_error, VisibilityAttr::from_list",O)],
  ["output of the macro: items or compile errors, panics"])

p("C17","Generated code does not depend on names in the user's scope or crate names",
  "Generated code resolves the traits, types and functions it needs regardless of types, traits and modules of the same names (`Option`, `Result`, `Clone`, `Default`, `Into`, `String`, `core`, `derive_builder` and the like) that the user's module defines. All references to the support crate go through the path given by `crate = \"..\"`, or `::derive_builder` without it, so builders compile and behave the same when the support crate is renamed, re-exported from any path, or not visible under its own name, also when a macro of another crate writes the struct and names the path by `$crate`.",
  ["programs","configurations"],"all builders x sets of shadowing definitions x ways to reach the support crate",
  "run-pass/custom_types.rs shadows names around an empty struct, and run-pass/crate_alias.rs passes even if the root is ignored, as its own comment says.",
  [C+"setter.rs",C+"builder.rs",C+"build_method.rs",C+"initializer.rs",C+"builder_field.rs",C+"default_expression.rs","derive_builder/src/lib.rs"],
  [("crate_root threaded through every generator",C+"*.rs"),("export module","derive_builder/src/lib.rs")],
  ["compilation and behaviour in modules with shadowing names","compilation without an extern crate called derive_builder"])

p("C18","no_std and allocation-free configurations give the same builders",
  "With the crate's default features off, builders marked `no_std` compile and behave the same inside `#![no_std]` crates: with feature `alloc` for every option, and without it provided that the error type is user-defined or has `validation_error = false`; the generated code then needs neither std nor alloc. Without `alloc` and std, a builder whose generated error would contain a `String` is rejected with a compile error that says so. The `no_std` option changes nothing but the absence of `std::error::Error` for the generated error.",
  ["configurations","programs"],"feature sets {std, alloc, none} x builders x error configurations",
  "The no_std test crates contain three builders with one i32 field.",
  [C+"builder.rs",O,"derive_builder/src/lib.rs","derive_builder/Cargo.toml"],[("no_alloc / std switches",C+"builder.rs"),("feature-gated exports","derive_builder/src/lib.rs")],
  ["compilation in no_std crates per feature set","runtime behaviour","error trait set"])

p("C19","Option spelling and inheritance laws",
  "How options are written does not matter: splitting one `#[builder(..)]` list into several attributes or merging them, reordering options, quoting or not quoting a default expression, writing `x` or `x = true`, `each = \"n\"` or `each(name = \"n\")`, or spelling out a documented default value, all give the same builder. Nor does it matter whether the struct is written directly or by a `macro_rules!` macro that receives its types, names, visibilities, literals and expressions as fragments. A setter property, visibility, fallible-setter flag or pattern given at struct level acts on each field exactly as if it were written on every field that does not say otherwise, and a field-level value, including `false`, always beats the struct-level one. Options of one field never influence what is generated for another field.",
  ["programs"],"all option assignments x all equivalent respellings",
  "Tests use one spelling per option; equality of two spellings is a relation over pairs of inputs.",
  [O],[("FieldWithDefaults accessors",O)],["equality of expansions and of behaviour of two equivalent inputs"])

p("C20","Documented options compose",
  "Any combination of documented, non-conflicting options on a struct and its fields, with field types meeting the documented requirements (`Clone` when borrowed builds or copies are involved, `Default` for hidden or default-initialised fields, `Extend` for `each`), yields a builder that compiles and shows the combined behaviour of its options: names, receivers, conversions, defaults, validation, custom fields and errors do not disturb one another. The outcome of any history of setter, fallible setter, item setter, clone and build calls is that of a simple model which stores one optional value per field.",
  ["programs","histories"],"all option combinations x all histories of API calls",
  "The option space is a product of about thirty options; tests visit isolated points of it.",
  [C+"lib.rs",O,C+"setter.rs",C+"initializer.rs",C+"build_method.rs",C+"builder.rs"],[("builder_for_struct",C+"lib.rs")],
  ["compilation","traces of histories against a reference model"])

p("C21","Construction: the empty builder, Default, and custom constructors",
  "The empty constructor and `Default::default()` yield the same builder: every field unset, every custom-typed field at its type's default. With `custom_constructor` there is no `Default` implementation, and user code in scope can still start from the empty constructor, under its default or given name, and preset fields, after which setters and `build` act as on any builder. With `build_fn(skip)` no build method is generated and everything else stays; with a renamed build method no method called `build` is generated, so user code can define its own.",
  ["programs","histories"],"all structs x constructor/build_fn options x preset fields",
  "custom_constructor.rs and build_fn.rs have one struct each.",
  [C+"builder.rs",O,C+"build_method.rs",C+"builder_field.rs"],[("impl_default, create_empty",C+"builder.rs"),("BuildFn.skip/name",O)],
  ["state of fresh builders","presence of Default and build"])

p("C22","Expansions add no warnings to the user's crate",
  "Deriving a builder for a documented struct whose own code is free of warnings adds no compiler warning, also under `deny(warnings, missing_docs)`, and no warning of clippy's default lints (without the feature `clippy`), for any combination of options; unused generated methods are not reported. Generated public items carry documentation, and setters and builder fields carry the field's own.",
  ["programs","configurations"],"all option combinations on documented structs under the default lints and missing_docs",
  "One example (deny_missing_docs.rs) with one field under one option set.",
  [C+"builder.rs",C+"setter.rs",C+"doc_comment.rs",C+"lib.rs"],[("allow(dead_code), allow(unused_mut), doc templates",C+"builder.rs, setter.rs")],
  ["rustc warnings for generated crates"])

p("C23","Rejections point at the offending code",
  "When the macro rejects a struct because of an option, at least one compile error is located inside the attribute that carries the offending option, and never only at the derive or in generated code; for several offending fields there is an error for each. When a user-provided error type lacks the conversion from `UninitializedFieldError`, the compiler's error points at the `error` option that names it; and when code or a path given in an option (default, build code, custom type, validator, error) cannot be resolved or does not type-check, an error points into that option's attribute. (Attributes that end before they are complete, such as `default =`, are out of scope: the parsing library locates nothing there.)",
  ["programs","inputs"],"all invalid options in all positions, alone and several at once",
  "The .stderr files pin ten inputs and are compared only under rustc 1.59.",
  [O,C+"initializer.rs",C+"change_span.rs",C+"block.rs"],[("with_span / darling spans",O),("change_span",C+"change_span.rs")],
  ["file, line and column of compiler diagnostics"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
