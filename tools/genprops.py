#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the list is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                     observe_at=observe, hook_needed=hook)))
BI="core/src/build_ins.rs"; ST="derive/src/impl_struct.rs"; EN="derive/src/impl_enum/"; SV="core/src/rpc/server.rs"
CG="core/src/rpc/codegen/mod.rs"; RP="core/src/rpc/mod.rs"; IR="derive/src/rpc/impl_rpc.rs"; BE="derive/src/rpc/backend_impl.rs"
PX="src/rpc/servers/proxy.rs"; AX="src/rpc/servers/axum.rs"; TS="src/rpc/clients/static/websocket_client.ts"

p("S01","Integer schemas accept exactly the range of the Rust type",
 "For every built-in integer type, the zod schema the library gives for it accepts a number if and only if it is an integer within that Rust type's MIN..=MAX (usize: any non-negative integer, isize: any integer), with the limits taken as the exact decimal numbers written in the schema. The TypeScript type is always `number`.",
 ["inputs"],"every integer value (mathematical, up to 128 bits and beyond each limit), for each of u8..u128, usize, i8..i128, isize",
 "No test looks at the numeric limits: every test compares schema strings with the library's own output, so a wrong digit or a swapped lte/gte passes.",
 [BI],[("impl_primitive! schema literals",BI)],["<T as ZodType>::schema()","<T as ZodType>::type_def()"])
p("S02","Scalar schemas accept every value the Rust type serializes to",
 "For every value of a built-in scalar (bool, char, String, &str, finite f32/f64, (), IP addresses, SmolStr, NotNan), the JSON that serde writes for it is accepted by the zod schema of its type and its JSON kind is the one the TypeScript type names, and a value of another JSON kind is rejected. Only methods that exist in zod are used.",
 ["inputs"],"every char, bool and finite number, and JSON values of every other kind, per scalar type",
 "Tests compare schema() with itself; none evaluates a schema on a value, so a schema that names a method zod does not have, or that rejects some characters, is not noticed.",
 [BI],[("impl_primitive!",BI)],["schema()","type_def()"])
p("S03","Container schemas wrap their element's schema and type unchanged",
 "For every element type, Vec/array/HashSet/BTreeSet/HashMap/BTreeMap/Option/Result/tuples (1 to 30)/smart pointers produce a schema and a TypeScript type that apply the corresponding zod and TypeScript constructor to the element's own schema reference and type reference, in declaration order, and change nothing else. Pointer-like wrappers are indistinguishable from the type they wrap. (Sets and maps stand for the arrays and objects they are on the wire.)",
 ["inputs","programs"],"every element schema/type text (arbitrary bytes up to the bound), every container type in the library, tuple arities 1..30",
 "Only Result<usize,String> has a test; other containers appear with one fixed element, and no test varies the element.",
 [BI],[("impl_tuples!, impl_wrapper!, impl_shadow!, Vec/HashMap/HashSet/Option/Result impls",BI)],["schema()","inline_schema()","type_def()","inline()"])
p("S04","Named types are referenced, never expanded, wherever they are nested",
 "Wherever a type registered in a namespace is used inside another type - as a field, in a container, in a smart pointer, in a tuple, as an argument - the generated schema contains only a lazy reference to its exported name and the generated TypeScript contains only that name. Hence schema and type generation terminate for every set of (mutually) recursive types.",
 ["programs"],"every nesting of library containers (up to the stated depth) around a named type, including recursive and mutually recursive definitions",
 "Tests never define a recursive type and never nest a named type in a container other than by one field.",
 [BI,ST,EN+"mod.rs","core/src/lib.rs"],[("inline_schema / inline",BI),("derived inline_schema / inline",ST)],["inline_schema()","inline()","schema()","type_def()"])

p("D01","Struct schema and type list exactly the keys serde reads",
 "For every struct with named fields that derives Zod, the zod object and the TypeScript interface have exactly one entry for each field that serde deserializes, in declaration order, under the name serde uses when deserializing (rename, rename(deserialize), rename_all, raw identifiers), each carrying the reference of that field's own type. Skipped fields contribute nothing.",
 ["programs"],"every struct definition within the bounds: up to 3 fields, symbolic field names and rename strings, every rename_all rule, any combination of skip, skip_serializing, skip_deserializing, default, flatten",
 "The tests hold some 15 hand-written structs with at most two attributes each; combinations (rename with rename_all, serialize-only renames, skip next to default) are never exercised.",
 [ST,"derive/src/args.rs"],[("impl_struct::expand / StructField::expand_schema / expand_type_defs",ST)],["schema()","type_def()"],hook="derive as a library (cfg zod_verif)")
p("D02","A member is optional exactly when serde can fill it in by default",
 "A struct field, variant field or tuple element is optional in the generated schema and in the TypeScript type if and only if serde accepts input where it is missing because of a `default` on the field or on the whole struct. An optional named field is optional as a key as well as in value. (The single element of a newtype cannot be missing on the wire and is not covered.)",
 ["programs"],"every struct and enum definition within the bounds, with default, default = \"path\" and container-level default placed anywhere",
 "Tests cover default on the first or only field; none covers a container default or default in combination with rename, flatten or several variants.",
 [ST,EN+"field.rs"],[("optional flag",ST),("NamedField/TupleField optional",EN+"field.rs")],["schema()","type_def()"],hook="derive as a library (cfg zod_verif)")
p("D03","Enum schemas follow serde's tagging for every variant",
 "For every enum that derives Zod, the schema and the TypeScript type are the union of exactly the variants serde deserializes, in order, each described in the shape serde gives that variant under the enum's representation (external, internal, adjacent, untagged) and with serde's variant, tag and content names. An enum with a tag is a union discriminated by that tag whenever zod can express it.",
 ["programs"],"every enum within the bounds: up to 3 variants of unit/newtype/tuple/struct kind with up to 2 fields, all four representations, symbolic variant/tag/content/rename strings, every rename_all rule, any skip combination",
 "Tests use fixed two-variant enums in which all variants have the same kind; mixed kinds, skipped fields inside variants and renamed tags are not reached.",
 [EN+"mod.rs",EN+"variant/mod.rs",EN+"variant/unit_variant.rs",EN+"variant/tuple_variant.rs",EN+"variant/struct_variant.rs"],
 [("Enum::expand_schema / expand_typ_defs",EN+"mod.rs"),("Unit/Tuple/StructVariant",EN+"variant/")],["schema()","type_def()"],hook="derive as a library (cfg zod_verif)")
p("D04","Tuple, newtype, transparent and from-structs have serde's wire shape",
 "A one-field tuple struct is described by its field's own schema and type; a tuple struct with several declared fields by a tuple of those serde deserializes, in order (with a single declared field that is skipped, by that field, which serde still reads); a transparent struct by the field serde treats as transparent; a type with `from` or `try_from` by the type it is converted from. The same holds for the TypeScript type.",
 ["programs"],"every tuple/transparent/from struct within the bounds: up to 3 fields, any combination of skip and default, PhantomData fields",
 "Each form has one test with one field arrangement; skipped elements, defaulted elements and the position of the transparent field are not varied.",
 [ST],[("Struct::expand, expand_schema, expand_type_def",ST)],["schema()","type_def()"],hook="derive as a library (cfg zod_verif)")
p("D05","A derived type's references are the name it is exported under",
 "For every derived type, the name by which other generated code refers to it (schema reference and type reference) is exactly `<namespace name>.<exported name>`, where the namespace name is the one its namespace declares and the exported name is the one the type is registered with, and a type registered in a namespace is registered there once. This holds for renamed types and namespaces alike.",
 ["programs"],"every type name, container rename and namespace path/name within the bounds, for structs and enums",
 "Tests check the reference for one renamed and one plain type in one namespace, and never against what is registered.",
 [ST,EN+"mod.rs","derive/src/impl_inventory.rs","derive/src/impl_namespace.rs"],[("inline/inline_schema and inventory submission",ST),("impl_inventory::expand","derive/src/impl_inventory.rs")],["inline()","inline_schema()","NamespaceMemberDefinition"],hook="derive as a library (cfg zod_verif)")
p("D06","Generated TypeScript is well-formed for every name and doc comment",
 "Whatever characters occur in the names given to fields and variants, in tags, contents and doc comments, the generated schema, type and comment text is lexically well-formed TypeScript in which each name appears as exactly one property key or string literal denoting that name, and a doc comment stays inside its comment.",
 ["inputs","programs"],"every rename/tag/content string and doc text within the length bound over all printable ASCII, quotes, backslashes, newlines and a non-ASCII sample",
 "Tests use identifiers as names and one plain doc line.",
 [ST,EN+"variant/","derive/src/docs.rs"],[("format! templates",ST),("RustDocs::to_tokens","derive/src/docs.rs")],["schema()","type_def()","docs()"],hook="derive as a library (cfg zod_verif)")
p("D07","The derive accepts or rejects a definition cleanly, never by crashing",
 "For every struct or enum that serde's own derive accepts and that has a zod representation, deriving Zod produces code for both schema and type; a definition it does not support - a unit struct, an enum without deserializable variants, a tuple struct in which a required element follows an optional one, a serde attribute that is malformed - is rejected with a diagnostic rather than given a wrong schema or a macro crash.",
 ["programs"],"every struct and enum definition within the bounds of D01-D04",
 "The compile-fail tests are four fixed programs; whether any other definition crashes the macro or slips through is not examined.",
 ["derive/src/lib.rs",ST,EN+"mod.rs"],[("abort!, unreachable! arms",ST)],["#[derive(Zod)]"],hook="derive as a library (cfg zod_verif)")
p("D08","Doc comments are carried over completely and in order",
 "For every sequence of doc comment lines on a type or namespace, the exported documentation is one block comment containing every non-blank line, each attribute trimmed, in order and exactly once (a comment end inside of it is escaped); a type without doc comments gets no comment. Other attributes contribute nothing.",
 ["inputs"],"every doc text up to 3 attributes with arbitrary printable content within the length bound",
 "The doc tests all use the single line `Hello World`.",
 ["derive/src/docs.rs"],[("RustDocs::from_attrs / to_tokens","derive/src/docs.rs")],["ZodType::docs()","Namespace::docs()"],hook="derive as a library (cfg zod_verif)")

p("N01","Generated client exports each member of its namespaces exactly once",
 "For every backend, the generated client code is the client preamble followed by one block per namespace of the backend that has members; the block holds, for each registered type of that namespace, exactly one schema constant and one interface or type alias built from that type's schema, definition and docs, and for each RPC method exactly one function. Nothing from a namespace outside the backend appears.",
 ["configurations","programs"],"every set of registered types and methods within the bound, with arbitrary names, schemas, docs and namespaces, every subset of namespaces a backend may list, and every registration order",
 "No test generates client code; only the examples do.",
 [SV,"core/src/lib.rs"],[("Backend::generate_with_options",SV),("NamespaceMemberDefinition::collect","core/src/lib.rs")],["Backend::generate"])
p("N02","Namespace listings are exact",
 "The members, RPC members and namespace maps reported for a namespace or backend contain exactly the registered items whose namespace name equals the requested one, each once and grouped under their own namespace, regardless of registration order or of namespaces whose names share a prefix.",
 ["configurations"],"every set of registered items and namespace names within the bound",
 "No test queries these listings.",
 ["core/src/lib.rs",SV,CG],[("Namespace::members, NamespaceMemberDefinition::collect","core/src/lib.rs"),("Backend::rpc_members/zod_namespaces",SV),("RpcNamespace::rpc_members",CG)],["Namespace::members","RpcNamespace::rpc_members","Backend::rpc_members","Backend::zod_namespaces"])
p("N03","Each generated client function mirrors its Rust method",
 "For every RPC method, the generated function has the method's name, the method's parameters with their names and types in order, validates its arguments against the tuple of the parameters' schemas in the same order, and calls the server with the method's own namespace and name; an async method becomes a promise-returning request, a stream method a store-returning subscription, and the result type is that of the method or stream item.",
 ["programs","inputs"],"every method name, parameter list (up to 3) and result text within the length bound, for methods and streams, through the attribute macro and the declaration writer",
 "No test looks at a generated function.",
 [CG,IR,"derive/src/rpc/args.rs"],[("RpcMember::decl",CG),("expand_inventory_submit",IR)],["RpcMember::decl","#[rpc::namespace]"],hook="derive as a library (cfg zod_verif)")

p("R01","Requests are decoded exactly",
 "A JSON text is decoded as an execute request if and only if it has the documented shape, and then carries the id unchanged over the whole id range and the remaining members unchanged; likewise for cancel requests; any other text is reported as an error and never as a request. (The array form that serde also reads, and unknown members, are not judged.)",
 ["inputs"],"every id value, every member order, and arbitrary mutated request texts within the length bound",
 "No test decodes a request.",
 [RP],[("Request deserialization",RP)],["serde_json::from_str::<Request>"])
p("R02","Responses are encoded exactly",
 "Every response serializes to one JSON object with the single key method, stream or error, holding the id given (null if an error has none) and the data given, unchanged; an error carries its message as text. A result that cannot be serialized becomes an error with the same id.",
 ["inputs"],"every id value and every data value within the bound (scalars, strings with arbitrary characters, nested arrays/objects, values whose serialization fails)",
 "No test encodes a response.",
 [RP,"core/src/rpc/error.rs"],[("Response serialization, Response::method/stream/error",RP)],["Response","RpcResponse"])
p("R03","Every call is answered exactly once, under its own id",
 "For every sequence of execute requests, each call to an async method is answered by exactly one response, which carries that request's id and that call's result, in the order the calls were made; a request naming an unknown namespace or method, or with arguments of wrong number or type, is answered by exactly one error with that id and runs no method.",
 ["inputs","histories"],"every sequence of requests within the bound with arbitrary ids, namespace/method selectors and arguments",
 "No test runs a backend.",
 [BE,IR],[("generated handle_request",BE),("generated call",IR)],["Backend::handle_request","response channel"])
p("R04","A call reaches the method it names with its arguments in order",
 "What the generated client sends for a method - its namespace name, its method name and the array of its arguments - makes the server run exactly that method of exactly that namespace with exactly those arguments in order, once, for any number of arguments including none, any number of namespaces, and any namespace or method name.",
 ["inputs","programs"],"every argument value and every method of backends with several namespaces, custom namespace names, equal method names in different namespaces, 0 to 4 arguments",
 "No test runs a backend; examples never call a method without arguments or in a renamed namespace.",
 [BE,IR,CG,TS],[("generated request enums",BE),("expand_req_variant_decl / expand_req_variant_impl",IR)],["Backend::handle_request"])
p("R05","Stream items arrive complete, in order and under their own id",
 "For every stream call that is not cancelled, the client receives one response per item, in the order the stream yields them, each with the id of the subscribing request, and nothing else with that id; concurrent streams and calls do not lose, duplicate, reorder or relabel each other's items, under every schedule.",
 ["schedules","inputs","histories"],"every interleaving of up to 2 streams with a method call, arbitrary ids and item counts within the bound",
 "No test runs a stream.",
 [IR,BE],[("process_stream",IR)],["response channel"])
p("R06","Cancelling stops exactly the stream with that id, for good",
 "After a cancel request for an id has been handled, no further item with that id is produced until that id is used again, and every other stream continues unaffected; cancelling an id that has no stream, or whose stream has ended, has no effect. Reusing an id replaces the earlier stream, and dropping the subscriber table stops every stream in it.",
 ["schedules","histories","inputs"],"every sequence within the bound of stream starts, cancels, drops and task steps, with arbitrary (possibly equal) ids",
 "No test cancels a stream.",
 [BE,SV],[("CancelStream arm",BE),("SubscriberMap Drop",SV)],["Backend::handle_request","SubscriberMap"],state=[("SubscriberMap","running streams by request id",SV)])
p("R07","A vanished client never harms the backend",
 "If a client goes away at any point - before its request is handled, while its call runs, between the items of a stream - the backend keeps running and keeps answering every other client; nothing panics, and a stream whose client is gone stops.",
 ["crash_points","schedules","histories"],"every point at which one of two clients disconnects, relative to every step of the proxy, calls and streams within the bound",
 "No test disconnects a client.",
 [IR,BE,PX],[("unbounded_send error handling",IR),("BackendProxy loop",PX)],["BackendProxy","ProxyConnection"])
p("R08","The proxy handles requests in order and routes answers to their sender",
 "Requests sent by one connection are handled in the order sent, every request or decode error sent is handled exactly once, one at a time, and each response is delivered to the connection that sent the request and to no other, in the order produced; a decode error is returned unchanged to its sender.",
 ["schedules","histories"],"every interleaving of sends by 2 connections of up to 3 messages with the proxy task",
 "No test uses the proxy.",
 [PX],[("BackendProxy::new loop",PX),("ProxyTx::send",PX)],["ProxyTx::send","ProxyRx"])
p("R09","Connections do not interfere through equal request ids",
 "Streams of different connections to the same backend are independent even when their request ids are equal: a cancel or a new stream on one connection never stops, replaces or makes uncancellable a stream of another, and when a connection is gone its streams end.",
 ["histories","schedules","inputs"],"every sequence within the bound of stream starts and cancels by 2 connections with arbitrary (possibly equal) ids",
 "No test uses the proxy; every client numbers its requests from 1, so collisions are the normal case.",
 [PX,SV],[("subscriber bookkeeping",PX)],["BackendProxy"],state=[("subscribers","running streams of a connection",PX)])
p("R10","The WebSocket endpoint answers every text frame and survives bad ones",
 "Every text frame a WebSocket client sends is either handed to the backend as the request it encodes or answered with an error that has a null id, in order; frames of other kinds are ignored; no frame content ends the connection or panics. Every response for the connection is sent as one text frame holding its JSON, in order, until either side closes.",
 ["inputs","schedules","fault_sequences"],"every sequence within the bound of text (arbitrary bytes), binary, ping, pong and close frames and transport errors, interleaved with responses",
 "No test opens a WebSocket.",
 [AX],[("websocket()",AX)],["websocket_handler"])
p("R11","The TypeScript client pairs requests and responses by id",
 "For every interleaving of calls, socket openings, failures, messages and closures, the generated client gives each request a fresh id and sends it once, with the namespace, method and arguments of the call, as soon as a socket is open (unless the connection fails before, or nobody listens to the stream any more); a call whose arguments zod refuses is never sent, and rejects. A promise is resolved by the method response that carries its id, and only by it and with its data, and is rejected if the server answers with an error; each subscriber of a store gets exactly the items that carry its id while it is subscribed, in order; messages for other ids, and ones that are no response, have no effect. Closing a store sends a cancel request for its stream.",
 ["schedules","histories"],"every sequence within the bound of client calls, subscriptions, socket events, timers and server messages with arbitrary ids and data",
 "The TypeScript client is not built or tested by the repository.",
 [TS,"src/rpc/clients/mod.rs",CG],[("websocketStore, request, subscribe",TS),("RpcMember::decl",CG)],["generated functions of the client","WebSocket.send"],state=[("subscriptions","callbacks for responses",TS),("openPromise, socket","the connection and those waiting for it",TS)])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False)+"\n")
print(len(P))
