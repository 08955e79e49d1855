SCH_ASSUME = "The committed JSON Schemas in schemas/ (taken once from the documentation comments of the pinned commit, plus the published MCP schema rules) state what each version's wire format is."

prop("P01", "Wire fidelity: reading and writing a protocol value keeps every value in it",
  "In every supported protocol version, any JSON value that is valid for a protocol type is accepted, and writing the value back yields the same JSON: no member is dropped, added, renamed or changed, whether it is standard, optional or an extension member where extensions are allowed. Each typed member reads as the JSON member it stands for.",
  ["inputs"], "every protocol type of all six versions x every schema-valid JSON value of it (all members present or absent, unions in every branch, unusual strings, numbers at the limits, extension members)",
  "Tests round-trip a few dozen hand-written messages; the types have about 150 structures per version with optional members, renamed members and untagged unions whose branch choice depends on the exact combination of members, so a lost or misrouted member shows only on particular combinations.",
  files(SCHEMA, UTILS), [("serde attributes (rename, skip_serializing_if, default, flatten, untagged) and hand-written Serialize/Deserialize", f"{G}/*/mcp_schema.rs"), ("hand-written serializers of message envelopes and delegating enums", f"{G}/*/schema_utils.rs"), ("validators of fixed members", f"{G}/*/validators.rs")],
  "property-based testing: schema-driven generators, JSON round trip",
  "Types are visited in turn; a value is built by walking the version's JSON Schema (all branches, optional members with probability, extension members, boundary numbers, unusual strings). A case is non-trivial when the value is an object of two or more members or a non-empty array; distinct by hash of the input.",
  "Every type of every version is visited hundreds of times in the quick tier with independent random shapes; the oracle is plain JSON equality against the generated input, and schema truth is independent of the code's own Rust declarations.",
  assumptions=[SCH_ASSUME])

prop("P02", "Malformed protocol values are rejected, never silently repaired",
  "In every supported version, a JSON value that violates the protocol's definition of a type (a required member missing, a member of the wrong JSON type, a fixed member or enumerated value with another value) is refused when read as that type. It is never turned into a different, valid-looking value.",
  ["inputs"], "every protocol type x every schema-valid value x every single point in it that can be made invalid (remove required member, change JSON type, change fixed value, unknown enumerated value)",
  "Tests try few malformed inputs, mostly missing whole sections; the invalidating point can be at any depth in any of about 900 types, and untagged unions may swallow a malformed value as another branch.",
  files(SCHEMA, VALID), [("required members without defaults, fixed-value validators", f"{G}/*/mcp_schema.rs, {G}/*/validators.rs"), ("untagged enums try each branch", f"{G}/*/mcp_schema.rs")],
  "property-based testing: single-point invalidating mutations of schema-valid values, checked invalid by a reference JSON Schema validator",
  "A valid value is generated and one point of it is broken; the mutant counts only if the independent schema validator finds the whole value invalid. Every case with an invalidating mutation is non-trivial.",
  "The reference validator decides which mutants are really invalid, so a value another union branch legitimately accepts raises no alarm. Limits that the Rust types deliberately do not enforce (formats, numeric ranges, extra members) are outside.",
  assumptions=[SCH_ASSUME, "A result without its discriminator is tolerated where the protocol documents that for older peers."])

prop("P03", "Every message is exactly one of request, notification, response, error",
  "A valid message of either side is classified as exactly one of request, notification, response or error, in agreement with its wire members, and only the matching typed view can be taken from it. The id, method and protocol marker it reports are those on the wire, and the content of the view is the content of the message.",
  ["inputs"], "every valid client or server message of every version: all standard and custom methods, all result types, errors, string and integer ids",
  "Classification depends on the order in which untagged variants are tried and on which members are present; tests look at one or two messages per kind.",
  files(UTILS), [("ClientMessage / ServerMessage and message type detection", f"{G}/*/schema_utils.rs"), ("RpcMessage and McpMessage accessors", f"{G}/*/schema_utils.rs")],
  "property-based testing: generated messages against a reference classification of the wire form",
  "Messages of both sides are drawn from all standard requests, notifications, results, errors and custom methods; every case is non-trivial; distinct by hash of the message.",
  "The oracle is the construction of the message itself (the generator knows what it built).", assumptions=[SCH_ASSUME])

prop("P04", "Messages are dispatched by method or result shape, content intact",
  "A request or notification with a standard method of its side is presented as exactly that method's type, any other method is presented as a custom message, and a result is presented as a result type whose definition it satisfies. In all cases the message written back carries the same content it was read with.",
  ["inputs"], "all standard methods of both sides with every valid parameter shape; arbitrary other method names, including near misses and names of the other side, with arbitrary or absent parameters; all result types",
  "Tests check one message per method; dispatch errors appear with parameter combinations that fit several variants, with absent or empty parameters, and with method names close to standard ones.",
  files(UTILS, SCHEMA), [("hand-written Deserialize of requests, notifications and results dispatching on method or resultType", f"{G}/*/schema_utils.rs"), ("Custom variants", f"{G}/*/schema_utils.rs")],
  "property-based testing: generated messages against schema-derived dispatch oracle and JSON round trip",
  "Standard methods and result types are visited in turn; custom methods include near misses and names of the other side. Non-trivial when params (or a non-empty result) are present.",
  "For results the reference schema validator computes the set of fitting types; the presented type must be in it. One recorded finding (custom messages of the three oldest versions) is matched by exact shape.", assumptions=[SCH_ASSUME])

prop("P07", "Wrapping a payload in a union and taking it out again keeps it unchanged",
  "Converting a protocol payload into any of the unions that can hold it keeps its wire content and lands in the variant of its own type. Taking it back as its own type returns the same payload, and taking it as any other type is refused with an internal error.",
  ["inputs"], "every payload type x every union it converts into x every other type the union converts to, with arbitrary valid payload values",
  "There are several hundred conversions per version, nearly identical and generated; tests exercise a handful, so a conversion that swaps variants or drops a member goes unnoticed.",
  files(SCHEMA, UTILS), [("From / TryFrom implementations", f"{G}/*/mcp_schema.rs, {G}/*/schema_utils.rs")],
  "property-based testing: generated payloads through every conversion pair, round-trip and refusal oracle",
  "All conversion rows are visited in turn with schema-generated payloads. Non-trivial when the payload is a non-empty object (two or more members for into-conversions).",
  "The conversion table is fixed at the public conversions of the pinned commit; each is exercised dozens of times.", assumptions=[SCH_ASSUME])

prop("P19", "Constructors and fixed members produce valid protocol values",
  "A value made through a type's constructor holds exactly the arguments it was given plus the members the protocol fixes, and is equal on the wire to the same value read from JSON; a type's default value says nothing beyond the fixed members. The accessors of fixed members (such as method names, type tags and the protocol marker) report the value the protocol defines.",
  ["inputs"], "every constructor and every fixed member accessor of every version x arbitrary valid argument values",
  "Constructors take up to nine positional arguments, often of the same type; tests build a few of them with fixed values, so two swapped arguments or a wrong constant would stay unseen in the rest.",
  files(SCHEMA, UTILS), [("new functions and constant accessors", f"{G}/*/mcp_schema.rs, {G}/*/schema_utils.rs")],
  "property-based testing: constructor of generated members against the schema-valid value they came from",
  "A valid value is generated, its members are passed to the constructor, and the result is compared with the value. Non-trivial when the constructor takes two or more arguments.",
  "Each constructor is run dozens of times with independent random arguments.", assumptions=[SCH_ASSUME])

L3 = ["2025_11_25", "2026_07_28", "draft"]
F4 = ["2025_06_18", "2025_11_25", "2026_07_28", "draft"]
C2 = ["2026_07_28", "draft"]
B1 = ["2025_11_25"]

prop("P05", "The text form of messages is a faithful JSON line in both directions",
  "Every protocol message, of either side and of every version, can be read from its JSON text in any layout and shows as JSON text that carries the same content and reads back as the same message. Text that is no message is refused with a parse error (code -32700) that states the reason, never accepted and never a crash.",
  ["inputs"], "every valid message and message envelope in every layout of its text; arbitrary and damaged text (cut, doubled, replaced characters)",
  "Transport code moves text only. Tests parse a few fixed strings; a text reader that loses a member or a refusal with the wrong code shows only on other inputs.",
  files(UTILS), [("FromStr and Display of messages and envelopes", f"{G}/*/schema_utils.rs"), ("parse failure reported as RpcError", f"{G}/*/schema_utils.rs")],
  "property-based testing: text round trip of generated messages; fuzzing of damaged text",
  "Messages of both sides with random layout, and damaged texts. Non-trivial: any valid message, or a damaged text that is no message-like JSON object.",
  "Whether a text is a message is decided by the JSON parser and the presence of the members that make a message; damaged texts that still look like a message are only required not to crash.", assumptions=[SCH_ASSUME])

prop("P06", "Payloads get the envelope that fits them, ids only where they belong",
  "Putting a payload (request, notification, result, error) into an envelope yields exactly that payload's wire message with the id given, and a bare envelope for notifications. A notification given an id, and a request or result given none, is refused with an internal error. The payload reports the same kind as its envelope.",
  ["inputs"], "every payload of both sides and every version (standard, custom, results, errors) x string and integer ids x presence of an id",
  "There are several near-identical conversion paths per kind and version; tests wrap one or two payloads each, so a wrong variant, a dropped member or an id accepted where it does not belong stays unseen.",
  files(UTILS), [("FromMessage / ToMessage implementations", f"{G}/*/schema_utils.rs"), ("constructors of the JSON-RPC envelopes", f"{G}/*/schema_utils.rs")],
  "property-based testing: generated payloads through every wrapping path against the wire message they came from",
  "A message is generated and read, its payload is taken out and wrapped again with a fresh id and without one. Non-trivial when the message carries params, a result or an error.",
  "The oracle is the wire form of the message itself with the id replaced; in the three oldest versions every payload type's own wrapping is also tried.", assumptions=[SCH_ASSUME])

prop("P08", "Capability checks allow exactly what the peer declared",
  "A request or notification is allowed exactly when the capabilities the peer declared cover everything the message needs, including the finer ones for sampling context, sampling tools and tasks. Otherwise it is refused with an internal error that names the peer, the method and a missing capability. Custom messages, and those that need nothing, are always allowed.",
  ["inputs"], "every combination of declared capabilities (nested ones included) x every request of the other side with every parameter shape x standard and custom notification methods, in the three newest versions",
  "The decision depends on the combination of many optional members of two values; tests check a few capability sets against a few requests.",
  files(UTILS, versions=L3), [("request and notification checks of ServerCapabilities and ClientCapabilities", f"{G}/*/schema_utils.rs")],
  "property-based testing: generated capability sets and requests against a reference table of required capabilities",
  "Requests are visited in turn with independently drawn capabilities. Non-trivial when the message needs at least one capability.",
  "The reference table was written from the protocol's rules. The two newest versions check only the main client capabilities, as they document.", versions=L3, assumptions=[SCH_ASSUME])

prop("P09", "Request ids match answers to requests, exactly and without mix-ups",
  "Two request ids are equal exactly when they are the same on the wire (an integer and a string of the same digits differ), equal ids hash alike, and an id shows and is written exactly as it was given. A table keyed by id therefore pairs every answer with its own request in whatever order answers arrive, whatever ids are under way.",
  ["inputs", "histories"], "pairs of near-equal ids (numbers, their text, limits, odd strings); histories of insertions, removals and look-ups; several requests under way with answers in any order",
  "Mix-ups need particular pairs of ids (such as 1 and \"1\") or particular orders of answers; tests compare a few fixed ids.",
  files(SCHEMA, UTILS), [("RequestId: PartialEq, Hash, Display, serde", f"{G}/*/mcp_schema.rs, {G}/*/schema_utils.rs"), ("request_id accessors", f"{G}/*/schema_utils.rs")],
  "stateful property-based testing: random histories of a table keyed by id against a model keyed by wire text",
  "Ids are drawn from a small colliding pool plus limits. Non-trivial: pairs of the same kind or same text; histories that hit an id again; two or more requests under way.",
  "The model uses the JSON text of the id, which distinguishes strings from numbers.", assumptions=[SCH_ASSUME])

prop("P10", "Errors carry the protocol's code, message and data unchanged",
  "Every error made through the library has the code its name stands for in the protocol, and exactly the message and data it was given, in whatever order they were set; its text form and JSON form read back as the same error. Typed errors and required-URL errors keep their content when turned into plain protocol errors. An error put into an answer is that error with that id.",
  ["inputs"], "every error code and constructor x arbitrary messages and data x arbitrary timeouts; arbitrary and damaged error text; typed errors of the newer versions",
  "There are about 25 codes and constructors per version, near-identical; tests check a few of them with one message each.",
  files(UTILS, SCHEMA), [("RpcErrorCodes, SdkErrorCodes, RpcError, SdkError constructors and builders", f"{G}/*/schema_utils.rs"), ("JsonrpcError::create / JsonrpcErrorResponse::create", f"{G}/*/schema_utils.rs"), ("typed error conversions", f"{G}/*/schema_utils.rs")],
  "property-based testing: generated messages, data and timeouts against the protocol's table of codes",
  "Codes and constructors are visited in turn. Non-trivial when data is given (text cases: always).",
  "The table of codes is JSON-RPC's and MCP's. Text accepted as an error must be an object with an integer code and a string message.", assumptions=[SCH_ASSUME])

prop("P11", "Form field schemas read from JSON maps keep their kind and content",
  "A form field definition read from a JSON map is presented as exactly the kind its members describe and keeps every member it defines, agreeing with the ordinary reader of the same JSON. A map that describes no supported kind is refused with a parse error; no map makes it crash, and a definition never says anything the map did not say.",
  ["inputs"], "every valid definition of every kind (string, number, boolean, all enum forms); maps with unknown, missing or misplaced type; maps with arbitrary members added, removed or replaced",
  "The reader chooses the kind from combinations of optional members; tests try one map per kind.",
  files(UTILS, SCHEMA, versions=F4), [("TryFrom<&Map> for PrimitiveSchemaDefinition and its helpers", f"{G}/*/schema_utils.rs"), ("PrimitiveSchemaDefinition union", f"{G}/*/mcp_schema.rs")],
  "property-based testing: schema-generated definitions and mutated maps against a reference classification",
  "Kinds are visited in turn. Non-trivial when the map has at least two members (mutated maps: any member).",
  "Constraint members of the wrong type and unknown formats may be dropped (lenient by design), so for mutated maps only additions are judged.", versions=F4, assumptions=[SCH_ASSUME])

prop("P12", "Batches keep every message, in order, and singles stay singles",
  "A JSON array of messages reads as a batch holding exactly those messages in order, a single message reads as a single; both write back the same JSON and are reported as what they are. A batch reports a request exactly when one of its messages is one, and a batch with an element that is no message is refused as a whole.",
  ["inputs"], "single messages and batches of 0 to 5 messages of any kinds, of both sides, read from JSON and built from messages and payloads; batches with one broken element",
  "Tests build batches of one or two fixed messages.",
  files(UTILS), [("ClientMessages, ServerMessages, MessagesFromClient, MessagesFromServer", f"{G}/*/schema_utils.rs")],
  "property-based testing: generated batches against the list of their elements",
  "Batches are drawn from all kinds of messages. Non-trivial with two or more messages.",
  "Each element is first read on its own, and the batch must agree with that.", assumptions=[SCH_ASSUME])

prop("P13", "Content and tool results built by helpers are the content given",
  "A content block or tool result built through the library's helpers, step by step, holds exactly the content given with the right type tag. A block can be viewed as its own type only. A tool failure becomes a failed tool result, or an internal protocol error, with the failure's own text, and keeps its cause.",
  ["inputs", "histories"], "every helper of content blocks and tool results x arbitrary content; sequences of up to five building steps; tool errors of every kind with arbitrary text and causes; resource contents and elicited values of the newer versions",
  "Helpers take several arguments of the same type and are repeated for each content type; tests try each once, with one text.",
  files(UTILS, SCHEMA), [("content helpers of CallToolResult and ContentBlock", f"{G}/*/schema_utils.rs"), ("CallToolError", f"{G}/*/schema_utils.rs"), ("content conversions and typed views", f"{G}/*/schema_utils.rs")],
  "stateful property-based testing: random sequences of helper calls against a JSON model",
  "Content types are visited in turn. Non-trivial with more than the bare content, more than one step, or any tool error.",
  "The model applies each step to plain JSON.", assumptions=[SCH_ASSUME])

prop("P14", "Protocol versions are named, ordered and recognised exactly",
  "Each supported protocol version has its own published name, reads back from it and from no other text, and versions sort by date of publication with the draft last. The list of supported versions is complete, includes the draft only when asked for, and the latest version is the newest stable one. An unknown version is refused with an error that names it and lists the supported ones.",
  ["inputs"], "all versions; arbitrary near-version texts (other dates, case, white space, changed characters); arbitrary lists of versions to sort",
  "Version negotiation decides whether two peers can talk. Tests check the known names; which other texts are accepted is an unbounded question.",
  ["src/generated_schema/protocol_version.rs"], [("ProtocolVersion", "src/generated_schema/protocol_version.rs"), ("LATEST_PROTOCOL_VERSION", f"{G}/*/mcp_schema.rs")],
  "property-based testing: generated version texts and lists against the published list of versions",
  "Versions are visited in turn, near-version texts are derived from real names. Every case is non-trivial.",
  "Exhaustive over the versions themselves; sampled over other texts.")

prop("P15", "Unfinished results are told apart from complete ones, always",
  "From 2026-07-28 on, a result is presented as a request for input exactly when its discriminator says so, and as a complete result otherwise, wherever it travels (alone, in a response, in a typed response), with its content kept. The requests for input it carries are each found under their own key and viewed as their own type only.",
  ["inputs"], "every result type x discriminator present, absent, of the other kind, of another word or type x members of the other kind mixed in; all maps of input requests",
  "A result whose members fit both kinds, or a bare one, is where a reader goes wrong; tests read one or two typical results.",
  files(UTILS, SCHEMA, versions=C2), [("readers of ServerResult and of the typed responses by resultType", f"{G}/2026_07_28/schema_utils.rs"), ("InputRequests accessors", f"{G}/*/schema_utils.rs")],
  "property-based testing: generated results with every discriminator against the discriminator's own meaning",
  "Result types and discriminators are drawn independently. Non-trivial when the result has more than the discriminator.",
  "A result without discriminator counts as complete, as documented for older peers.", versions=C2, assumptions=[SCH_ASSUME])

prop("P16", "Request metadata and input answers change nothing but themselves",
  "From 2026-07-28 on, metadata built step by step holds exactly what was set; stamping metadata on a request replaces its metadata and leaves everything else of the request as it was. Answers and state put into a request are carried by exactly the requests that take them, and any other request is refused with an invalid-params error that names its method.",
  ["inputs", "histories"], "every client request x arbitrary metadata, answers and state; sequences of metadata and builder steps",
  "There is one branch per request type in each helper; tests try one or two types.",
  files(UTILS, versions=C2), [("RequestMetaObject builders, with_meta, meta", f"{G}/2026_07_28/schema_utils.rs"), ("with_input_responses and the params builders", f"{G}/2026_07_28/schema_utils.rs")],
  "stateful property-based testing: random building steps against a JSON model",
  "Request types are visited in turn. Non-trivial with more than one step or a non-empty set of answers (stamping: always).",
  "The expectation is the generated request with the one member replaced.", versions=C2, assumptions=[SCH_ASSUME])

prop("P17", "Closed word lists accept exactly the protocol's words",
  "Each closed list of words of the protocol (roles, logging levels, actions, formats, statuses and the like) accepts exactly its own words, exactly as spelled, from JSON and, where offered, from plain text. Each word is written and shown as itself, and different words are different values. A refusal of plain text names the text.",
  ["inputs"], "every word of every list of every version, every pair of words, and arbitrary foreign words near the list (case, white space, changed characters, words of other lists)",
  "A renamed word or a lenient reader shows only with that word or with a text near it; tests use a few words.",
  files(SCHEMA, UTILS), [("enums of strings: serde renames, Display, FromStr", f"{G}/*/mcp_schema.rs")],
  "property-based testing: words and near-words against the schema's lists",
  "Lists are visited in turn. Every case is non-trivial.",
  "All words are covered many times over; foreign words are sampled.", assumptions=[SCH_ASSUME])

prop("P18", "Reading is total, independent of layout, and stable once written",
  "Reading any value, text or bytes as any protocol type or message never crashes, and the answer is the same whichever way the same JSON arrives: parsed value, text, bytes or a stream, with members in any order, any white space and any escapes. Whatever was accepted and written reads back as the same value and kind of message, and writes the same again. A sink that fails or a stream that breaks off is reported as a failure.",
  ["inputs"], "every type and message of every version x arbitrary JSON, values of other types, merged and disturbed values, damaged bytes, scrambled layouts, sinks and streams that fail after any byte",
  "Untagged unions and hand-written readers take unlimited combinations of input; tests read well-formed values in the usual order of members.",
  files(SCHEMA, UTILS, VALID), [("serde readers of all types", f"{G}/*/mcp_schema.rs"), ("hand-written readers that inspect a parsed value", f"{G}/*/schema_utils.rs")],
  "fuzzing with structured generators: differential reading paths, layout metamorphism, write-read-write stability, injected stream faults",
  "Types are visited in turn with valid, disturbed, merged, foreign and arbitrary values. Non-trivial: objects and arrays (damaged bytes: always).",
  "No oracle beyond agreement of the reading paths is needed. Custom messages of the three oldest versions are exempt from stability (recorded finding).", assumptions=[])

prop("P20", "Unknown members from newer peers do no harm",
  "A value or message that carries additional members its definition does not know, at any depth, is read the same as without them: it is accepted, presented as the same type and kind, and everything known in it is kept. (Members beside the fixed ones of a message envelope are outside this.)",
  ["inputs"], "every type and message of every version x additional members at every depth, with arbitrary values",
  "Forward compatibility depends on every reader at every depth; tests read values with known members only.",
  files(SCHEMA, UTILS), [("serde readers without deny_unknown_fields", f"{G}/*/mcp_schema.rs"), ("hand-written readers", f"{G}/*/schema_utils.rs")],
  "metamorphic property-based testing: the same value with and without unknown members",
  "Unknown members are put into a third of the objects of a valid value. Non-trivial when at least one was put in.",
  "Where a map fixes the type of its members, the unknown member is one the schema allows.", assumptions=[SCH_ASSUME])

prop("P21", "Task helpers report and keep exactly what the task members say",
  "In 2025-11-25, a message asks for a task exactly when it is of a kind that can and carries the task member; helpers that add a task or a related task id set exactly that, keep everything else, and what was set is what is read. A peer's declared task abilities are exactly those its capabilities name, and a task is over exactly when its status is one of the final ones.",
  ["inputs", "histories"], "every message with and without task members; sequences of metadata steps; all combinations of nested task capabilities; all statuses",
  "The helpers exist in parallel for many types and nested optional members; tests cover single examples.",
  files(UTILS, versions=B1), [("is_task_augmented, with_task, related task id, can_* of capabilities, is_terminal", f"{G}/2025_11_25/schema_utils.rs")],
  "stateful property-based testing: random building steps and capability sets against a JSON model",
  "Kinds of message are visited in turn. Non-trivial when a task member or task capability is present, or more than one step is taken.",
  "The model is the JSON itself.", versions=B1, assumptions=[SCH_ASSUME])
prop("P22", "Answers depend only on what is asked, not on history or threads",
  "Reading, writing, showing, converting, comparing or checking a value or message gives the same answer for the same input however often it is asked, whatever was read, written or asked before, and however many threads ask at the same time. A copy of a value says what the original says, and values do not influence each other.",
  ["inputs", "histories", "schedules"], "histories of calls of every kind the other properties look at, repeated, interleaved and run on up to five threads at once",
  "A hidden cache, counter or shared buffer answers every call of a test rightly; it takes a second value, a long history or another thread to see it.",
  files(SCHEMA, UTILS, VALID), [("all readers, writers and helpers: pure functions without shared state", f"{G}/*/schema_utils.rs")],
  "stateful property-based testing: random histories and concurrent runs of oracle-checked calls, repeated and compared",
  "A case picks two to six questions (cases of the other properties' checks with their oracles), asks each alone, then many times in random order or on several threads, and asks some of the questions of the beginning again. Non-trivial with at least two questions.",
  "Schedules are those the operating system gives; counters that need more calls than a run makes stay unseen.", assumptions=[])
P.sort(key=lambda p: p["id"])
