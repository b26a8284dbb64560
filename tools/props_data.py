# One prop(...) call per property; see tools/props.py
ENV = ("MxMessage::from_xml/to_xml", "src/mx_envelope.rs")
DOCS = ("serde field/rename/skip attributes of every document struct", "src/document/*.rs")
HDRS = ("serde attributes of the header structs", "src/header/*.rs")
REG = ("message registry", "src/message_registry.rs")
XMLM = ("reading of enveloped and Document-only XML", "src/xml.rs")
PLUG = lambda f: (f"{f} plugin handler", f"src/plugin/{f.split('_')[0]}.rs")
ALLF = ["src/mx_envelope.rs", "src/xml.rs", "src/document/", "src/header/"]
SPACE = "every message of the 25 registered types: all optional/absent combinations, list lengths, conforming values"

prop("C01", "XML round trip preserves every message",
 "Writing any message value to XML and reading that XML back yields an equal message. Writing the re-read message again yields the same bytes.",
 ["inputs"], SPACE + ", and texts with any XML-legal characters",
 "The tests round-trip 172 scenario files that populate a small part of the ~18,000 element paths; a renamed, dropped or re-ordered element elsewhere is invisible to them.",
 ALLF, [ENV, DOCS, HDRS], ["MxMessage::to_xml", "MxMessage::from_xml", "PartialEq of MxMessage"],
 "runtime monitor: round-trip oracle over schema-directed generated executions",
 "Every element path of every type is exercised each run with random surroundings; assumes nothing about the writer. Exploration, not proof.")
prop("C02", "JSON round trip preserves every message",
 "Reading a message from JSON and writing it back gives the same JSON value: every element, list item and value, nothing dropped, added or changed. The order of keys, white space and escape style of the input do not matter.",
 ["inputs"], SPACE + "; any key order, white space and escape spelling",
 "Tests compare JSON only for the generated scenarios; most optional fields never occur in them.",
 ALLF, [("MxMessage::from_json/to_json", "src/mx_envelope.rs"), DOCS, HDRS], ["MxMessage::from_json", "MxMessage::to_json"],
 "runtime monitor: JSON value equality against the generated message",
 "Oracle is the generated JSON value itself; the reference schema is committed and audited.")
prop("C03", "XML ingestion carries over every element exactly",
 "Reading a schema-conforming XML message yields a message whose JSON form states exactly the content of the XML: every element and attribute under its own name and path, in its order, with its value. Nothing is lost, invented or moved.",
 ["inputs"], SPACE + ", written as XML by an independent writer",
 "Tests only re-read XML that the library itself wrote, so a consistently misnamed element is invisible to them.",
 ALLF, [ENV, DOCS, HDRS], ["MxMessage::from_xml", "MxMessage::to_json"],
 "runtime monitor: independent XML writer and content oracle from the reference schema",
 "Reference element names/cardinalities come from the pinned commit's schema, audited; a name wrong in the pinned commit itself would be taken as right.")
prop("C04", "XML emission states every element exactly, in schema order",
 "The XML written for any message is well-formed and states exactly the content of the message: element names, attributes, order, repetition and values follow the ISO 20022 schema, and no empty placeholder element is written for absent content.",
 ["inputs"], SPACE + ", built from JSON",
 "Tests never inspect the emitted XML with anything but the library's own reader.",
 ALLF, [("MxMessage::to_xml and document wrapper renaming", "src/mx_envelope.rs"), DOCS, HDRS], ["MxMessage::to_xml"],
 "runtime monitor: strict independent XML reader compares emitted XML with the message",
 "Same reference schema assumption as C03; the XML reader is the harness's own.")
prop("C05", "Reading XML does not depend on how it is laid out",
 "Two XML texts that differ only in layout (indentation, line ends, comments, processing instructions, CDATA sections, character references, self-closed empty elements, quote style, white space in tags and around values, XML declaration, envelope element name, namespace attributes) are read as the same message.",
 ["inputs"], "every message x every combination of those layout choices",
 "Tests read only the library's own compact output.",
 ["src/mx_envelope.rs", "src/xml.rs"], [ENV, ("location of AppHdr, Document and namespace attributes", "src/mx_envelope.rs")], ["MxMessage::from_xml"],
 "runtime monitor: metamorphic layout oracle on from_xml",
 "Prefix-qualified element names are outside the claim (the library does not support them).")
prop("C06", "Text values survive whatever characters they contain",
 "A text value containing any XML-legal characters - markup characters, entity look-alikes, CDATA ends, tag names of the library, quotes, non-ASCII, very long text - appears unchanged after JSON to XML, XML to JSON and round trips, and never changes any other part of the message. Outer white space of XML (space, tab, line end) is insignificant; any other space is content. A text that XML 1.0 cannot carry is refused by the XML writer instead of being written.",
 ["inputs"], "every text position of every type x adversarial texts up to 64 KiB",
 "Scenario data contains plain words; string-replacing serializers break exactly on text that looks like tags.",
 ["src/mx_envelope.rs", "src/xml.rs", "src/document/", "src/header/"], [ENV, ("string replacement of struct names in serialize_with_rename", "src/mx_envelope.rs")], ["MxMessage::to_xml", "MxMessage::from_xml", "MxMessage::from_json", "MxMessage::to_json"],
 "runtime monitor: hostile-text workload with independent XML reader",
 "Line ends in text (CR, LF, CRLF) must come back exactly from the library and from a conforming XML reader; unescaped CR in ingested XML is outside the claim.")
prop("C07", "Amounts and other numbers are exact to 15 digits",
 "Every amount, rate or other number of up to 15 significant digits is carried with exactly its decimal value through XML reading, XML writing, JSON reading and JSON writing, and is written to XML in plain decimal notation.",
 ["inputs"], "every numeric element path of every type x decimals of up to 15 significant digits",
 "Tests sample a few random two-decimal amounts.",
 ["src/document/", "src/mx_envelope.rs"], [DOCS, ENV], ["MxMessage::from_xml", "MxMessage::to_xml", "MxMessage::to_json", "MxMessage::from_json"],
 "runtime monitor: exact decimal string arithmetic on emitted values",
 "More than 15 digits cannot be held by the library's double-precision fields; outside the claim.")
prop("C08", "A message lacking mandatory content is refused everywhere",
 "Input in which any element or attribute that the schema makes mandatory is absent - in the header, in the document, or a whole block - is refused with an error by every entry point that reads messages, and no entry point stores a result for it.",
 ["inputs"], "every mandatory element path of every type and of the header x every reading entry point",
 "Tests contain almost no negative inputs; the mandatory paths number in the thousands.",
 ALLF + ["src/plugin/"], [("non-optional fields of the structs", "src/document/*.rs, src/header/*.rs"), XMLM, PLUG("parse_mx"), PLUG("validate_mx"), PLUG("publish_mx")], ["MxMessage::from_xml/from_json", "xml::from_mx_xml_envelope_str", "xml::xml_to_json_via_document", "parse_mx", "validate_mx", "publish_mx"],
 "runtime monitor: fault-injected messages, refusal oracle at every entry point",
 "Each case first shows the intact message is accepted. Mandatory means mandatory in the pinned schema.")
prop("C09", "Malformed values and malformed XML are refused everywhere",
 "Input in which a coded element holds a code outside its list, a number or boolean element holds something else, a JSON scalar has the wrong kind, a single-valued element - down to the header, the document and the message in it - occurs twice, or the XML text is not well-formed inside the message or breaks off anywhere, is refused with an error by every entry point that reads messages.",
 ["inputs"], "every coded/numeric/boolean/single-valued element path x bad values; random syntax errors",
 "Tests contain almost no negative inputs.",
 ALLF + ["src/plugin/"], [DOCS, HDRS, ENV, PLUG("parse_mx"), PLUG("validate_mx"), PLUG("publish_mx")], ["MxMessage::from_xml/from_json", "xml::from_mx_xml_envelope_str", "xml::xml_to_json_via_document", "parse_mx", "validate_mx", "publish_mx"],
 "runtime monitor: fault-injected messages, refusal oracle at every entry point",
 "NaN/infinity spellings are a known finding; number spellings the library tolerates benignly ('5.', '+5', '1e3') and boolean 'yes'/'no' are not claimed.")
prop("C10", "Every broken length or pattern constraint is reported, exactly",
 "Validating a message reports one error for each text that breaks its length or pattern constraint - with the code for too short, too long or pattern mismatch, the element's full path and its name - and nothing else. Constraints apply to the whole value, counted in characters.",
 ["inputs"], "every constrained path of every type and of the header x violating values, singly and many at once",
 "No existing test checks reported validation errors; ~10,000 constrained paths.",
 ["src/validation.rs", "src/parse_result.rs", "src/document/", "src/header/"], [("Validate implementations", "src/document/*.rs, src/header/*.rs"), ("validate_length/validate_pattern", "src/validation.rs")], ["Validate::validate", "ErrorCollector::errors"],
 "runtime monitor: exact multiset oracle of expected reports",
 "Constraints are those of the audited reference schema.")
prop("C11", "A conforming message validates without errors in any configuration",
 "Validating a message all of whose texts satisfy their constraints reports nothing, under every parser configuration and whatever optional content is present.",
 ["inputs", "configurations"], "conforming messages (boundary lengths, multi-byte text, every path) x all 8 configurations",
 "No test validates with varied configurations.",
 ["src/validation.rs", "src/document/", "src/header/"], [("Validate implementations", "src/document/*.rs, src/header/*.rs"), ("validate_length/validate_pattern", "src/validation.rs")], ["Validate::validate", "ErrorCollector"],
 "runtime monitor: no-false-alarm oracle over conforming executions",
 "Conformity is computed from the reference constraints.")
prop("C12", "Validation configuration means what it says",
 "With fail-fast set, validation reports exactly the first error that full validation would report and none when there is none; with validation of optional content switched off, the report is the full report minus errors inside optional groups, and mandatory content is still checked. Earlier errors in a collector are never lost or duplicated.",
 ["inputs", "configurations", "histories"], "messages with one or many broken constraints x all 8 configurations x collectors with earlier errors",
 "The configuration flags are not exercised by tests.",
 ["src/validation.rs", "src/parse_result.rs", "src/document/", "src/header/"], [("ParserConfig", "src/parse_result.rs"), ("Validate implementations", "src/document/*.rs")], ["Validate::validate under ParserConfig"],
 "runtime monitor: differential oracle between configurations",
 "First = first in the order of full validation of the same message.")
prop("C13", "The constraint helpers decide exactly the stated constraint",
 "For any text, bounds, pattern and path, the length helper reports iff the character count is outside the bounds, the pattern helper iff the whole trimmed value does not match, the required helper iff the value is absent, with the right code, path, field and severity (critical under fail-fast, for an absent required value and for an unusable pattern); path composition joins with a dot.",
 ["inputs", "configurations"], "any texts, bounds, patterns (including invalid ones), paths, configurations",
 "Unit tests of the helpers check a handful of ASCII values.",
 ["src/validation.rs"], [("validate_length, validate_pattern, validate_required, child_path", "src/validation.rs")], ["validation::helpers"],
 "runtime monitor: model oracle on helper calls", "Invalid patterns: no panic and no report about the value is claimed as observed at the pinned commit.")
prop("C14", "Error collections keep every error, in order, and say when to stop",
 "Whatever sequence of errors is added, a collector holds exactly those errors in order, is critical iff a critical one was added, and its size and emptiness agree; a parse result's accessors and conversions agree with what it was built from.",
 ["histories"], "all histories of additions and observations",
 "Unit tests check one or two additions.",
 ["src/parse_result.rs", "src/error.rs"], [("ErrorCollector, ParseResult", "src/parse_result.rs")], ["ErrorCollector", "ParseResult"],
 "runtime monitor: model oracle over random histories", "Reference model: a list and a flag.",
 [("errors, has_critical", "errors so far; whether a critical one was added", "src/parse_result.rs")])

prop("C15", "The message registry is one consistent table",
 "For every message type the short form, full form, XML element and struct name convert into each other without contradiction, and namespaces are the ISO URN plus the full form; an unknown identifier is left unchanged by normalisation and yields no element. A message's namespace accessors agree with the registry.",
 ["inputs"], "every registered identifier in every form, near misses and arbitrary strings x every lookup function",
 "The unit tests look at three or four of the 25 rows.",
 ["src/message_registry.rs", "src/mx_envelope.rs", "src/plugin/common.rs"], [REG, ("Document::namespace, MxMessage::namespace/new", "src/mx_envelope.rs"), ("map_document_element_to_message_type", "src/plugin/common.rs")], ["message_registry functions", "MxMessage::namespace", "Document::namespace"],
 "runtime monitor: table oracle over lookups of known, near-miss and arbitrary identifiers",
 "The table of 25 rows is the harness's own copy of the ISO 20022 message set; the legacy aliases (FinInstnCdtTrf, Rct, ClmNonRct) are as at the pinned commit.")
prop("C16", "Every way of identifying a message's type agrees",
 "The type found by peeking at the XML or the JSON, by reading the whole message, by extracting it from the Document, and in the metadata of parse_mx is the type of the message; text elsewhere in the message (comments, values, other tags) never changes it. When a message states no type, identification fails instead of inventing one.",
 ["inputs"], "every type x layouts x texts holding identifiers and tags of other types; texts without an identifier",
 "Tests peek at a few plain literals.",
 ["src/mx_envelope.rs", "src/plugin/common.rs", "src/plugin/parse.rs"], [("peek_message_type_from_xml/json", "src/mx_envelope.rs"), ("extract_message_type, extract_message_type_from_xml", "src/plugin/common.rs")], ["peek_message_type_from_xml", "peek_message_type_from_json", "extract_message_type", "extract_message_type_from_xml", "parse_mx metadata"],
 "runtime monitor: agreement oracle between identification paths",
 "A message whose header names another version or an unknown identifier is peeked as that identifier (as at the pinned commit).")

PL = ["src/plugin/parse.rs", "src/plugin/publish.rs", "src/plugin/validate.rs", "src/plugin/generate.rs", "src/plugin/common.rs"]
prop("C17", "No input makes a reading function panic, abort or hang",
 "Whatever text is given to any function that reads XML or JSON, validates, peeks or extracts a type, the function returns - a result or an error - without panicking, without exhausting the stack of a 2 MiB worker thread and within time proportionate to the size of the text.",
 ["inputs"], "arbitrary texts: mutated messages, every prefix, nesting up to 200,000 levels, texts of megabytes",
 "Tests feed well-formed samples; crashes hide at odd cut points and extreme depths.",
 ["src/mx_envelope.rs", "src/xml.rs", "src/plugin/", "src/validation.rs"], [ENV, XMLM, ("extract_message_type_from_xml", "src/plugin/common.rs"), PLUG("parse_mx"), PLUG("validate_mx"), PLUG("publish_mx")], ["every public reading function", "process exit status", "CPU time"],
 "runtime monitor: crash, stack and CPU-time watch over hostile texts, CPU time measured against text size (AddressSanitizer build in the thorough tier)",
 "Child process with a journal: an abort or hang names the case. CPU bounds are generous: superlinear means more than three times proportional at 16 times the size. Quadratic cost of thousands of attributes on one element: known finding.")
prop("C18", "A plugin call that cannot succeed fails cleanly and changes nothing",
 "Calling parse_mx, publish_mx, validate_mx or generate_mx with a wrong configuration, a missing or unusable source, an unreadable message or unusable message data gives a validation error - never a panic, never success - and leaves data, metadata, payload, audit trail and errors of the dataflow message exactly as they were.",
 ["inputs", "configurations", "fault_sequences"], "every function x every kind of misuse x messages with unrelated content everywhere",
 "Plugin tests cover the success path and two or three errors, and do not compare the message before and after.",
 PL, [PLUG("parse_mx"), PLUG("publish_mx"), PLUG("validate_mx"), PLUG("generate_mx")], ["AsyncFunctionHandler::execute", "dataflow Message before/after"],
 "runtime monitor: before/after snapshot oracle on plugin calls", "validate_mx reports unreadable message text as an invalid verdict, not as an error; that is C21.",
 [("Message.context", "data, metadata and temp_data of the dataflow message", "dataflow-rs Message")])
prop("C19", "parse_mx stores exactly the content of the message",
 "parse_mx, given a full envelope or a Document alone, in any layout, from a text field, an object's mx_message or the payload, stores at its target JSON that states exactly the content of the XML, names the message's type and the json format in the metadata, and leaves everything else in the data alone.",
 ["inputs", "configurations"], SPACE + "; every source form; any target",
 "The plugin tests use generated samples of a few paths.",
 PL + ["src/xml.rs", "src/mx_envelope.rs"], [PLUG("parse_mx"), XMLM, ENV], ["parse_mx", "message data and metadata"],
 "runtime monitor: content oracle on the stored JSON",
 "A literal backslash-n inside a text is turned into a line break: known finding.")
prop("C20", "publish_mx writes exactly the content of the message",
 "publish_mx stores at its target XML that is well-formed, states exactly the content of the source JSON, is the text the library API writes for the same JSON, and is read back by parse_mx as the same message; the source is left alone.",
 ["inputs", "configurations"], SPACE + "; with or without namespace keys; any target",
 "The plugin tests use generated samples and do not read the XML independently.",
 PL + ["src/mx_envelope.rs"], [PLUG("publish_mx"), ENV], ["publish_mx", "parse_mx", "message data"],
 "runtime monitor: independent XML reader on the stored text",
 "A Document without AppHdr is refused although documented as accepted: known finding.")
prop("C21", "validate_mx calls a message valid exactly when it can be read",
 "validate_mx succeeds on any message text and stores a verdict of the documented shape: valid without errors for every conforming message or Document in any layout, invalid with at least one error for every text that the library refuses to read. The verdict agrees with its errors list and is recorded where configured.",
 ["inputs", "configurations"], "conforming messages in any layout; messages with any mandatory part missing; arbitrarily damaged texts",
 "Plugin tests validate a few samples and one or two broken texts.",
 PL + ["src/xml.rs"], [PLUG("validate_mx"), XMLM], ["validate_mx", "message data"],
 "runtime monitor: verdict oracle against conformity and against the reading API",
 "Length and pattern constraints are not checked by validate_mx: known finding.")
prop("C22", "Plugin call histories leave exactly the state a simple model predicts",
 "After any sequence of plugin calls on one message - succeeding or failing, with any sources and targets, targets that overwrite earlier results or sources - every data and metadata entry is what a simple model of the four functions predicts, and each successful call reports exactly one change at its target with the previous and the new value.",
 ["histories"], "random histories of up to dozens of calls over shared fields",
 "Tests make one call, or the four calls in the usual order.",
 PL, [PLUG("parse_mx"), PLUG("publish_mx"), PLUG("validate_mx"), PLUG("generate_mx"), ("change records", "src/plugin/*.rs")], ["AsyncFunctionHandler::execute", "returned changes", "message data and metadata after each call"],
 "runtime monitor: online model over call histories", "The model uses the reading/writing API for the values, whose correctness is C01-C07.",
 [("Message.context.data / metadata", "results of earlier calls", "dataflow-rs Message")])
prop("C23", "The whole workflow returns the message it started from",
 "Running generate, publish, validate and parse in the dataflow engine - over each of the repository's scenarios or any message - succeeds at every step, with an audit entry per step; the XML is one header and one document of the scenario's type, the verdict is valid, and the parsed JSON equals the generated JSON.",
 ["inputs", "histories"], "all 172 scenarios, several random generations each, and generated messages of every type",
 "Scenario tests check each scenario once per run and compare only against the library's own reader.",
 PL + ["src/mx_envelope.rs", "src/xml.rs"], [PLUG("generate_mx"), PLUG("publish_mx"), PLUG("validate_mx"), PLUG("parse_mx"), ("register_mx_functions", "src/plugin/mod.rs")], ["dataflow Engine::process_message", "audit trail", "message data"],
 "runtime monitor: end-to-end oracle over engine runs", "Numbers are compared to 15 significant digits.")
prop("C24", "generate_mx fills in exactly what the template says",
 "generate_mx stores at its target the template's schema with every variable reference replaced by the variable's value and every constant kept - key order, nesting, types, lists, empty containers - and values drawn at random are drawn anew for each call; other data is left alone.",
 ["inputs", "configurations"], "random templates with variables, nested structures and constants; complete messages of every type",
 "Tests only check that generation yields some sample.",
 ["src/plugin/generate.rs"], [PLUG("generate_mx")], ["generate_mx", "message data"],
 "runtime monitor: template evaluation oracle", "Templates are restricted to var references and constants, whose meaning is unambiguous, plus random generators for freshness.")
prop("C25", "Results depend on the input alone, not on order, threads or history",
 "Every reading, writing, validating and plugin function gives the same complete result for the same input: first or last, after any other inputs (accepted or refused), at the same time as other calls on other threads with shared handlers or one shared engine, and in another process.",
 ["schedules", "histories"], "operations over near-identical messages in random orders on 8 threads, in fresh processes, after damaged inputs",
 "Tests run each function once on independent inputs; a cache, shared buffer or order-dependent container shows only across calls.",
 ALLF + PL, [ENV, XMLM, REG, PLUG("parse_mx"), PLUG("publish_mx"), PLUG("validate_mx"), PLUG("generate_mx")], ["all public functions", "shared dataflow Engine"],
 "runtime monitor: digest comparison across threads, orders, histories and processes (ThreadSanitizer build in the thorough tier)",
 "The time stamp of a validate_mx verdict is masked. Schedules are sampled, not enumerated.")
prop("C26", "A Document alone is read exactly like the document of an envelope",
 "The typed Document reader returns exactly the document's content under its element name whether it is given the Document, the bare message element or the whole envelope, and the envelope validator accepts all of them; a Document is not read as another message type, an unknown type is refused, and reading a Document as a full message fails instead of inventing a header.",
 ["inputs"], SPACE + "; Document, bare element and envelope; all pairs of types",
 "The Document-only path has its own 25-row dispatch that few tests touch.",
 ["src/xml.rs", "src/mx_envelope.rs", "src/document/"], [XMLM, ("xml_to_json_via_document dispatch", "src/xml.rs"), REG], ["xml::xml_to_json_via_document", "xml::from_mx_xml_envelope_str", "MxMessage::from_xml"],
 "runtime monitor: content oracle on the Document-only path", "A root element that belongs to no registered type is not claimed to be refused.")
prop("C27", "Every document and header type of the library stands on its own",
 "A value of any of the 31 document types and 31 header types - including the STP, COV, ADV and multi-currency variants - used directly through serde is written to JSON and XML and read from them exactly, element by element; incomplete values, unknown codes and malformed numbers or booleans are refused.",
 ["inputs"], "every element path, every code and every mandatory element of all 62 types",
 "The variant document modules and 30 of the 31 header modules are never used by any test.",
 ["src/document/", "src/header/"], [DOCS, HDRS], ["serde Serialize/Deserialize of the document and header types"],
 "runtime monitor: independent XML reader/writer and JSON equality on directly used types", "Same reference schema assumption as C03. Carriage returns in texts are left out (the envelope writer handles them, C06).")
prop("C28", "Every document and header type validates exactly its constraints",
 "Validating a value of any of the 31 document types and 31 header types reports exactly one error per broken length or pattern constraint, with its code, full path and name, and nothing else, on both sides of every bound.",
 ["inputs"], "every constrained element of all 62 types with values on and beyond each bound",
 "No test validates the variant or header types.",
 ["src/document/", "src/header/", "src/validation.rs"], [("Validate implementations", "src/document/*.rs, src/header/*.rs"), ("validate_length/validate_pattern", "src/validation.rs")], ["Validate::validate"],
 "runtime monitor: exact multiset oracle of expected reports on directly used types", "Constraints are those of the audited reference schema.")
prop("C29", "Namespace declarations of the envelope are kept",
 "The default and xsi namespaces declared by an envelope - on the envelope, header or document element, in any spelling, with any value - are kept exactly by reading and writing XML and JSON; absent ones stay absent, and they never affect the content.",
 ["inputs"], "any pair of declarations, usual and hostile values, any place and spelling x messages of every type",
 "Tests never compare the declarations after a round trip.",
 ["src/mx_envelope.rs"], [ENV, ("extract_attribute", "src/mx_envelope.rs")], ["MxMessage.xmlns/xmlns_xsi", "MxMessage::to_xml", "MxMessage::to_json"],
 "runtime monitor: declaration oracle through every conversion", "A declaration on several elements at once: the outermost counts (not generated).")
prop("C30", "A usage-variant message is read in full or refused, never in part",
 "A message following one of the library's usage-variant definitions (6 document variants, 31 header definitions), read through the envelope from XML or JSON, is either read with all of its content or refused when the envelope's type cannot hold it; content the two definitions share is never lost.",
 ["inputs"], "every element path of every variant definition",
 "No test reads variant messages through the envelope.",
 ["src/mx_envelope.rs", "src/document/", "src/header/"], [ENV, DOCS, HDRS], ["MxMessage::from_xml", "MxMessage::from_json"],
 "runtime monitor: projection oracle between variant and base definitions", "22 elements that the base types lack are dropped silently: known findings, one signature each.")
prop("C31", "The untyped XML-to-JSON conversion keeps every element and text",
 "The untyped conversion turns XML without repeated elements into JSON holding exactly its elements, attributes and texts at their places, in any layout; ill-nested or truncated XML, more than one root element and nesting beyond 128 levels are refused.",
 ["inputs"], "documents of every type with any optional content, any layout; damaged texts; nesting 1 to 160",
 "The conversion has no unit test of content.",
 ["src/xml.rs"], [("from_mx_xml_to_json, check_structure", "src/xml.rs")], ["xml::from_mx_xml_to_json"],
 "runtime monitor: content oracle on the untyped JSON", "Of repeated elements only the last is kept: known finding. Mixed content and text after the root element are not claimed.")
prop("C32", "Memory in use stays proportional to the message and is given back",
 "While any public function works on a text or message, the bytes it has in use at once grow at most in proportion to the size of what it was given; and once the caller has dropped the results everything is given back, so that a process that handles any number of messages, good or bad, does not grow.",
 ["inputs", "histories"], "every public function x 21 shapes of input (conforming, invalid, hostile) at two sizes; long runs of thousands of messages with new texts per function",
 "No test measures memory; a cache without a bound or a copy per entry passes every assertion.",
 ALLF + PL, [ENV, XMLM, REG, ("validate_pattern", "src/validation.rs"), PLUG("parse_mx"), PLUG("publish_mx"), PLUG("validate_mx")], ["every public function", "global allocator"],
 "runtime monitor: counting allocator under growing inputs and long histories",
 "Only heap bytes of the calling thread are counted. Caches keyed by a fixed set (patterns, fields, types) are allowed: the shapes of the messages repeat, only texts are new.")
prop("C33", "Nothing is read in an element's place but the element itself",
 "An element, attribute or JSON key whose name the type does not define at its place - another case, a near miss, a name defined elsewhere, an unknown element with familiar content - is never taken for a defined one: the text is refused or read exactly as if the stranger were not there, and it is refused if the stranger stood for a mandatory element.",
 ["inputs"], "every element of every group of all 62 types under other names; unknown elements and keys at any place",
 "Tests never read a text with a wrong name; an alias, a case-insensitive comparison or a greedy search passes all of them.",
 ALLF, [ENV, DOCS, HDRS, XMLM], ["MxMessage::from_xml", "MxMessage::from_json", "xml::xml_to_json_via_document", "serde Deserialize of the document and header types"],
 "runtime monitor: content oracle on messages with one renamed or foreign element", "Names qualified by a prefix are not claimed (the reader looks at local names). The envelope's own tags may have any surroundings (C05).")

prop("C34", "Box wrapping changes the configured field types and nothing else",
 "The post-processing step that boxes field types of the generated sources turns T into Box<T>, and Vec<T> into Vec<Box<T>>, for exactly the fields its configuration selects, leaving every other byte and every other file as it was; what it does to a file depends on that file's definitions alone; a second run changes nothing, a dry run changes no file and reports what the run will do, and on the committed sources the committed configuration asks for nothing more.",
 ["inputs", "histories"], "the committed sources with any part of their boxes taken away; made-up sources x any configuration and command-line overrides",
 "The step has no test; it rewrites 60 source files by regular expressions.",
 ["apply-box-wrapping.py", "box-config.json", "src/document/"], [("StructAnalyzer.should_box_field/apply_boxing", "apply-box-wrapping.py")], ["apply-box-wrapping.py", "files it is run on"],
 "runtime monitor: exact-text oracle on scratch copies, re-run and dry-run monitors", "How large a type is that only another file defines, and types that contain themselves, are not claimed.")
prop("C35", "Formatting a scenario file changes its layout only",
 "The scenario formatter writes JSON with the same values in the same order for every JSON document and every choice of its options; formatting again changes nothing; only --in-place touches a file; an unreadable file is reported and left as it is, and the others are still formatted.",
 ["inputs"], "JSON documents of any shape (workflow operators, long and short texts, escapes, numbers, non-ASCII) x layout options; lists of good, broken and missing files; the committed scenarios",
 "The formatter has no test; it writes JSON by hand.",
 ["test_scenarios/json_semi_beautifier.py"], [("SemiBeautifier.format_value, main", "test_scenarios/json_semi_beautifier.py")], ["json_semi_beautifier.py"],
 "runtime monitor: content oracle with an order-keeping reader", "Keys that JSON must escape are written unescaped: known finding (the file lies under the test scenarios, which are not to be edited). Documents nested beyond Python's recursion limit are not claimed.")
prop("C36", "A refusal names what is at fault",
 "When an entry point refuses a message because a mandatory element or attribute is missing, a single-valued element occurs twice, a code is outside its list, or the message type, the source field or the Document block it needs is not there, the error it reports names that element, quotes that value or names that type, field or block; errors of the XML readers and of parse_mx and validate_mx also say in which part (header or message type) it was found.",
 ["inputs"], "every mandatory, coded, boolean, numeric and single-valued element of every type and of the header, one fault each, x every reading entry point",
 "Tests assert at most that there is an error; a mapping that drops the cause, or reports another place, passes all of them.",
 ALLF + ["src/plugin/", "src/error.rs"], [ENV, XMLM, DOCS, PLUG("parse_mx"), PLUG("validate_mx"), PLUG("publish_mx")], ["MxMessage::from_xml/from_json", "xml::from_mx_xml_envelope_str", "xml::xml_to_json_via_document", "parse_mx", "validate_mx", "publish_mx"],
 "runtime monitor: fault-injected messages, monitor on the texts of refusals", "Of a malformed number the XML readers say only that it is malformed; quoting it is claimed for JSON alone. Only the fact that the name or value occurs in the text is claimed, not the wording.")
prop("C37", "Every offered scenario generates conforming messages of its type",
 "Whatever generate_mx draws from a scenario that the repository's index files offer, the result can be read as a message whose header and document are of the offered type and whose texts satisfy every length and pattern constraint of their elements; the library's own validation agrees place by place.",
 ["inputs"], "every offered scenario, many draws each",
 "The end-to-end test draws each scenario once and never validates the constraints.",
 ["src/plugin/generate.rs", "src/document/", "src/header/", "src/validation.rs"], [PLUG("generate_mx"), DOCS, HDRS, ("scenario files", "test_scenarios/")], ["generate_mx", "MxMessage::from_json", "Validate::validate"],
 "runtime monitor: constraint oracle (reference schema) on drawn messages, cross-checked with the library's validation", "About half a hundred scenarios break constraints at 100 places: known findings, one per scenario and place (the scenario files are test data and are not repaired). Texts that a random draw alone can break (city names, e-mail addresses, the unsupported kind regex) are one finding per kind of draw and element.")
