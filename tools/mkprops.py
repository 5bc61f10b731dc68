import json
PC="progenitor-client/src/progenitor_client.rs"
M="progenitor-impl/src/method.rs"; L="progenitor-impl/src/lib.rs"; T="progenitor-impl/src/template.rs"; U="progenitor-impl/src/util.rs"
S="progenitor-impl/src/to_schema.rs"; H="progenitor-impl/src/httpmock.rs"; CLI="progenitor-impl/src/cli.rs"
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
p("C01","A path parameter stays inside its own place in the request URL",
 "For every path template and every string given for its parameters, the URL that goes on the wire has exactly the template's segments: literal text is unchanged and the text standing where a parameter stood percent-decodes back to exactly the value the caller gave. No value can add or remove a path segment, start a query string or fragment, or change the host or the base path the client was created with.",
 ["inputs"],"all templates, base URLs and parameter values (any Unicode text, including '/', '\\', '%', '?', '#', control characters, the empty string)",
 "the only test encodes two literals; the claim is over all strings and depends on how an http URL parser reads the encoded text afterwards",
 [PC,T,M],[("encode_path / PATH_SET",PC),("PathTemplate::compile",T),("url_path in method_sig_body",M)],
 obs=["request target received by the server","encode_path result"])
p("C02","Query parameters reach the server exactly as the caller gave them",
 "Every scalar query parameter is sent as one name=value pair, a list as one pair per element in order, an absent optional value or an empty list as nothing, and an object or map as one pair per present scalar member under the member's own name; percent-decoding the query gives back exactly the names and values supplied. Parameters never disturb one another, and a value that has no such form is reported as an error and nothing is sent.",
 ["inputs"],"all serializable parameter values of the supported shapes (scalars of every width, options, lists, enumerations in the serde representations, structs, maps, newtypes), alone and several on one request",
 "tests sample one value of most shapes; the claim is over the whole serialization data model, all widths, nesting and combinations",
 [PC,M],[("QueryParam / QuerySerializer / QuerySeq",PC),("query_params in method_sig_body",M)],obs=["raw query string received by the server"])
p("C03","The request's verb and body are the ones the operation declares",
 "A call issues its request with the HTTP verb the operation declares, and with exactly the body the caller supplied, encoded as the declared media type and labelled with that media type: JSON and form bodies decode to the value given, binary and plain-text bodies are the same bytes. An operation without a body sends none, and a body that cannot be encoded makes the call fail (for a form, as an invalid request) and nothing is sent.",
 ["inputs","programs"],"all verbs, media types and body values, in both generated interface styles",
 "no test issues a request with a body; the generated-code tests compare text for fixed documents",
 [M,PC],[("body_func in method_sig_body",M),("RequestBuilderExt::form_urlencoded",PC),("BodyContentType",M)],obs=["method, content-type header and body bytes received by the server"])
p("C04","Every request carries the API version and exactly the header parameters given",
 "Every request carries one api-version header equal to the version in the API description, and for each header parameter one header with the declared name and the caller's value; an absent optional header parameter sends none. Header parameters never replace each other or the headers the client itself must send, and a value that cannot be a header value makes the call fail as an invalid request before anything is sent.",
 ["inputs","programs"],"all combinations of required and optional header parameters and all string values",
 "no test sends a header parameter",[M,PC],[("headers_build / headers_use",M),("From<InvalidHeaderValue>",PC)],obs=["headers received by the server"])
p("C05","A call's outcome tells the truth about the one exchange it performed",
 "A call performs at most one HTTP exchange, and its outcome is determined by the declared responses: the entry for the exact status applies first, then the entry for the status class, then the default entry, and a declared success is returned as success while a declared error (or a default entry for a non-success status) is returned as an error response. A status that no entry covers is returned as an unexpected response, and a failure to exchange messages as a communication error, never as a success and never by panicking.",
 ["inputs","programs","fault_sequences"],"all sets of declared responses (exact codes, classes, default; typed, empty or raw content) against all status codes 100-999 a server may answer, and transport faults",
 "tests never run a generated method against a server; the claim quantifies over response tables and over every status",
 [M,PC],[("extract_responses and the generated match",M),("OperationResponseStatus",M),("Error",PC)],obs=["outcome of the call","number of requests received by the server"])
p("C06","A decoded response is the server's own status, headers and body",
 "A typed response holds exactly the status and headers the server sent and the value its body denotes, and mapping, unwrapping or borrowing it changes none of them; an operation with no declared content yields its status and headers whatever the body is. A body that does not decode is reported with exactly the bytes received, a body that cannot be read completely is reported as a body-read error, and neither is ever returned as a value.",
 ["inputs","fault_sequences"],"all statuses, header lists, bodies (valid, invalid, truncated) and declared content types",
 "there is no test of response decoding at all",[PC],[("ResponseValue::from_response/empty/map/content_length",PC)],obs=["ResponseValue accessors","Error variants"])
p("C07","A byte stream delivers the body bytes once, in order, and reports a cut",
 "A raw response is handed over as a stream as soon as the response head has arrived, without waiting for the body; the stream's chunks concatenate to exactly the body bytes the server sent, in order, and it ends cleanly only when the body is complete. If the connection breaks or the body is malformed the stream yields the bytes that arrived before and then an error, never a clean end.",
 ["schedules","fault_sequences","inputs"],"all chunkings and interleavings of server writes with client reads, and a connection cut at any point",
 "no test touches streams",[PC,M],[("ResponseValue::stream, ByteStream",PC),("OperationResponseKind::Raw",M)],obs=["items of the stream","order of server writes and client reads"])
p("C08","Errors keep their category, status, text and cause through every view",
 "For every error a call can produce, its status accessor gives the server's status exactly when the error is a declared or unexpected response (or carries a transport error that has one), and converting it to the untyped form keeps category, status, headers, message, payload bytes and cause. Its display starts with the category and includes the detail, the alternate form additionally lists every deeper cause once and in order, and the reported source is the wrapped error.",
 ["inputs","histories"],"all error categories and contents (messages, statuses, header sets, payload bytes, cause chains)",
 "no test builds an error value",[PC],[("Error::status / into_untyped / Display / source",PC)],obs=["Error accessors"])
p("C09","A paginated stream yields every item once, in order, and stops",
 "The stream form of a paginated operation yields the items of all pages in server order without loss or repetition: the first request carries the caller's parameters and no page token, each later one carries exactly the previous page's token together with the caller's limit and non-query parameters and no other query parameter. It ends after the page without a token, or right after the first error, fetches a page only when an item beyond the previous page is wanted, and issues nothing after it ended.",
 ["histories","schedules","fault_sequences"],"all page sequences (including empty pages), consumer behaviours (how many items are taken, early drop) and failures at any page, in both interface styles",
 "needs sequences of dependent requests; no test runs a stream",[M],[("stream_impl in positional_method and builder_struct",M)],obs=["sequence of requests at the server interleaved with the items polled"])
p("C10","Hooks run exactly once, in order, around the request they guard",
 "When hooks are configured, a call that gets as far as building a request runs pre-hook, async pre-hook, the exchange, post-hook, async post-hook, each exactly once and in that order, and both post-hooks see the result of the exchange even when it failed. A failing async pre-hook ends the call as a pre-hook error with nothing sent, a failing async post-hook as a post-hook error whatever the server answered; a call whose arguments are invalid runs no hook.",
 ["programs","fault_sequences","histories"],"all subsets of configured hooks, with and without inner state, hook results, exchange results and argument validity",
 "tests only compile hooks in; nothing observes their order",[M],[("pre_hook, pre_hook_async, post_hook, post_hook_async",M)],obs=["order of hook invocations and server events"])
p("C11","A builder sends what was last set, or nothing if it is not valid",
 "In the builder interface the order of setter calls on different parameters is irrelevant and for one parameter the last call wins; unset optional parameters are absent from the request. If any required parameter was never set, or the value last given for a parameter (or a member of a structured body) did not convert to its type, send fails as an invalid request and no request is made.",
 ["histories","inputs"],"all sequences of setter calls with convertible and non-convertible values followed by send",
 "no test drives a builder",[M],[("builder_struct: param_values, param_impls, param_finalize",M)],obs=["request received by the server or the error"])
p("C12","An upgraded connection is returned only for a real protocol switch",
 "A websocket operation sends a well-formed upgrade request with a fresh random key per call, and succeeds only if the server answers 101 Switching Protocols, in which case bytes pass unmodified both ways over the returned connection. Any other answer is an error and no connection is handed out.",
 ["inputs","histories"],"all response statuses and all byte exchanges after the switch","no test performs an upgrade",
 [PC,M],[("ResponseValue::upgrade",PC),("websock_hdrs, OperationResponseKind::Upgrade",M)],obs=["upgrade request at the server, outcome, bytes on both sides"])
p("C13","Only documents the generator can serve are accepted",
 "A client is generated only if the document's version is 3.0.x, no path item is a reference and every operation has an operation ID that no other operation has; any other document is refused with an error and nothing is generated, wherever in the document the offence is. A document that satisfies these rules is not refused on their account.",
 ["inputs","configurations"],"all placements of missing and repeated operation IDs across paths and verbs, version strings, and path references",
 "the one test covers five version strings",[L],[("validate_openapi, validate_openapi_spec_version",L)],obs=["result of generation"])
p("C14","Path templates are read exactly, and malformed ones are refused",
 "A path that starts with '/' and whose braces form well-nested, non-empty, slash-free parameters is accepted; its literal text (repeated slashes collapsed) and its parameters appear in the generated requests in the order written, each parameter exactly where it stood. Every other path (not starting with '/', stray or unterminated brace, nested brace, slash in a parameter or empty parameter) is refused with an error at generation time.",
 ["inputs"],"all strings over the characters that matter to the template grammar",
 "tests list seven accepted templates and no refused one",[T,M],[("template::parse, compile, names, to_string",T)],obs=["generation result, generated operation"])
p("C15","Generated names are valid, predictable and free of collisions",
 "Every operation, parameter and tag name, whatever characters it contains, becomes a valid Rust identifier that does not clash with keywords or with names the generator introduces itself, and the generated client compiles and still sends each parameter under its original API name. The mapping depends on the name alone.",
 ["inputs","programs"],"all names over separators, quotes, digits, keywords, non-ASCII letters and the generator's own local names",
 "goldens cover the names in the sample documents only",[U,M],[("sanitize, unique_ident_from",U),("method_sig_body locals",M)],obs=["generated identifiers, compile result, request on the wire"])
p("C16","Operation parameters override path-item parameters, and references resolve",
 "An operation accepts exactly the parameters of its path item and its own, where an operation-level parameter replaces the path-level one of the same name, whether given inline or through (chains of) references, and each with its own required-ness. Positional arguments come as path parameters in template order, then query parameters by name, then headers by name, then the body, independent of the order in the document.",
 ["inputs","programs"],"all combinations of path-level and operation-level parameters, kinds, orders, required flags and reference chains",
 "goldens fix a handful of documents",[M,U],[("combined_path_parameters, sort_params",M),("parameter_map, ReferenceOrExt::item",U)],obs=["generated signature, request on the wire"])
p("C17","A generated mock matches exactly the requests its expectations describe",
 "For every operation the generated mock accepts the request that the generated client sends for it with the same arguments, and with an expectation set on a path parameter, query parameter or body it accepts a request exactly if that part of the request carries the expected value. An optional query parameter expected to be absent rejects requests that carry it, and a mock for one operation never accepts a request with another verb or another path. A response set through the typed methods of the mock has the declared status (or the given one, if it lies in the declared class) and the given value as JSON.",
 ["inputs","programs"],"all expectations and requests over an operation's parameters",
 "goldens only compare text; no mock is run",[H,T],[("httpmock_op, When/Then impls",H),("as_wildcard, as_wildcard_param",T)],obs=["match decision of the mock for a given request", "response the mock gives"])
p("C18","The generated CLI sends the request its flags describe, or refuses them",
 "For every operation the generated command accepts one flag per settable parameter and body member, marks exactly the required ones as required (unless a whole JSON body is given), shows their descriptions, and executing it sends the same request as the API call with those values. Flags given by the user are never dropped or attached to another parameter, and a result or error is reported to the matching output callback exactly once.",
 ["inputs","programs"],"all flag subsets and values of generated commands","goldens only compare text; no generated command is run",
 [CLI],[("cli_method, cli_op_arg, execute_*",CLI)],obs=["clap command definition, request on the wire, CliConfig callbacks"])
p("C19","Schema conversion keeps what an instance must satisfy",
 "Converting an OpenAPI schema to the JSON schema the type generator consumes preserves meaning: a JSON instance is valid for the converted schema exactly if it is valid for the OpenAPI schema, including nullability, enumerations, bounds with exclusive flags, required and additional properties, and nested or combined schemas (where OpenAPI leaves open what nullable means in a schema without a type, under one of the open readings). Titles, descriptions, defaults, examples, formats, flags, defaults and extensions are carried over unchanged.",
 ["inputs"],"all schemas over the supported keywords with every combination of nullable, and all JSON instances",
 "tests compare six schemas with their literal conversion",[S],[("ToSchema / Convert impls, oneof_nullable_wrapper, instance_type",S)],obs=["schema handed to the type space"])
p("C20","All interface styles generate the same client from the same document",
 "Generating twice from the same document and settings gives the same code, and for every operation the positional, builder and tag-separated clients send identical requests for identical arguments and classify identical answers identically. Every operation of the document is reachable exactly once in the merged styles and through each of its tags (or the client itself if it has none) in the separate style.",
 ["configurations","programs"],"all documents and interface/tag settings",
 "goldens compare each style with its own text, never with another",[L,M],[("generate_tokens_*, builder_tags",M)],obs=["generated code, requests on the wire, outcomes"])
MA="progenitor-macro/src/lib.rs"; CG="cargo-progenitor/src/main.rs"
p("C21","Generation settings take effect exactly as given, in any order",
 "Each setting given to the generator, through the settings API or as a macro argument, takes effect exactly as given and affects nothing else: the last call to a single-valued setting or for a key decides, repeated derives and conversions accumulate, and the order of calls to different settings does not matter. A generator keeps the settings it was made with whatever is set afterwards, and reports the use of futures and websockets exactly when its client needs them. The macro refuses unknown or malformed arguments and missing or refused documents, and its clients report the base URL, API version, inner value and HTTP client they were made with.",
 ["histories","configurations","inputs"],"all sequences of settings calls and generators made among them, all sets of macro arguments in any order",
 "tests use a handful of fixed settings, one call each, and compare golden text",[L,MA],[("GenerationSettings::with_*, Generator::new",L),("do_generate_api, MacroSettings",MA),("uses_futures, uses_websockets",L)],obs=["what the type generator is told", "generated code", "accessors of the generated client"])
p("C22","The generated stand-alone crate is complete and is what was asked for",
 "After a successful run of the command the output directory holds a package with the given name, version, licence and registry, the same client code the generator produces for the document in the chosen style, the support code if it was to be included, and every dependency that code needs, so that it compiles; whatever was there before does not matter and other files are left alone. A run with unusable arguments, a missing, unreadable or refused document, or an unusable directory fails and leaves the directory as it was.",
 ["histories","configurations","inputs"],"all histories of runs over one directory, with all options and document features",
 "the tests only compare the output of fixed documents with golden text; no generated crate is compiled and none is generated twice",[CG,L],[("main, save, dependencies, load_api",CG),("uses_futures, uses_websockets, get_type_space",L)],obs=["files of the output directory", "exit status", "compile result of the generated crate"])
p("C23","What a client could not send as documented is refused, never dropped",
 "If an operation has a parameter or request body that a generated client could not send as documented (a cookie parameter, a parameter with an unsupported style or described by a media type, a body without a schema, of several or unsupported media types or with encoding rules, a raw body whose schema asks for more than plain text or bytes, a reference that leads nowhere), nothing is generated from the document. This holds wherever the part is written, inline, behind references, on the operation or inherited from its path unless replaced there, and whatever else the document contains. Documents without such parts are not refused on their account.",
 ["inputs","configurations"],"all combinations of parameter places, styles and levels, body media types and schemas, at any place of documents of any size",
 "goldens contain supported documents only; no test has a document that is refused for a parameter or body",
 [M,U],[("process_operation, parameter_map",M),("get_body_param, BodyContentType::from_str",M),("ReferenceOrExt::item",U)],obs=["result of generation"])
p("C24","Free text in a document only documents the client, in the right place",
 "The API's title, description, terms and contact, the summaries, descriptions and examples of paths, operations, parameters, bodies and responses, and the descriptions of tags and servers never change the code generated from a document: documents that differ in such texts only yield clients and mocks that differ in documentation only, whatever characters the texts hold. The summary (less trailing full stops and commas), the description and the parameter and body descriptions of an operation appear in full in the documentation of its methods and in no other operation's, the API's title, description and terms in that of the client, and a tag's description in that of its trait.",
 ["inputs","configurations"],"all texts at all descriptive places of all documents in all styles",
 "goldens hold a few dozen tame texts compared as a whole, nothing relates two documents",
 [M,L],[("make_doc_comment, make_stream_doc_comment, builder_tags",M),("client_docstring",L)],obs=["generated code without documentation", "documentation of the generated items"])
p("C25","Calls under way at the same time do not affect one another",
 "However the calls, body streams and page streams of one program are interleaved, over the same or several clients, clones and copied builders, each sends exactly its own request to its own client's server, runs that client's hooks with its own request, and gives its caller exactly what its own exchange yields, in order and in full. Dropping a call or stream at any point ends only that one. Nothing a call did, met or left unfinished shows in another.",
 ["schedules","histories"],"all interleavings of starts, parts of answers, demands and drops over any number of calls, streams and clients",
 "tests make no call at all; no test has two at once, splits an answer or drops a call",
 [L,M,PC],[("Client, ClientInfo, ClientHooks",L),("builder structs (Clone), stream impls, method_sig_body",M),("ResponseValue, ByteStream",PC)],obs=["requests on the wire", "hook calls", "outcomes and stream items per caller"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
