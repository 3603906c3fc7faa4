import json
H="include/json_struct/json_struct.h"
D="include/json_struct/json_struct_diff.h"
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=[],observe=[]):
    P.append(dict(id=id,title=title,statement=stmt,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None)))

p("C01","The token stream does not depend on how the input is delivered",
 "For any well-formed document in the accepted syntax (strict JSON, plus unquoted names/values, newline delimiters, superfluous commas and // comments when the matching option is on), the tokenizer yields exactly the document's tokens - names, values and their types, in order - whatever way the bytes are cut into buffers and whether buffers are queued up front, supplied by the need-more-data callback, or pushed after a NeedMoreData return. The end of the supplied bytes is always signalled as NeedMoreData, and no token is lost, duplicated, merged or altered at a buffer boundary. A document the tokenizer rejects is rejected after the same tokens and with the same error under every delivery.",
 ["schedules","inputs","configurations"],"every document, every partition of it into buffers (including empty and one-byte buffers), every delivery mode and stall pattern, every tokenizer option set, and every SIMD/scalar build configuration",
 "The unit tests cut a handful of fixed documents at a handful of offsets; the space is all documents x all partitions x delivery modes x SIMD widths, and the bugs sit at particular alignments (a buffer ending in a backslash, between the slashes of a comment, right after a closing quote).",
 [H],[("nextToken / populateNextTokenFromDataRef state machine",H+":1686, :2625"),("findStringEnd/findNumberEnd/findAsciiEnd/findDelimiter/findTokenEnd/skipComment and their SIMD variants",H+":420-1270, :1915-2480"),("IntermediateToken accumulation across buffers",H+":2503-2760")],
 [("token_state/property_state/is_escaped/intermediate_token","where in a token the previous buffer ended",H+":1425"),("container_stack","open containers",H+":1450")],
 ["Tokenizer::nextToken","Tokenizer::addData","Tokenizer::setNeedMoreDataCallback"])

p("C02","A typed parse yields the document's values however the input arrives",
 "Parsing a well-formed document into a C++ type whose members match it returns NoError and stores in every member exactly the value the document states for it, independent of member order, whitespace and comments, aliases, escapes in strings, and of how the bytes are cut into buffers by the need-more-data callback. Members the type does not declare are skipped completely without disturbing their neighbours and are reported in missing_members (or rejected when not allowed), and declared non-optional members that are absent are reported in unassigned_required_members (or rejected when not allowed). The same holds for every supported member type: integers, floats, strings, enums, optionals and smart pointers, vectors, sets, maps, fixed arrays, tuples, nested and inherited structs.",
 ["schedules","inputs","configurations"],"every type composed of supported handlers, every document for it, every buffer schedule, every SIMD/scalar configuration",
 "Unit tests parse contiguous literals; a handler that reads its token after asking for the next one, or skips one token too few, only fails when a buffer boundary falls at that point or an unknown member has a particular shape.",
 [H],[("ParseContext::parseTo and TypeHandler<T>::to for structs, member lookup in declaration and alias order, unknown-member skipping",H+":4270-4620, :5700-5835"),("type handlers",H+":8560-9770, :10090-10315")],
 [("missing_members / unassigned_required_members","bookkeeping lists",H+":3975")],["ParseContext::parseTo","ParseContext::missing_members","ParseContext::unassigned_required_members"])

p("C03","Input buffers are only used between handing over and release",
 "Every input buffer given to the tokenizer is reported through the release callback at most once, in the order it was added, only when it has been fully consumed, and its memory is never read again after that report, neither by the tokenizer nor through the results of a typed parse; nothing outside the given bytes is ever read. A returned token's name and value stay readable and unchanged until the next call on that tokenizer. When the supplied bytes have all been consumed and NeedMoreData is returned, every buffer has been released, and replacing the data with resetData releases every buffer still registered.",
 ["schedules","inputs","histories"],"every document, buffer partition, delivery mode and point at which the owner frees or overwrites a released buffer",
 "Tests keep their string literals alive for the whole process, so a late read of a released buffer or a read past the end is invisible; only an owner that frees each buffer at its release instant exposes it.",
 [H],[("releaseFirstDataRef, resetData, addData",H+":1625-1665, :2480"),("copying partial tokens into intermediate_token before release",H+":2640-2760")],
 [("data_list","buffers currently borrowed",H+":1448"),("release_callback","ownership hand-back",H+":1451")],["Tokenizer::setReleaseCallback","Tokenizer::registeredBuffers","Token name/value"])

p("C04","Truncated input is never taken for complete and resumes exactly",
 "If the input stops at any byte before the document is complete, parsing into any type, re-formatting into tokens, or calling functions returns an error (never NoError) within a number of steps bounded by the input size and without asserting or looping, even when the need-more-data callback keeps returning without data. If a token-level reader got NeedMoreData and the missing bytes arrive later, in any number of instalments with any number of fruitless calls in between, it continues as if there had been no interruption.",
 ["crash_points","schedules","inputs"],"every cut point of every document, every target type, every stall pattern before and after the cut",
 "Each document has as many crash points as bytes, times the handler that is active there; tests try a few. Several handlers loop until they see their end token and only terminate because every error path is checked.",
 [H],[("error checks after every context.nextToken() in the handlers",H+":5700-5800, :8560-9770"),("goToEndOfScope / skipArrayOrObject loops",H+":1830, :4567"),("continue_after_need_more_data",H+":1720")],
 [("continue_after_need_more_data","a partial token is held",H+":1437")],["ParseContext::parseTo","Tokenizer::nextToken","CallFunctionContext::execute"])

p("C05","Arbitrary or damaged input is contained",
 "For any bytes whatsoever, delivered in any way, tokenizing, parsing into any supported type, re-formatting, building a Map, diffing, calling functions, and producing the error string terminate with a result or an error code: they do not crash, assert, hang, execute undefined behaviour, access memory outside the given buffers, or allocate memory out of proportion to the input. After such a failure the target object can still be read, re-used and destroyed. (Nesting so deep that recursion exceeds the stack is outside the claim.)",
 ["inputs","fault_sequences","schedules"],"every byte sequence (in particular every well-formed document with bytes flipped, dropped, duplicated, swapped or inserted in transit), every target type, every delivery",
 "The fault space is all byte strings; existing tests use a handful of hand-written malformed documents against whole buffers.",
 [H,D],[("bounds checks in the scanners and number parsers",H+":420-1270, :1915-2480, :6113-8560"),("updateErrorContext/makeErrorString",H+":2790, :1880"),("handlers' type checks",H+":8560-9770")],
 [],["every public parsing entry point","Tokenizer::makeErrorString"])

p("C06","Serialized bytes do not depend on the output buffers",
 "Serializing a value produces the same bytes whatever the sizes of the successive output buffers supplied by the request-buffer callback, and never writes outside the supplied buffer or the used range it reports. If the callback supplies no further buffer the bytes already stored are an exact prefix of the full output and the write reports failure; a write that reports success has stored exactly its full text once. serializeStruct, SerializerContext and writing token by token agree with each other and re-formatting agrees with writing the document's tokens.",
 ["schedules","inputs","fault_sequences"],"every value, every option set, every sequence of buffer sizes (including one-byte and zero-size buffers) and every point at which the sink refuses a buffer, transiently or for good",
 "Tests serialize into large buffers; a token that straddles a buffer end takes different code paths whose faults depend on where the end falls, and the sink-full path is never driven.",
 [H],[("Serializer::write overloads, askForMoreBuffers, markCurrentSerializerBufferFull",H+":3215-3432"),("SerializerContext growth",H+":4621")],
 [("m_current_buffer","current output window",H+":1590"),("m_first/m_token_start/m_option.depth","formatting state",H+":1592")],["Serializer::write","Serializer::setRequestBufferCallback","Serializer::currentBuffer","serializeStruct","reformat"])

p("C07","A failing allocation anywhere leaves no damage",
 "If any single memory allocation (or every allocation from some point on, until it recovers) fails during parsing, serializing, re-formatting, diffing, calling functions or a Map operation, the failure surfaces as std::bad_alloc to the caller: the process is not terminated, nothing is leaked, no freed or uninitialised memory is touched, and the objects involved can still be destroyed. Repeating the operation from the start once memory is available gives the same result as if no failure had happened, and a Map on which a set operation failed still holds its previous, consistent contents or the complete new contents.",
 ["fault_sequences","inputs","histories"],"every allocation site reached by every operation sequence, single and sustained failures",
 "No existing test injects allocation failure; there are as many fault points as allocations per run, and the damage shows only in the state left behind.",
 [H,D],[("RAII in contexts and handlers; ArrayEndWriter and SerializerContext destructors",H+":4621-4665, :5100-5300"),("Map::setValue multi-container update",H+":9790-10090")],
 [],["operator new","JS::Map","ParseContext","SerializerContext","DefaultCallFunctionContext","DiffContext"])

p("C08","JS::Map behaves as a map under every history of operations",
 "A Map built by parsing an object or from scratch behaves as an ordered collection of named values under any history of set, lookup, iteration, typed read, copy, parse-into and serialize operations: a lookup finds exactly the most recent value set for that top-level name with its original type and, for objects and arrays, its full contents, never a member of a nested object; a set name moves to the end, every other member keeps its value and relative order, and a set that fails leaves the Map as it was; serializing yields an object with exactly those members. Copies are independent of each other. Reads do not change it, and looking up an absent name reports KeyNotFound or the end iterator.",
 ["histories","inputs"],"every sequence of operations on every starting document, with scalar and nested values replaced by scalar or nested values of any size",
 "Tests perform a few sets in a fixed order; index bookkeeping errors need particular sequences (replace nested by scalar before a nested sibling, then look that sibling up).",
 [H],[("Map::setValue, Map::find, iterators, castTo, parse",H+":9790-10090"),("metaForTokens",H+":3766")],
 [("tokens.data / meta / json_data","token list, container index and owned text that must stay in step",H+":9990")],["JS::Map::setValue","JS::Map::castTo","JS::Map::find","TypeHandler<JS::Map>"])

p("C09","Independent sessions never influence each other",
 "Parsing, serializing, diffing, Map and function-call sessions that share no user object produce, under every interleaving of their steps at callback points and on any mixture of fresh and re-used contexts, exactly the results each produces when run alone, including the first-ever use of the library being inside an interleaving. There is no process-wide state through which one session's data, options, errors or position can reach another.",
 ["schedules","histories"],"every interleaving of the steps of any number of concurrent sessions, including nesting one session inside a callback of another",
 "Tests are single-session; hidden shared state (a static scratch buffer, cached option or lazily built table) needs two sessions to be suspended at the right points.",
 [H,D],[("all state held in Tokenizer/ParseContext/Serializer objects; lookup tables immutable",H)],[],["all public entry points"])

p("C10","Function calls run exactly once, in order, and fail in isolation",
 "Given an object whose members name functions, executing it against a call context invokes exactly the registered functions named by the members, each exactly once per member, in document order, each with exactly the argument value stated, and records one result per member in the same order with the error its execution produced. A missing function, an ill-typed argument, an error code set by the function or a function that leaves its argument unread affects only that member's outcome: with stop-on-error off the remaining members still run with their own arguments, and with it on none after the first failing one runs. The return document is well-formed and holds the return values of the successful calls in order.",
 ["inputs","fault_sequences","schedules","histories"],"every call document (order, repetition, unknown names, damaged or ill-typed arguments), every pattern of function failures, every input buffer schedule and output buffer schedule, every execution option",
 "Tests call small fixed documents with one failure; the outcome after a failure depends on which member failed, how its argument was shaped and where buffers ended.",
 [H],[("callFunction dispatch, scope push/pop around each argument, ArrayEndWriter",H+":4728-5550")],
 [("error_list / execution_list","per-call record",H+":4728"),("scope_counter","argument fence",H+":1449")],["CallFunctionContext::execute","CallFunctionContext::error_list/execution_list","JS_FUNCTION members"])

p("C11","What is serialized parses back to an equal value across any pipe",
 "For every value of a supported type, its serialized form (any style and indentation) is well-formed JSON by the standard, regardless of the characters in strings and map keys, nesting depth, and numeric extremes; and sending it through any sequence of output and input buffers and parsing it into the same type returns NoError and an equal value (floating-point bits included).",
 ["inputs","schedules","configurations"],"every value of every type built from the supported handlers, every option set, every pair of output and input buffer schedules",
 "Tests round-trip a few dozen literals through one contiguous string; the combinations of escapes, depths, numbers and boundaries are unbounded.",
 [H],[("TypeHandler<T>::from / to pairs",H+":5700-5835, :8560-10315"),("string escaping/unescaping",H+":5837-6090"),("float/integer to string and back",H+":6113-8560")],[],["serializeStruct","SerializerContext","ParseContext::parseTo"])

p("C12","A diff depends only on the base and the compared document",
 "For any history of diff and reset calls on a DiffContext, including calls with malformed documents, the result of a diff is the one a fresh context gives for the same base and document: identical documents report no differences, and a member or element is reported new, missing, changed in value or changed in type exactly when it differs from the base at that path under the chosen options. A malformed base or document is reported as an error, and does not affect later calls with well-formed ones.",
 ["histories","inputs","fault_sequences"],"every sequence of base/document pairs, well-formed or damaged, and every option combination",
 "Tests diff one pair per context; leftovers from an earlier call need a history to show.",
 [D],[("DiffContext::reset/diff, DiffTokens::clear/invalidate, diffObjects/diffArrays",D)],
 [("DiffContext::base/diff state","tokens, diff types and missing lists retained between calls",D)],["DiffContext::diff","DiffContext::reset","DiffTokens"])

p("C13","Consecutive documents and re-used objects leave no residue",
 "When one context reads several documents one after the other from a stream, each is read exactly as by a fresh context. Parsing into an object that already holds values leaves in every member the document mentions exactly what a fresh object would hold there (sequences are replaced, not appended to; maps are updated key by key; a repeated name takes its last value), members not mentioned keep their value, and an earlier failed or successful parse, serialization or error report leaves nothing behind in later results, messages or lists beyond the documented accumulation.",
 ["histories","schedules","inputs"],"every sequence of documents, targets and failures on re-used contexts and target objects, every buffer schedule across document boundaries",
 "Tests use a fresh context and a fresh object for each case.",
 [H],[("resetForNewToken, container/optional handlers clearing before filling, ErrorContext::clear, SerializerContext::flush",H+":1330, :1900, :4621, :8560-9770")],
 [("error_context","message state",H+":1325")],["ParseContext::parseTo","Tokenizer::resetData","SerializerContext::serialize"])

p("C14","Raw capture and skipping are exact for every delivery",
 "Capturing a value as raw text or tokens (raw object/array members, copyFromValue/copyIncludingValue, token-vector members, scope push/skip/pop) yields exactly the bytes or tokens of that value in the document, from its first to its last character, and leaves reading positioned directly after it, however the bytes are cut into buffers and however deeply the value is nested. The captured text parses to the same value as the original, and re-serializing it reproduces an equivalent document.",
 ["schedules","inputs"],"every document, every captured sub-value, every buffer partition inside and around it, every nesting depth",
 "The capture must stitch text from several released buffers; tests use one or two cut points.",
 [H],[("copyFromValue, copyIncludingValue, releaseFirstDataRef",H+":1770-1805, :2480"),("pushScope/popScope/goToEndOfScope, ScopeCounter",H+":1336, :1805-1840"),("JsonObject/JsonArray/JsonObjectOrArray/JsonTokens handlers",H+":8900-9300")],
 [("copy_buffers","captures in progress",H+":1453"),("scope_counter","skip fences",H+":1449")],["Tokenizer::copyFromValue","JS::JsonObject/JsonArray/JsonTokens","Tokenizer::goToEndOfScope"])

p("C18","A document that does not fit the type is rejected, the same way for every delivery",
 "A well-formed document in which one value cannot be held by the member or element it is for (another JSON kind than the type takes, null where nothing may be null, a name or number no enumerator has, a fixed array or tuple with too few or too many elements, more elements than an array of limited size holds, an element twice in a set) is never accepted: parsing it, whether from one buffer, from any sequence of buffers, from a list of tokens or by a typed read from a Map, returns an error, and the error and what the target holds afterwards do not depend on how the bytes arrived. A string takes a value of any kind, but the contents of an object or array given for a string are never taken for members or elements of what surrounds it.",
 ["inputs","schedules"],"every type, every place in it, every value of a kind the type does not take, every member order, syntax option and buffer partition",
 "Tests try a wrong value at one or two places of one type, in one buffer; each type handler rejects on its own, at a token whose text may be cut by a buffer boundary.",
 [H],[("TypeHandler<...>::to of every type: checks of Token::value_type and of the converted text",H+":5850-6310, :8900-10600"),("fixed arrays, tuples, sets: element counts and duplicates",H+":9200-9960, :10535")],
 [("ParseContext::token","the token a handler judges",H+":4640")],["ParseContext::parseTo","JS::Map::castToType"])

p("C19","The layout of serialized text follows from style, shift size and depth alone",
 "Serialized text consists of the value's tokens and of white space that its options fix completely: in compact style there is no insignificant white space at all; in pretty style every member, element and closing bracket stands on a line of its own, indented by the shift size times its depth, with one space after the colon of a name, and nothing else; elements are separated by one comma unless delimiters are turned off, and names and values are quoted as their type demands. This holds at every nesting depth, for every shift size, whatever order the options were set in, for serializeStruct, SerializerContext, token-by-token writing and re-formatting, for several documents written one after the other, and whatever the sizes of the output buffers.",
 ["schedules","inputs","configurations"],"every value and token sequence, every combination and order of options, every sequence of output buffer sizes",
 "The serializer has separate code for the first five depths at a shift size of two and for everything else; tests compare a few texts of small depth in the default style.",
 [H],[("Serializer::write(const Token &): begining_literals and the generic path",H+":3400-3530"),("SerializerOptions setters",H+":3280-3360")],
 [("m_first, m_token_start, m_option.m_depth","what precedes the next token",H+":1587")],["JS::serializeStruct","Serializer::write","JS::reformat","SerializerOptions"])

p("C20","An exception from the user's own code passes through the library without damage",
 "When code the user supplies throws - the need-more-data callback before or after it delivered a buffer, the callback that provides output space, a function called by callFunctions, a type handler - exactly that exception reaches the caller: it is not swallowed, replaced or followed by termination, nothing the library allocated is leaked, every input buffer is still released once, and what was left unfinished stays usable. Reading tokens can be taken up where it stopped and gives exactly the tokens of the document; a parse context given new data, the target, the host object and a new serializer give the same result as if nothing had happened before; bytes already written are a prefix of the undisturbed output; functions called so far are a prefix of the undisturbed calls; and a Map whose set was ended by the exception holds what it held before.",
 ["faults","schedules","histories"],"every point at which user code runs, every document, value and type, every buffer partition, every way of continuing",
 "No test throws from a callback, a function or a type handler; what is left half-done depends on the point of the throw.",
 [H],[("Tokenizer::nextToken / requestMoreData",H+":1700-1800, :1960"),("FunctionCaller, CallFunctionExecutionState, return value output",H+":4980-5560"),("TypeHandlers of containers and owning wrappers",H+":8900-10600"),("Map::setValue",H+":10800-11700")],
 [("continue_after_need_more_data, scope_counter, copy_buffers","what a suspended read keeps",H+":1449")],["JS::Tokenizer::nextToken","ParseContext::parseTo","JS::serializeStruct","ParseContext::callFunctions","JS::Map::setValue"])

p("C21","A document whose structure is damaged is rejected by every reader, for every delivery",
 "A document in which a bracket, comma, colon or quote was lost, doubled, replaced, moved or added, or in which a stray character stands outside strings, so that it is no longer well-formed, is never accepted: reading its tokens ends in an error before its outermost value is closed, and skipping it, typed parsing, references, raw capture, token lists, JS::Map, re-formatting and diffs return an error; callFunctions returns one or records it for a call. Reading tokens does not wait for more data once no continuation could make the document well-formed, and the error of a typed parse does not depend on how the bytes were divided into buffers. (Words without quotes as array items, a comma before the end of an array, and the spelling of numbers and escapes are judged by the type that takes them, not by the structure.)",
 ["inputs","faults","schedules"],"every document, every place and kind of structural damage, every buffer partition, every reader",
 "Tests feed a dozen malformed texts in one buffer to one reader each; the tokenizer decides with a different state for every position of the damage.",
 [H,D],[("Tokenizer::populateNextTokenFromDataRef",H+":2790-2960"),("findStartOfNextValue, findDelimiter, findTokenEnd",H+":2218-2550"),("nextToken: container_stack",H+":1765-1800")],
 [("token_state, container_stack, expecting_prop_or_anonymous_data","what may come next",H+":1440-1455")],["JS::Tokenizer::nextToken","ParseContext::parseTo","JS::reformat","JS::Map","JS::DiffContext"])

p("C15","Decimal conversion is correctly rounded and shortest",
 "Parsing a decimal number yields the nearest float/double (ties to even) and printing yields the shortest decimal that reads back to the same value.",
 ["inputs"],"every decimal string and every finite float/double","Input space is 2^64 values and all decimal strings; tests sample a few hundred.",
 [H],[("ft::to_double/to_buffer Ryu implementation",H+":6113-8560")],[],["TypeHandler<double>/<float>"])
p("C16","Error reports point at the offending position",
 "For malformed input in one contiguous buffer, the error string shows the line containing the offending token and the caret marks its position.",
 ["inputs"],"every malformed document","Tests check a few fixed positions.",
 [H],[("updateErrorContext",H+":2790")],[],["Tokenizer::makeErrorString"])
p("C17","Declared members map one-to-one to names at compile time",
 "For every combination of the member-declaration macros (aliases, renamed members, super classes, external declarations) the resulting name table contains exactly the declared names, with the primary name used for output and primary names taking precedence over aliases.",
 ["programs"],"every C++ program that declares types with the macros","Each declaration is a separate program; tests compile a fixed set.",
 [H],[("JS_OBJECT/JS_OBJ/JS_MEMBER macros, MemberInfo",H+":4060-4330")],[],["JS_OBJECT macros"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P), max(len(x['title']) for x in P))
