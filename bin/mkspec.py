import json
ALL=["sse2","scalar","avx2","sse42","release","gcc"]
SIMD=["sse2","scalar","avx2","sse42"]
real_in="JS::Tokenizer and everything it calls (real code, unmodified, compiled from /repo's working tree with AddressSanitizer and UBSan)"
S={}
def spec(id,quick,thorough,rule,real,stub,assume,qs=25,ts=1200,batch=32):
    S[id]=dict(quick=quick,thorough=thorough,rule=rule,real=real,stub=stub,assumptions=assume,seconds=dict(quick=qs,thorough=ts),batch=batch)
spec("C01",SIMD,ALL,"A run draws a document (or a damaged one), a partition of its bytes into buffers, a delivery mode and a stall pattern from one seed and compares every token with the document model (damaged: with the one-buffer delivery). Non-trivial: at least one buffer boundary fell inside the stream.",
 [real_in],["input transport: heap buffers cut, delayed, pushed and freed by the simulator","document model: generator that writes a document together with its token list"],
 ["raw NUL bytes are not generated inside documents: the library treats NUL as padding between buffers","documents up to a few kB"])

SAN=" (real code, compiled from /repo's working tree with AddressSanitizer and UBSan, every automatic variable pre-filled with a pattern)"
IN="input transport: the byte stream is cut into heap blocks of exactly the delivered size, handed over up front, by callback or by push, stalled, and overwritten and freed at the instant of release"
OUT="output transport: blocks of scheduler-chosen size with red zones, refusals by the sink"
MODEL="reference model: typed values written to JSON text by an independent writer that also records what a parse must report"
spec("C02",["sse2","scalar","avx2"],ALL,"A run draws a type of the universe (every type handler of the library occurs in it), a value, a document stating it (member order, aliases, undeclared and omitted members, escapes, syntax options, whitespace and comments), a buffer partition and delivery, parses it and compares value, missing_members and unassigned_required_members with the model. Non-trivial: the stream was cut at least once.",
 ["ParseContext, every TypeHandler, Tokenizer"+SAN],[IN,MODEL],["numbers have at most 17 significant digits (correct rounding of longer decimals is C15)","types are the fixed universe in sim/universe.hpp"],qs=30)
spec("C03",["sse2","scalar","avx2"],ALL,"A run drives a tokenizer or a typed parse over a cut stream whose owner overwrites and frees (or refills and hands over again) each block at its release; observed: release order and count, use of released or foreign memory (AddressSanitizer), stability of returned tokens, buffers outstanding at NeedMoreData, resetData. Non-trivial: at least two buffers.",
 ["Tokenizer, ParseContext, TypeHandlers"+SAN],[IN],["AddressSanitizer detects accesses to freed or foreign heap memory at byte precision"],qs=30)
spec("C04",["sse2","scalar"],ALL,"A run cuts a document off at a drawn byte (crash of the sender) and requires parse, reformat, Map, raw capture, diff and callFunctions to return an error in a bounded number of requests; or starves a token reader at drawn points, with fruitless calls, and compares the complete token stream with the model. Non-trivial: a truncation or a stall happened.",
 ["ParseContext, TypeHandlers, Tokenizer, reformat, Map, DiffContext, CallFunctionContext"+SAN],[IN,OUT,MODEL],["typed parses are not resumed after NeedMoreData (the API restarts them)"],qs=30)
spec("C06",["sse2","scalar"],ALL,"A run serializes a value, a token sequence or re-formats a document into output blocks of drawn sizes (zero- and one-byte blocks included), with the sink refusing blocks transiently or for good; compared with the one-block output, red zones around every block, prefix rule on refusal. Non-trivial: an output boundary or refusal occurred.",
 ["Serializer, SerializerContext, serializeStruct, reformat, TypeHandlers"+SAN],[OUT,"value generator"],["text of the one-block run is the reference (its correctness is C11)"],qs=30)
spec("C10",["sse2","scalar"],ALL,"A run draws a call document (order, repetitions, unknown names, ill-typed arguments, failing functions, functions that leave their argument unread), execution options and buffer schedules on both sides; compared with the model: sequence of invocations with arguments, one execution record per member with its error, return document. Non-trivial: at least one member failed or a buffer boundary fell inside.",
 ["CallFunctionContext/DefaultCallFunctionContext, Function handlers, ParseContext, Serializer"+SAN],[IN,OUT,"host object whose functions record their invocations and fail on request"],["functions do not throw"],qs=30)
spec("C11",["sse2","scalar","avx2"],ALL,"A run draws a type and a value (control characters, any byte in strings and keys, extreme numbers, deep nesting), serializes it through drawn output blocks, checks the text with an independent strict JSON parser, sends it through drawn input blocks and parses it back. Non-trivial: a boundary fell inside on either side.",
 ["Serializer, SerializerContext, TypeHandlers, ParseContext, Tokenizer"+SAN],[IN,OUT,"strict JSON parser (sim/doc.hpp)"],["values without a JSON form are not drawn: NaN and infinities, an empty optional inside a sequence, an engaged pointer to an empty OneOrMany, time points before 1974 (their encoding is ambiguous by design)"],qs=30)
spec("C12",["sse2","scalar","release"],ALL,"A run performs a drawn history of reset/diff/changeBase-style calls, well-formed and damaged documents mixed, on one DiffContext and compares every result with a fresh context and with an independent structural diff model. Non-trivial: at least two calls on the context.",
 ["DiffContext, DiffTokens, Tokenizer, number parsing"+SAN],["document generator and mutator","independent diff model"],["objects with duplicate names are not diffed","numbers compared in the model have an unambiguous order at the chosen tolerance"],qs=30)
spec("C08",["sse2","scalar"],ALL,"A run performs a drawn history of parse-into, set (by name, whole object), typed read (by name, by iterator, whole map), find, iterate, copy, assign, move and serialize operations on a family of Maps, including sets that fail and reads with the wrong type, and compares every Map with an ordered-dictionary model after every step. Non-trivial: at least one set replaced a member or a copied Map was changed.",
 ["JS::Map, metaForTokens, ParseContext in token-list mode, TypeHandlers, Serializer"+SAN],["ordered-dictionary reference model (sim/mapmodel.hpp)","owner of the parsed text, who keeps it alive as the API demands",MODEL],["documents with duplicate member names are not parsed into a Map except to check that a set replaces all of them","histories of up to a few dozen operations"],qs=30)
spec("C05",["sse2","scalar","release"],ALL,"A run draws input that no generator vouches for (random bytes, token soup, documents damaged byte-wise or at the level of the grammar, documents of another type, deep nesting, truncation), a delivery schedule and a consumer (tokenizer with skipping and raw capture, typed parse, Map with later operations, references, token lists parsed again, reformat, diff, function calls, error reports, the same context with new data); observed: sanitizers, assertions, bounded requests, tokens and calls, memory in proportion to the input, the target read, re-used and destroyed afterwards. Every run is non-trivial.",
 ["the whole library"+SAN],[IN,OUT,"host object for function calls","memory limit: operator new refuses more than 64 kB + 600 bytes per input byte as a violation"],["nesting up to 700 levels","hangs are seen as a number of steps or as the run's time limit"],qs=40)
spec("C13",["sse2","scalar","release"],ALL,"A run draws a history on re-used objects and compares each step with fresh ones: several documents on one stream (cut anywhere, also across the document boundary) with the reporting lists of each; one target filled again and again, damaged documents in between; one ParseContext that failed, was abandoned in the middle with scopes and captures open, or served a Map before its data was reset; targets that hold references; one Serializer or SerializerContext for several values; one call context for several batches. Non-trivial: every run (the second use is always made).",
 ["ParseContext, Tokenizer, TypeHandlers, Serializer, SerializerContext, Map, DefaultCallFunctionContext"+SAN],[IN,OUT,MODEL,"host object for function calls"],["maps are merged key by key, missing_members and unassigned_required_members accumulate until cleared, and one Serializer separates its values by a delimiter, as documented"],qs=40)
spec("C14",["sse2","scalar","avx2"],ALL,"A run draws a document (nesting up to 70 000 levels), a buffer schedule whose owner frees or refills each block at its release, and a pattern of captures (nested and overlapping, appending to text already there), scopes and skips, or a type with raw members, token lists and references; compared: captured bytes with the document's bytes, tokens behind the value with the model, the captured text parsed again and re-serialized. Non-trivial: a boundary fell inside the stream.",
 ["Tokenizer (copyFromValue, copyIncludingValue, pushScope, popScope, goToEndOfScope), JsonObject/JsonArray/JsonObjectOrArray/JsonTokens/JsonObjectRef handlers, Serializer"+SAN],[IN,"document model with the byte range of every token"],["a capture is read to its end before the scope it lies in is skipped"],qs=40)
spec("C07",["sse2","scalar"],ALL,"A run performs an operation (typed parse, serialization by every entry point, re-formatting, token reading with captures and scopes, error reports, diffs, function calls, parsing of references, a history of Map operations) once undisturbed to learn its result and its number of allocations, then several times with the n-th allocation failing, or every one from the n-th on until memory is back; observed: std::bad_alloc and nothing else surfaces, no termination, no sanitizer report, every block freed, the operation repeated (same or new context, same or new target) gives the undisturbed result, a Map holds its old or its complete new contents, calls made are a prefix of the undisturbed ones. Non-trivial: an allocation failed.",
 ["the whole library"+SAN],["operator new: counts and fails on schedule, records live blocks",IN,"host object for function calls","ordered-dictionary model of a Map"],["memory is obtained through operator new","a Map being parsed into holds anything usable after the failure"],qs=40)
spec("C09",["fine"],["fine","finescalar"],"A run draws 2 to 5 sessions (typed parse, serialization, token reading, re-formatting, diffs, a history of Map operations, function calls; often all of one kind and type), runs them interleaved on threads of which exactly one holds the baton, the scheduler taking it away at callbacks, between calls and at any control-flow edge inside the library, some sessions run entirely inside a callback of another; afterwards each session is run alone with the same choices and must give the same record. The first use of the library in a process is inside an interleaving. Non-trivial: more than two switches.",
 ["the whole library"+SAN+", instrumented so that every control-flow edge is a scheduling point"],["scheduler: baton passing between threads, one runs at a time",IN,OUT,"user functions, types and sinks"],["a thread initialising a function-local static is not taken off (the others would wait for it)","a switch happens only at control-flow edges, so two accesses within one basic block are not separated"],qs=40)
spec("C18",["sse2","scalar","avx2"],ALL,"A run draws a type of the universe, a document for it in which one value at a drawn place is of a kind its type does not take (or a count, name or duplicate that does not fit), parse options, and deliveries: one buffer, one or two drawn buffer schedules whose owner frees each block at its release, a list of tokens, or a member of a Map; every one must return an error, the same one and with the same target, and a complete document is not reported as cut off. Or strings are given values of any kind and everything around them must be read as if they were not. Non-trivial: a value that does not fit was written.",
 ["ParseContext, every TypeHandler, Tokenizer, JS::Map"+SAN],[IN,MODEL],["exactly one value does not fit","not counted as misfits, because the library takes them by design: a number in quotes, a fraction or a number out of range for an integer (truncated, saturated), anything for a string","null for an optional is outside the claim"],qs=30)
spec("C19",["sse2","release"],ALL,"A run draws options (style, shift size, delimiters, quoting, depth, set in a drawn order), a typed value, one or several documents written token by token, or a document to re-format, and output blocks of drawn sizes; the bytes are compared with an independent layout of the same tokens. Non-trivial: an output boundary fell inside.",
 ["Serializer, SerializerContext, SerializerOptions, serializeStruct, reformat, TypeHandlers"+SAN],[OUT,"layout model (sim/scen_c19.cpp)","value and document generators"],["raw members are written as they are and not laid out","the tokens to write are read by the real tokenizer (checked in C01)"],qs=25)
spec("C20",["sse2","scalar"],ALL,"A run performs a token read, typed parse, serialization, batch of function calls, or a parse, serialization or Map operation on types with user handlers, once undisturbed to learn its result and how often user code ran, then several times with the n-th piece of user code throwing; observed: that exception and no other surfaces, every block is freed and buffer released once, the read resumed or the operation repeated (same or new context and target) gives the undisturbed result, output and calls are prefixes, a Map is unchanged. Non-trivial: user code threw.",
 ["the whole library"+SAN],[IN,OUT,"host object for function calls","user type whose handler throws on schedule","operator new: records live blocks"],["a release callback does not throw (it is run while buffers are handed back)","after an exception a typed parse starts over; only token reading is taken up where it stopped"],qs=30)
spec("C21",["sse2","scalar","avx2"],ALL,"A run draws a document (of a type, of calls, or of no type), damages its structure at one or two drawn places, asks an independent recogniser of structure (sim/scen_c21.cpp) whether it is still well-formed, and if not gives it to a drawn reader in one buffer and by drawn buffer schedules; each must report an error. Non-trivial: the damaged document is malformed or cut off.",
 ["Tokenizer, ParseContext, TypeHandlers, JS::Map, reformat, DiffContext, callFunctions"+SAN],[IN,"recogniser of JSON structure","document generators"],["not judged: unquoted words as array items, a comma before the end of an array (the existing tests pin both), the spelling of numbers and escapes, what follows the first document"],qs=25)
json.dump(S,open('/verif/sim/props.json','w'),indent=1)
