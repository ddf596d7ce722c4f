#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the long texts stay editable).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, state, mech, observe, hook="none"):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), quantifier=dict(over=over, text=" ".join(qtext.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, state=[dict(name=s, meaning=s, where=", ".join(files[:3])) for s in state], mechanism=[dict(name=m, where=", ".join(files[:4])) for m in mech], observe_at=observe, hook_needed=hook)))

GO1=["encode.go","encoder.go","decode.go","decoder.go","buffer.go"]
GO2=["v2/encode.go","v2/encoder.go","v2/decode.go","v2/decoder.go","v2/buffer.go","v2/pool.go"]
RS=["encoder.rs","decoder.rs"]
CB=["c_bindings/encoder.rs","c_bindings/decoder.rs","c_bindings/types.rs"]
TS=["encoder.ts","decoder.ts"]
GEN=["generator/golang/templates/decode.templ","generator/golang/templates/decodeMap.templ","generator/golang/templates/encode.templ","v2/generator/golang/templates/decode.templ","v2/generator/golang/templates/decodeMap.templ","v2/generator/golang/templates/encode.templ","generator/rust/templates/decode.templ"]

p("C01","Concurrent callers never see or disturb each other's data",
"""When many callers encode and decode at the same time, each with its own buffer and its own input, every caller gets exactly
the bytes and values it would get running alone, whatever the interleaving of their steps, in every language implementation.
A caller whose operation fails or panics half-way does not change any other caller's results either.""",
["schedules","histories","fault_sequences"],
"all interleavings of the steps of any number of concurrent encoders and decoders (including callers aborted half-way), and all their inputs",
"The tests run one caller at a time (the only concurrent uses are two benchmarks that check nothing); interference needs a particular interleaving inside an encode or decode call or of calls on distinct objects.",
GO1+GO2+RS+CB+TS, ["package-level variables","decoder pool","buffer pool"], ["no shared mutable state outside the pools"],
["encoded bytes and decoded values of each caller, against a reference encoder"])
p("C02","A pooled buffer has one owner at a time and starts empty",
"""A buffer taken from a buffer pool is never simultaneously held by another taker, starts empty, and holds exactly what its
current owner writes until that owner gives it back, no matter how pool items are dropped, reused or handed out and how other owners finish or abort.
Taking never fails, and giving back nothing (nil) is harmless.""",
["schedules","histories","fault_sequences"],
"all interleavings of takers and returners on shared and private pools, all pool hand-out orders and drops by the garbage collector, all abort points of an encode",
"The pool tests take and put one buffer in one goroutine; whether the put publishes the buffer before it is clean depends on a schedule and on which item the runtime's pool hands out, neither of which a test controls.",
["v2/pool.go","v2/buffer.go"], ["Pool items","Buffer offset"], ["reset before the buffer is put back","exclusive hand-out by the runtime pool"],
["Pool Get/Put, GetBuffer/PutBuffer and the Buffer accessors"])
p("C03","A recycled decoder never carries over another message",
"""A decoder obtained from the recycling pool reads only the input it was obtained for, from the beginning and to the end, however many other decoders
are being obtained, used, failed and returned at the same time and whichever returned decoder object is reused.
Returning a decoder releases its hold on the input, and returning nothing (nil) is harmless.""",
["schedules","histories","fault_sequences"],
"all interleavings of obtaining, using and returning decoders, all pool hand-out orders and drops, all mixes of intact and damaged inputs",
"The tests obtain and return decoders sequentially on well-formed inputs; cross-talk needs a reuse between particular steps of two callers.",
["decoder.go","decode.go"], ["decoderPool","Decoder.b"], ["input cleared before the decoder is put back"],
["GetDecoder, ReturnDecoder, Return and every decode call on the handle"])
p("C04","No damaged or hostile input crashes or hangs a decoder",
"""Whatever bytes arrive and whatever sequence of values the receiver tries to read from them, every read returns a value or reports failure through its
documented error channel after work proportional to the input; it never panics, aborts the process, reads outside the input or runs forever.
This holds in every language implementation and in the decoders generated for messages.""",
["inputs","fault_sequences","histories"],
"all byte strings a lossy or hostile transport can deliver (truncation, bit and byte damage, splices, duplicated or dropped parts, random bytes) and all sequences of reads on them, continuing after failures",
"Tests decode well-formed values plus an empty remainder; they never cut a value inside a multi-byte integer or continue reading after damage.",
GO1[2:4]+GO2[2:4]+RS[1:]+CB[1:2]+TS[1:]+GEN, ["decode position"], ["length checks before every read"], ["return values, errors, exceptions, process exit status"])
p("C05","Truncation is always detected and the intact prefix is read correctly",
"""If a stream of encoded values is cut at any byte (a torn write, a crash, a closed connection), reading it returns exactly the values that lie completely before the cut
and then reports failure for the first value that does not; it never invents a value from a cut one.
This holds in every language implementation and for generated messages.""",
["crash_points","inputs","histories"],
"every cut position of every well-formed stream, including cuts inside length prefixes, multi-byte integers and payloads, and every chain of crashes and restarts of the reader between records",
"Tests only try to read from an empty remainder after a complete value; the cut positions inside values are never exercised.",
GO1[2:4]+GO2[2:4]+RS[1:]+CB[1:2]+TS[1:]+GEN, ["remaining input"], ["remaining-length checks"], ["decoded values and error results"])
p("C06","Reading the wrong type fails and loses nothing",
"""If the next value in an intact stream is not of the type being asked for (a reordered, duplicated or misrouted message, or a deliberate probe), the read fails
and consumes nothing, so reading it with the right type afterwards still returns it and everything after it.
This holds in every language implementation, including probes for lists and maps with another element type and probes at the end of the input.""",
["histories","inputs","fault_sequences"],
"all sequences of wrong and right probes over all well-formed streams, in every language implementation",
"Tests probe only an exhausted decoder; they never probe with a wrong type and then continue.",
GO1[2:4]+GO2[2:4]+RS[1:]+CB[1:2]+TS[1:], ["decode position"], ["position restored when the tag does not match"], ["results of the failing probe and of the reads after it"])
p("C07","Memory used by a read is bounded by the input, not by a length it claims",
"""Reading a value or a generated message never allocates more memory than a fixed multiple of the number of input bytes plus a constant, whatever
lengths and element counts a damaged or hostile input claims.
This holds in every language implementation and for decoders generated for messages.""",
["inputs","fault_sequences"],
"all inputs with damaged or hostile length prefixes and element counts, at every nesting position",
"Tests never present a length larger than the data that follows.",
GO1[2:4]+GO2[2:4]+RS[1:]+CB[1:2]+TS[1:]+GEN, ["length prefix"], ["remaining-length check before allocation"], ["bytes allocated during the call"])
p("C08","Encoding appends exactly the value, whatever the buffer's history",
"""Encoding values in any order into a buffer of any origin, capacity and earlier use appends exactly their encodings after what the buffer already holds:
nothing is lost, overwritten, reordered or padded when storage grows, is reused after a reset, is supplied by the caller, or when an earlier encode was aborted or very large.
Raw writes and encodes may be mixed freely, in every language implementation.""",
["histories","inputs","fault_sequences"],
"all histories of resets, raw writes, explicit growth, aborted encodes and encodes of all kinds and sizes, from all initial buffers",
"Tests encode one or a few small values into a fresh default buffer; growth at each boundary, caller-supplied storage and payloads near length-prefix boundaries are not covered.",
["buffer.go","encode.go","v2/buffer.go","v2/encode.go","encoder.rs","c_bindings/encoder.rs","encoder.ts"], ["buffer storage, capacity and write position"], ["growth before each write"],
["buffer contents, length and the decode of it"])
p("C09","The C interface keeps its status and ownership contract on any call history",
"""On any sequence of calls on any number of encoders and decoders, every call through the C interface sets its status, reports a null handle or pointer as a null-pointer error
and damaged data as a failure, and never crashes, corrupts memory, or affects another handle.
Every returned object is valid and unchanged until its own release call and is released exactly once by it, releasing nothing (null) is harmless, a decoder keeps its own copy of the input it is made from,
and what was allocated for an object is given back: repeating the same calls and releases any number of times does not add to the memory held.""",
["histories","inputs","fault_sequences"],
"all call sequences over many handles, with null handles and pointers, undersized output buffers, empty and embedded-zero payloads, damaged inputs, and every order of release",
"The one C test is a fixed happy-path sequence with non-empty values under valgrind.",
CB+["polyglot.h"], ["handles, returned buffers and strings"], ["null checks, ownership transfer by raw pointers"], ["status codes, returned values, allocator calls"])
p("C10","All implementations agree on every value in a mixed deployment",
"""In a deployment mixing the language implementations and versions, every value sent by any of them is encoded to the same bytes and read back by every other one as the same value,
in order and exactly once per delivery, however messages are delayed, reordered, duplicated or re-read after nodes restart or are replaced by another implementation.
Values include the extremes of every integer and floating-point type, empty and multi-byte text, empty and large blobs, errors (one received compares as equal to an error of the same text and to no other), and nested lists and maps.""",
["configurations","histories","inputs","fault_sequences"],
"all pairs of implementations, all values and nestings, all delivery orders, restarts and upgrades",
"Cross-language tests share one fixed file of samples per type; most values, all sequences and all pairs other than file-to-one-language are untested (and the TypeScript tests are not run in this environment at all).",
GO1+GO2+RS+CB+TS+["kind.rs","kind.ts"], ["wire format"], ["tag byte, varint, zig-zag and big-endian encodings"], ["encoded bytes and decoded values of every node"])
p("C11","Encoded bytes and decoded values stay fixed when buffers are reused",
"""A value once decoded does not change when the input buffer it came from is overwritten, returned to a pool or reused for the next message, when more values are decoded, or when its decoder is recycled;
and an encoded value does not change when the caller modifies the data it passed in.
Encoding never modifies the caller's data, and decoding never modifies the input.""",
["histories","schedules"],
"all histories of decode and encode calls followed by overwriting, recycling and reuse of every buffer involved",
"Tests compare values immediately, before any buffer is reused.",
GO1+GO2+RS+CB+TS, ["decoded strings, blobs and errors; caller's inputs"], ["copy out of the input","unsafe string views only while copying"], ["values re-read after buffer reuse"])
p("C12","A reused message object decodes to exactly the new message",
"""Decoding a message into an object that already holds an earlier message, or the partial result of an earlier failed decode, gives the same result as decoding it into a new object.
Nothing of the earlier content survives in any field, list, map or nested message, including where the new message has absent or empty parts.""",
["histories","inputs","fault_sequences"],
"all sequences of messages (with absent, empty and longer or shorter parts, and damaged messages in between) decoded into the same object",
"There is no test that decodes into a used message object.",
GEN[:6], ["fields of the reused object"], ["generated field-by-field decode"], ["deep comparison of the object with a freshly decoded one"])
p("C13","Generated messages survive any transport unchanged or are refused",
"""A message of any generated type, encoded by its generated encoder and delivered intact, is decoded by every generated decoder (Go, both versions, and Rust) to an equal message and leaves the rest of the stream readable;
cut short, or with an element count or kind replaced so that the bytes no longer describe such a message, it is refused with an error.
An error reply sent in place of a message is reported as that error or as a decode failure, never as a message.""",
["inputs","fault_sequences","configurations","histories"],
"all values of a schema exercising every field type the generators support, all delivery faults, all pairs of generated implementations",
"The generator tests do not execute generated code, and no test runs generated code at all in this environment.",
GEN, ["message fields"], ["generated encode and decode in the same field order"], ["decoded messages and errors"])
p("C14","Generating code is a repeatable function of the request alone",
"""The output of the code generators for a request is the same bytes every time, whatever requests (valid, invalid or aborted) the same generator served before, in whatever order the process iterates its tables,
whatever other generators run at the same time, and whatever the environment and the clock are. Serving a request changes neither the request nor an earlier response.""",
["histories","schedules","configurations"],
"all histories of earlier requests and option settings on a generator object, all map iteration orders, all interleavings of generators",
"Tests do not reuse a generator object, and a single run samples one iteration order.",
["generator/golang/generator.go","generator/rust/generator.go","generator/typescript/generator.go","v2/generator/golang/generator.go","v2/generator/rust/generator.go","v2/generator/typescript/generator.go"],
["generator options and dependency tables"], ["per-request state"], ["response bytes"])
p("C15","A generator plugin never reports success with an incomplete result",
"""However its input arrives (fragmented, cut short, unreadable) and however its output and the helper program it runs fail (full disk, short write, closed pipe, helper missing, crashing or complaining), a generator plugin
either delivers the complete, uncontaminated response and exits successfully, or exits with failure.
It never hangs and never delivers a truncated or altered response with a success status, and a valid request of supported types succeeds when nothing fails, however it is fragmented.""",
["fault_sequences","crash_points","inputs"],
"all fragmentations and cut points of the request, all positions of an output failure, all behaviours of the helper program",
"Nothing tests the plugin programs.",
["protoc-gen-go-polyglot/main.go","protoc-gen-rs-polyglot/main.go","protoc-gen-ts-polyglot/main.go","v2/protoc-gen-go-polyglot/main.go","generator/rust/generator.go","v2/generator/rust/generator.go"],
["standard input and output, helper process"], ["read everything, check every error"], ["exit status and bytes written"])
p("C16","Generated source is valid for every schema the generators accept",
"""For every schema a generator accepts without error, the source it emits compiles, and no two schema elements are given the same name.""",
["programs"],
"all schemas", "The tests generate no source and compile none of it.",
["generator/golang","generator/rust","generator/typescript","utils"], ["none"], ["templates"], ["compiler exit status"])
p("C17","A damaged integer that does not fit its type is refused, never reduced",
"""An integer, length or element count whose encoding carries more bits than its type has, or runs on for more bytes than the type ever needs, is refused by every implementation and by generated decoders,
and never silently reduced to another number; an encoding damaged into another valid one is read as exactly the number it then says.
Values before the damage are read correctly.""",
["inputs","fault_sequences","configurations"],
"all encodings of integers, lengths and counts a damaged or hostile delivery can contain, at all positions, in all implementations",
"Tests read only integers written by the encoder; the overflow checks that exist in the code were never reached by a test (nor, as it turned out, by any input).",
GO1[2:4]+GO2[2:4]+RS[1:]+CB[1:2]+TS[1:]+GEN, ["decoded integer"], ["overflow check on the last byte","limit on the number of bytes"], ["decoded integers, lengths and counts, and error results"])
os.chdir(os.path.dirname(os.path.abspath(__file__))+"/..")
with open("properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
