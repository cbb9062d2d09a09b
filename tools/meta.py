"""What is checked, in one place. gen.py writes properties.jsonl and MANIFEST.json from it."""

RACE = {"C12", "C24", "C28"}     # run in a binary built with the race detector
NOFUZZ = RACE | {"C17", "C34"}          # schedules and sockets: coverage does not guide these
CONFIRM = {"C17", "C28", "C34"}         # real sockets: a failure counts when its replay fails, too

DICT = "The frozen dictionary harness/ref/dict.json is right. It was taken from the tree this work started from; 255 of its 329 CRC extras are implied by its own names and types, recomputed independently, the others are frozen as they were."
REF = "The reference encoder, parser, checksum and scanner in harness/ref are right; they share no code with the library."
RAND = "Sampled, not exhaustive: absence of a failure is evidence, not proof."
NAN = "Float fields hold no signalling NaN (Go's float conversions may quiet one); any other bit pattern occurs."

META = {}


def p(id, title, statement, over, text, why, files, mechanism, rule, assumptions, technique, note, **kw):
    assert len(title) <= 80, (id, len(title))
    META[id] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files,
                    mechanism=[dict(name=n, where=w) for n, w in mechanism], rule=rule,
                    assumptions=assumptions, technique=technique, note=note, **kw)


p("C01", "Encoding a message and decoding the frame gives the message back",
  "For every message of every bundled dialect, any field values and any header values, the frame built for it passes validation, carries the requested version, sequence number, system ID, component ID and message ID, and decodes under the same dialects to a message of the same type with the same field values. In a version 1 frame the extension fields come back as zero, all others unchanged; in a version 2 frame every field comes back. Encoding the decoded message with the same header values gives the same bytes.",
  ["inputs", "configurations"], "every message definition (329) x all field values x system, component, sequence x protocol version x dialect lists in which the definition is the effective one",
  "The tests round-trip a few hand-made frames of a few messages; 329 generated codecs with arbitrary values, trailing zeros and extension fields are out of their reach.",
  ["stream.go", "dialect.go", "common/", "ardupilotmega/", "util/util.go"],
  [("frame packing", "stream.go packFrame"), ("generated Read/Write", "*/<message>.go"), ("zero truncation", "util/util.go TruncateV2")],
  "A case is a message definition drawn evenly from the 329, a full payload (all zero, zero tail, sparse, constant, random, ...), header values, a version, and a dialect list. Non-trivial: the payload has a non-zero byte after its first.",
  [DICT, NAN, RAND, "The version 2 payload of V2_EXTENSION comes back without its trailing zeros, as C23 says."],
  "property-based testing: round trip over generated messages", "Each run encodes and decodes about 890,000 generated messages (quick) covering all definitions; sampled, not proved.")

p("C02", "Encoded frames are byte for byte what the MAVLink wire format prescribes",
  "For every fixed-layout message of every bundled dialect and any values, the encoded frame equals, byte for byte, start byte, length, (version 2: two zero flag bytes), sequence, system ID, component ID, message ID (1 byte or 3), payload and checksum as MAVLink prescribes. The payload is the fields in wire order, little-endian; version 1 carries exactly the base fields, version 2 all fields without trailing zero bytes (the first byte always stays). The checksum is the CRC-16/MCRF4XX of everything after the start byte plus the definition's CRC extra byte, low byte first.",
  ["inputs", "configurations"], "every message definition x all field values x header values x both versions",
  "Tests compare a handful of captured frames; a codec that swaps two fields in both directions, or header bytes in both directions, round-trips fine and is caught only against an independent encoder over all messages.",
  ["stream.go", "x25.go", "util/util.go", "common/", "ardupilotmega/"],
  [("frame packing", "stream.go packFrame"), ("field order and width", "struct layout of each generated message"), ("checksum", "x25.go"), ("CRC extra", "*/dialect.go message tables")],
  "As C01; the oracle is an independent encoder over the frozen field table. Non-trivial: the payload has a non-zero byte after its first.",
  [DICT, REF, NAN, RAND],
  "property-based testing: differential against a reference encoder", "Byte equality with an independently written encoder on about 800,000 generated messages per quick run.")

p("C03", "Any conforming frame decodes to exactly the values it carries",
  "A conforming frame of a known fixed-layout message, from any sender (version 1 or 2, signed or not, trailing zeros truncated fully, partly or not at all, extension fields absent), is accepted and decodes to exactly the values carried, with every byte the sender left out read as zero. The result does not depend on what the message object held before, and later changes to the frame's bytes do not change it. The decoded message reports version 2 exactly when it came from a version 2 frame of a definition with extension fields.",
  ["inputs"], "every message definition x payload contents x every payload length a sender may use x flags and signatures x previous contents of the message object",
  "Tests decode a few captured frames; senders with other truncation choices, without extensions, or with signatures, and reused message objects, are not sampled.",
  ["common/", "ardupilotmega/", "frame.go", "dialect.go"],
  [("padding before decoding", "generated Read / getIOSlice"), ("payload extraction", "frame.go GetMessageBytes"), ("extension marker", "generated Read")],
  "A case is a frame from the reference encoder with a chosen payload length and signature, plus previous contents for the object decoded into. Non-trivial: a non-zero byte after the payload's first.",
  [DICT, REF, NAN, RAND],
  "property-based testing: reference frames against decoded values", "About 800,000 reference-built frames per quick run, decoded into fresh and into used objects.")

p("C04", "Every dialect defines exactly its messages, with the right metadata",
  "For each bundled dialect and every message ID: if the dialect defines the ID, its metadata has the definition's CRC extra, minimum (base fields) and maximum (with extensions) payload length, and frames with that ID decode to the message with that ID, name and dialect; an empty one encodes to the minimum length in version 1 and to one byte in version 2. For every other ID, metadata and decoding both report an unknown message. Metadata table and decoder table never disagree, and a dialect goes by the name its messages give for it.",
  ["inputs", "configurations"], "10 dialects x the whole 32-bit message ID space (sampled outside the neighbourhood of used IDs)",
  "Tests use a handful of IDs of one or two dialects; a wrong or missing table entry shows only for its own ID.",
  ["common/dialect.go", "ardupilotmega/dialect.go", "asluav/dialect.go", "uAvionix/dialect.go"],
  [("message tables", "*/dialect.go <dialect>Messages"), ("parser tables", "*/dialect.go <dialect>Parsers")],
  "Cases: single IDs at and around all IDs any dialect uses, looked up in any dialect; and runs of 2048 IDs across the 24-bit and 32-bit space. Non-trivial: the case contains an ID the dialect defines.",
  [DICT, RAND],
  "property-based testing: lookup against a frozen dictionary", "All defined IDs many times over, about 25 million undefined (dialect, ID) pairs per quick run.")

p("C05", "Validation accepts exactly the valid frames and names an applicable reason",
  "For any bytes that start a frame and any list of dialects, validation accepts the frame if and only if it is complete, its ID is known to one of the dialects, its payload is no longer than the definition's maximum (version 1: and no shorter than its minimum), and its checksum, computed with that definition's CRC extra, matches. The definition used is that of the first dialect in the list that has the ID. A rejection names a reason that actually applies (frame too short, unknown message, message too short, message too long, invalid checksum), and with no dialects every complete frame is unknown.",
  ["inputs", "configurations"], "all byte sequences starting with a start byte x lists of dialects",
  "Tests validate a few frames; verdicts at length boundaries, under colliding IDs, with flags, signatures, cut or followed by more bytes are not sampled.",
  ["dialect.go", "frame.go", "x25.go"],
  [("verdict", "dialect.go Dialects.Validate"), ("completeness", "frame.go checkFrameLength"), ("covered bytes", "frame.go GetChecksumInput")],
  "Cases: frames of known and unknown messages with odd lengths, other CRC extras, flipped or swapped bytes, signatures, flags; cut anywhere or followed by more bytes; random bytes; under 0 to 10 dialects. Non-trivial: anything but a complete frame of an unknown message.",
  [DICT, REF, RAND, "Unknown incompatibility flags are not a reason for rejection (the library never claimed it)."],
  "property-based testing: verdict against a reference validator", "About 1,280,000 frames per quick run, half of them valid, the rest spread over all reasons.")

p("C06", "Corrupted frames are rejected whenever the checksum can tell",
  "If in a valid frame of either version any single bit, any two bits, any odd number of bits, or any bits within a burst of at most 16 bits change in the checksum itself or in the covered bytes other than length, incompatibility flags and message ID, validation rejects the frame as having an invalid checksum. This holds for every message, header values, payload contents and length.",
  ["inputs", "fault_sequences"], "valid frames of every definition x all such corruptions",
  "Tests hold one or two frames with a wrong checksum; a byte left out of the checksum, or half a checksum compared, passes them.",
  ["dialect.go", "x25.go", "frame.go"],
  [("comparison", "dialect.go Dialects.Validate"), ("covered bytes", "frame.go GetChecksumInput"), ("polynomial", "x25.go Write")],
  "Cases: a valid frame and a set of bit positions of one of the four kinds. Non-trivial: at least one bit changes.",
  [DICT, REF, RAND, "The guarantee is that of the CRC-16 polynomial (x+1 divides it; two-bit errors within 32767 bits; bursts up to 16 bits)."],
  "property-based testing: metamorphic corruption of valid frames", "About 960,000 corruptions per quick run, positions drawn evenly over the frame.")

p("C07", "A stream delivers exactly the valid frames among arbitrary bytes, in order",
  "From any byte sequence, split into reads in any way and at any pace, a stream that does not return invalid frames delivers exactly the frames a left-to-right scan finds: at a start byte, a complete valid frame is delivered and skipped as a whole; in every other case the scan goes on at the next byte. So noise, false start bytes, damaged, unknown or cut frames never hide, alter, reorder or duplicate a valid frame that does not overlap a valid one found earlier, and frames complete when the transport ends are delivered before the stream closes. The stream then closes with the transport's error (an end of input in the middle of a frame may be reported as an unexpected end).",
  ["inputs", "schedules", "configurations"], "all byte streams x all splits into reads x how the transport ends x dialect lists",
  "Tests feed a few clean streams in one read; resynchronization after noise, candidates across reads, buffer edges and the end of input need generated streams and splits.",
  ["stream.go", "frame.go", "dialect.go"],
  [("scanner", "stream.go readFrame, peekHeader"), ("buffering", "stream.go fill"), ("validation", "dialect.go Validate")],
  "Cases: streams of frames (valid, damaged, cut, nested, repeated), noise and false starts, up to a few 100 kB; read sizes from 1 byte up, empty reads; slow transports and consumers; frames sent meanwhile, or no write channel at all; end with or without a last read. Non-trivial: at least one frame is to be delivered.",
  [DICT, REF, RAND],
  "property-based testing: stream against a reference scanner", "About 128,000 generated streams per quick run under virtual time; a stall is seen at once.")

p("C08", "In return-invalid mode a stream delivers every candidate, valid or not, in order",
  "With invalid frames requested, a stream delivers, in the order of their start bytes, every complete candidate frame the left-to-right scan meets: valid ones are delivered and skipped as a whole, after an invalid one the scan goes on one byte after its start byte. Each delivered frame holds exactly the candidate's bytes (header, payload, checksum and signature if flagged), for any split into reads. Validating a delivered frame gives the same verdict the scan used.",
  ["inputs", "schedules", "configurations"], "all byte streams x all splits into reads x dialect lists",
  "Tests use one stream with one invalid frame; overlapping candidates, candidates at buffer edges and mixes of valid and invalid ones are not sampled.",
  ["stream.go"],
  [("scanner", "stream.go readFrame"), ("copy of the invalid frame", "stream.go readFrame, frame.go FrameFromBytes")],
  "As C07, in return-invalid mode. Non-trivial: at least one candidate.",
  [DICT, REF, RAND],
  "property-based testing: stream against a reference scanner", "About 128,000 generated streams per quick run, most with invalid candidates.")

p("C09", "Delivered frames belong to the receiver, and the log shows exactly the traffic",
  "A frame delivered by a stream keeps its bytes for good: later reads, other frames and whatever a receiver writes into its own frames never change it, nor does changing it affect frames delivered later. A logger sees each delivered frame exactly once, in order, with exactly its bytes, and each frame the transport accepted exactly once, in order, with exactly its bytes, and nothing else, except that the last frame logged as read may be one the stream still offered when it was closed. A logger that returns errors changes nothing.",
  ["inputs", "histories", "schedules"], "byte streams x splits x receivers that keep and overwrite frames, or close the stream when they have enough x loggers that fail x write failures",
  "Tests look at each frame when it arrives and discard it; buffer reuse shows only in frames kept across later reads.",
  ["stream.go", "frame.go"],
  [("copy on delivery", "stream.go readFrame, FrameFromBytes"), ("logging", "stream.go ReadContext, WriteContext")],
  "Cases as C07/C08 with every second frame overwritten by the receiver, its spare capacity included; and write histories as in C10. Non-trivial: at least one frame delivered, or more than one sent.",
  [DICT, REF, RAND],
  "property-based testing: invariants over a history of deliveries", "About 160,000 histories per quick run.")

p("C10", "Frames sent are written whole, in order, once, until the stream closes",
  "Each frame put on a stream's write channel reaches the transport as exactly one write of exactly its bytes, in the order in which the channel delivered them, for any frames and any channel capacity. When the transport fails a write, the stream closes with that error and writes nothing more; when the write channel is closed, what it still held is written first and the stream then closes with the error that says so. Frames are not modified by being sent.",
  ["inputs", "histories", "fault_sequences"], "sequences of frames x channel capacities x the write that fails x how the stream ends",
  "Tests write one or two frames to a buffer that never fails.",
  ["stream.go"],
  [("write loop", "stream.go WriteContext")],
  "Cases: 0 to 11 arbitrary frames, capacity 0 to 6, optionally a failing write (with a partial count), ended by closing the channel, Close or cancelling. Non-trivial: at least two frames.",
  [RAND, "One write loop per stream."],
  "property-based testing: write histories against a recording transport", "About 160,000 histories per quick run under virtual time.")

p("C11", "A stream closes once, for a true first reason, and everything lets go",
  "Whatever closes a stream (Close, cancelling or timing out the context of a running loop, end or failure of the transport, a failing write, closing the write channel), in any order or concurrently and also while a loop is blocked reading, writing or delivering: it closes (before Close returns, at the latest) without panic or deadlock, the transport is closed exactly once, the read channel is closed, both loops return, no goroutine of the stream stays behind and waiting senders can proceed. The reported reason is that of one of the first causes, is available as soon as the stream is seen closed, and never changes; loops started on a closed stream return. As long as there is no cause, the stream stays open, reports no reason, keeps its loops running, delivers what arrives and writes what is sent.",
  ["schedules", "histories", "fault_sequences"], "sequences of 18 kinds of operations in steps of up to 4 concurrent ones, with and without consumers, blocked, failing and dribbling transports",
  "Tests close a stream in one or two orderly ways; double closes, closes during a blocked delivery and concurrent causes need generated schedules.",
  ["stream.go"],
  [("close", "stream.go close, closeOnce"), ("delivery", "stream.go deliver"), ("context watcher", "stream.go closeOnDone"), ("reason", "stream.go GetCloseErr")],
  "A case is a list of steps; a model gives after each step (settled under virtual time) whether the stream must, may or must not be closed, and for which reasons. Every case runs 4 times because Go picks among ready channels at random. Non-trivial: a cause other than the final Close closes the stream.",
  [RAND, "The transport's Close unblocks its Read and Write, as io.ReadWriteCloser implementations like sockets do.", "One read loop and one write loop per stream."],
  "stateful property-based testing under virtual time (testing/synctest)", "About 128,000 schedules (x4) per quick run; schedules between two settle points are the Go scheduler's.")

p("C12", "A stream used from many goroutines has no data races",
  "A stream may be used as intended from any number of goroutines at once: one read loop, one write loop, and any number of goroutines receiving frames (decoding, printing, overwriting them), sending frames, asking for the close reason, closing it or cancelling its contexts, also while other streams are in use. No schedule of these contains a data race, a panic or a deadlock, receivers learn of the close and always find a reason, and the transport gets each frame sent at most once, whole.",
  ["schedules"], "numbers and kinds of concurrent users x traffic x delays, on the real scheduler under the race detector",
  "The tests run without the race detector's attention to concurrent closers, pollers and receivers, and with at most one of each.",
  ["stream.go"],
  [("lock around the output channel", "stream.go deliver, close"), ("reason published by closing a channel", "stream.go close, GetCloseErr")],
  "Cases: traffic, 0-3 senders, 0-3 receivers, 1-3 pollers, 1-4 closers of 5 kinds, a small delay. Non-trivial: traffic with somebody to send or receive it.",
  [RAND, "The race detector reports races on the schedules that occur; it has no false alarms."],
  "property-based testing of generated concurrent histories under the Go race detector", "About 14,400 histories (x2) per quick run.")

p("C13", "The checksum object computes CRC-16/MCRF4XX whatever way it is fed",
  "After a reset, the checksum depends only on the concatenation of the bytes written since and equals CRC-16/MCRF4XX of them, however the bytes are split into writes. Every write takes all its bytes without error. Asking for the sum appends its two bytes, low byte first, to the given slice, and changes neither the state nor the bytes given, so it can be asked for at any point and any number of times.",
  ["inputs", "histories"], "histories of writes, sums and resets with arbitrary data",
  "Tests do not test the checksum on its own; frames use it in one fixed pattern.",
  ["x25.go"],
  [("update", "x25.go Write"), ("sum", "x25.go Sum"), ("reset", "x25.go Reset")],
  "A case is a history of 1 to 12 operations on one object. Non-trivial: at least two non-empty writes.",
  [REF, RAND],
  "stateful property-based testing against a bitwise reference CRC", "About 480,000 histories per quick run.")

p("C14", "Text fields store what was set: complete, or truncated with an error",
  "Setting any text field of any message to a string without NUL bytes stores the string, followed by zeros only, whatever the field held before; a string longer than the field is cut to the field's size and reported as too long, and only then. Getting the field returns its bytes up to the first zero byte or the full field. No other field changes, and the text survives encoding and decoding.",
  ["inputs", "histories"], "all 40 text fields x previous contents x sequences of strings of any length and bytes",
  "Tests do not cover the accessors; boundary lengths, stale tails and fields of each of 40 generated accessors are not sampled.",
  ["common/", "ardupilotmega/", "util/util.go"],
  [("setters", "generated Set<Field>"), ("getters", "generated Get<Field>, util/util.go CStrLen")],
  "A case is a field, arbitrary previous contents and 1 to 3 strings (ASCII, arbitrary bytes, multi-byte) with lengths around the field's size. Non-trivial: a non-empty string is stored.",
  [DICT, RAND],
  "stateful property-based testing against a byte-array model", "About 256,000 histories per quick run, about 6,400 per field.")

p("C15", "Messages no loaded dialect defines pass through unaltered, marked unknown",
  "A frame whose ID none of the loaded dialects defines (other dialects may) is reported as unknown by validation and by decoding; decoding also gives an unknown-message object with the frame's ID, version and an exact copy of its payload that later changes to the frame do not reach. Writing that object gives the payload back unaltered for either version, printing it shows ID, version and payload, and building a frame from it reports an unknown message.",
  ["inputs", "configurations"], "dialect lists (the empty one included) x all undefined IDs x payloads of 0 to 255 bytes x versions x signatures",
  "Tests decode one unknown frame at most.",
  ["dialect.go", "message.go"],
  [("fallback", "dialect.go Dialects.GetMessage"), ("raw copy", "message.go UnknownMessage.Read")],
  "A case is a dialect list and a frame of an ID outside it. Non-trivial: the payload is not empty.",
  [DICT, REF, RAND],
  "property-based testing: reference frames against the decoded object", "About 480,000 frames per quick run.")

p("C16", "A frame's accessors and rendering report exactly what its bytes say",
  "For any complete frame of either version, the accessors return version, payload length, sequence, system ID, component ID, message ID, payload, checksum and checksum-covered bytes exactly as laid out in its bytes; for version 2 also both flag bytes, and the 13-byte signature exactly if the signed bit (the lowest) of the incompatibility flags is set, none otherwise. Printing the frame shows the same values (and a signature only if there is one). No accessor changes the frame.",
  ["inputs"], "all complete frames: any header bytes, payload lengths 0 to 255, any flags, signed or not",
  "Tests look at one or two frames whose flag bytes are zero.",
  ["frame.go"],
  [("accessors", "frame.go FrameV1, FrameV2"), ("signature", "frame.go GetSignature"), ("rendering", "frame.go String")],
  "A case is a complete frame, real or of random bytes with every header byte arbitrary. Non-trivial: the payload is not empty.",
  [REF, RAND],
  "property-based testing: accessors against a reference parser", "About 800,000 frames per quick run.")

p("C17", "The UDP adapter answers the first sender and keeps datagrams apart",
  "Over the UDP adapter each read returns one datagram, in order of arrival, from whichever sender; writing before anything was read fails with the no-address error, and after that every write goes as one datagram, unaltered, to the sender of the first datagram that was read and to nobody else, also after others have sent or nothing has happened for long. Opening a taken port fails; closing ends a blocked read, and later writes fail. A stream over the adapter delivers the valid frames in the datagrams, whatever their size, and sends its frames to that first sender.",
  ["histories", "inputs", "schedules"], "histories of sends by 1 to 3 peers (over IPv4, IPv6 or both; same or different addresses and ports), reads with any buffer size, and writes; streams over the adapter",
  "The tests only open and close the adapter.",
  ["util/udpreadwritecloser.go", "stream.go"],
  [("first sender", "util/udpreadwritecloser.go Read"), ("reply", "util/udpreadwritecloser.go Write"), ("room for a whole datagram", "stream.go NewFrameStreamWithLogger")],
  "Cases: up to 14 operations over real loopback sockets; several such histories side by side, with pauses of up to a minute; up to 70,000 rounds of one datagram read and up to 2 written; and streams over datagrams of 1 to 3 frames, or as many as UDP carries in one, with replies. Non-trivial: something is written after a read, or more than one frame is delivered.",
  [DICT, REF, RAND, "The loopback interface keeps the order of datagrams and does not lose the few in flight; a failure is reported only if it repeats."],
  "stateful property-based testing over loopback sockets", "About 7,600 histories per quick run on real sockets; a pause of an hour would go unnoticed.", shards={"quick": 2, "thorough": 4})

p("C18", "No bytes, however malformed, make frame handling panic or misreport",
  "Making a frame from any bytes with any length argument, validating it, decoding it, and then printing, reading from or re-encoding whatever was decoded never panics. Making a frame fails with the too-short error when there are no bytes, or fewer than the requested length to copy, and with the start-byte error for an unknown first byte, and otherwise holds exactly the bytes asked for. Validating and decoding a frame that ends before its header, payload, checksum or flagged signature is complete both report it as too short.",
  ["inputs", "configurations"], "all byte sequences (0 to several hundred bytes) x length arguments x copying or not x dialect lists",
  "Tests pass well-formed frames and one or two short ones; truncation at each position and lying length bytes are not sampled.",
  ["frame.go", "dialect.go", "common/v2_extension.go"],
  [("bounds", "frame.go FrameFromBytes, checkFrameLength"), ("decoding", "dialect.go Dialects.GetMessage, generated Read")],
  "Cases: random bytes, cut frames, frames with wrong lengths or flags (V2_EXTENSION in particular), any length argument. Non-trivial: a frame could be made.",
  [DICT, REF, RAND],
  "property-based testing / fuzzing with malformed frames", "About 1,280,000 byte sequences per quick run; the thorough tier adds coverage-guided fuzzing.")

p("C19", "Printing a message shows its name and every field with its value",
  "For every message of every bundled dialect and any values, the rendering names the dialect and the message and has, for each base field, a line with the field's name and its current value; extension fields are shown with their values exactly if the message is marked as carrying extension values. It never contains formatting errors.",
  ["inputs"], "every message definition x all field values x with and without extension values",
  "Tests do not print messages; an argument out of order in one of 329 generated methods shows only there.",
  ["common/", "ardupilotmega/", "matrixpilot/"],
  [("rendering", "generated String")],
  "A case is a message definition and its values. Non-trivial: a non-zero byte after the payload's first.",
  [DICT, RAND, "Alignment and units are free."],
  "property-based testing: rendering against the field values", "About 480,000 messages per quick run.")

p("C20", "The first dialect that knows a message decides, for every operation alike",
  "Decoding, validating and building a frame all use the first dialect in the list that does not call the message's ID unknown: its definition, its checksum and its decoder, no matter which dialects follow or how they define the ID. A dialect that fails with another error stops all three operations with that error. Only if every dialect calls the ID unknown do the three report an unknown message.",
  ["configurations", "inputs"], "lists of up to 80, mostly 6, bundled or user-written dialects with colliding definitions and failures x versions x payloads",
  "Tests load one dialect, or two that do not collide.",
  ["dialect.go"],
  [("lookup loops", "dialect.go Dialects.GetMessage, GetFrame, Validate")],
  "A case is a list of bundled and made-up dialects (limits and CRC extras often zero, failures that come along with values), an ID several of them may define, and a frame with the checksum of one of them. Non-trivial: at least two dialects know the ID.",
  [DICT, REF, RAND],
  "property-based testing: generated dialect lists against a resolution model", "About 480,000 lists per quick run, half of them with collisions.")

p("C21", "What a protocol version cannot carry is refused, not mangled",
  "Asked for any protocol version other than 1 or 2, building a frame, writing a payload and decoding from a frame of such a version report an unsupported version. For every message with an ID above 255, version 1 frames and payloads are refused when encoding and when decoding, each with its specific error. A refusal yields no frame and no payload and leaves the message being decoded into untouched, while everything else the versions can carry is encoded and decoded.",
  ["inputs", "configurations"], "every message definition x any version number x any values",
  "Tests ask for one wrong version of one message; the guard is repeated in each generated codec.",
  ["stream.go", "common/", "ardupilotmega/", "icarous/"],
  [("version guard", "stream.go packFrame, generated Read and Write")],
  "A case is a definition (half of them with high IDs), values (also held by the object decoded into), and a version number (1, 2, near and far wrong ones, ones equal to 1 or 2 modulo 2^8 or 2^32). Non-trivial: a refusal is due.",
  [DICT, RAND],
  "property-based testing: refusals against the version rules", "About 480,000 requests per quick run.")

p("C22", "Encoding, validating and decoding change nothing they are given",
  "Encoding does not change the message; frames of the same message are equal, and writing into one changes neither the other nor the message. Validating and decoding change neither the frame nor the bytes that follow it in the same buffer, and doing them again gives the same answer, with separate message objects. A frame made with copying shares no memory with the bytes it was made from, nor with another such frame.",
  ["inputs", "histories"], "every message definition x values x intact and damaged frames inside larger buffers",
  "Tests use each value once and look at results only; shared memory shows when something is used again.",
  ["dialect.go", "frame.go", "stream.go"],
  [("separate checksum writes", "dialect.go Validate"), ("copy", "frame.go FrameFromBytes"), ("fresh buffers", "generated Write, packFrame")],
  "A case is a message, header values, bytes behind the frame and bits to damage; every object is re-checked after each operation; or a frame of any kind or bytes of any length, copied with any length; or a V2_EXTENSION decoded, changed and encoded up to 3 times. Non-trivial: a message, or something to copy.",
  [DICT, REF, NAN, RAND],
  "property-based testing: metamorphic re-use after each operation", "About 720,000 cases per quick run.")

p("C23", "The variable-length extension message carries its payload exactly",
  "A V2_EXTENSION message takes a payload of 0 to 249 bytes, replacing any earlier one; a longer one is cut to 249 and reported as too long. Its frame holds the fixed fields and exactly the payload (version 2: without trailing zero bytes), passes validation, and decodes to the same fixed fields and payload; in version 2 the payload comes back without its trailing zeros. Encoding does not change the message, and the decoded one is independent of the frame.",
  ["inputs", "histories"], "payloads of 0 to 257 bytes x earlier payloads x fixed fields x versions x dialect lists",
  "Tests cover one payload; the length arithmetic at 0, 249 and beyond, and under truncation, is not sampled.",
  ["common/v2_extension.go", "common/dialect.go"],
  [("payload length", "common/v2_extension.go Read, Write, SetPayloadSlice")],
  "A case is a payload with the shapes of C01, an earlier payload, fixed fields (a quarter all zero), a version. Non-trivial: the payload is not empty.",
  [DICT, REF, RAND],
  "property-based testing: round trip and reference encoder for the variable message", "About 480,000 messages per quick run.")

p("C24", "The codec can be used from many goroutines at once",
  "Any number of goroutines may concurrently encode, validate, decode, print and take apart messages and frames, valid or not, with the same dialects and even the same objects as long as none changes them, and change objects of their own: each gets the same result as alone, and there is no data race.",
  ["schedules", "inputs"], "sets of messages x 2 to 6 goroutines x shared or own objects, on the real scheduler under the race detector",
  "Tests are sequential; a shared scratch buffer or cache passes them.",
  ["dialect.go", "stream.go", "x25.go", "common/", "util/util.go"],
  [("no package state", "packFrame, Validate, generated Read and Write")],
  "A case is 1 to 10 messages, used 3 times by each of 2 to 6 goroutines, and up to 5 frames, valid, damaged or unknown; results are compared with the reference, renderings, getters, setters and accessors with what one goroutine gets alone afterwards. Non-trivial: always.",
  [DICT, REF, NAN, RAND, "The race detector reports races on the schedules that occur; it has no false alarms."],
  "property-based testing of generated concurrent histories under the Go race detector", "About 10,400 histories per quick run.")

p("C25", "Two linked streams exchange all frames, both ways at once, in order",
  "When two streams are linked by a reliable byte transport, all valid frames sent by each side arrive at the other, in order, unaltered and without duplicates, while both sides send at the same time, however the transport splits the bytes and whatever noise without start bytes comes between frames; each arrives decodable. Both streams stay open as long as the link does; when one side closes, the other delivers everything sent before and then closes with the end of input.",
  ["histories", "schedules", "inputs"], "frame sequences in both directions x splits x noise x channel capacities x which side closes",
  "Tests run one direction with one frame; interference of both directions and the hand-over at the close are not sampled.",
  ["stream.go", "dialect.go", "frame.go"],
  [("read and write loops", "stream.go ReadContext, WriteContext"), ("scanner", "stream.go readFrame")],
  "A case is up to 8 valid frames per side, the sizes in which each side reads, noise, capacities, and who closes. Non-trivial: both sides send.",
  [DICT, REF, RAND],
  "property-based testing: end-to-end round trip under virtual time", "About 64,000 link histories per quick run.")

p("C26", "Dialects and messages a user writes work like the bundled ones",
  "A user-written dialect, alone or among bundled ones, is served like a bundled one: for any 24-bit message ID it defines and any payload of up to 255 bytes a message writes (an unknown-message object included), the frame built holds exactly ID, header values and payload and the checksum with the dialect's CRC extra, is judged by the dialect's length limits, decodes through the dialect, and is carried by a stream. What a frame cannot hold is refused without giving a frame: an ID above 255 in version 1, a payload over 255 bytes, another version, and a message that fails to write (with that failure). Framing changes nothing in the memory in which a message hands over its payload, and the frame shares none of it.",
  ["inputs", "configurations"], "message IDs of 24 bits x payloads of 0 to 700 bytes x metadata x versions x position among bundled dialects",
  "The bundled dialects stay below ID 12921 and 255 bytes, so their tests cannot tell whether ID bytes, limits or overlong payloads are handled.",
  ["stream.go", "dialect.go", "message.go", "frame.go"],
  [("frame packing", "stream.go packFrame"), ("limits", "dialect.go Dialects.Validate"), ("ID bytes", "frame.go GetMessageID")],
  "A case is a made-up dialect with one message (ID, CRC extra, limits), dialects before and after it, header values, a payload, a version, a failure that may come along with bytes, memory of the message lent out with bytes behind it. Non-trivial: the payload is not empty, or a refusal is due.",
  [REF, RAND],
  "property-based testing: generated dialects against a reference encoder and validator", "About 240,000 made-up dialects per quick run.")

p("C27", "Invalid frames are announced once for each kind, valid ones never",
  "While a stream reads, each distinct combination of version, message ID, system ID and component ID among the invalid candidates its scan meets is announced on standard output by exactly one line that gives these four values. Repetitions of the combination, valid frames and noise print nothing, whether or not invalid frames are returned.",
  ["inputs", "histories"], "all byte streams x all splits into reads x dialect lists x both modes",
  "Tests do not look at the output; a bad link would flood it, or a wrong key would hide senders, only with repeated and mixed invalid frames.",
  ["stream.go"],
  [("suppression of repeats", "stream.go readFrame, invalidLogged")],
  "Cases as in C07 and C08, standard output redirected to a file. Non-trivial: at least one announcement is due.",
  [DICT, REF, RAND],
  "property-based testing: printed lines against a reference scanner", "About 96,000 generated streams per quick run.")

p("C28", "The UDP adapter may be read, written and closed from many goroutines",
  "One goroutine reading the UDP adapter, any number writing to it and any number closing it, at once and while several peers send, cause no data race, panic or deadlock. Every datagram read is one that a peer sent, whole and not twice; every write that succeeds arrives whole, once, at the sender of the first datagram read and nowhere else; before that, and only then, writes fail with the no-address error.",
  ["schedules", "histories"], "1 to 3 peers x 1 to 17 writers x 0 to 2 closers x traffic x delays, on the real scheduler under the race detector",
  "The tests only open and close the adapter.",
  ["util/udpreadwritecloser.go"],
  [("lock around the reply address", "util/udpreadwritecloser.go Read, Write")],
  "A case is datagrams to send and to write, numbers of peers, writers and closers, a delay. Non-trivial: something is sent and something written.",
  [RAND, "The loopback interface does not lose the few datagrams in flight; a failure is reported only if it repeats.", "The race detector reports races on the schedules that occur; it has no false alarms."],
  "property-based testing of generated concurrent histories under the Go race detector", "About 2,000 histories per quick run on real sockets.", shards={"quick": 2, "thorough": 4})

p("C29", "Moving a message between protocol versions keeps the values they share",
  "A message decoded from a frame of either version (from any conforming sender) can be encoded again as either version, any number of times over, with new header values and with its fields set anew in between. Each frame is byte for byte the one a fresh message with the same values gives: extension values survive in version 2, are dropped by version 1 and are zero ever after; only messages with an ID above 255 are refused as version 1, with the specific error, and stay usable.",
  ["inputs", "histories"], "every message definition x values x sender's choices x chains of up to 3 re-encodings in either version, with and without new values",
  "Tests never encode what they decoded; a message that remembers its origin wrongly shows only after a change of version.",
  ["stream.go", "common/", "ardupilotmega/"],
  [("extension marker", "generated Read and Write"), ("frame packing", "stream.go packFrame")],
  "A case is a conforming frame as in C03 (or of V2_EXTENSION, any length) and a chain of versions and header values. Non-trivial: a non-zero byte after the payload's first.",
  [DICT, REF, NAN, RAND],
  "property-based testing: chains of conversions against a reference encoder", "About 336,000 chains per quick run.")

p("C30", "Frames relayed from stream to stream arrive unaltered, all, in order",
  "A program that puts the frames one stream delivers on the write channel of another relays them unaltered, whatever they are (both versions, signed or not, invalid ones if asked for), also over a chain of such relays and over connections without any buffer. Everything delivered before the source ended comes out at the far end, in order, once; the end then passes down the chain, each stream closing with the reason that applies to it.",
  ["inputs", "histories", "schedules"], "byte streams x splits x 1 to 7 streams in a row x write channel capacities",
  "Tests run one stream on its own; a frame that is still shared with its stream, or a lost hand-over at the end, shows only when another stream sends it later.",
  ["stream.go", "frame.go"],
  [("copy on delivery", "stream.go readFrame"), ("write loop", "stream.go WriteContext"), ("close", "stream.go close")],
  "Cases as in C07 with 0 to 3 further hops over net.Pipe. Non-trivial: at least one frame is to arrive.",
  [DICT, REF, RAND],
  "property-based testing: end-to-end relay under virtual time", "About 48,000 relays per quick run.")

p("C31", "The byte helpers cut exactly the trailing zeros and at the first NUL",
  "For every byte slice, the version 2 truncation returns it without its trailing zero bytes but never without its first byte, and an empty one as empty. The C string length is the number of bytes before the first zero byte, or the full length without one. Neither changes the slice or anything behind it.",
  ["inputs"], "byte slices of 0 to 1,048,580 bytes",
  "The functions have no tests of their own.",
  ["util/util.go"],
  [("truncation", "util/util.go TruncateV2"), ("text length", "util/util.go CStrLen")],
  "A case is a byte string with the shapes that matter for zeros, and spare bytes behind it. Non-trivial: two bytes or more.",
  [RAND],
  "property-based testing against a reference", "About 240,000 byte strings per quick run.")

p("C32", "A stream can be closed from within its logger, transport or consumer",
  "Closing a stream, or cancelling a context of its loops, from within a call the stream itself makes (its logger's read or written callback, its transport's Read or Write) or by the goroutine that receives frames never deadlocks or panics. The stream closes with that reason, its transport is closed once, both loops return; until the call that closes it happens, everything is delivered and written.",
  ["histories", "schedules"], "place of the call x which call closes x way of closing x traffic",
  "Tests never close a stream from a callback, where a lock held around the call deadlocks.",
  ["stream.go"],
  [("no lock around callbacks", "stream.go ReadContext, WriteContext, close")],
  "A case is a number of frames each way, whether they come one by one or at once, the callback, its count, close or cancel, and what the receiver does then (goes on, leaves, waits for the close). Non-trivial: the callback is reached.",
  [RAND, "The transport's own Close does not call back."],
  "property-based testing under virtual time (testing/synctest)", "About 64,000 histories per quick run.")

p("C33", "A frame is delivered as soon as it is complete, whatever comes next",
  "While the transport is open and silent, every frame whose last byte has arrived is already delivered to a waiting receiver, unless a candidate that starts before it is itself still incomplete; no further byte, frame or end of input is needed. What is delivered early is what is delivered at the end: the same frames, in the same order.",
  ["schedules", "inputs"], "byte streams x the moments at which parts arrive x splits into reads x both modes",
  "Tests feed a whole stream and its end at once, so a reader that waits for a full buffer or for the next header passes.",
  ["stream.go"],
  [("buffering", "stream.go fill, readFrame")],
  "Cases as in C07 and C08, arriving in bursts of 1 to 400 bytes with silence between them. Non-trivial: at least one frame is to be delivered.",
  [DICT, REF, RAND],
  "property-based testing: a live reference scanner under virtual time", "About 64,000 arrivals per quick run.")

p("C34", "The example program prints every valid message it receives, and lives on",
  "The example program receives datagrams from any number of senders on its UDP port and prints every message of the common and ardupilotmega dialects that arrives in a valid frame, once, in order of arrival, as the library renders it. Noise, damaged, cut and unknown frames, whoever sends them, print no message and do not end it, nor does silence; it goes on receiving and sends nothing to anybody.",
  ["inputs", "histories"], "sequences of datagrams of up to 1,400 bytes, sometimes one of up to 30,000, some repeated up to 170 times x 1 to 3 senders",
  "The program has no tests; it did not even compile at the pinned commit. It is the one place where adapter, stream, dialects and rendering work together.",
  ["cmd/main.go", "util/udpreadwritecloser.go", "stream.go", "dialect.go"],
  [("receive loop", "cmd/main.go main"), ("UDP transport", "util/udpreadwritecloser.go")],
  "A case is a list of datagrams (valid frames of its dialects and of others, damaged and cut ones, noise) and who sends each; the program is started for it, and a last message tells when it has printed everything; once per run it waits for a minute. Non-trivial: a valid frame is among them.",
  [DICT, REF, RAND, "Port 14551 (fixed in the program) is free on the loopback interface; loopback does not lose or reorder datagrams of one sending thread."],
  "property-based testing of the built program over loopback", "About 500 runs of the program per quick run.", shards={"quick": 1, "thorough": 1})

p("C35", "A stream holds its peers back instead of hoarding or dropping",
  "While nobody receives, a stream takes only a bounded amount from its transport beyond what it delivered; while its transport accepts nothing, it takes only a bounded number of frames from its senders beyond the channel's capacity. Neither direction waits for the other, the stream stays open however long this lasts, and when things move on, everything is delivered and written, in order, nothing lost or doubled.",
  ["histories", "schedules"], "10,000 to 20,000 frames in each direction x receivers and transports that take frames in portions, with rests of up to a day x splits x capacities",
  "Tests move one frame at a time; a queue without bound, or one that drops when full, shows only when thousands of frames meet a receiver that does not keep up.",
  ["stream.go"],
  [("hand-over without queue", "stream.go deliver, ReadContext"), ("write loop", "stream.go WriteContext"), ("bounded buffer", "stream.go fill")],
  "A case is a number of frames each way, the portions receiver and transport take, rests between them, and which of the two are held back. Bounds allowed: 128 KiB ahead of the receiver, 64 frames ahead of the transport. Every case is non-trivial.",
  [REF, RAND],
  "stateful property-based testing under virtual time", "About 400 histories with 12 million frames per quick run.")

p("C36", "Streams in one program do not affect each other",
  "Any number of streams in one program, each with its own transport, dialects and mode, behave as if each were alone: each delivers, writes and logs exactly its own frames, judged by its own dialects, and closes for its own reasons only. A stream that nobody receives from, that is blocked reading or writing, that fails or is closed does not hold up, change or close another.",
  ["inputs", "histories", "schedules"], "2 to 6 streams, some after others were closed, up to 500 at times x byte streams (also the same for several) x dialect lists and modes x what state each is in",
  "Tests run one stream at a time; state shared between streams (a buffer, a table, a lock) shows only with several, of which one is blocked or has other dialects.",
  ["stream.go", "dialect.go"],
  [("state per stream", "stream.go FrameStream, NewFrameStreamWithLogger"), ("no global locks", "stream.go readFrame, deliver, close")],
  "A case is a list of streams with bytes to read, frames to send and a state (running, nobody receives, writes block, silent line, closed, failing). Non-trivial: two run, or one runs beside another state.",
  [DICT, REF, RAND],
  "property-based testing under virtual time: each stream against its own reference scan", "About 24,000 groups of streams per quick run.")
