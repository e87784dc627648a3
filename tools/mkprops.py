#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (the property texts live here, one place)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

p("C01", "Line reading is lossless and ordered for every stream and chunking",
  "For every byte stream and every way the transport splits it into reads, successive line reads return exactly the delimiter-terminated segments of the stream, in order, with no byte lost, duplicated, altered or merged, and an unterminated tail is never reported as a complete line. Raw reads and binary sections interleaved with line reads receive exactly the bytes at their position, and closing a binary section skips exactly the rest of its declared size. A line is delivered as soon as its delimiter has arrived, without waiting for any further input.",
  ["inputs", "histories"], "all streams, all splits into reads (1 byte, empty reads, data together with EOF or an error, any chunk around the internal buffer size), all interleavings of ReadLine, Read and Binary",
  "The tests read a few fixed lines from one in-memory buffer, i.e. one chunking, and never interleave binary sections with lines.",
  ["lineproto/reader.go", "nmdc/reader.go", "adc/reader.go"],
  [("buffered scan for the delimiter", "lineproto/reader.go: bufReader.Scan/peek"), ("line assembly across chunks", "lineproto/reader.go: Reader.ReadLine"), ("size-bounded reader", "lineproto/reader.go: Reader.Binary")],
  ["Reader.ReadLine", "Reader.Read", "Reader.Binary", "bytes consumed from the transport"])
p("C02", "The line limit is exact and a peer cannot make a reader buffer without bound",
  "With a line limit of L bytes a line is accepted if and only if its length including the delimiter is at most L, however its bytes are chunked and whether or not they arrive compressed; a longer line makes the read fail and no part of it is ever returned as a line. A limit of zero or less accepts any length. While a limit is set, no input, including an endless line or a compression bomb, makes the reader consume from the peer or hold in memory more than the limit plus a fixed overhead before it fails.",
  ["inputs", "configurations"], "all limits, line lengths around the limit and the internal buffer size, all chunkings, plain and compressed input",
  "One test reads one over-long line with the default limit; the boundary, the chunking and compressed input are untested.",
  ["lineproto/reader.go"],
  [("length check while assembling a line", "lineproto/reader.go: Reader.ReadLine"), ("limit setter", "lineproto/reader.go: Reader.SetMaxLine")],
  ["Reader.ReadLine result", "bytes taken from the transport", "heap growth"])
p("C03", "Switching zlib compression on and off is transparent",
  "Whatever sequence of lines, direct writes, flushes and compression on/off switches (any valid level) the writer performs, a reader that switches at the same points recovers exactly the written bytes, for every transport chunking and buffer size; plain data directly following a compressed section is neither lost nor eaten by the decompressor, and compression can be switched on again any number of times. Compressed sections are standard zlib streams: an independent zlib implementation can read what the writer produces, and the reader accepts what it produces. A refused switch (invalid level, already on, not on, corrupt header) reports an error, emits nothing to the peer, and leaves plain traffic working where no compressed data has been consumed.",
  ["histories", "inputs", "configurations"], "all sequences of writer operations with toggles and levels, all chunkings, all buffer sizes, NMDC $ZOn and ADC ZON entry points",
  "Tests toggle compression once or twice with tiny payloads on one chunking.",
  ["lineproto/reader.go", "lineproto/writer.go", "nmdc/writer.go", "adc/messages.go"],
  [("switch to inflating, byte-exact reader under zlib", "lineproto/reader.go: EnableZlib, bufReader.ReadByte"), ("fallback to plain on end of zlib stream", "lineproto/reader.go: ReadLine/Read"), ("flush before switching", "lineproto/writer.go: EnableZlibLevel/DisableZlib"), ("announce compression", "nmdc/writer.go: ZOnLevel")],
  ["bytes on the wire", "bytes returned by the peer reader"])
p("C04", "Written data reaches the transport exactly once, in call order",
  "For every sequence of line writes, direct writes, keep-alives, message writes, flushes and compression switches on a healthy transport, the byte stream the peer decodes is the concatenation of what was written, in call order, each item exactly once. After a successful flush (or close) everything written before it is decodable by the peer without any further output. Writing does not modify the caller's data, and the caller may reuse its buffer as soon as the call returns.",
  ["histories", "configurations"], "all operation sequences, buffer sizes (including lines larger than the buffer), kinds of underlying writer, compression states",
  "Tests write a handful of short lines through one default-size buffer and compare once at the end.",
  ["lineproto/writer.go", "nmdc/writer.go", "adc/writer.go"],
  [("buffering and flush ordering", "lineproto/writer.go: WriteLine/Write/Flush/Close"), ("message assembly buffer", "nmdc/writer.go: WriteMsg; adc/writer.go: WritePacket")],
  ["recorded writes on the underlying io.Writer"])
p("C05", "Write failures are sticky, never corrupt the stream, and never panic",
  "When the transport, or the timeout callback while being armed, fails at any point, the operation in which it failed reports it, every later write, flush or compression switch fails and hands no byte to the transport, and what the peer can decode from the accepted bytes is a prefix of what was written. If a timeout callback is set it is armed before every write to the transport and released afterwards. After close nothing is written, and closing again or using a closed or failed reader or writer returns an error or nil but never panics.",
  ["fault_sequences", "histories"], "every failing write index, partial writes, every failing timeout call, failures during compression switching and close, then any later operations",
  "No test injects a failing writer except one single-error case.",
  ["lineproto/writer.go", "nmdc/writer.go", "adc/writer.go", "lineproto/reader.go"],
  [("sticky error", "lineproto/writer.go: setError/Err"), ("timeout callback", "lineproto/writer.go: Timeout, Flush, WriteLine")],
  ["faulty io.Writer log", "timeout callback log", "returned errors"])
p("C06", "Hooks see every message once, in order, and dropping has no side effects",
  "Every registered line, raw-message and message hook (reading and writing) is called exactly once per message it should see, in registration order and stream order, and keep-alives invoke only the line hooks and the keep-alive callback and are never returned as messages. A hook that drops a message, or an unmarshal-error callback that skips one, makes exactly that message disappear: every later message is delivered as if the dropped one had never been there, whatever its type. A hook or callback that returns an error makes that call fail with that error, and for hooks later in the order the message is not seen.",
  ["histories", "inputs"], "all message sequences, all drop/skip/abort patterns over several hooks, all chunkings, ReadMsg and typed reads, NMDC and ADC",
  "Tests register one hook that always keeps or always drops on a single message.",
  ["lineproto/reader.go", "lineproto/writer.go", "nmdc/reader.go", "nmdc/writer.go", "adc/reader.go"],
  [("hook dispatch in reader", "lineproto/reader.go: ReadLine; nmdc/reader.go: readMsgTo"), ("hook dispatch in writer", "lineproto/writer.go: WriteLine; nmdc/writer.go: WriteMsg"), ("keep-alive handling", "nmdc/reader.go: readMsgTo; adc/reader.go: readPacket")],
  ["hook call log", "messages returned", "bytes written"])
p("C07", "NMDC messages survive an encode/decode round trip",
  "For every registered NMDC message type and every valid field values (names without spaces or the forbidden characters where the wire form is space separated, text of any content), encoding the message and decoding the result gives an equal message of the same type. This holds for any mixture and order of messages on one stream, including text with markup, separators and escape-like sequences, empty and long fields, and zero, one or many list elements.",
  ["inputs"], "all valid field values of all registered message types, all sequences of messages on one connection",
  "Tests decode/encode one or a few hand-written samples per type.",
  ["nmdc/message.go", "nmdc/types.go", "nmdc/msg_chat.go", "nmdc/msg_ctm.go", "nmdc/msg_files.go", "nmdc/msg_hub.go", "nmdc/msg_lock.go", "nmdc/msg_ping.go", "nmdc/msg_search.go", "nmdc/msg_user.go", "nmdc/msg_user_list.go", "nmdc/msg_errors.go", "nmdc/msg_other.go", "nmdc/msg_pass.go", "nmdc/extensions.go"],
  [("per-type marshal/unmarshal pairs", "nmdc/msg_*.go"), ("escaping", "nmdc/types.go, nmdc/utils.go: escapeString/escapeName/UnescapeBytes")],
  ["Marshal/Unmarshal", "Writer.WriteMsg/Reader.ReadMsg"])
p("C08", "No NMDC name or text can break out of its message or its field",
  "Whatever names and free text (chat, private messages, descriptions, topics, reasons, search patterns, search result paths, commands, passwords) a program puts into an NMDC message, encoding either fails or produces exactly one message of that command: the encoded bytes contain exactly one message delimiter, at the end, and no NUL. A receiver sees the same sender, target and number of fields that were put in: text never becomes an additional message, a command, another sender or an extra field (names in space separated messages are given without spaces; a chat message without a sender is shown as it is). The same holds for every other field, including addresses, locks, software names, extensions and raw messages: a value that would put a raw delimiter or NUL on the wire is refused. Names containing forbidden characters (dollar, NUL, CR, LF, tab) or whose escaped form is too long for a receiver to accept are refused.",
  ["inputs"], "all strings in all name and text fields of all message types, with and without a text encoding",
  "Tests escape a few fixed strings.",
  ["nmdc/types.go", "nmdc/utils.go", "nmdc/msg_chat.go", "nmdc/msg_user.go", "nmdc/msg_search.go", "nmdc/message.go"],
  [("escaping", "nmdc/utils.go: escapeString/escapeName"), ("name validation", "nmdc/types.go: Name")],
  ["encoded bytes", "decoded message"])
p("C09", "NMDC decoding never panics, hangs or accepts malformed framing",
  "For every byte sequence from a peer, reading and decoding NMDC messages (and encoding what was decoded, or computing a lock key from it) terminates with a message or an error and never panics, and every successful read consumes at least one whole message. Messages containing NUL, commands with an empty, over-long (beyond the configured maximum) or non-ASCII name, and input that ends before the delimiter are reported as errors and never returned as messages. A message that fails to decode does not disturb the messages after it.",
  ["inputs"], "all byte strings, all mutations of valid messages, all chunkings, any text decoder",
  "Tests feed a few malformed samples.",
  ["nmdc/reader.go", "nmdc/message.go", "nmdc/utils.go", "nmdc/msg_user.go", "nmdc/msg_search.go", "nmdc/msg_chat.go", "nmdc/msg_files.go", "nmdc/msg_lock.go", "tiger/tiger.go"],
  [("validation in reader", "nmdc/reader.go: readMsgTo"), ("length checks in per-type decoders", "nmdc/msg_*.go")],
  ["Reader.ReadMsg", "Unmarshal", "UnmarshalNMDC"])
p("C10", "ADC decoding never panics, hangs or accepts malformed framing",
  "For every byte sequence from a peer, reading and decoding ADC packets and message payloads of any registered or caller-chosen type terminates with a value or an error and never panics. Packets that are too short, contain NUL, have an unknown kind, lack the line delimiter or a required separator, or have a truncated SID, CID or feature selector are reported as errors and never returned as packets. A packet that fails to decode does not disturb the packets after it.",
  ["inputs"], "all byte strings, all truncations and mutations of valid packets, all message types, all chunkings",
  "Tests feed a few malformed samples.",
  ["adc/packets.go", "adc/reader.go", "adc/marshal.go", "adc/messages.go", "adc/hub.go", "adc/files.go", "adc/types.go", "tiger/tiger.go"],
  [("header validation", "adc/packets.go: DecodePacketRaw, UnmarshalPacketADC"), ("reflective decoder", "adc/marshal.go: Unmarshal")],
  ["DecodePacket", "Reader.ReadPacket", "Unmarshal"])
p("C11", "Relaying a received message never changes message boundaries or routing",
  "For every message received and decoded from a peer, writing it out again either fails or produces exactly one message of the same command (NMDC) or the same kind, routing header and command (ADC), whatever the peer put in it; it never yields additional messages, raw delimiters or NULs inside, or a chat message turned into a command. Relaying an undecoded NMDC raw message or ADC raw packet reproduces the received line byte for byte, up to the separator of an empty payload and the spacing of feature selectors.",
  ["inputs"], "all received byte sequences that decode",
  "Tests never re-encode hostile input.",
  ["nmdc/message.go", "nmdc/reader.go", "nmdc/types.go", "adc/packets.go", "adc/marshal.go"],
  [("escape on encode", "nmdc/utils.go, adc/marshal.go"), ("packet headers", "adc/packets.go")],
  ["bytes in vs bytes out"])
p("C12", "NMDC wire compatibility with independently written peers",
  "Messages written by any conforming peer in any of the accepted wire variants (lower- or upper-case or unordered tag keys, absent tags, legacy user modes, optional trailing fields, empty lists, separators inside names and paths, legacy /%DCN/ and HTML escapes, spaces around numbers) decode to the values the NMDC documentation assigns to them. Messages written by this library decode to the same values with an independent decoder of that documentation. In particular search flags, sizes, slots, users' modes and status flags, connection kinds and hub lists keep their meaning. The named constants (command types and contexts, data types, modes, flags, connection kinds, extension names) have the documented wire values.",
  ["inputs"], "all values and wire variants generated by an independent reference implementation of the message grammar",
  "Tests hold a few captured samples.",
  ["nmdc/msg_user.go", "nmdc/msg_search.go", "nmdc/msg_chat.go", "nmdc/msg_ctm.go", "nmdc/msg_files.go", "nmdc/msg_hub.go", "nmdc/msg_ping.go", "nmdc/msg_user_list.go", "nmdc/extensions.go", "nmdc/types.go"],
  [("per-type codecs", "nmdc/msg_*.go")],
  ["Marshal/Unmarshal against the reference codec"])
p("C13", "ADC messages survive an encode/decode round trip",
  "For every ADC message type (registered ones, hub info, user-info updates, raw field lists, status and error, file requests, search, user commands, passwords) and every valid field values, encoding and decoding gives an equal message; text fields may hold any string including spaces, newlines, backslashes and escape-like sequences. Absent optional fields decode as zero values, required fields are always present on the wire, and repeated fields keep their number and order. The decoded value does not depend on the order of named fields on the wire, and unknown named fields are ignored. A parameter that is present replaces whatever the destination held before, also when the destination is used again.",
  ["inputs"], "all valid field values of all ADC message types, all field orders",
  "Tests round-trip one or a few hand-written samples per type.",
  ["adc/marshal.go", "adc/messages.go", "adc/user.go", "adc/search.go", "adc/files.go", "adc/hub.go", "adc/chat.go", "adc/connect.go", "adc/types.go"],
  [("reflective codec", "adc/marshal.go: Marshal/Unmarshal"), ("custom codecs", "adc/messages.go, adc/files.go, adc/hub.go, adc/types.go")],
  ["Marshal/Unmarshal"])
p("C14", "ADC packets keep their kind, routing header and payload",
  "Every ADC packet kind written to a connection, directly or through a message stream, is read back with the same kind, source, target, client id and feature selectors and the same command and payload, for every mixture of packets on one connection and every chunking. Raw payloads pass through byte for byte, and a payload is never confused with the routing header (a feature packet's payload must not itself begin like a selector or with a space). Feature selectors keep order, sign and name.",
  ["inputs", "histories"], "all packet kinds, all SIDs/CIDs/selectors, all payloads without newline and NUL, all packet sequences",
  "Tests check one or two fixed lines per kind.",
  ["adc/packets.go", "adc/writer.go", "adc/reader.go"],
  [("per-kind header codec", "adc/packets.go: MarshalPacketADC/UnmarshalPacketADC"), ("streams", "adc/writer.go: *Stream")],
  ["wire bytes", "decoded packets"])
p("C15", "No ADC text can break out of its field or its message",
  "For every string, the ADC escaped form contains no space and no newline and unescapes to the same string; consequently whatever text a program puts into a text field of an ADC message, the encoded packet is exactly one line with exactly the intended fields. A receiver never sees an additional packet, field or positional argument caused by text content. Escaping is reversible for every sequence of backslashes, spaces, newlines and letters. Whatever bytes are in the other fields of a packet (session ids, command and parameter names, features, raw payloads), writing the packet to a connection either is refused, with nothing sent, or sends exactly one line of that kind without NUL.",
  ["inputs"], "all strings in all text fields",
  "Tests escape a few fixed strings.",
  ["adc/marshal.go", "adc/types.go", "adc/messages.go"],
  [("escaper/unescaper", "adc/marshal.go: escape/unescape")],
  ["encoded bytes", "decoded message"])
p("C16", "Decoded messages are independent snapshots",
  "A message returned by a decoding read, also one returned inside the error about a message of an unexpected type, stays unchanged, in every field and nested slice, whatever happens later on that connection: further reads, compression switches, closing, or the caller overwriting the input buffer. Two decoded messages never share mutable memory, and encoding or writing a message never modifies it.",
  ["histories", "inputs"], "all message types and contents, all later reads and buffer reuse",
  "Tests compare a message immediately after decoding it.",
  ["nmdc/reader.go", "nmdc/message.go", "nmdc/msg_user.go", "nmdc/msg_search.go", "adc/reader.go", "adc/packets.go", "adc/messages.go", "adc/marshal.go", "lineproto/reader.go"],
  [("copies on decode", "nmdc/message.go: RawMessage.UnmarshalNMDC; adc/messages.go: RawMessage.UnmarshalADC; string conversions")],
  ["decoded values re-examined after later operations"])
p("C17", "Connections are independent under concurrency",
  "Any number of connections may be used at once from different goroutines (each reader and writer by one goroutine, both directions of one connection by two) without data races, and each delivers exactly what it would deliver alone. Codecs, address, hash, keyprint and registry query functions may be called concurrently with the same results as sequentially. The text encoder and decoder of a connection may be changed from another goroutine while it is being used, without data races: a read or write call started after the change completed uses the new one.",
  ["schedules"], "all goroutine interleavings of independent connections, full-duplex use and concurrent encoder/decoder changes",
  "Tests are single-threaded and not run under the race detector.",
  ["nmdc/reader.go", "nmdc/writer.go", "nmdc/message.go", "nmdc/types.go", "adc/messages.go", "adc/marshal.go", "lineproto/reader.go", "lineproto/writer.go", "tiger/tiger.go", "tiger/tth.go"],
  [("per-connection state only", "lineproto.Reader/Writer, nmdc.Reader/Writer, adc.Reader/Writer"), ("atomic encoder/decoder", "nmdc/reader.go: dec atomic.Value; nmdc/writer.go: enc atomic.Value"), ("read-only registries after init", "nmdc/message.go, adc/messages.go: messages")],
  ["race detector reports", "per-connection transcripts compared with sequential runs"])
p("C18", "Text encodings round trip and the unknown-encoding fallback works",
  "With a text encoding set on both ends, every name and text representable in that encoding is received unchanged in every text-carrying NMDC message, including multi-byte encodings whose trailing bytes look like separators. With no encoding set, text that is not valid UTF-8 is never returned as a decoded string: the unknown-encoding callback is invoked with the offending text and, if it supplies a decoder, that message and all later ones are decoded with it; if it returns an error, the read fails with it. An encoder or decoder that a hook or callback sets applies to every message that is encoded or decoded after it, also within the same call, and the limit of a name counts its bytes on the wire. Text that cannot be represented in the encoding is refused, not silently changed.",
  ["inputs", "configurations", "histories"], "all text-carrying messages, all representable texts, single-byte and multi-byte encodings, callback behaviours",
  "Tests use a couple of samples with one single-byte encoding.",
  ["nmdc/types.go", "nmdc/reader.go", "nmdc/writer.go", "nmdc/msg_search.go", "nmdc/msg_chat.go", "nmdc/msg_files.go", "nmdc/msg_user.go"],
  [("encode before escape, unescape before decode", "nmdc/types.go: Name/String"), ("fallback", "nmdc/reader.go: readMsgTo, OnUnknownEncoding")],
  ["decoded texts", "callback log"])
p("C19", "Typed reads and dispatch deliver the right message type",
  "An untyped NMDC read yields the registered type of the command, or a raw message holding the exact name and payload bytes for an unregistered command; a read into given messages fills the one matching the command and returns it, accepts anything into a raw message offered as a wildcard, and otherwise reports which command was expected and received without consuming any later message. ADC packets decode to the registered type of their command, or a raw message with exact payload for unknown ones, and decoding into a caller's type refuses a different command. Registry queries agree with this dispatch.",
  ["inputs", "histories"], "all commands, registered or not, all combinations of expected types",
  "Tests read one expected type at a time.",
  ["nmdc/reader.go", "nmdc/message.go", "adc/messages.go", "adc/packets.go", "adc/reader.go"],
  [("dispatch", "nmdc/reader.go: readMsgTo; nmdc/message.go: NewMessage; adc/messages.go: UnmarshalMessage")],
  ["returned type and payload", "ErrUnexpectedCommand"])
p("C20", "Lock/key handshake matches the NMDC algorithm for every lock",
  "For every lock, with or without the extended-protocol prefix, PK and reference, and every magic byte, the computed key is the one the published NMDC algorithm gives, with the reserved bytes (0, 5, 36, 96, 124, 126) escaped, so that a hub or client written independently accepts it. The key can be sent in a Key message and is received unchanged, and a received Lock yields the same key as the Lock that was sent. Locks too short for the algorithm never crash the client.",
  ["inputs"], "all lock strings, PK, references and magic bytes",
  "Tests check two captured locks.",
  ["nmdc/msg_lock.go"],
  [("key derivation", "nmdc/msg_lock.go: CustomKey"), ("lock string", "nmdc/msg_lock.go: LockString")],
  ["Key value against a reference derivation"])
p("C21", "Tiger tree hashes match the TTH specification for any content and reader",
  "For every content and every way a reader delivers it (short reads, empty reads, data together with EOF), the tree hash and the leaves equal those of the TTH specification (leaf hashes of 1024-byte blocks, pairwise internal hashes, odd nodes promoted), and hashing the leaves gives the tree hash. If the reader fails, that error is returned and never a hash presented as valid. The Tiger digest itself equals the published function for every input length, and computing a hash does not modify its input.",
  ["inputs", "fault_sequences"], "all contents around block and tree-shape boundaries, all chunkings, reader errors at any offset",
  "Tests hash a few constant strings from an in-memory reader.",
  ["tiger/tth.go", "tiger/tiger.go"],
  [("block loop", "tiger/tth.go: TreeHash/TreeLeaves"), ("tree reduction", "tiger/tth.go: Leaves.TreeHash")],
  ["returned hash/leaves/error against an independent oracle"])
p("C22", "Identifiers (hashes, CIDs, PIDs, SIDs) have exact text forms",
  "Every hash, CID and PID value round trips through each of its text forms (base32, text marshalling, ADC; hexadecimal is the plain hex digits), and every 20-bit session number maps to a distinct four-character SID over the base32 alphabet in numeric order that round trips. Text of any other length (for hashes, CIDs and PIDs also with any other character) is rejected with an error, without panicking and without accepting a partial value. A CID equals the Tiger hash of its PID, and freshly generated PIDs are complete and do not repeat.",
  ["inputs"], "all 2^20 SIDs, all hash values, all strings of any length as input to the parsers",
  "Tests parse a few constants.",
  ["tiger/tiger.go", "adc/types/types.go", "adc/types.go"],
  [("base32 codecs", "tiger/tiger.go; adc/types/types.go")],
  ["codec results"])
p("C23", "Keyprint verification accepts exactly the pinned certificates",
  "On a TLS connection a keyprint is accepted if and only if it is byte for byte the SHA-256 keyprint of one of the certificates the peer presented, and the returned list holds the keyprints of all presented certificates in order; any other string, including prefixes, case variants and the empty string, is refused with an error carrying the expected and actual values. Keyprints computed from a certificate, from a PEM file holding several blocks of any types, or from a live connection agree with each other and with an independent SHA-256/base32 computation. The keyprint of an address is the value of its kp parameter, or empty.",
  ["inputs", "configurations"], "all certificate chains, PEM layouts, candidate keyprints",
  "One test compares one certificate file with one constant; the TLS verification is untested.",
  ["keyprint/keyprint.go", "keyprint/tlskp/tlskp.go"],
  [("digest", "keyprint/keyprint.go: FromBytes"), ("comparison", "keyprint/tlskp/tlskp.go: VerifyKeyPrint")],
  ["VerifyKeyPrint over a live handshake", "FromFile/FromCertificate/FromURL"])
p("C24", "Address normalisation is idempotent and protocol dispatch is consistent",
  "Normalising any accepted hub address gives an address that parses, is a fixed point of normalisation and denotes the same protocol, host and port; spellings that differ only in scheme case, scheme aliases, a missing scheme (NMDC) or trailing slashes normalise to the same address. The generic parser treats an address exactly as the protocol-specific parser its scheme selects does (ADC for adc and adcs, NMDC otherwise), and addresses with another scheme, without a host, or (ADC) without a port are rejected. No string makes parsing or normalising panic.",
  ["inputs"], "all strings, all combinations of scheme, host (name, IPv4, IPv6), port, path and query",
  "Tests hold a small table.",
  ["conn.go", "nmdc/conn.go", "adc/conn.go"],
  [("dispatch", "conn.go"), ("scheme and host rules", "nmdc/conn.go, adc/conn.go")],
  ["ParseAddr/NormalizeAddr results"])
p("C25", "Feature and extension sets obey set algebra",
  "Intersection, union-like updates, cloning, membership and listing of NMDC extension sets and ADC feature sets give the mathematical result for all sets, do not modify their operands, and share no state with them. Listings contain each element exactly once, sorted where documented as sorted. A feature update received as additions and removals yields exactly the set obtained by applying it, and re-encoding a set describes the same set.",
  ["inputs", "histories"], "all sets, all sequences of additions and removals",
  "Tests check single examples or nothing.",
  ["nmdc/extensions.go", "adc/types.go", "adc/search.go"],
  [("set operations", "nmdc/extensions.go: Extensions, Supports.Intersect; adc/types.go: ModFeatures, ExtFeatures")],
  ["results and operands against a reference set"])
p("C26", "Numbers on the wire are decoded exactly or rejected, never wrapped",
  "Every number a message can carry (share and file sizes, offsets, lengths, ports, slots, counters, times, categories) is decoded to exactly the value written, including the extremes of its type, in both protocols. Text that is not a number of the allowed range (too large, fractional, not a number, signs where none are allowed, empty where required) is rejected rather than wrapped, truncated, saturated or read as another value, except where the format documents a lenient default. Whole numbers which some ADC clients write as floats (a zero fraction, or an exponent) are accepted with their exact value. Encoding then decoding an extreme value never changes it.",
  ["inputs"], "all numeric fields of all messages, all digit strings around type limits",
  "Tests use small numbers.",
  ["nmdc/utils.go", "nmdc/msg_files.go", "nmdc/msg_search.go", "nmdc/msg_user.go", "nmdc/msg_ping.go", "adc/marshal.go", "adc/files.go", "adc/messages.go"],
  [("overflow-checked parsing", "nmdc/utils.go: atoiTrim/parseUin64Trim; adc/marshal.go: unmarshalValue")],
  ["decoded values against arbitrary-precision arithmetic"])
p("C27", "ADC wire compatibility with independently written peers",
  "Every ADC message this library writes is, for an independent parser of the ADC specification, the documented command: each parameter has its documented tag, position and escaped value, flags are 1, lists are repeated or comma separated as documented, and nothing else is added. Payloads an independent peer writes, with named parameters in any order, unknown parameters and explicit zero values, decode to the documented values, and feature selectors are understood with or without separating spaces. The constants (message types, user and search types, status severities and codes, search extension groups, version strings) have the values and meaning of the specification.",
  ["inputs"], "all message types, all field values, all orders of parameters, all constants of the vocabulary",
  "The tests encode and decode with the same library, so a consistent mistake in both directions passes; few messages are compared with literal wire forms.",
  ["adc/marshal.go", "adc/messages.go", "adc/user.go", "adc/hub.go", "adc/search.go", "adc/files.go", "adc/chat.go", "adc/connect.go", "adc/packets.go", "adc/types.go", "adc/extensions.go"],
  [("field tags and positions", "adc/*.go: struct tags; adc/marshal.go: Marshal, Unmarshal"), ("vocabulary", "adc/user.go, adc/search.go, adc/messages.go: constants")],
  ["payload bytes against an independent parser", "values decoded from independently written payloads"])
p("C28", "Incomplete or malformed messages are refused in both directions",
  "A message that lacks a required part, or has a part that its format does not allow, is refused with an error and never returned or sent with missing, shifted or invented data. Decoding (directly, by every read method of the readers and from every ADC packet kind) refuses missing separators and fields, unknown flags and directions, numbers out of range, hashes and session ids of a wrong form, wrong counts of fields, unexpected arguments, names with forbidden characters or above the limit, texts with NUL, missing positional and repeated single ADC parameters, routing headers that are too short, types and packet kinds other than the expected, and Go types the codec does not support. Encoding refuses contradictory or incomplete values (a ConnectToMe without a target or with a wrong source, a TTH search without a hash, a result without a path or with separators inside, flags that cannot be sent, bad names, NUL in texts, unsupported types, errors of the caller's codecs). A refused message leaves no bytes on the wire and no trace in its neighbours, which are received or sent intact, and a packet whose payload was refused can still be relayed unchanged.",
  ["inputs", "histories"], "all incomplete and malformed forms of all messages, with any content of the other fields, between valid messages",
  "Tests decode and encode almost only valid messages; most error branches are never executed.",
  ["nmdc/msg_chat.go", "nmdc/msg_ctm.go", "nmdc/msg_files.go", "nmdc/msg_ping.go", "nmdc/msg_search.go", "nmdc/msg_user.go", "nmdc/types.go", "nmdc/writer.go", "adc/marshal.go", "adc/packets.go", "adc/messages.go", "adc/files.go", "adc/reader.go", "adc/writer.go"],
  [("required parts", "nmdc/msg_*.go: UnmarshalNMDC, MarshalNMDC"), ("ADC fields", "adc/marshal.go: Marshal, Unmarshal; adc/packets.go: UnmarshalPacketADC, DecodeMessageTo")],
  ["error results of decoding and encoding", "bytes on the wire and the neighbouring messages"])
p("C29", "Cost is proportional to the input and nothing accumulates",
  "Decoding, encoding, hashing and normalizing take memory and time in proportion to the size of the data, whatever a peer puts into it: repeated separators, escapes, tags, selectors, fields, lines, sections or tokens never make the cost grow like a square, and numbers, counts and lengths announced in the data (up to 2^64 and beyond, also in binary sections) never make it grow at all. A long-lived reader or writer, and the package-level functions, keep no memory of finished work: after any number of different messages, names, commands, errors, hashes, addresses, switches of compression and encodings, the live heap is bounded by buffers and the largest message, the next message costs the same as the first one, abandoned connections are collected, and no goroutine is left behind.",
  ["inputs", "histories"], "all inputs of any size, all histories of a connection and of the process",
  "Tests process a few short messages; a square cost, a preallocation by an announced count, or a table that grows with each name passes them all.",
  ["lineproto/reader.go", "lineproto/writer.go", "nmdc/reader.go", "nmdc/writer.go", "nmdc/message.go", "nmdc/types.go", "nmdc/msg_user_list.go", "nmdc/msg_search.go", "adc/marshal.go", "adc/packets.go", "adc/types.go", "adc/messages.go", "keyprint/keyprint.go", "tiger/tth.go"],
  [("line assembly", "lineproto/reader.go: Scan, ReadLine; lineproto/writer.go: WriteLine"), ("loops over repeated parts", "nmdc/types.go: unescape, list decoding; adc/marshal.go: Unmarshal; adc/types.go: unescape, ModFeatures"), ("state of the process", "nmdc/message.go, adc/messages.go: registries")],
  ["bytes allocated and CPU time of single calls at two or more sizes", "live heap, cost of items and goroutines over long histories"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
