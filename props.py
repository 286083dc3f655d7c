# Executed by gen.py: the properties, their anchors and their checks.

prop("C01", "Messages arrive intact, in order and exactly once",
 "Every message a node accepted for sending over a connection that stays up reaches the receiving node's handler exactly once, with exactly the bytes that were passed in at the time of the call and under the sender's proven identity. Messages sent one after the other over one connection to a node with a single worker are handled in the order in which they were sent, those included that arrived just before their sender closed the connection. This holds for every payload content and size up to the receive limit, and however senders, the connection's writer and the workers interleave.",
 ["schedules", "inputs"], "All payload contents and sizes within the limit, all numbers of concurrent senders, all interleavings of senders, writers, readers and workers.",
 "The tests send a few fixed payloads under whatever schedule the runtime picks; they neither vary the bytes nor force the interleavings in which a buffer is reused, a wake-up is missed or a message is written twice.",
 ["client.go", "node.go", "msg.go", "aead.go"],
 [("pending messages are swapped out and flushed by one writer", "client.go: (*Client).writeLoop, (*Client).write"), ("payloads are marshalled before the call returns", "client.go: (*Client).send; msg.go: message.marshal"), ("work is queued to the handlers", "client.go: (*Client).recvLoop; node.go: (*Node).Listen")],
 [H("Deliver", {"msgs": 3, "delays": 1, "lens": 3}, {"msgs": 3, "delays": 2, "workers": 1}, 30, 300),
  H("DeliverMany", D1, D2, 30, 300), H("DeliverBack", D1, D2, 30, 300), H("Reused", D1, D2, 30, 300, "end,sent"), H("Large", {"sizes": 9}, {"sizes": 9}), H("Burst"), H("Mixed", D1, D2, 30, 300), H("Backlog", {"delays": 2}, {"delays": 3}, 40, 400), H("LastWords", D1, D2, 40, 300), H("Sizes", {"sizes": 28}, {"sizes": 28, "second": 6}, 40, 300)],
 "up to 3 messages per sender, 2 senders plus 1, symbolic contents of up to 3 bytes, payload sizes around every power of two and buffer boundary up to 5000 bytes (Sizes) and around 2^16 up to 2^20 as messages, requests and answers (Large), callers that reuse their buffers (Reused), a sender that closes (LastWords), up to 1030 messages in flight to one worker (Burst, one schedule), 1 or 2 workers, every schedule with at most 1 delay (thorough: 2).",
 "payloads of more than 1 MB, more than 3 messages in flight under all schedules, schedules needing more than 2 delays.",
 observe=["noise.Node.Send / Handle"])

prop("C02", "The byte stream's fragmentation does not matter",
 "What a node reads from a connection is independent of how the network cuts the byte stream into pieces: the same frames are decoded whether they arrive together, split at any offset, or a byte at a time. A connection that ends in the middle of a frame never yields that frame.",
 ["inputs", "schedules"], "All ways to split the bytes of the handshake and of the messages into reads, and every offset at which the stream ends.",
 "Loopback sockets deliver whole writes almost always, so the tests never see a length prefix or a payload split across reads.",
 ["client.go"], [("length prefix and payload are read in full", "client.go: (*Client).read"), ("frames and their prefixes are written in full", "client.go: (*Client).write, (*Client).writeLoop")],
 [H("Fragments", {"cut": 70, "c2": 6, "c4": 12}, {"cut": 110, "c2": 16, "c4": 30}, 60, 600), H("Trickle", None, None, 40, 300, "end,resumed")],
 "first read of every size up to 110 bytes, second up to 6, then 3 at a time, in either direction; every cut of a two-message stream with a pause or the end of the stream there; symbolic payload bytes.",
 "more than two independently chosen split points.")

prop("C03", "The receive limit is enforced exactly",
 "A frame of at most the configured size is accepted, and a larger one is refused with an error and the connection closed without its contents being delivered or waited for. This holds during and after the handshake, for accepted and for dialed connections, and for every limit, zero meaning that there is none.",
 ["inputs", "configurations"], "All frame lengths in the 32-bit length field and all limits.",
 "One test would send one oversized message; that the boundary is exact, that the announced size is judged before anything is allocated, and that no limit crashes the node needs all 2^32 lengths.",
 ["client.go", "node_options.go"], [("announced size is compared before reading", "client.go: (*Client).read"), ("limit option", "node_options.go: WithNodeMaxRecvMessageSize")],
 [H("LimitAfter", reach="end,oversized,short"), H("LimitBefore"), H("LimitOff"), H("LimitClient")],
 "symbolic 32-bit length field, symbolic limit up to 200, frames of up to 300 bytes actually supplied; with no limit, sizes up to a few KB.",
 "actually transferring frames near 4 GB.")

prop("C04", "No input from the network crashes or wedges a node",
 "Whatever bytes a remote peer sends at whatever stage of a connection, before, during or after the handshake, on accepted and dialed connections, as frames, identities, messages, overlay or gossip traffic or answers to requests, the node does not panic. It keeps accepting, dialing and serving other, honest peers.",
 ["inputs", "histories"], "All byte streams, all frames, all decrypted plaintexts, all message codes and bodies, and all combinations of hostile connections, within the bounds.",
 "The tests only ever connect well-behaved nodes; a panic in a parser or a worker lost to a hostile peer needs the particular bytes.",
 ["client.go", "id.go", "msg.go", "codec.go", "aead.go", "kademlia/msg.go", "kademlia/protocol.go", "gossip/protocol.go"],
 [("lengths are checked before slicing", "id.go: UnmarshalID; msg.go: unmarshalMessage; codec.go: (*codec).decode; aead.go: decryptAEAD; kademlia/msg.go: UnmarshalFindNodeResponse"), ("errors close the connection only", "client.go: (*Client).recvLoop, (*Client).handshake; node.go: (*Node).Listen")],
 [H("HostileBytes", {"bytes": 10}, {"bytes": 24}, 40, 300), H("HostileFrames"), H("HostileIdentity"), H("HostileClaims"),
  H("HostileMessages", {"msgs": 1}, {"msgs": 1, "counts": 1}, 40, 600), H("HostileAnswers", None, {"counts": 1}, 40, 300, "end,decoded,pong,refused"),
  H("HostileCrowd", {"peers": 2}, {"peers": 3, "delays": 1}, 40, 600), H("HostileDecoder", reach="end,valid,invalid"), H("SelfDial", D1, D2), H("AdmissionRace", D1, D2, 30, 300, "end,left")],
 "10 arbitrary bytes with every cut at 3 stages; symbolic frames of 19 sizes from 0 to past the limit; symbolic identities of 15 sizes; messages of any nonce, any opcode byte and up to 33 symbolic body bytes; 2 to 3 simultaneous hostile connections.",
 "floods (resource exhaustion by volume), peers that stay silent for ever on a node without an idle timeout, crafted ciphertexts forged without the key.")

prop("C05", "A connected peer is who it claims to be",
 "A connection is reported as established, and messages are attributed to an identity, only if the peer proved in this very session that it holds that identity's private key. Replayed, reflected, spliced or altered handshake messages, signatures over other sessions, claims of another peer's identity or address, and identities of small order, for which anyone can forge signatures, are refused. Two honest nodes that connect learn each other's true identity.",
 ["inputs", "histories"], "All deviations of a network attacker holding its own keys: alterations of any byte, replays across sessions, reflection, key substitution.",
 "The tests contain no adversary at all; that every field is covered by the proof can only be judged over all alterations.",
 ["client.go", "ecdh.go", "keys.go"], [("ephemeral key exchange and signature check", "client.go: (*Client).handshake"), ("identity bound to the shared secret by signature", "client.go: (*Client).handshake; keys.go: PublicKey.Verify"), ("reflected session refused", "client.go: (*Client).handshake")],
 [H("HonestIdentity"), H("Imposter", reach="end,honest"), H("EphemeralKey"), H("Forged", reach="any,end")],
 "one session under attack (two for replays), every byte of the identity message and of the first message altered by a symbolic amount, sixteen impersonation strategies (among them the node's own proof sent back to it), both roles; ideal cryptography, except for keys of small order, whose signatures are judged as the real algorithm does.",
 "attacks on the primitives, side channels, cross-protocol reuse of keys.")

prop("C06", "No application data crosses a connection before its handshake",
 "No data from a peer reaches a handler, and no data of the application leaves the node, over a connection whose handshake has not completed; whatever a peer sends instead of, between or after failed handshake messages is never delivered. A send or request to such a peer reports an error.",
 ["inputs", "schedules"], "All misplaced frames at all stages of the handshake, in either role, and all interleavings of concurrent senders with a failing handshake.",
 "The tests only see handshakes that succeed; that nothing is sent or delivered when one fails at any step is a universal claim about failures they do not produce.",
 ["client.go", "node.go"], [("senders wait for a completed handshake", "node.go: (*Node).dialIfNotExists"), ("loops start after the handshake", "client.go: (*Client).outbound, (*Client).inbound")],
 [H("EarlyData"), H("EarlyBytes"), H("NoLeak", {"delays": 0}, D1, 40, 300)],
 "5 stages, clear or encrypted, symbolic payloads; arbitrary first frames of 13 sizes; 7 ways for the handshake to fail; schedules without forced delay (thorough: 1).",
 "more than one handshake at a time on the failing connection.")

prop("C07", "Tampered traffic is rejected and ends the connection",
 "If a byte of an encrypted frame is altered, or the frame is cut, extended or made up by somebody without the session key, its contents are not delivered to a handler or to a waiting request. The connection it came over is closed, and the requests waiting on it fail.",
 ["inputs"], "Every position and every non-zero alteration of frames of every tested length, in both directions.",
 "The tests never alter traffic; rejecting every alteration is a statement over all ciphertexts.",
 ["client.go", "aead.go"], [("authenticated decryption", "aead.go: decryptAEAD"), ("errors end the receive loop", "client.go: (*Client).recvLoop")],
 [H("Tamper"), H("TamperResponse"), H("TooShort", reach="end,short")],
 "one frame per session altered at a symbolic position by a symbolic amount, cut or extended; payloads of up to a few symbolic bytes; ideal AEAD.",
 "replay, reordering or dropping of whole authentic frames (the protocol has no counters; recorded in DESIGN.md).")

prop("C08", "A request is answered by its own response only",
 "Each request returns the data the peer sent in response to that very request, never that of another request, of another connection or of an unsolicited message, in whatever order the responses arrive. A response nobody waits for any more is dropped: it is neither taken for the answer to a later request nor handled as a message.",
 ["schedules", "inputs", "histories"], "All numbers and orders of outstanding requests and responses, all response contents, all interleavings.",
 "The tests issue one request at a time or many identical ones, which cannot tell answers apart.",
 ["client.go", "mod.go", "node.go", "msg.go", "map.go"], [("fresh nonce per outstanding request", "map.go: (*requestMap).nextNonce"), ("responses are routed by nonce", "client.go: (*Client).recvLoop; map.go: (*requestMap).findRequest")],
 [H("Correlate", {"reqs": 3}, {"reqs": 3, "delays": 1}, 40, 300), H("CorrelateNodes", D1, D2, 30, 300), H("Late", D1, D2, 30, 300), H("TwoPeers", D1, D2, 30, 300)],
 "3 concurrent requests over one connection answered in every order with strays in between, two connections, late answers; symbolic contents; 1 delay (thorough: 2).",
 "wrap-around of the 64-bit nonce, a peer deliberately answering with another request's nonce.")

prop("C09", "Requests and sends always come to an end",
 "A request whose context ends, whose connection is lost, closed or refused, or whose node is closed returns with an error instead of waiting for ever, at whatever point of its life this happens; so does a send. One that is issued on a connection that has already ended fails too.",
 ["schedules", "fault_sequences"], "All points at which the connection, the context or the node can end relative to the steps of the request, and all interleavings.",
 "The window between registering a request and losing the connection is a few instructions wide; the tests do not drop connections during requests at all.",
 ["client.go", "mod.go", "node.go", "map.go"], [("closing fails all pending requests and later ones", "map.go: (*requestMap).close; client.go: (*Client).close"), ("waits on context and both loops", "client.go: (*Client).request")],
 [H("Pending", D1, D2, 30, 300), H("Racing", D1, D2, 30, 300, Race=True), H("Stuck", D1, D2, 30, 300)],
 "up to 2 requests and a send in flight, 5 ways to lose the connection, 1 delay (thorough: 2).",
 "a peer that accepts data but never answers, without a context deadline (documented to wait).")

prop("C10", "At most one response is sent to a request",
 "However many handlers there are and however often and concurrently they try to respond to one request, exactly one of the responses is transmitted and every other attempt gets an error. Replies to messages that are not requests are not limited.",
 ["schedules", "histories"], "All numbers of handlers and attempts, sequential or concurrent, and all interleavings.",
 "Tests register one handler responding once.",
 ["msg.go", "node.go"], [("one shared flag per request", "msg.go: (*HandlerContext).Send")],
 [H("OneResponse", D1, D2, 30, 300, "end,plain"), H("Responses", D1, D2, 30, 300)],
 "2 handlers, up to 3 concurrent attempts, 1 delay (thorough: 2).", "more attempts.")

prop("C11", "Connection pools are bounded and evict the least recently used",
 "A node never keeps more inbound connections than its inbound limit nor more outbound ones than its outbound limit; room for a new connection is made by closing the least recently used one. Requests waiting on an evicted connection fail, and eviction never blocks or deadlocks the node, whoever triggers it.",
 ["schedules", "histories", "configurations"], "All sequences of connecting, using and dropping connections, all limits, all interleavings of evictions with the connections being evicted.",
 "A test can fill one pool once; order of use, eviction from within handlers and races of eviction with closing need histories and schedules.",
 ["map.go", "node.go", "client.go"], [("least recently used list under one lock", "map.go: (*clientMap).get"), ("eviction closes without waiting", "map.go: (*clientMap).get; client.go: (*Client).close")],
 [H("InboundCap", {"peers": 4}, {"peers": 6}), H("InboundStorm", {"delays": 1, "peers": 2}, {"delays": 2, "peers": 2}, 30, 300), H("OutboundLRU", {"steps": 4}, {"steps": 5}, 40, 600),
  H("OutboundRace", D1, D2, 30, 300, Race=True), H("EvictOrder"), H("EvictCallback", D1, D2, 60, 600), H("OutboundBound"), H("EvictRequests", D1, D2, 30, 300), H("EvictBusy", D1, D2, 30, 300)],
 "limits 1 to 3, histories of 4 operations over 4 peers (thorough: 5), evictions that run callbacks of the application or hit connections with requests under way, 1 delay (thorough: 2).",
 "exact bounds while an evicted connection is still shutting down (the count is taken once it has).")

prop("C12", "One live connection per address, replaced once it ended",
 "All users of an address on a node share one outbound connection while it lives; when it ends or fails it is forgotten, and the next use dials afresh. The end of one connection never removes or closes another one that has since taken its place, and one user giving up does not take the connection away from the others.",
 ["schedules", "histories"], "All interleavings of dialing, using, closing and redialing one address, and reuse of a remote address by a later inbound connection.",
 "Depends on races between a dying connection's cleanup and its successor's registration.",
 ["map.go", "node.go", "client.go"], [("entries are removed by their owner only", "map.go: (*clientMap).remove"), ("shared dialing", "node.go: (*Node).dialIfNotExists")],
 [H("OneConnection", D1, D2, 30, 300), H("Shared", D1, D2, 30, 300, "end,before", Race=True), H("Released", D1, D2, 30, 300), H("Redial", D1, D2, 30, 300), H("InboundAgain", D1, D2, 30, 300, "end,again"), H("Kept", D1, D2, 30, 300), H("DialCancel", D1, D2, 30, 300)],
 "2 to 3 concurrent users, 2 generations of a connection, contexts that end before, while and after a connection is established for them, 1 delay (thorough: 2).", "addresses spelled differently but meaning the same host.")

prop("C13", "A failing handler costs its peer the connection, not the node",
 "When a handler returns an error the connection the message came from is closed, later handlers do not see the message, and the node keeps handling the messages of all other peers, however many handlers fail and however few workers there are.",
 ["schedules", "histories"], "All sequences of failing and succeeding messages from several peers, all numbers of workers, all interleavings.",
 "No test returns an error from a handler more than once per worker.",
 ["node.go"], [("a worker closes the failing peer and continues", "node.go: (*Node).Listen")],
 [H("HandlerError", D1, D2, 30, 300, "end,error"), H("HandlerLate", D1, D2, 40, 300), H("HandlerErrors", {"errors": 3}, {"errors": 5})],
 "2 handlers, 2 peers, 6 kinds of errors, accepted and dialed connections, errors after the peer has left, up to 3 failing messages with 1 or 2 workers (thorough: 5), 1 delay (thorough: 2).", "handlers that panic or never return.")

prop("C14", "Closing a node terminates and leaves nothing behind",
 "Closing a node returns once the handlers still running have, whatever its connections, requests, dials and handshakes are doing at that time and whoever else closes it concurrently; afterwards its listener and all of its connections are closed and none of its background activities are left. Once closed it accepts and opens no connection any more.",
 ["schedules", "fault_sequences"], "All states of the node at the moment of closing, and all interleavings of closing with accepting, dialing, handshaking, sending, receiving and handling.",
 "Tests close idle nodes at their end; a close that hangs or leaks needs the wrong moment.",
 ["node.go", "map.go", "client.go"], [("listener closed, pools released and waited for", "node.go: (*Node).Close, (*Node).release; map.go: (*clientMap).release"), ("a client counts as closed once reader and writer stopped", "client.go: (*Client).outbound, (*Client).inbound, (*Client).close")],
 [H("CloseIdle", D1, D2, 30, 300), H("CloseBusy", D1, D2, 40, 400), H("CloseRace", D1, D2, 40, 400), H("CloseAll", D1, D2, 30, 300), H("CloseInHandler", D1, D2, 30, 300), H("CloseHandler", D1, D2, 30, 300)],
 "up to 3 connections in different stages, 2 concurrent closers, 1 delay (thorough: 2).", "handlers that never return or that close their own node, closing a node before it starts listening concurrently with listening.")

prop("C15", "Connection callbacks are paired and ordered",
 "For every connection that completes its handshake the connected callback of each protocol runs exactly once and before any other callback for it, and the disconnected callback exactly once and after all others, when the connection has ended. Every message received is reported once, and messages sent are reported once their bytes were handed to the connection, not earlier and not if they never are; protocols are told in the order they were bound, whichever callbacks the others leave out. A connection whose handshake fails is reported neither as connected nor as disconnected.",
 ["schedules", "histories"], "All lives of a connection in either role, ended by either side or by failure, with messages in flight, and all interleavings.",
 "Tests observe callbacks of undisturbed connections.",
 ["client.go", "mod.go"], [("callbacks around the loops", "client.go: (*Client).outbound, (*Client).inbound, (*Client).recvLoop, (*Client).writeLoop, (*Client).handshake")],
 [H("Callbacks", D1, D2, 40, 400), H("CallbacksMany", D1, D2, 30, 300), H("CallbacksSent", reach="taken,never,ended"), H("CallbacksFail", D1, D2, 30, 300), H("CallbacksSlow", D1, D2, 30, 300)],
 "one connection per role with up to 3 messages, a request and its response, 6 ways to end, 3 protocols of which one lacks any one or all callbacks, writes held up, timed out or cut off, each kind of callback held up as its connection ends in 3 ways, 1 delay (thorough: 2).", "callbacks that never return.")

prop("C16", "Failing dials are retried as configured and reported once",
 "Dialing a peer makes at most the configured number of attempts, stops as soon as one succeeds or the caller's context ends, and then returns an error naming the failure. The failed-ping callback runs exactly once for each dial that failed for good and never for one that succeeded.",
 ["fault_sequences", "configurations", "schedules"], "All patterns of failing and succeeding attempts, at the connection or handshake stage, all attempt limits, cancellation at any point.",
 "Tests dial live nodes.",
 ["node.go", "node_options.go"], [("attempt loop and reporting", "node.go: (*Node).dialIfNotExists")],
 [H("DialAttempts", D1, D2, 30, 300, "end,connected,failed"), H("DialHandshake", D1, D2, 30, 300, "end,connected,failed"), H("DialCancel", D1, D2, 30, 300), H("DialTogether", D1, D2, 30, 300), H("Shared", D1, D2, 30, 300, "end,before")],
 "1 to 3 attempts, every pattern of refusals, 4 handshake failures, cancellation before, during and after dialing, two users of one failing dial; 1 delay (thorough: 2).", "name resolution.")

prop("C17", "Peer identities survive serialization",
 "Serializing an identity always takes the same number of bytes and parsing it yields the same public key, host, port and dialable address, for IPv4, IPv6, loopback, unspecified and missing hosts. Parsing bytes of any length either fails or yields an identity that serializes to the bytes parsed; it never crashes.",
 ["inputs"], "All keys, hosts in 4-byte, 16-byte and empty form, ports, and all byte strings.",
 "The existing round-trip test uses random 16-byte hosts only.",
 ["id.go", "addr.go"], [("fixed-size layout", "id.go: ID.Marshal, UnmarshalID"), ("address derived from host and port", "id.go: NewID; addr.go: normalizeIP")],
 [H("IDRoundTrip"), H("Addresses", {"ports": 2, "nilports": 50}, {"ports": 5, "nilports": 65536}, 40, 300, "end,special"), H("IDParse", {"max": 56}, {"max": 70})], "symbolic 32-byte key, symbolic 4/16-byte host, symbolic port; byte strings of 0 to 55 symbolic bytes.", "nothing within these types.", PURE)

prop("C18", "Registered messages are encoded and decoded faithfully",
 "A message of a registered type encoded by a node decodes, on any node that registered the same types in the same order, to an equal message of the same type. Bytes carrying an unknown code, or too short to carry one, are refused with an error, as are messages of unregistered types and whatever a type's decoder refuses. A type cannot be registered twice.",
 ["inputs", "programs"], "All message contents, all registration orders, all byte strings.",
 "The test covers one type with one content.",
 ["codec.go", "node.go"], [("codes assigned in order of registration", "codec.go: (*codec).register"), ("encode/decode by type and code", "codec.go: (*codec).encode, (*codec).decode")],
 [H("CodecRoundTrip", {"len": 5}, {"len": 12}, reach="end,refused"), H("CodecArbitrary", {"len": 6}, {"len": 12}, reach="end,short,unknown"), H("CodecMany"), H("CodecTypes", reach="end,any,unknown"), H("CodecShared", D1, D2, Race=True), H("CodecNode", reach="end,refused")],
 "4 types (value, pointer, empty) in every order, symbolic contents of up to 5 bytes, arbitrary strings of up to 6 bytes, 300 registered types, types sent over a connection and between nodes that registered different ones, decoders that return a value along with an error.", "more than 65536 types; misbehaving decoders.", PURE)

prop("C19", "Keys are generated and loaded consistently",
 "Loading a private key from its hexadecimal form yields exactly the bytes it encodes, and text that is not hexadecimal or not of a key's length is refused. The public key derived from a private key is the one generated with it, and what it signs verifies under that public key and under no other.",
 ["inputs"], "All hexadecimal texts of key length, all other lengths and characters.",
 "No test loads a malformed key.",
 ["keys.go"], [("length and digit checks", "keys.go: LoadKeysFromHex"), ("derivation", "keys.go: PrivateKey.Public")],
 [H("KeyHex", {"sym": 2}, {"sym": 4}), H("KeyHexBad", reach="end,refused"), H("KeyPair")],
 "keys with 2 symbolic bytes at every position class, bad characters and lengths at every offset; ideal signatures.", "strength of the signature scheme.", PURE + [A_CRYPTO])

prop("C20", "The XOR metric and bucket order are exact",
 "The distance of two identities is the bitwise exclusive or of their keys, the shared-prefix length is its number of leading zero bits, and sorting by distance orders peers by that number, closest first. The bucket of a peer is determined by the length of the prefix it shares with the table's owner.",
 ["inputs"], "All pairs and triples of 256-bit keys.",
 "Random keys share no more than a few leading bits, so tests never see a long prefix or a tie.",
 ["kademlia/binary.go", "kademlia/table.go"], [("metric", "kademlia/binary.go: XOR, PrefixLen, PrefixDiff, SortByDistance"), ("bucket index", "kademlia/table.go: getBucketIndex")],
 [H("Metric", {"n": 3}, {"n": 5}), H("Prefixes", {"n": 4}, {"n": 6}), H("Sorting", {"ids": 3}, {"ids": 4}, 40, 300), H("Buckets", None, None, 40)],
 "keys of up to 3 symbolic bytes and full keys with symbolic bits, 3 peers to sort (thorough: 4).", "nothing else.", PURE)

prop("C21", "The routing table stays well formed",
 "At all times every bucket holds at most sixteen distinct peers, each in the bucket its key belongs to, most recently seen first; a peer is recorded at most once, entries are lost only when deleted, and a full bucket refuses newcomers without changing. Concurrent users see one operation after the other.",
 ["histories", "inputs", "schedules"], "All sequences of updates, deletions and lookups over all keys, and all interleavings of two of them.",
 "The tests perform a handful of single operations.",
 ["kademlia/table.go"], [("one lock around bucket operations", "kademlia/table.go: (*Table).Update, Delete, DeleteByAddress, Recorded, Bucket, Last")],
 [H("TableOps", {"steps": 2}, {"steps": 3}, 60, 900, "end,full"), H("TableRace", {"delays": 3}, {"delays": 5}, 30, 300, Race=True)],
 "2 symbolic operations (thorough: 3) after prefilled tables including full buckets, keys with symbolic bits; 2 concurrent operations with 3 delays (thorough: 5).",
 "changing the address of a peer already recorded (recorded peers keep their first address).", PURE)

prop("C22", "Closest-peer queries return the true closest peers",
 "Asking the routing table for the k peers closest to a key returns, closest first and without duplicates, exactly the k recorded peers of smallest distance other than the key itself, or all of them if there are fewer.",
 ["inputs", "histories"], "All tables, targets and k.",
 "Tests compare against a table filled with random keys, for which a wrong choice of buckets goes unnoticed.",
 ["kademlia/table.go"], [("search across buckets, then sort", "kademlia/table.go: (*Table).FindClosest; kademlia/binary.go: SortByDistance")],
 [H("Closest", {"n": 3}, {"n": 4}, 60, 900), H("ClosestMany", {"mask": 1}, {"mask": 3}, 40, 300)],
 "up to 3 peers with symbolic distinguishing bits and symbolic target, any k up to 4; tables of 20 and more peers with a partly symbolic target.", "tables of more than 40 peers.", PURE)

prop("C23", "Overlay messages survive the wire",
 "Lookup requests and responses decode to exactly the keys and identities that were encoded, including empty lists and identities with loopback or missing hosts. Any other bytes are refused with an error or decode to just what they say, and never crash the decoder.",
 ["inputs"], "All targets, all lists of identities, all byte strings.",
 "Tests only exchange messages of live nodes on loopback.",
 ["kademlia/msg.go", "id.go"], [("counted list of fixed-size identities", "kademlia/msg.go: FindNodeResponse.Marshal, UnmarshalFindNodeResponse, UnmarshalFindNodeRequest")],
 [H("Wire", {"ids": 4}, {"ids": 6}), H("WireMany"), H("WireHostile", {"n": 4}, {"n": 6}, 60, 300, "end,decoded,refused,empty"), H("WireNode")],
 "lists of 0 to 3 identities with symbolic keys, ports and hosts, and of 15 to 255 with 2 symbolic bytes; strings of up to 3 symbolic bytes followed by whole or cut identities.", "lists of more than 255 identities (never built by a node).", PURE)

prop("C24", "Peers are admitted and evicted by liveness",
 "A peer one connects to or hears from is admitted under its proven identity while its bucket has room; when the bucket is full the least recently seen peer is pinged, kept if it answers and replaced by the newcomer if it does not. Whoever a message is exchanged with becomes the most recently seen; a peer that cannot be dialed is evicted, nobody else is, and the admitted, activity and evicted events report exactly these changes.",
 ["histories", "fault_sequences", "schedules"], "All ways for the pinged peer to answer, fail or stay silent, all fill levels, all interleavings of mutual connections.",
 "Tests have at most a few peers, so no bucket is ever full.",
 ["kademlia/protocol.go", "kademlia/table.go"], [("ping before replacing", "kademlia/protocol.go: (*Protocol).Ack"), ("eviction of unreachable peers", "kademlia/protocol.go: (*Protocol).OnPingFailed")],
 [H("Admission", reach="room,kept,replaced"), H("PingFailed", D1, D2, 30, 300), H("Meeting", D1, D2, 30, 300), H("Activity", {"steps": 2}, {"steps": 3}), H("AdmissionRace", D1, D2, 30, 300, "end,left"), H("SearchLimits", {"peers": 2}, {"peers": 3}), H("SearchHostile")],
 "a bucket of 15 or 16 peers with 6 behaviours of the pinged one; two nodes meeting in 3 ways with 1 delay (thorough: 2); 2 exchanges (thorough: 3) of 4 kinds with 3 peers.", "more than two concurrent newcomers for one full bucket.")

prop("C25", "Searches end and find the live peers nearest the target",
 "A search ends, whatever the peers it asks answer, and returns only peers that answered, without duplicates, without the searching node and the target, closest first and no more than asked for. Among honest peers it finds every live peer that can be learned of from the known ones, the closest to the target if there are more than asked for.",
 ["histories", "inputs", "fault_sequences", "configurations"], "All topologies, parallelism settings, result limits, dead peers and hostile answers within the bounds.",
 "Tests search in fully connected networks of well-behaved nodes.",
 ["kademlia/iterator.go", "kademlia/protocol.go"], [("iterative lookup with per-round parallelism", "kademlia/iterator.go: (*Iterator).Find, (*Iterator).processLookupBucket, (*Iterator).processLookupRequests")],
 [H("Discovery", {"nodes": 4}, {"nodes": 5, "delays": 0}, 40, 400), H("SearchHostile"), H("SearchWide", {"peers": 3}, {"peers": 5}), H("SearchLimits", {"peers": 3}, {"peers": 4, "pars": 3, "maxs": 3}, 40, 600), H("SearchAgain")],
 "chains of 4 nodes (thorough: 5), 2 levels of parallelism in each dimension, 3 targets, limits 1, 2 and 16, a dead node; 8 hostile behaviours of one peer; 3 peers (thorough: 5) telling of up to 48 others; a search following one that met a peer as its target, unreachable or found.", "a peer inventing new live identities without end; large networks.")

prop("C26", "Gossip is delivered at most once per node",
 "Each node hands a given piece of gossip to the application at most once, whether or not the application accepted it, however many peers send it, how often, and how concurrently, and never hands it what it pushed itself before; different data are all delivered, unchanged and under the identity of the peer that sent them. This holds for data of every content and size.",
 ["inputs", "histories", "schedules"], "All contents (equal or different), all sequences of receptions from several peers and own pushes, all interleavings of workers.",
 "The test pushes one string once and only waits for it to arrive.",
 ["gossip/protocol.go"], [("check-and-mark under a lock", "gossip/protocol.go: (*Protocol).Handle"), ("digest keyed by node", "gossip/protocol.go: (*Protocol).hash")],
 [H("GossipHistory", {"steps": 3}, {"steps": 4}, 40, 400), H("GossipSame", D1, D2, 40, 400, "end,own", Race=True), H("GossipMany", D1, D2, 30, 300, "equal,different"), H("GossipLarge"), H("GossipUnreachable", D1, D2, 40, 300), H("GossipRequest", D1, D2, 30, 300), H("GossipRefused", {"delays": 0}, D1, reach="end,again"), H("GossipJoin"), H("GossipMoved", D1, D2, 30, 300)],
 "histories of 3 events (thorough: 4) of 2 peers and own pushes with symbolic contents; 3 concurrent receptions and a push with 2 workers, 1 delay (thorough: 2); sizes up to 70000 bytes.", "loss of memory when the 32 MB cache overflows.")

prop("C27", "Gossip is forwarded to everyone lacking it, and dies out",
 "Gossip that is pushed, or received for the first time and accepted by the application, is sent once to every known peer not already known to have it, and not back to those that sent it; so it reaches every node of a connected network once and then traffic stops. Gossip the application refuses is not forwarded and its sender is disconnected. Unreachable peers do not keep it from the others, and a push ends when its context does.",
 ["histories", "inputs", "schedules", "fault_sequences"], "All sequences of receptions and pushes, all small topologies and origins, failing peers, all interleavings.",
 "The test's network is fully connected, so it passes without any forwarding at all.",
 ["gossip/protocol.go", "kademlia/table.go"], [("per-peer memory of who has what", "gossip/protocol.go: (*Protocol).Push, (*Protocol).Handle"), ("one goroutine per peer", "gossip/protocol.go: (*Protocol).Push")],
 [H("GossipHistory", {"steps": 3}, {"steps": 4}, 40, 400), H("GossipNet", {"nodes": 3}, {"nodes": 4, "delays": 1}, 30, 400, "end,equal"), H("GossipRefused", {"delays": 0}, D1, reach="end,again"), H("GossipUnreachable", D1, D2, 40, 300), H("GossipCancel", D1, D2, 30, 300), H("GossipMany", D1, D2, 30, 300, "equal,different"), H("GossipDeaf", {"delays": 0}, D1, 40, 400), H("GossipWide", {"peers": 20}, {"peers": 33}, 40, 300), H("GossipJoin"), H("GossipMoved", D1, D2, 30, 300)],
 "2 to 3 neighbours, 20 (thorough: 33) in one, peers sharing an address, peers unreachable for one push and back for the next, another peer at the address of one, networks of 3 nodes in a line and fully connected with every origin and two concurrent pushes, 5 kinds of failing peers, 1 delay (thorough: 2).", "a peer that accepts a connection and never completes the handshake can hold up a push that has no deadline; a former identity at the address of a known peer is sent, at that address, what it lacks itself.")

prop("C28", "Idle and stalled connections are given up, busy ones are not",
 "With an idle timeout configured, a connection over which nothing has been received for that long, a handshake that does not progress, and a write the peer does not take for that long end with an error. A connection over which messages keep arriving within the timeout, however the stream is cut into segments, is never cut off. Without one, connections live until they are closed.",
 ["histories", "configurations", "schedules"], "All timings of messages relative to the timeout in virtual time, in both directions, during and after the handshake.",
 "Tests do not wait for timeouts; which operation renews which deadline shows only in particular timings.",
 ["client.go", "node_options.go"], [("read deadline renewed per frame", "client.go: (*Client).read"), ("write deadline renewed per flush", "client.go: (*Client).write, (*Client).writeLoop")],
 [H("Idle", {"steps": 3}, {"steps": 5}, reach="end,idle"), H("IdleBusy", {"segments": 4}, {"segments": 8}), H("IdleHandshake"), H("IdlePart"), H("IdleWrite", reach="end,stalled"), H("IdleOff")],
 "histories of 3 pauses and messages (thorough: 5), frames arriving in up to 4 segments (thorough: 8), stalled writers, handshakes that stop at any point, in virtual time.", "real-time scheduling latency.")

prop("C29", "A handler's context is about its message and answers over its connection",
 "However long it is kept and whoever uses it, the context a handler is given names the peer that sent the message, holds exactly its bytes, whatever arrives later, and tells whether it is a request; all handlers see the same, in the order they were registered. An answer given through it goes, raw or typed, to the very connection the message came on and under its number, whatever other connections there are to this or other peers, and fails if that connection has ended. It encodes and decodes exactly what its node does, and a message refused by that leaves the request unanswered.",
 ["inputs", "histories", "configurations"], "All contents and numbers of messages, all orders and times of the answers, all sets of connections, of the same peer too.",
 "Tests answer at once, from within the handler, over the only connection there is.",
 ["msg.go", "client.go", "node.go"], [("context", "msg.go: HandlerContext, (*HandlerContext).Send, (*HandlerContext).SendMessage, (*HandlerContext).DecodeMessage"), ("bytes of its own", "client.go: (*Client).recvLoop"), ("handlers in order", "node.go: (*Node).Listen")],
 [H("Contexts", {"delays": 0}, D1, 40, 400)],
 "three connections, two of which are of one peer, accepted and dialed; one message of symbolic number and up to 3 symbolic bytes on any of them, fixed ones on the others; answers in three orders, raw and typed, by either handler, with any or none of the connections closed before.",
 "more than two handlers, loggers.")

prop("C30", "Encryption uses a fresh nonce and leaks no buffer contents",
 "Every frame a node sends is the encryption of exactly the bytes of one message under a nonce freshly drawn for it, regardless of the sizes of the messages sent before it and of any buffer reuse; no frame carries bytes of another message, and no nonce is used twice.",
 ["inputs", "histories"], "All sequences of payload sizes and contents.",
 "The defect class is aliasing between reused buffers, which depends on the sequence of sizes; tests use one size.",
 ["aead.go", "client.go", "msg.go"], [("in-place sealing in a grown buffer", "aead.go: encryptAEAD, extendFront, extendBack"), ("pooled buffers", "client.go: (*Client).send, (*Client).writeLoop")],
 [H("Nonces", {"msgs": 3, "sizes": 14, "step": 3}, {"msgs": 4, "sizes": 20, "step": 1}, 40, 600), H("NoncesLarge", {"msgs": 3, "sizes": 5, "step": 3, "large": 1}, {"msgs": 4, "sizes": 5, "step": 3, "large": 1}, 40, 300), H("Sizes", {"sizes": 28}, {"sizes": 28, "second": 6}, 40, 300)],
 "3 messages (thorough: 4) of every combination of sizes up to 42 bytes, two messages of up to 1024 bytes and some of up to 70000, symbolic contents; random source that never repeats.", "the quality of the random source (see C90).")

prop("C31", "A node's address and identity agree with how it is configured",
 "A node's identity carries the host and port it was told to advertise, or those it listens on, and its address is the dialable form of these, with loopback and unspecified hosts shortened the same way everywhere; resolving an address is idempotent. Addresses that cannot be parsed or carry ports out of range are refused with an error.",
 ["inputs", "configurations"], "All hosts, ports and address texts of the tested forms.",
 "Tests use default addresses.",
 ["addr.go", "id.go", "node.go", "node_options.go"], [("normalization", "addr.go: ResolveAddress, resolveIP, normalizeIP"), ("identity at construction and listening", "node.go: NewNode, (*Node).Listen")],
 [H("Addresses", {"ports": 2, "nilports": 300}, {"ports": 5, "nilports": 65536}, 40, 300, "end,special"), H("Resolve"), H("NodeAddresses", reach="end,withid"), H("BadAddress", reach="end,refused")],
 "symbolic IPv4 hosts and special IPv6 hosts, ports 0 to 299 (thorough: all) and selected ones; the option combinations of a node.", "host names (there is no resolver offline).", PURE + [A_NET])

prop("C32", "Node options default and apply as documented",
 "A node built with no options has the documented defaults, options given out-of-range values fall back to them, and each option changes what it names and nothing else. Handlers and protocols registered after the node started have no effect; those before are bound once each in order, and an error of one is reported and keeps the node from listening.",
 ["configurations"], "All option values including zero, and all orders of options.",
 "Tests check fields for a few values of single options.",
 ["node.go", "node_options.go"], [("defaults", "node.go: NewNode"), ("options", "node_options.go"), ("guards after start", "node.go: (*Node).Bind, (*Node).Handle, (*Node).RegisterMessage")],
 [H("OptionZero"), H("OptionDefaults"), H("OptionPool", {"conns": 130}), H("OptionLate"), H("OptionBind"), H("OptionIdle"), H("OptionIdleSet")],
 "observed through behaviour (dial attempts, accepted sizes, pool sizes, timeouts, workers), not through fields.", "logging options.")

prop("C33", "The session secret is the standard X25519 one",
 "For every 32-byte peer key, the secret ECDH derives is X25519 of the node's own scalar (the first half of the SHA-512 of its private key's seed) and of the Montgomery u-coordinate (1+y)/(1-y) of the peer's key, its sign bit ignored, as 32 little-endian bytes whatever that number's length. Both sides of a handshake derive the same secret, sessions with different peers have different ones, and peer keys of low order, in any encoding, are refused with an error rather than yielding a secret everyone knows.",
 ["inputs"], "All 2^256 peer public keys and all private keys.",
 "Two random keys agree almost always even when the conversion is wrong for u-coordinates with a leading zero byte, for encodings with the sign bit set, or for keys of low order; tests draw random keys.",
 ["ecdh.go", "client.go", "keys.go"], [("birational map and byte order", "ecdh.go: ed25519PublicKeyToCurve25519"), ("scalar", "ecdh.go: ed25519PrivateKeyToCurve25519"), ("low order refused", "ecdh.go: ECDH")],
 [H("SharedSecret", reach="end,low"), H("SecretSizes"), H("LowOrder"), H("SecretAgreed")],
 "fully symbolic 32-byte peer key, for two private keys; u-coordinates of every byte length from 1 to 32 with either sign bit; five encodings of points of low order; every triple of 4 key pairs. Field arithmetic is symbolic: numbers are polynomials over uninterpreted residues and inverses modulo 2^255-19; X25519 itself is an unknown function on symbolic points.",
 "the scalar multiplication itself (a library), symbolic private keys (SHA-512), timing.")

prop("C34", "What may be used concurrently is free of data races",
 "Operations of nodes, clients, handler contexts, routing tables, the overlay and gossip which are documented or meant to be used concurrently never access the same memory unordered with one of them writing it, whatever traffic, connecting, closing and eviction goes on at the same time. Protocols and handlers registered at the same time before the node listens are all registered, once each.",
 ["schedules", "inputs"], "All pairs of operations at once, under all schedules of the goroutines involved.",
 "The race detector judges the schedules a test happens to run; the tests rarely call two operations at once and none does for most pairs.",
 ["client.go", "node.go", "map.go", "codec.go", "msg.go", "kademlia/table.go", "gossip/protocol.go"],
 [("client state", "client.go: (*Client).ID, (*Client).SetLogger, (*Client).Error, (*Client).close"), ("maps", "map.go: (*clientMap).get, (*requestMap).nextNonce"), ("registration", "node.go: (*Node).Bind, (*Node).Handle"), ("codec", "codec.go: (*codec).register"), ("routing table", "kademlia/table.go: (*Table).Update, (*Table).Entries")],
 [H("RaceBind", D1, D2, 40, 300, Race=True), H("RaceAPI", D1, D2, 90, 900, Race=True), H("RaceContext", D1, D2, 40, 300, Race=True),
  H("RaceID", D1, D2, 40, 300, Race=True), H("RaceTable", D2, {"delays": 4}, 40, 300, Race=True), H("RaceKad", {}, D1, 40, 600, Race=True), H("RaceGossip", D1, D2, 40, 600, Race=True), H("RaceSearch", {}, D1, 40, 600, Race=True),
  H("InboundStorm", D1, D2, 40, 300, Race=True), H("EvictRequests", D1, D2, 40, 300, Race=True), H("CloseRace", D1, D2, 40, 300, Race=True), H("Stuck", D1, D2, 40, 300, Race=True)],
 "every pair of 17 operations on a node with an outbound and an inbound connection, of 11 on a routing table, of 8 on the overlay, of 6 on gossip; a handler's context shared by two goroutines; registration by two goroutines; clients looked at while connecting; with 0 to 2 delayed goroutines. Two accesses are ordered by happens-before (vector clocks over goroutine creation, channels, mutexes, once, wait groups, atomics) along each symbolic path; what a path orders only by chance of its schedule is left to the other schedules.",
 "Listen at the same time as anything else (documented), races inside library code that the models replace, memory the engine does not see written (assembly), three operations at once.")

prop("C35", "Connections that end leave nothing behind",
 "In whatever way a connection ends — closed, reset or half-closed by the peer, failed by a handler, by an invalid frame or in its handshake, idle or stalled, evicted, closed by the application, or never established — and whatever it is in the middle of, the node closes its end, drops it from its pools, fails the requests waiting on it, and ends every activity it started for it. The node itself goes on, so that what it holds does not grow with the number of connections it ever had.",
 ["histories", "schedules"], "All ways for a connection to end in all states of it, in either role, under all schedules.",
 "A goroutine or socket left behind per connection fails no test; it takes a long-running node to notice, and the particular ending.",
 ["client.go", "map.go", "node.go"], [("reader and writer end each other", "client.go: (*Client).recvLoop, (*Client).writeLoop, (*Client).close"), ("release on every exit", "client.go: (*Client).inbound, (*Client).outbound; map.go: (*clientMap).remove"), ("failed dials", "node.go: (*Node).dialIfNotExists")],
 [H("Ends", D1, {"delays": 1, "rounds": 2}, 60, 900), H("EndsEarly", D1, D2, 40, 300), H("Grows")],
 "15 endings, inbound and outbound, with nothing, a request or messages in both directions under way or all handlers busy, one connection (thorough: two after another; two and three for evictions), schedules with at most 1 delay; eviction, closing and giving up at each of 5 stages of a dial and handshake; goroutines are counted before and after; the memory a node holds after two and after five connections is compared for 8 endings in both roles, of the same peer or different ones.",
 "memory which is reachable but not needed, endings of the operating system's own (keep-alive).")

prop("C36", "A client reports its connection truthfully",
 "Waiting for a client to be ready returns exactly when its handshake has completed or failed, its identity then being the proven one or its error saying what went wrong, and waiting for it to be closed returns exactly when the connection, its callbacks and its place in the node's pools are gone. A client has no error while its connection is well, and keeps the first one for good. Closing a client is idempotent, may be done concurrently and at any stage, and never leaves a waiter waiting.",
 ["schedules", "histories"], "All stages and endings of a connection, all schedules of those who wait and of the connection's own goroutines.",
 "Tests wait on clients only of connections that succeed and that a node closes.",
 ["client.go", "node.go"], [("readiness", "client.go: (*Client).handshake, (*Client).WaitUntilReady"), ("end", "client.go: (*Client).inbound, (*Client).outbound, (*Client).WaitUntilClosed"), ("first error", "client.go: (*Client).reportError, (*Client).Error")],
 [H("Reports", D2, {"delays": 3}, 90, 600, "end,failed,aborted"), H("ReportsDial", D2, {"delays": 3}, 40, 300, "end,up")],
 "7 courses of a connection in either role (in one, a handler fails after the connection has ended), with symbolic signatures for a failing one, 6 courses of a dial, a goroutine waiting for each event, schedules with at most 2 delays (thorough: 3).",
 "loggers of a client.")

prop("C37", "Searches and probes keep to their configured limits",
 "A search asks every peer it learns of at most once, however many tell of it, and about the target only; it never has more requests under way than its parallel lookups times their parallel requests, and gives each one its lookup timeout. It returns the closest of the peers that answered, no more than configured. A probe of the least recently seen peer is given the ping timeout; the defaults are 16 results, 3 seconds for either.",
 ["histories", "configurations"], "All orders in which peers answer, all combinations of the options, all targets.",
 "Tests run searches of nodes that answer at once with default options, which no limit constrains.",
 ["kademlia/iterator.go", "kademlia/iterator_options.go", "kademlia/protocol.go", "kademlia/protocol_options.go"],
 [("peers already visited", "kademlia/iterator.go: (*Iterator).processLookupBucket"), ("requests under way", "kademlia/iterator.go: (*Iterator).processLookupBucket, (*Iterator).lookupRequest"), ("options", "kademlia/iterator_options.go; kademlia/protocol_options.go"), ("probe", "kademlia/protocol.go: (*Protocol).Ack")],
 [H("SearchLimits", {"peers": 3}, {"peers": 4, "pars": 3, "maxs": 3}, 40, 600), H("Timeouts", reach="lookup,ping")],
 "3 (thorough: 4) known peers answering in any order (first or last outstanding one), two more peers told of by all of them, 1 or 2 lookups (thorough: 3) of 1 or 2 requests, 2 or 16 results (thorough: 1), options in two orders, two symbolic bytes of the target; each timeout with and without its option.",
 "more peers than 16, the actual passing of real time.")

NA_PROPS = [
 dict(id="C90", title="Nonces and keys are unpredictable and do not collide",
  statement="The nonces and ephemeral keys a node draws are unpredictable to others and collide with negligible probability over the life of a connection.",
  over=["histories"], qtext="All lengths of sessions and all numbers of nodes.", why="A probabilistic claim: no number of runs settles it.",
  files=["aead.go", "client.go"], mech=[("random source", "aead.go: encryptAEAD")],
  reason="A probabilistic statement about the random number generator; symbolic execution treats the source as an ideal one (C30 checks only that each frame draws afresh), and a solver cannot bound collision probabilities of math/rand."),
]
