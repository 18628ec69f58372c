#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line). Edit here, run, commit both."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=list(over),text=text),why_tests_cant=why,
      anchors=dict(files=list(files),mechanism=[dict(name=n,where=w) for n,w in mech],
                   state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(observe),hook_needed=hook)))

p("C01","Inbound messages are delivered exactly once, in order, byte-exact",
 "Every text or binary message that a client sends as valid masked frames is delivered by the read calls exactly once, in sending order, with its type and exact payload. This holds for every payload length and length encoding, every fragmentation (empty fragments and control frames between fragments included), every mask key, every way TCP splits the bytes (bytes that arrived with the handshake included), every read-buffer size and every size of the caller's read slices.",
 ["inputs","configurations"],"all frame sequences x segmentations of the byte stream x read-buffer sizes x reader call patterns",
 "The tests feed at most one seven-byte frame to the read side; fragmentation, interleaved control frames, 16/64-bit lengths, unmasking across read boundaries and buffered handshake bytes are never exercised.",
 ["conn_read.go","mask.go","conn_utils.go","upgrader.go","conn.go"],
 [("frame header parsing and control-frame dispatch","conn_read.go acceptFrame"),("continuation handling and incremental unmasking","conn_read.go ConnReader.Read, mask.go"),("peek/discard on the buffered reader","conn_utils.go nRead"),("buffered handshake bytes","upgrader.go brNetConn, conn.go newConn")],
 [("reader","frame and message progress: fin, remaining, mask position, totals","conn_read.go ConnReader")],
 ["ReadMessage/ReadString/ReadBinary/ReadJSON/NextReader+Read results"])
p("C02","Protocol violations close the connection and are never delivered",
 "When a client sends something RFC 6455 forbids (unknown opcode, reserved bit, unmasked frame, fragmented or over-long control frame, continuation without a message, new message inside an unfinished one, malformed close frame, a text message read whole that is not UTF-8), the read in progress returns a fatal error and the connection is closed with status 1002 (1007 for bad UTF-8 text unless validation is switched off). No part of the offending message is returned as a complete message and nothing sent after the violation is ever delivered; a valid close frame is answered with its own code and reason, an empty one with 1000.",
 ["inputs"],"all frame sequences containing a violation, at every position in the stream",
 "Only one invalid-UTF-8 frame is tested; every other violation, and violations in the middle of fragmented messages, is untested.",
 ["conn_read.go","conn.go","frame.go"],
 [("header checks","conn_read.go acceptFrame"),("close payload validation","conn.go handleClose, frame.go isValidCloseCode"),("continuation checks","conn_read.go NextReader/Read, conn_utils.go skipRestOfMessage"),("UTF-8 check","conn_read.go ReadMessage")],
 observe=["read call results","close frame on the wire"])
p("C03","Message size and fragment limits hold exactly",
 "A message whose payload, summed over its fragments, exceeds MaxMessageSize is never delivered complete: the read returns a fatal error and the connection closes with 1009; a frame announcing more than the limit is refused before its payload is read. A message of more than ReaderMaxFragments frames is refused with 1008. Messages within the limits, up to and including the exact limit, are delivered, and -1 (size) or 0 (fragments) means no limit.",
 ["inputs","configurations"],"all fragmentations of messages around the limits, all limit values",
 "No test sets MaxMessageSize or ReaderMaxFragments low enough to reach them.",
 ["conn_read.go","options.go"],
 [("per-frame size check","conn_read.go acceptFrame"),("total size and fragment checks","conn_read.go ConnReader.Read, NextReader")],
 [("totalSize/fragments","running totals of the current message","conn_read.go ConnReader")],["read call results","close frame on the wire"])
p("C04","An unread remainder never bleeds into the next read",
 "Whatever part of a message the application leaves unread (it stopped reading early, decoded only a JSON value, asked for another message type, hit a JSON syntax error, or was rate limited), the next read call starts at the next message. Payload bytes are never interpreted as frame headers, control frames in the skipped part are still handled, and errors reported as non-fatal leave the connection open and usable.",
 ["inputs","histories"],"all sequences of partial reads x message contents and fragmentations",
 "No test reads two messages in a row, reads partially, or calls ReadJSON/ReadBinary at all.",
 ["conn_read.go","conn_utils.go"],
 [("resynchronising before the next message","conn_read.go NextReader"),("discarding","conn_utils.go skipRestOfMessage")],
 observe=["results of the read that follows a partial read"])
p("C05","The outbound byte stream is always a legal frame sequence",
 "However sends, streaming writers, broadcasts, batches, pings, pongs and closes on a connection overlap, the bytes handed to the network parse as whole, unmasked, correctly length-encoded RFC 6455 frames: no data frame of another message lies between the fragments of a message, control frames are unfragmented, at most 125 bytes and carry exactly the payload length they announce. Nothing follows a close frame, and nothing (not even a close frame) follows a write that failed part-way.",
 ["schedules","inputs","fault_sequences"],"all interleavings of writers, broadcast and batch deliveries, control frames and closes; all write outcomes",
 "The tests write from one goroutine into a mock and never parse what came out except one close frame; no fragmentation is overlapped with anything.",
 ["conn_write.go","broadcast.go","conn_batcher.go","frame.go","conn.go"],
 [("message-level writer lock","conn_write.go NextWriter/Close"),("frame-level write lock","conn_write.go flush, writeControl, broadcast.go writeToConn"),("header encoding","frame.go writeHeaders, conn_write.go writeControl/writeClose")],
 [("writer.lock / writeLock","who owns the data stream / the wire","conn_utils.go mu")],["net.Conn.Write calls"])
p("C06","Sent messages appear complete, once, unmixed and in order",
 "Every message whose send call (or writer Close) returned success appears on the wire exactly once, with exactly its bytes and type; messages sent by one goroutine appear in its order, and bytes of concurrent messages are never mixed. A message its sender has not completed is never shown to the peer as a complete message, whatever closes, cancels or fails meanwhile.",
 ["schedules","histories","fault_sequences"],"all interleavings of concurrent senders with closes, cancellations and write failures; all message and buffer sizes",
 "Tests send a handful of short messages sequentially and check only the error value, never the bytes.",
 ["conn_write.go","conn.go"],
 [("buffer management","conn_write.go ConnWriter.Write/flush"),("writer ownership","conn_write.go NextWriter/Close"),("close does not touch somebody else's message","conn.go CloseWithCode")],
 observe=["send results vs bytes at net.Conn.Write"])
p("C07","A failed or cancelled send never wedges the connection",
 "A send that fails without a fatal error (context cancelled or expired, value that does not marshal, invalid opcode) leaves nothing half-done: if none of its frames reached the wire the connection is fully usable and later sends proceed, and if some did the connection is closed rather than left mid-message. A send waiting for its turn returns when its context ends or the connection closes, and no send call ever blocks once the write in progress has ended.",
 ["schedules","histories"],"all points at which a cancellation or encoding error can hit a send, followed by any further sends",
 "The only contention test cancels a waiter and never sends again after a failed send; cancellation during flush and marshal errors are untested.",
 ["conn_write.go","conn_batcher.go","conn_utils.go"],
 [("release on error paths","conn_write.go SendMessage/SendJSON/ConnWriter.Close"),("context-aware lock","conn_utils.go lockCtx")],
 observe=["results of the sends after a failed one"])
p("C08","Closing happens once, is final, and always completes",
 "However many goroutines, errors or peers close a connection at once, the peer receives at most one close frame (carrying a valid code and the reason of one of the closers), the network connection is closed, OnDisconnect runs exactly once, and every Close call returns, also when called from a connection hook. After Close has returned, every read, send, writer request, ping and batch call on the connection fails (with a fatal error where the call can report one) and nothing more is written.",
 ["schedules","histories"],"all interleavings of closers, readers, writers and hooks",
 "The close test calls Close once on an idle connection; concurrent closes, closes during writes and use after close are untested.",
 ["conn.go","conn_write.go","conn_utils.go"],
 [("once-only teardown","conn.go CloseWithCode"),("close frame and lock-out of later writers","conn_write.go writeClose, conn_utils.go mu")],
 [("done","closed channel that every lock waits on","conn.go Conn.done")],["close frames, net.Conn.Close, OnDisconnect calls, results of later calls"])
p("C09","A transport failure surfaces as fatal, closes, and releases everyone",
 "If a network read or write fails, times out or is cut short at any point, the operation using it returns a fatal error, the connection is closed and its network connection released, and every other operation waiting on that connection returns. A fatal error is returned only when the connection is closed and a non-fatal error leaves it open; every write runs under a deadline of at most WriteWait and every message read under one of at most ReadWait.",
 ["fault_sequences","schedules"],"every read/write call of every operation failing or timing out, combined with any other operations in flight",
 "The mock connection of the tests never fails or blocks.",
 ["conn_write.go","conn_read.go","broadcast.go","conn.go","errors.go"],
 [("error paths closing the connection","conn_write.go flush/pong, conn_read.go, broadcast.go writeToConn/broadcastListener"),("deadlines","SetWriteDeadline/SetReadDeadline before each use")],
 observe=["results of the failing and waiting calls; net.Conn.Close"])
p("C10","A closed connection leaves nothing behind",
 "Once a connection has closed, for whatever reason and at whatever moment (a failed handshake response included), all goroutines the library started for it end and no library structure (manager, room, rate limiter, batch flusher, pools) keeps it reachable.",
 ["histories","schedules","fault_sequences"],"all lifecycles: which features are enabled, what the connection was doing, how it ended",
 "Tests never look at goroutines or memory after closing.",
 ["conn.go","broadcast.go","flusher.go","rate_limiter.go","upgrader.go","rooms_manager.go","manager.go"],
 [("cleanup on close","conn.go CloseWithCode"),("goroutine loops watching done","conn.go pingLoop, broadcast.go broadcastListener")],
 observe=["goroutine dump and weak references after close"])
p("C11","The manager maps each key to its newest live connection",
 "At every moment a manager holds at most one connection per key: the most recently registered one that is still open; closed connections disappear from it, and Get/GetAllConns return exactly the held ones minus the exclusions. Registering an occupied key closes the previous connection, whose end never evicts its replacement; OnRegister and OnUnregister each run exactly once per registered connection, for that connection.",
 ["histories","schedules"],"all sequences and interleavings of connects, duplicate keys, closes and lookups",
 "The tests only construct a ManagedConn; Register, unregister, Get and duplicates are never run.",
 ["manager.go","conn.go"],
 [("registry map","manager.go Register/unregister"),("close callback","manager.go newManagedConn, conn.go CloseWithCode")],
 [("conns","key to connection map","manager.go Manager.conns")],["Get, GetAllConns, OnRegister/OnUnregister"])
p("C12","Room membership follows joins, leaves, moves and closes exactly",
 "A connection is in a room exactly when it was added and has not since been removed, moved away, or closed, however many rooms (or a manager) it is in; closing it removes it from all of them, also when it closes while joining. OnJoin and OnLeave run exactly once per actual join and leave with the arguments given; adding a member or removing a non-member does nothing; closing a room keeps its connections open, unregisters the room, and a key maps to one room until then.",
 ["histories","schedules"],"all sequences and interleavings of Add/Remove/RemoveAll/Move/Close/Connect/disconnect over several rooms",
 "No test touches rooms.",
 ["rooms_manager.go","conn.go"],
 [("membership map","rooms_manager.go Add/Remove/RemoveAll/Move"),("close callback","rooms_manager.go Add, conn.go CloseWithCode")],
 [("conns/rooms","members of a room / rooms of a manager","rooms_manager.go")],["GetAllConns, Get, GetRoomKeys, OnJoin/OnLeave"])
p("C13","A broadcast reaches exactly the intended recipients, in order",
 "A broadcast on a room or manager is queued to exactly the current members minus the excluded ones, and the returned count is the number of connections whose queue took it. Each such connection that stays open sends it exactly once (unless the broadcast's context ends before it does), with exact bytes and type, in the order of the broadcasts queued to it, and no other connection ever sees it; an invalid type is refused without sending anything.",
 ["schedules","histories","inputs"],"all memberships, exclusions, broadcast sequences and delivery interleavings",
 "No test broadcasts.",
 ["broadcast.go","manager.go","rooms_manager.go"],
 [("per-connection queue and listener","broadcast.go broadcast/broadcastListener"),("recipient selection","manager.go GetAllConnsAsConn, rooms_manager.go GetAllConns")],
 [("broadcastQueue","messages accepted but not yet written","conn.go")],["broadcast results and each connection's wire"])
p("C14","A slow or dead recipient has only the configured effect",
 "When a recipient's broadcast queue (BroadcastChannelsSize messages) is full, Drop skips that recipient and leaves it open, Close closes it with 1008, and Wait blocks until the queue has room, the context ends or the recipient closes. A recipient that is not full is never dropped or closed, other recipients are served regardless, and no broadcast blocks on a closed connection; a delivery that fails closes that recipient only.",
 ["schedules","fault_sequences","configurations"],"all patterns of stalled, failing and closing recipients under each strategy and queue size",
 "No test broadcasts or stalls a connection.",
 ["broadcast.go","options.go"],
 [("backpressure switch","broadcast.go broadcast/batchBroadcast"),("listener exit","broadcast.go broadcastListener")],
 observe=["broadcast results, drops, closes"])
p("C15","Batched messages arrive exactly once, in order, correctly framed",
 "Every message accepted by Batch or BatchBroadcast on a connection that stays open is sent in exactly one batch, batches and the messages in them keep acceptance order, and each batch is one binary WebSocket message in the configured encoding (JSON array, 4-byte length prefixes, or the custom sender called with the messages), with the prefix and suffix at its ends. A batch of more than one message never exceeds MaxBatchSize in total and leaves before its flush interval ends only when the next message would not fit or batching stops, and a pending message is sent within one flush interval once the connection's writer is free.",
 ["schedules","histories","inputs","configurations"],"all sequences of batched messages, sizes, flush timings and concurrent batchers",
 "No test enables batching.",
 ["conn_batcher.go","flusher.go","broadcast.go"],
 [("accumulation and overflow flush","conn_batcher.go Batch/flush"),("encoders","conn_batcher.go jsonArrayEncoder/lengthPrefixEncoder"),("ticker","flusher.go listener/flushAll")],
 [("messages/totalSize","pending batch","conn_batcher.go messageBatch")],["batch frames on the wire, customSend calls"])
p("C16","The rate limiter enforces its token bucket per connection",
 "With a limiter of mps and burst, over any interval a connection delivers at most burst plus mps times the elapsed time messages, and a message is delivered whenever that budget allows it; every connection has its own budget and only data messages count, each once however fragmented. A message over the limit is dropped whole with one OnRateLimitHit call, leaves following messages intact and the connection open unless the hook closes it.",
 ["histories","inputs"],"all arrival time patterns, fragmentations and interleaved control frames, several connections",
 "No test uses a limiter.",
 ["rate_limiter.go","conn_read.go","conn_utils.go","upgrader.go"],
 [("token bucket per connection","rate_limiter.go allow/addClient"),("check after the first frame of a message","conn_read.go NextReader, conn_utils.go allow/skipRestOfMessage")],
 observe=["read results over time, hook calls"])
p("C17","Ping/pong: pings answered, responsive peers kept, silent ones closed",
 "Every ping a client sends is answered by one pong with the same payload, in order, unless the connection closes. The server pings every PingEvery with at most one ping outstanding; a peer that answers keeps a reading connection open indefinitely, each answer re-arms pinging and extends the read deadline, an answer that does not match the ping closes with 1002, and a peer that stays silent is closed no later than ReadWait after the read deadline was last set.",
 ["schedules","histories","inputs"],"all timings of pings, pongs and data, including a pong that arrives before the ping call has returned",
 "Pings are never sent or received in the tests (PingEvery is 30 s or more there).",
 ["conn.go","conn_write.go","conn_read.go"],
 [("ping state","conn.go pingSent, handlePong; conn_write.go Ping"),("pong reply","conn_write.go pong/writeControl"),("ping loop","conn.go pingLoop")],
 [("pingSent","a ping awaits its pong","conn.go")],["control frames on the wire, deadlines, close times"])
p("C18","The handshake accepts exactly valid upgrades and answers correctly",
 "An HTTP request is upgraded exactly when it is a GET with Upgrade: websocket, Connection: upgrade (as list members, case-insensitive), version 13 and a 16-byte base64 key, a sub-protocol is agreed or raw clients are allowed, and every middleware, run in order until the first error, returns nil. Then the response is a 101 with the RFC 6455 accept value for the key and the first client-listed protocol the server supports, written before anything else, and OnConnect runs once; otherwise an HTTP error (405, 426, 400 or the middleware's code) is sent, the connection is not taken over and OnConnect does not run.",
 ["inputs","configurations"],"all combinations of header variants, sub-protocol lists, options and middleware outcomes",
 "The upgrader's handshake has no test at all.",
 ["upgrader.go","options.go"],
 [("header validators","upgrader.go validate*"),("sub-protocol selection","upgrader.go selectSubProtocol"),("middleware chain and response","upgrader.go Upgrade")],
 observe=["HTTP status, response headers, hijack, hooks"])
p("C19","Connections never see each other's bytes",
 "Bytes written or received on one connection never appear in a message of another connection, even though write buffers are pooled: no schedule of writes, failures, closes and new connections makes two connections use the same buffer at once, and using a closed connection's writer never alters another connection's output.",
 ["schedules","histories","fault_sequences"],"all interleavings of closing connections, writers still in use, and new connections reusing pooled buffers",
 "Tests use one connection at a time and buffers that never return to the pool while in use.",
 ["conn.go","conn_write.go","upgrader.go"],
 [("buffer pool get/put","conn_write.go newWriter, conn.go CloseWithCode"),("lock-out of writers after close","conn_utils.go mu")],
 observe=["each connection's wire bytes"])
p("C20","Shutdown of a manager closes everything and returns",
 "Shutdown on a connection manager or a room manager closes every connection it holds (1000 for a manager, 1001 for a room manager), runs their leave/unregister and disconnect hooks once each, leaves the manager empty, and returns; this also holds when hooks call back into the manager or rooms, when some connections are stalled or already closing, and for an empty manager.",
 ["schedules","histories","fault_sequences"],"all member sets, stalled or closing members, and hooks that use the manager during shutdown",
 "No test shuts a manager down.",
 ["manager.go","rooms_manager.go"],
 [("worker pool closing connections","manager.go Shutdown, rooms_manager.go Shutdown")],
 observe=["Shutdown return, wires, Get/GetAllConns/GetRoomKeys"])
p("C21","Batching starts, stops and rejects cleanly",
 "Every message that Batch accepted (returned nil) before the flusher was closed is still sent on open connections, although other messages are being batched and flushed at the same moment; once the flusher is closed or its context has ended, Batch and BatchBroadcast return an error, and so they do when batching is not enabled or the connection is closed. Closing twice, replacing the flusher, and connections created or closed at the moment of a flush never panic, and closing a connection stops its batches only.",
 ["schedules","histories"],"all interleavings of batching, flush ticks, flusher close, context end, connection create and close",
 "No test enables batching.",
 ["flusher.go","conn_batcher.go","broadcast.go"],
 [("flusher lifecycle","flusher.go Close/listener/flushAll"),("accept check","conn_batcher.go Batch")],
 observe=["Batch results, batch frames on the wire"])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
