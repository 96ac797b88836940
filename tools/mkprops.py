#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one source for both)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CL = "mqtt/client.go"
P = "mqtt/packets"
PR = "mqtt/packets/primitives"
TESTS = "The only tests are table cases of the topic matching helper; "

def m(name, where):
    return {"name": name, "where": where}

props = [
 dict(id="C01", title="What the client writes is always a valid MQTT 5 stream",
  statement="On every connection the bytes the client writes are a sequence of complete, well-formed MQTT 5 control packets: CONNECT first and only once, every length and property field consistent, packets never interleaved with or torn into one another, and nothing after DISCONNECT. This holds for any arguments the API accepts, any number of concurrent callers, and any partial write, write timeout or connection failure; a packet that could only be written in part is the last thing on that connection.",
  over=["schedules", "inputs", "fault_sequences"],
  qtext="every interleaving of Connect, Publish, Subscribe, Unsubscribe, KeepAlive, Poll and Disconnect, every argument combination, and every point at which a write stalls, times out, is cut short or fails",
  tests=TESTS + "no byte of the protocol is ever encoded by them, let alone by several goroutines over a failing connection.",
  files=[CL, P, PR],
  mech=[m("Client.transmit, Client.send", CL), m("WriteTo of the control packets", P), m("WriteTo, Length of the primitive types", PR)],
  observe="bytes accepted by the net.Conn"),
 dict(id="C02", title="Each successful API call puts exactly its own packet on the wire",
  statement="A Connect, Publish, Subscribe, Unsubscribe, KeepAlive or Disconnect call that returns nil has caused exactly one control packet whose every field (topic, payload, flags, properties, filters and options, will, credentials, reason and expiry) equals what the caller passed; no other packet of these kinds is ever sent. Arguments that MQTT cannot express, such as strings longer than 65535 bytes or an empty topic name, are refused with an error and nothing is sent for them.",
  over=["inputs", "schedules", "fault_sequences"],
  qtext="every combination of arguments, at every interleaving with other callers and incoming traffic, with and without transport failures",
  tests=TESTS + "the mapping from arguments to bytes is not touched, and which call a packet belongs to only matters when several calls overlap.",
  files=[CL, P + "/connect.go", P + "/publish.go", P + "/subscribe.go", P + "/unsubscribe.go", P + "/disconnect.go", P + "/topic.go", PR],
  mech=[m("Client.Publish, Client.Subscribe, Client.Unsubscribe, Client.KeepAlive, Client.DisconnectWithSessionExpiry, Client.Connect", CL), m("Topic.SetFilter, SetQoS, SetNoLocal, SetRetainAsPublished, SetRetainHandling", P + "/topic.go")],
  observe="bytes accepted by the net.Conn, decoded, against the arguments of the calls"),
 dict(id="C03", title="Every packet the server sends is reported once, in order and unaltered",
  statement="Each control packet a conforming server sends (CONNACK, PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBACK, UNSUBACK, DISCONNECT, AUTH) produces exactly one event, in the order of arrival and with all of its fields and properties intact (a PUBLISH that carries only a topic alias is reported with the topic the server established for it), on a general event channel that has room, except retransmissions of a QoS 2 message that was already delivered; PINGRESP produces none. This does not depend on how the transport splits or delays the bytes, and no such packet makes Poll fail.",
  over=["inputs", "schedules", "fault_sequences"],
  qtext="every sequence of valid packets, every fragmentation and delay of their bytes (down to single bytes, across Poll deadlines), and every interleaving with callers",
  tests=TESTS + "no packet is ever decoded, and short reads never happen in a test that reads from a buffer.",
  files=[CL, P, PR, "mqtt/events.go"],
  mech=[m("Client.Poll, Client.readPacket, Client.signal", CL), m("ReadFrom of the control packets", P), m("ReadFrom of the primitive types", PR)],
  observe="events received on an event channel"),
 dict(id="C04", title="Messages reach exactly the event channels bound to matching filters",
  statement="While an event channel is bound to topic filters by granted subscriptions, it receives every delivered PUBLISH whose topic matches one of its filters under MQTT rules (wildcards + and #, shared subscriptions, topics beginning with $), in order, if it has room, and it receives no other event. A binding starts when the subscription is granted, filters the server refused bind nothing, and after Unsubscribe is granted for a filter nothing more arrives for it; a channel whose last filter is unsubscribed is closed.",
  over=["inputs", "schedules", "histories"],
  qtext="every set of filters and topics, every history of subscriptions, unsubscriptions, channel creations and closings, and every interleaving of those calls with message delivery",
  tests="The table tests sample twenty topic and filter pairs in isolation; they reach no channel, no binding, and no concurrent change of the bindings.",
  files=[CL, P + "/topic.go"],
  mech=[m("Client.matchTopic, Client.signal", CL), m("Client.Subscribe, Client.Unsubscribe, Client.closeEventChannelInternal", CL)],
  observe="events received on each channel, against a reference model of the bindings"),
 dict(id="C05", title="Incoming messages and releases are acknowledged exactly once, correctly",
  statement="For every QoS 1 PUBLISH received the client sends one PUBACK, for every QoS 2 PUBLISH one PUBREC, for every successful PUBREC one PUBREL and for every PUBREL one PUBCOMP, with the same packet identifier, a success reason (or \"identifier not found\" for an unknown one) and in the order of arrival; it sends none of them unsolicited and none for QoS 0 or for a PUBREC carrying a failure reason. Every such reply has been written once Poll has returned nil for the packet it answers.",
  over=["schedules", "histories", "fault_sequences"],
  qtext="every traffic history including retransmissions and identifier reuse, every interleaving with callers, every fragmentation and failure of the connection",
  tests=TESTS + "no exchange of two packets is ever run.",
  files=[CL, P + "/puback.go", P + "/pubrec.go", P + "/pubrel.go", P + "/pubcomp.go"],
  mech=[m("Client.Poll (PUBLISH, PUBREC, PUBREL)", CL), m("Client.sendPuback, Client.sendPubrec, Client.reply", CL)],
  observe="packets on the wire in both directions"),
 dict(id="C06", title="A QoS 2 message is delivered to the application exactly once",
  statement="A QoS 2 message the server sends is signalled to the application exactly once, however often the server retransmits it before it is released, on one connection and, when a storage is set and the server resumes the session, across reconnects and client crashes. A message is never acknowledged without having been delivered, and an identifier that was released is accepted again for a new message. Only a crash, error or storage failure in the middle of processing that very message may lose or repeat it.",
  over=["schedules", "crash_points", "histories", "fault_sequences"],
  qtext="every sequence of retransmissions, disconnections, crashes at any point between packets, storage failures and resumed or lost sessions",
  tests=TESTS + "exactly-once delivery is a statement about histories with failures, of which none is tested.",
  files=[CL, "mqtt/storage/memory/memory.go"],
  mech=[m("Client.Poll (PUBLISH, PUBREL), Client.storePubrec, Client.dropFromStorage", CL)],
  state=[dict(name="identifiers received and not released", meaning="kept per connection and as PUBREC in the storage")],
  observe="deliveries per message of the simulated server"),
 dict(id="C07", title="The server's Receive Maximum is respected and its slots are not lost",
  statement="At no time are more QoS 1 and QoS 2 PUBLISH packets unacknowledged on a connection than the Receive Maximum in the server's CONNACK (65535 if absent). Every slot comes back when the exchange ends (PUBACK, PUBCOMP, or PUBREC with a failure reason) or when a publish fails before anything was sent, so a Publish blocked for lack of slots proceeds once one is free; unknown or duplicate acknowledgements create no slots, and QoS 0 publishes are not held back.",
  over=["schedules", "histories", "fault_sequences", "configurations"],
  qtext="every Receive Maximum, number of concurrent publishers, order and delay of acknowledgements, cancelled and failed publishes",
  tests=TESTS + "flow control only shows with concurrent publishers and delayed acknowledgements.",
  files=[CL],
  mech=[m("Client.acquireSendQuota, Client.releaseSendQuota, Client.unblockPublish, Client.preparePublish", CL)],
  state=[dict(name="send quota", meaning="free slots for unacknowledged publishes")],
  observe="unacknowledged PUBLISH packets on the wire; calls that stay blocked"),
 dict(id="C08", title="The client's own Receive Maximum is enforced, and only when exceeded",
  statement="If and only if the server has more QoS 1 and QoS 2 messages outstanding than the Receive Maximum the client announced in CONNECT (65535 if absent), the client refuses the excess message: it is not delivered, DISCONNECT with reason 0x93 is sent, the connection is closed and Poll returns that reason. Traffic within the limit, including retransmissions and any number of completed exchanges, is never refused.",
  over=["histories", "schedules", "configurations", "fault_sequences"],
  qtext="every announced limit and every history of incoming QoS 1 and QoS 2 messages, retransmissions and releases",
  tests=TESTS + "counting outstanding messages needs long histories of incoming traffic.",
  files=[CL],
  mech=[m("Client.Poll (PUBLISH, PUBREL), Client.sendPuback, Client.disconnectWithReason", CL)],
  state=[dict(name="receive quota", meaning="messages the client still accepts")],
  observe="wire, deliveries, result of Poll"),
 dict(id="C09", title="Unacknowledged messages are in the storage exactly as long as needed",
  statement="With a storage set, a QoS 1 or QoS 2 PUBLISH is stored under its identifier before its first byte is written and stays there, unchanged, until the server acknowledges it; a QoS 2 message is then replaced by its release state until PUBCOMP. After the exchange has ended, or when nothing of the packet was sent, the entry is gone, so that once all traffic has settled the storage is empty; a publish that cannot be stored fails and is not sent, and a storage that fails while a call runs makes that call return an error.",
  over=["schedules", "crash_points", "fault_sequences", "histories"],
  qtext="every crash point, storage failure, connection failure, cancellation and interleaving of publishers with acknowledgements",
  tests=TESTS + "the storage is not exercised at all.",
  files=[CL, "mqtt/storage/storage.go", "mqtt/storage/memory/memory.go"],
  mech=[m("Client.preparePublish, Client.Publish, Client.Poll (PUBACK, PUBREC, PUBCOMP), Client.dropFromStorage", CL)],
  state=[dict(name="storage", meaning="identifier to control packet")],
  observe="content of the storage at the moments bytes are written and calls return"),
 dict(id="C10", title="Keep-alive times out when it must, and only then",
  statement="The effective interval is the server's Server Keep Alive if present, otherwise the one sent in CONNECT, and the client reports it; interval 0 disables the timeout. A Poll that starts later than twice the interval after the last PINGRESP was received (or, before any, after the connection was established) closes the connection and returns the keep-alive timeout reason, and no Poll does so earlier. A KeepAlive whose PINGREQ the network does not take gives up after a bounded time instead of waiting for ever.",
  over=["schedules", "fault_sequences", "configurations"],
  qtext="every combination of intervals, silence and late responses of the server, and poll timing",
  tests=TESTS + "nothing in them depends on time.",
  files=[CL],
  mech=[m("Client.Connect, Client.KeepAliveInterval, Client.Poll (deadline and PINGRESP)", CL)],
  state=[dict(name="ping response deadline", meaning="when the server counts as gone")],
  observe="results of Poll and the state of the connection, against virtual time"),
 dict(id="C11", title="No call blocks for ever or fails without a reason",
  statement="No interleaving deadlocks the client: while the application polls and the server answers, every call returns; a call whose context is cancelled or past its deadline returns promptly; and once the connection is lost or disconnected every blocked call returns an error. A call that fails on a working connection to a conforming server has a cause the application can see: its context, its arguments, a storage failure, or the server's answer.",
  over=["schedules", "fault_sequences", "histories"],
  qtext="every interleaving of up to four callers with polling, at every point of connection loss, stall, cancellation and unexpected acknowledgements",
  tests=TESTS + "no test has a second goroutine.",
  files=[CL],
  mech=[m("lock order connMutex, mutex, eventMutex", CL), m("Client.acquireSendQuota, Client.awaitResponse, Client.closeConnection", CL)],
  observe="calls that have not returned within a bounded time after the faults stopped"),
 dict(id="C12", title="No input from the server crashes, hangs or fools the client",
  statement="Whatever bytes the server sends, no call panics, aborts the process or loops without end, and Poll never blocks beyond the end of the data. Malformed packets (bad lengths, bad variable integers, truncated fields, unknown properties, forbidden types) make Poll or Connect return an error and close the connection, and are never reported as an event.",
  over=["inputs", "schedules", "fault_sequences"],
  qtext="every byte string a server could send, in any fragmentation, at any point of the conversation and alongside any API calls",
  tests=TESTS + "no hostile input is ever decoded.",
  files=[CL, P, PR],
  mech=[m("Client.Poll, Client.readPacket, Client.Connect", CL), m("ReadFrom of the control packets", P), m("VariableByteInt.ReadFrom, PrimitiveString.ReadFrom", PR)],
  observe="panics, step counts, results of Poll, events"),
 dict(id="C13", title="The client is free of data races under concurrent use",
  statement="Any exported methods of one client and of the storage may be called from any goroutines at the same time: no two accesses to shared memory of which one is a write are unordered by synchronisation. The one documented rule is that a packet passed to a call belongs to it until it returns.",
  over=["schedules"],
  qtext="every interleaving of concurrent calls of all exported methods with polling, connection failures and incoming traffic",
  tests=TESTS + "they run on one goroutine, so even the race detector could not see anything.",
  files=[CL, "mqtt/storage/memory/memory.go"],
  mech=[m("connMutex, mutex, eventMutex and the atomic connection state", CL), m("Storage.mutex", "mqtt/storage/memory/memory.go")],
  observe="happens-before relation over the accesses to fields and maps"),
 dict(id="C14", title="The connection handshake is all or nothing",
  statement="Connect sends CONNECT once and returns nil only after a CONNACK with a success reason was received; only then is the client connected and may anything else be sent. If the server refuses, answers with anything else, sends garbage, closes or does not answer before the deadline, Connect returns an error (the server's reason code if there is one), the client is not connected and the network connection is closed; a second Connect while connected is refused and sends nothing, and every other call on a client that is not connected returns the not-connected error and sends nothing.",
  over=["inputs", "schedules", "fault_sequences"],
  qtext="every answer of the server to CONNECT, every cut, delay and fragmentation of it, with calls before, during and after",
  tests=TESTS + "Connect is never called.",
  files=[CL, P + "/connack.go", P + "/connect.go"],
  mech=[m("Client.Connect, Client.IsConnected", CL), m("Connack.ReadFrom", P + "/connack.go")],
  observe="wire, result of Connect, IsConnected, results of later calls"),
 dict(id="C15", title="Subscribe and Unsubscribe return the answer to their own request",
  statement="Subscribe and Unsubscribe return nil only after the acknowledgement carrying the identifier of their own packet arrived and grants every filter; a failure reason code for any filter is returned as that reason code. Concurrent calls, out-of-order, late or duplicate acknowledgements never give one call the answer to another, and an acknowledgement nobody waits for any more does no harm. An acknowledgement of the wrong type, or with more or fewer reason codes than the request has filters, is never taken as success.",
  over=["schedules", "histories", "fault_sequences"],
  qtext="every interleaving of concurrent requests, every order, delay and duplication of their acknowledgements, every reason code, cancellations in between",
  tests=TESTS + "no request is ever answered.",
  files=[CL, P + "/suback.go", P + "/unsuback.go"],
  mech=[m("Client.Subscribe, Client.Unsubscribe, Client.beginRequest, Client.takeRequest, Client.awaitResponse", CL)],
  state=[dict(name="pending requests", meaning="identifier to waiting call")],
  observe="results of the calls against the acknowledgements on the wire"),
 dict(id="C16", title="A connection that has ended stays ended, and everybody can tell",
  statement="After Disconnect returned nil, after the server's DISCONNECT was processed, or after Poll returned an error for the connection, the network connection is closed, the client reports that it is not connected, nothing more is written, and every further call returns the not-connected error. While nothing has ended the connection the client reports that it is connected; an end is always reported by an error or by a DISCONNECT event, never silently. A Disconnect that returns nil is also signalled as a DISCONNECT event, as the documentation of the event channels says.",
  over=["schedules", "fault_sequences", "histories"],
  qtext="every way a connection can end (either side, reset, end of stream, timeouts, protocol errors, write failures) at every point and interleaving",
  tests=TESTS + "no connection exists in them.",
  files=[CL],
  mech=[m("Client.closeConnection, Client.DisconnectWithSessionExpiry, Client.disconnectWithReason, Client.Poll", CL)],
  observe="state of the net.Conn, IsConnected, results of later calls"),
 dict(id="C17", title="Packet identifiers are never zero and never shared by open exchanges",
  statement="Every SUBSCRIBE, UNSUBSCRIBE and QoS 1 or QoS 2 PUBLISH the client sends carries a non-zero packet identifier which, when the client chose it, belongs to no other request or publish of this client that is still unacknowledged, including publishes kept in the storage from an earlier connection. This holds for any random number source, and the identifier chosen for a publish is reported in the caller's packet.",
  over=["schedules", "histories", "inputs", "configurations"],
  qtext="every random number source (constant, zero, colliding in 16 bits), every number of concurrent requests and publishes, every history of acknowledgements and reconnects",
  tests=TESTS + "identifiers are never generated.",
  files=[CL],
  mech=[m("Client.newPacketIdentifier, Client.preparePublish, Client.beginRequest", CL)],
  observe="identifiers on the wire"),
 dict(id="C18", title="Event channels work from creation to closing, whatever their readers do",
  statement="An event channel that is bound to no filter receives every event signalled between its creation and its closing, in order, as long as its buffer (of the requested capacity, at least 1) has room; a channel nobody reads neither blocks the client nor affects other channels. Closing a channel ends it exactly once, closes its event stream, signals its done channel, and is harmless when repeated or concurrent with delivery; nothing else closes a channel except the unsubscription of its last filter.",
  over=["schedules", "histories"],
  qtext="every interleaving of creating, reading, closing and binding channels with event delivery, every capacity and reader speed",
  tests=TESTS + "no event channel is created.",
  files=[CL, "mqtt/events.go"],
  mech=[m("Client.CreateEventChannel, Client.CloseEventChannel, Client.closeEventChannelInternal, Client.signal", CL)],
  observe="events and closing of each channel, against a reference model"),
 dict(id="C19", title="The memory storage is linearizable",
  statement="Concurrent Store, Get and Drop calls on the memory storage behave as if executed one at a time, each at some instant between its call and its return: Store of an identifier that is present fails with the duplicate error and changes nothing, Get and Drop of one that is absent fail with the no-entry error, and Get returns the very packet stored.",
  over=["schedules", "histories"],
  qtext="every interleaving of concurrent calls from up to four goroutines on few identifiers",
  tests=TESTS + "the storage has no test.",
  files=["mqtt/storage/memory/memory.go", "mqtt/storage/storage.go"],
  mech=[m("Storage.Store, Storage.Get, Storage.Drop", "mqtt/storage/memory/memory.go")],
  observe="results of the calls, checked against a sequential map"),
 dict(id="C20", title="Stored messages can be sent again after a reconnect, with full effect",
  statement="After a reconnect (or a crash that only the storage survived) to a server that resumed the session, every stored, unacknowledged PUBLISH and every stored release is sent again. A stored PUBLISH that the application publishes again with its identifier and the DUP flag is accepted, sent with the same identifier, content and DUP, counted against the send quota, kept in the storage until it is acknowledged, and then completes like any other publish. Publishing something else under the identifier of a stored message is refused.",
  over=["crash_points", "histories", "fault_sequences", "schedules"],
  qtext="every point at which the connection is lost or the process crashes, every set of unacknowledged messages, resumed and lost sessions",
  tests=TESTS + "no reconnect and no storage appear in them.",
  files=[CL, "mqtt/storage/memory/memory.go"],
  mech=[m("Client.preparePublish, Client.Publish", CL)],
  observe="wire and storage over several connections"),
 dict(id="C21", title="A control packet written to a disk is restored from it, or an error is returned",
  statement="WriteTo of any client or acknowledgement packet (CONNECT, PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBSCRIBE, UNSUBSCRIBE, DISCONNECT, AUTH) whose contents MQTT 5 can express writes exactly one well-formed control packet with those contents and returns the number of bytes written; contents it cannot express are refused with an error. Reading such bytes of PUBLISH, PUBACK, PUBREC, PUBREL, PUBCOMP, DISCONNECT or AUTH with ReadFrom (after the fixed header, or for PUBLISH including it) yields an equal packet, consumes exactly its bytes and returns their number, however the reader splits them. If the writer or the reader fails at any byte, or the record was torn by a crash, the call returns an error; it never panics and never hangs.",
  over=["inputs", "fault_sequences", "crash_points"],
  qtext="all packet contents (all properties, strings up to 65535 bytes, lengths at every size of the length fields), every division of the bytes into reads, every byte at which the disk fails, fills up or a record is torn",
  tests=TESTS + "no packet is encoded or decoded.",
  files=["mqtt/packets/publish.go", "mqtt/packets/puback.go", "mqtt/packets/connect.go", "mqtt/packets/subscribe.go", "mqtt/packets/unsubscribe.go", "mqtt/packets/disconnect.go", "mqtt/packets/auth.go", "mqtt/packets/packet.go", "mqtt/packets/primitives/string.go"],
  mech=[m("Publish.WriteTo, Publish.ReadFrom", "mqtt/packets/publish.go"), m("Puback.WriteTo, Puback.ReadFrom", "mqtt/packets/puback.go"), m("FixedHeader.WriteTo, FixedHeader.ReadFrom", "mqtt/packets/packet.go")],
  observe="bytes written to and read from a simulated disk, results of the calls"),
]

notes = {
 "C21": "Seeded search over packet contents, disk faults, torn records and divisions of the bytes into reads, on the real packet code; written bytes are judged by an independent decoder. Samples, does not enumerate.",
 "C19": "Seeded search over task interleavings of concurrent storage calls on the real memory storage; every history is checked for linearizability against a map. Samples schedules, does not enumerate them.",
}
base_note = "Seeded search over schedules, network timing, faults and workloads of the real client and packet code against a simulated MQTT 5 server; a clean batch is evidence, not proof. Trusts the source rewriting that inserts the scheduling points, sequential consistency between them, and the server and transport models."

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in props:
        a = dict(files=p["files"], mechanism=p["mech"], observe_at=[p["observe"]], hook_needed=None)
        if "state" in p:
            a["state"] = p["state"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
            quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["tests"], anchors=a)) + "\n")

man = dict(version=1, setup_cmd="bin/setup.sh",
  checks=[dict(property=p["id"], quick_cmd="bin/check.sh %s quick" % p["id"], thorough_cmd="bin/check.sh %s thorough" % p["id"],
    technique="deterministic simulation with fault injection, seeded random search" + (", linearizability check" if p["id"] == "C19" else ""),
    level="exploration", level_note=notes.get(p["id"], base_note)) for p in props],
  not_applicable=[],
  notes="No hooks in /repo: bin/build.sh rewrites the sources of /repo's working tree into a build overlay (go build -overlay) that routes sync, time, context, math/rand, channels, goroutines and shared accesses to the simulator.")
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
for p in props:
    assert len(p["title"]) <= 80, p["id"]
