#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one compact literal per property)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

# ------------------------------------------------------------------ encoding / messages
prop("A01", "Records survive an encode/decode round trip",
 "For every built-in record type and every combination of attributes set on it (explicit zero or empty values, largest integers, arbitrary text, and times from the epoch on included), encoding the record and decoding the result gives a record of the same type with exactly the same attributes set to the same values, times to the microsecond. An attribute that was not set is not set in the result. The result shares nothing with other decoded records or with its encoded form. This holds in memory as well as across the binary AMQP form.",
 ["inputs"], "all record types x all subsets of attributes x all values",
 "The tests encode and decode a handful of site, router and link records; most record types and almost all attributes are never encoded, and no explicit zero value is.",
 ["encoding/encoder.go", "encoding/decoder.go", "encoding/encoding.go", "records.go", "base.go"],
 [("per-type field tables walked by reflection, with per-kind attribute encoders and decoders", "encoding/encoding.go encode/decode, encoding/encoder.go, encoding/decoder.go"), ("microsecond time codec", "base.go Time")],
 observe=["encoding.Encode / encoding.Decode", "vanflow.Decode over amqp.Message marshal/unmarshal"])
prop("A02", "Record types and attributes keep their protocol codes and wire types",
 "On the wire a record is a map keyed by unsigned 32-bit protocol codes: code 0 holds the record type's code and every attribute that is set sits under the code the VanFlow protocol assigns to it, as a string or an unsigned 64-bit integer, times being microseconds since the Unix epoch. The map holds nothing else. Decoding reads each attribute from that same code, whichever peer wrote it.",
 ["inputs"], "all record types, all attributes, all values",
 "A swapped or moved attribute code round-trips perfectly within one build, so only peers see it; the tests pin five codes of two record types.",
 ["records.go", "base.go", "encoding/encoding.go"],
 [("codes in struct tags and in the type registration list", "records.go"), ("type code written under code 0", "encoding/encoder.go Encode")],
 observe=["encoding.Encode output", "AMQP bytes of an encoded record message"])
prop("A03", "Malformed input is refused, never crashes and is never half-decoded",
 "Decoding any AMQP message or attribute map, however malformed, and encoding any value, however invalid, returns to the caller instead of crashing. Data that breaks the rules (unknown or missing record type, missing identity, an attribute with a null or wrongly typed value, an unrepresentable time, a body that is not a list of maps, an element of a type that is no record, an unknown or missing subject, an unregistered or nil record) is reported as an error. What decodes without error holds only values present in the input.",
 ["inputs"], "all messages and attribute maps a peer can send, all values a caller can pass",
 "Input space is unbounded and hostile; the tests feed about twenty hand-written malformed maps and none with a null attribute.",
 ["messages.go", "encoding/decoder.go", "encoding/encoder.go", "base.go"],
 [("type and presence checks in the decoders", "encoding/decoder.go, messages.go decodeRecords"), ("time range checks", "base.go")],
 observe=["return values of vanflow.Decode, encoding.Decode, encoding.Encode, RecordMessage.Encode"])
prop("A04", "Protocol messages keep their content and addressing",
 "A beacon, heartbeat, flush or record message that is encoded and then decoded, directly or through its binary AMQP form, keeps every field: version, source type, addresses, identity, timestamp, a flush's destination and reply address, a record message's destination, and the records in number, order and content. Beacons are addressed to the shared beacon address, heartbeats to their source's own address, and each kind carries its own subject, by which a receiver tells them apart. Encoding one message does not influence another.",
 ["inputs"], "all field values, all lists of records of all types",
 "One fixed value per message kind is tested and only in memory; record messages are tested with three records.",
 ["messages.go"],
 [("per-kind encode and decode", "messages.go")],
 observe=["vanflow.Decode", "amqp.Message properties and application properties"])
prop("A05", "Caller-defined record types are first-class and cannot collide",
 "Any struct type made of the supported attribute kinds (plain, optional, embedded, with custom attribute codecs) can be registered and then encodes and decodes like the built-in ones, with its required attributes enforced both ways. A registration that reuses a type code, a type or an attribute code, or uses an unsupported attribute kind, is refused and leaves every earlier registration working. Registering types while other goroutines encode and decode is safe.",
 ["inputs", "schedules"], "all struct shapes over the supported kinds, all interleavings of registration with use",
 "Two hand-written struct types are tested, sequentially.",
 ["encoding/encoding.go", "encoding/encoder.go", "encoding/decoder.go"],
 [("registry guarded by one lock", "encoding/encoding.go MustRegisterRecord"), ("duplicate checks before any table is changed", "encoding/encoding.go")],
 state=[("type registry", "types by code and codes by type", "encoding/encoding.go")],
 observe=["encoding.MustRegisterRecord", "encoding.Encode/Decode"])
prop("A06", "Records and store entries survive their JSON form",
 "A record, and a store entry holding one, put into JSON and read back keeps every attribute exactly: explicit zeros and empty texts stay set, large integers keep every digit, times keep their microseconds (those past the year 9999 included), and unset attributes stay unset. The form stays the one captures of earlier versions and other tools rely on: attributes under their field names, text as strings, counters as numbers, times as RFC 3339 text or as integers of microseconds. Values that do not fit an attribute are refused, never read as something else.",
 ["inputs"], "every record type, every set of attributes, every value of each attribute; all JSON forms written by others",
 "Captures are fixed files in the tests; no test round-trips records through JSON.",
 ["base.go", "records.go", "store/store.go", "cmd/vanflow-tool/api.go"],
 [("records are plain structs whose JSON names are their field names", "records.go"), ("times are written as RFC 3339 text while the year has four digits", "base.go Time.MarshalJSON")],
 observe=["json.Marshal and json.Unmarshal of records and store.Entry"])
# ------------------------------------------------------------------ store
prop("B01", "Store operations are linearizable",
 "Under any concurrent use, every add, update, delete, accumulate, replace, get, list and index query of a store takes effect atomically at one instant between its call and its return, as on a plain map of entries by key. Adding succeeds only when the key is absent; get and list report exactly the entries present, and of several entries given to replace under one key the last stays.",
 ["schedules", "histories"], "all interleavings of all operations over shared keys",
 "All store tests are single-threaded.",
 ["store/cache.go", "store/internal/cache.go", "store/internal/conditional.go"],
 [("one read-write lock around map, versions and indexes", "store/internal/cache.go"), ("conditions evaluated under the same lock as the write", "store/internal/cache.go Update/Patch")],
 state=[("items", "entry and version by key", "store/internal/cache.go")],
 observe=["store.Interface calls and results"])
prop("B02", "Index queries agree with the stored entries",
 "After any history of operations, querying an index returns exactly the stored entries that share an index value with the given example, each once and in its current state, and the listed values of an index are exactly those of the stored entries. No query returns an entry that was deleted, replaced away or moved to another value. An unknown index is an error.",
 ["histories", "schedules", "configurations"], "all operation histories, index functions with none, one or many values per entry",
 "No test queries an index at all.",
 ["store/internal/cache.go", "store/internal/index.go", "store/cache.go"],
 [("re-index on every write, un-index on delete, rebuild on replace", "store/internal/cache.go reindex/unindex")],
 state=[("indicies", "keys by index value by index name", "store/internal/cache.go")],
 observe=["Index, IndexValues against List"])
prop("B03", "A conditional update never overwrites an unseen change",
 "An update made conditional on an entity tag succeeds if and only if the entry is still the very one the tag was read from, not since modified, replaced, deleted or re-created. When several clients race with the same tag, at most one succeeds. A refused or malformed condition changes nothing and is reported as an error.",
 ["histories", "schedules"], "all histories between the read and the conditional update, all races of conditional updates",
 "One sequential case is tested: two updates with one tag.",
 ["store/etag.go", "store/cache.go", "store/internal/cache.go", "store/internal/conditional.go"],
 [("version counter compared under the write lock", "store/internal/conditional.go, store/internal/cache.go")],
 state=[("Version", "version of an entry, carried by the tag", "store/internal/cache.go")],
 observe=["Get ETag, Update result, following Get"])
prop("B04", "Accumulated state is the attribute-wise merge of what was reported",
 "After any sequence of accumulated partial records, an entry holds for each attribute the value reported last for it, and attributes not mentioned keep their value. A report that changes nothing leaves the entry, its update time and its entity tag untouched, and a change keeps the entry's source and annotations and sets its update time to the moment of the change, as adding and updating do. A report that cannot be merged is an error and changes nothing. Records with different keys, under whatever key function is configured, never affect each other, and accumulate, get, add, update and delete agree on an entry's key.",
 ["histories", "inputs", "configurations"], "all sequences of partial records of all types, all key functions",
 "One record type with two attributes and five steps is tested, only with the default key.",
 ["store/patcher.go", "store/cache.go"],
 [("attribute-set overlay", "store/patcher.go Patch"), ("no-change detection", "store/patcher.go")],
 observe=["Accumulate followed by Get/List"])
prop("B05", "Store event callbacks report every change exactly once",
 "Each add, update, accumulate and delete that changes the store calls exactly one matching callback, with the entry before and after as they were at that instant, and an operation that changes nothing or fails calls none. Under concurrency the callbacks of a key link up into one gap-free chain from absence to its present state. Calling back into the store from a callback is safe.",
 ["histories", "schedules", "fault_sequences"], "all operation histories including failing operations, all interleavings",
 "Five single sequential operations are tested, without errors.",
 ["store/cache.go", "store/internal/cache.go"],
 [("delta computed under the lock, callback after it", "store/cache.go, store/internal/cache.go Delta")],
 observe=["OnAdd, OnChange, OnDelete"])
prop("B06", "Listing is ordered and paging visits every entry exactly once",
 "A selection is sorted by key in the requested direction and honours offset and limit exactly. Following continue tokens to the end visits every entry once, in order, in pages no larger than the limit, ending with an empty token, for every page size, for list and index queries alike. Entries that stay in the store during the walk are never skipped or repeated, even while others come and go; a malformed token is an error.",
 ["inputs", "histories"], "all store contents, offsets, limits, orderings, and modifications between pages",
 "One walk over 100 entries with one page size, ascending, is tested, with no concurrent change.",
 ["store/cache.go", "store/continue.go"],
 [("sort, offset, limit and token", "store/cache.go applySelector"), ("token codec", "store/continue.go")],
 observe=["List/Index results and continue tokens"])
prop("B07", "Records are dispatched to exactly the store registered for their type",
 "Each record of a message is accumulated once, in message order, into the store registered for its type, attributed to the dispatcher's source. Records of types without a store are ignored, and a record that its store rejects does not keep the others from theirs. Later registrations do not affect dispatchers already created.",
 ["inputs", "configurations", "fault_sequences"], "all messages, registrations and store failures",
 "The dispatcher has no test.",
 ["store/dispatch.go"],
 [("map from type to accumulator copied per dispatcher", "store/dispatch.go")],
 observe=["calls received by registered stores", "store contents"])
prop("B08", "Entries handed out are stable snapshots",
 "An entry obtained from a store, through a query or an event callback, is never changed by later operations on the store, and readers running concurrently with writers see each entry entirely before or entirely after a write, never a mixture.",
 ["schedules", "histories"], "all later operations and all interleavings",
 "No test keeps a result while the store changes, nor reads concurrently with writes.",
 ["store/patcher.go", "store/internal/cache.go", "store/cache.go"],
 [("copy-on-write of records and entries", "store/patcher.go, store/internal/cache.go")],
 observe=["retained entries re-examined after further operations"])
# ------------------------------------------------------------------ event sources: client
prop("C01", "A listening client hands every message to every handler once, in order",
 "Every well-formed record and heartbeat message that reaches an address a client listens to is accepted and passed exactly once, in arrival order and unaltered, to every handler of its kind registered by then. Malformed or unrelated messages and transient receive or accept errors are skipped without disturbing later messages. A client can listen to several addresses at once, each the one chosen for its source.",
 ["inputs", "schedules", "fault_sequences"], "all message sequences on all listened addresses with all receive errors",
 "The tests send twenty well-formed messages to one address.",
 ["eventsource/client.go"],
 [("receive loop per listener", "eventsource/client.go Listen")],
 observe=["handler invocations", "accepted deliveries"])
prop("C02", "Closing a client stops it completely and never hangs",
 "Closing a client returns promptly whatever messages are in flight, however many listeners it has and however often it is closed; once it has returned no handler runs and every listener has closed its receiver. Cancelling the context of one listener stops that listener alone.",
 ["schedules"], "all instants of closing or cancelling relative to message delivery and to other closings",
 "One close of an idle client is tested.",
 ["eventsource/client.go", "eventsource/discovery.go"],
 [("per-listener cancel functions and a wait group", "eventsource/client.go Close")],
 state=[("cleanup", "pending cancel functions", "eventsource/client.go")],
 observe=["return of Close", "handler invocations after it", "receivers closed"])
prop("C03", "Flush requests are sent exactly when asked for",
 "Asking a client to flush sends exactly one flush message to the direct address of its source, and reports a failure to send. Flush-on-first-message sends exactly one flush, after the first record or heartbeat message has been handled and not before, however many messages arrive and however they race; if its context ends first it sends none and says so. The temporary sender is released.",
 ["schedules", "fault_sequences"], "all arrival schedules, send failures and cancellations",
 "Four fixed scenarios are tested, with one kind of first message.",
 ["eventsource/client.go", "eventsource/flush.go"],
 [("one-shot latch on the first message", "eventsource/flush.go"), ("short-lived sender", "eventsource/client.go SendFlush")],
 observe=["messages on the direct address", "return values", "senders closed"])
# ------------------------------------------------------------------ discovery
prop("D01", "Discovery tracks sources and announces each change once, in order",
 "The set of known sources is always that obtained by applying beacons, additions and removals one at a time: a source is discovered by its first beacon or addition with that content, later ones only refresh it, and removal forgets it. Each change of membership is announced by exactly one callback, and for each source the callbacks alternate discovered and forgotten in the order in which the changes happened. Bursts of any size, slow callbacks and callbacks that call back into discovery never block it.",
 ["histories", "schedules", "inputs"], "all sequences and interleavings of beacons, additions, removals and callbacks",
 "Two sources are discovered and one forgotten; bursts beyond the event buffer, re-discovery and re-entrant callbacks are never tested.",
 ["eventsource/discovery.go"],
 [("state map under a lock with event queue to the callback loop", "eventsource/discovery.go observe/Add/Forget/handleDiscovery")],
 state=[("state", "known sources by identity", "eventsource/discovery.go")],
 observe=["Get, List, Add, Forget", "Discovered and Forgotten callbacks"])
prop("D02", "A watched source is forgotten exactly when it has gone silent",
 "A watched source is not forgotten while its client has received a heartbeat or record within the timeout, nor before grace period plus timeout when it was never heard; once silent for that long it is forgotten within one further update interval or timeout, whichever is shorter. Its last-seen time follows the activity within an update interval and never goes back. When the watch ends, by forgetting or cancellation, its client is closed, and without a timeout the source is never forgotten.",
 ["schedules", "configurations", "histories"], "all activity schedules and all timeout, grace and interval settings",
 "One schedule with one setting, in real time, is tested.",
 ["eventsource/discovery.go"],
 [("watch timer, update ticker and last-seen pointer", "eventsource/discovery.go watch.run")],
 state=[("lastSeen", "latest client activity", "eventsource/discovery.go")],
 observe=["Discovery.Get LastSeen", "Forgotten callback time", "client receivers closed"])
prop("D03", "Discovery survives anything sent to the beacon address",
 "No message on the beacon address, whatever its properties, subject, body or field types, stops or crashes discovery; whatever is not a beacon adds no source. Failing to accept a message does not lose its beacon, and beacons that follow are processed as usual. Discovery ends only with its context or when receiving fails, and then reports why.",
 ["inputs", "fault_sequences"], "all messages any peer can send to the shared multicast address",
 "Only well-formed beacons are sent in tests.",
 ["eventsource/discovery.go", "messages.go"],
 [("subject check and tolerant beacon decoding", "eventsource/discovery.go Run, messages.go DecodeBeacon")],
 observe=["Discovery.List", "Run's return"])
# ------------------------------------------------------------------ manager
prop("M01", "Published updates are sent once, in order, as minimal deltas",
 "Every published change of a record is sent exactly once and in publication order, carrying the record's type, identity and exactly the attributes whose values differ from the previous state, or everything for a new record; an update that changes nothing sends nothing. A message carries at most the configured number of updates, and an update waits for a batch to fill no longer than the configured time.",
 ["inputs", "schedules", "configurations"], "all update sequences, arrival timings and batch settings",
 "Publishing updates is not tested.",
 ["eventsource/manager.go"],
 [("diff of attribute sets", "eventsource/manager.go diffRecord"), ("batching loop and FIFO queues", "eventsource/manager.go serve/sendRecords")],
 observe=["record messages on the source address, with virtual time"])
prop("M02", "Every flush request is answered by a complete dump of the source's records",
 "After each flush request the manager sends every record held in its stores, each exactly once per dump, in messages no larger than the configured batch; a record present before the request and until the answer is never missing. Requests arriving within the flush delay share one dump which starts no later than the delay after the first, and none is lost. Without a request nothing is dumped.",
 ["schedules", "histories", "configurations"], "all flush timings, store contents, batch sizes and delays, with concurrent changes",
 "The manager's flush handling has no test.",
 ["eventsource/manager.go", "store/cache.go"],
 [("flush queue, delay drain and paged walk of the stores", "eventsource/manager.go serve/listenFlushes")],
 observe=["flush messages in, record messages out, with virtual time"])
prop("M03", "A running source keeps announcing itself",
 "A running manager sends a beacon at once and then every beacon interval, and a heartbeat every heartbeat interval to the source's own address or its heartbeat address as configured, with the configured identity, version, type, addresses and the current time. This goes on whatever becomes of individual sends: a peer that takes no heartbeats or fails a send delays beacons by at most a few intervals and never ends them.",
 ["schedules", "configurations", "fault_sequences"], "all interval settings, all sequences of blocked, failing and slow sends",
 "Keepalives are not tested; the tests' heartbeats come from the test itself.",
 ["eventsource/manager.go"],
 [("two tickers, per-send timeout", "eventsource/manager.go sendKeepalives/sendWithTimeout")],
 observe=["beacons and heartbeats sent, with virtual time"])
prop("M04", "A cancelled manager stops completely",
 "When its context is cancelled, at whatever moment and whatever the manager is doing (announcing itself for the first time, waiting for a batch or a flush delay, dumping, blocked on a peer), it returns, sends nothing further, closes its senders and receiver, and leaves no goroutine behind or spinning.",
 ["crash_points", "schedules"], "all instants of cancellation",
 "No test cancels a manager.",
 ["eventsource/manager.go"],
 [("context checks at each blocking point", "eventsource/manager.go")],
 observe=["return of Run", "goroutines left", "senders and receivers closed"])
prop("M05", "One bad record, store or receive error does not stop the source",
 "A record that cannot be encoded, a store that fails to list, a failed send or a failed receive affects only itself: the other records of the batch or dump, the other stores, later updates, flushes, beacons and heartbeats are handled as usual. An update whose previous state could not be encoded carries the current state in full. A receive error is not taken for a flush request.",
 ["fault_sequences"], "all placements of failing records, stores, sends and receives",
 "No test injects a failure into the manager.",
 ["eventsource/manager.go", "messages.go"],
 [("error handling of the send, list and receive loops", "eventsource/manager.go")],
 observe=["record messages sent", "dumps without request"])
# ------------------------------------------------------------------ end to end
prop("X01", "Collectors converge to the state of the sources",
 "After any history of record changes published by sources, with collectors joining at any time and discovering, listening and flushing as the tools do, every collector's store holds, within a bounded time after the changes stop, exactly the sources' records with their latest attribute values, attributed to the right source. Nothing a source never had appears in a collector.",
 ["histories", "schedules", "configurations"], "all change histories, numbers of sources and collectors, joining times and settings",
 "No test connects manager, client, discovery and store.",
 ["eventsource/manager.go", "eventsource/client.go", "eventsource/discovery.go", "eventsource/flush.go", "store/dispatch.go", "store/patcher.go", "messages.go", "session/mock.go"],
 [("delta updates plus flush on first message", "eventsource/manager.go, eventsource/flush.go"), ("merge in the store", "store/patcher.go")],
 observe=["collector stores against source stores at quiescence"])
# ------------------------------------------------------------------ session
prop("N01", "Links recover from every connection, session and link failure",
 "After any sequence of failures (refused or dropped connections, ended sessions, detached links, at any protocol step), once the peer is healthy again senders and receivers of a container work again without being recreated. A session that has not failed is kept, whatever comes late of earlier ones. A receive call only ever returns a message or its caller's own cancellation; messages of one connection arrive once and in order, and accepting one settles that very message. A send that reports success was accepted by the peer.",
 ["fault_sequences", "crash_points", "schedules"], "all failure sequences at all protocol steps",
 "The tests that touch a real connection are skipped without an external router, and none injects a failure.",
 ["session/container.go"],
 [("session generations, hand-over to links and retry", "session/container.go Start/awaitNextSession/handleError")],
 state=[("gen", "generation of the current session", "session/container.go")],
 observe=["results of Next/Accept/Send", "frames seen by a scripted AMQP peer"])
prop("N02", "Receivers honour the credit they were asked for",
 "A receiver never has more unsettled messages outstanding than the credit its user asked for: what it offers and what is outstanding together never exceed that number, start at exactly it whenever the link attaches, again after every reconnection, and are topped up as messages are settled, so that it never starves; without a request it offers the small default of one.",
 ["configurations", "fault_sequences"], "all credit settings, all message and reconnection histories",
 "Credit is invisible to the mock container all tests run on.",
 ["session/container.go", "eventsource/client.go", "eventsource/manager.go"],
 [("receiver options passed to the AMQP link", "session/container.go ReceiverOptions/getReceiver")],
 observe=["link credit in flow frames seen by a scripted AMQP peer"])
prop("N03", "Blocking calls end with their context and disturb nobody else",
 "Every send, receive, accept and close returns promptly once its context is done, in every state of the container: not started, connecting, backing off, connected with a silent peer, or stopped, and with any number of links. A call that ends this way does not disrupt the session: other links carry on undisturbed and the link itself stays usable.",
 ["schedules", "fault_sequences"], "all container states, numbers of links and instants of cancellation",
 "Cancellation is only tested against the mock container.",
 ["session/container.go"],
 [("context selects at each wait", "session/container.go awaitNextSession/handleError")],
 observe=["return of the calls", "sessions seen by a scripted AMQP peer"])
prop("N04", "Connections and links do not leak",
 "Closing a sender or receiver detaches its link from the peer and makes further use fail at once, even when it races with use. A container keeps at most one established connection: connections whose session failed or was superseded are closed, and after its context ends none is left open.",
 ["fault_sequences", "schedules"], "all failure histories and instants of closing",
 "Leaks at the peer cannot be seen with the mock container.",
 ["session/container.go"],
 [("teardown of the previous session", "session/container.go Start"), ("link close", "session/container.go Close")],
 observe=["attach/detach and open connections at a scripted AMQP peer", "errors after Close"])
prop("N05", "Session failures are reported to every handler, and retries follow the policy",
 "Every failed connection attempt and every lost session is reported to all registered session-error handlers as a retryable error with the delay the configured backoff policy gave; giving up is reported once, as a non-retryable error, and is followed by no further attempt. A stop by its own context is not reported as giving up. The policy starts afresh after messages have flowed or a session has lasted 30 s or more, and handlers may call back into the container.",
 ["fault_sequences", "configurations"], "all failure sequences and backoff policies",
 "Error handlers and backoff are not tested.",
 ["session/container.go"],
 [("retry loop with notification", "session/container.go Start"), ("backoff reset on success", "session/container.go notifyOK")],
 observe=["handler calls", "connection attempts at a scripted AMQP peer"])
prop("N06", "The in-memory router delivers like a multicast router",
 "The in-memory container passes every message sent to an address to each receiver open on it, exactly once and in sending order, and to nobody else; a send to an address nobody has listened on yet waits for the first receiver or for its context, later ones go to whoever is there. Closed receivers and cancelled senders never hold up others: a send to a full or closing receiver ends when the receiver makes room, closes, or the sender's context is done.",
 ["schedules", "fault_sequences"], "all interleavings of sends, subscriptions, closings and cancellations",
 "One sender and one receiver exchanging 64 messages are tested.",
 ["session/mock.go"],
 [("per-address receiver lists", "session/mock.go multicast")],
 observe=["messages received per receiver", "return of Send"])
prop("N07", "Containers connect as configured, every time, and pass messages whole",
 "Every connection of a container, the first and each later one, goes to the configured address and announces the configured container identity (one of its own when none is configured, never shared by two containers of a factory) and maximum frame size (64 KiB by default); it authenticates with SASL EXTERNAL exactly when configured, and for amqps addresses AMQP is spoken only inside TLS with a peer that the configured TLS settings accept (authorities, expected name, versions, callbacks), presenting the configured client certificate. The user's TLS settings are not modified and can be shared. Messages of any size with any header, properties and body pass whole and unmodified in both directions, in frames no larger than the peer allows.",
 ["configurations", "fault_sequences"], "all container configurations, peer certificates, reconnection histories and messages",
 "The tests use the mock container, which has no configuration; no test makes a TLS or SASL connection.",
 ["session/container.go", "session/factory.go"],
 [("options of every dial", "session/container.go toAmqp/Start"), ("containers of a factory", "session/factory.go factory.Create"), ("messages passed on", "session/container.go Next/Send")],
 observe=["TLS handshakes, SASL and open frames seen by a scripted AMQP peer", "messages sent and received"])
# ------------------------------------------------------------------ races
prop("R01", "Concurrent use is free of data races",
 "Using containers, links, clients, discovery, managers, stores and codecs from many goroutines at once, as their interfaces allow and as the tools do, through reconnections, closings and cancellations, involves no data race, no concurrent map access and no crash.",
 ["schedules"], "all interleavings of the public operations",
 "The tests run without the race detector and mostly sequentially.",
 ["session/container.go", "session/mock.go", "eventsource/client.go", "eventsource/discovery.go", "eventsource/manager.go", "store/cache.go", "store/internal/cache.go", "encoding/encoding.go", "cmd/vanflow-tool/fixture.go", "cmd/vanflow-tool/serve.go"],
 [("mutexes and channels of each component", "throughout")],
 observe=["Go race detector over the real code and tools"])
# ------------------------------------------------------------------ tools
prop("T01", "The collector tool serves exactly what the sources reported",
 "The serve command's HTTP views show exactly the records collected from the network: the root lists all of them, each per-type view those of its type, and the source view the sources presently known, with every attribute value and the reporting source intact; record kinds switched off by flags are left out. Records of different types never hide one another, even with equal identities. Every source is asked for its records when it is discovered. Unknown paths are answered with not-found.",
 ["inputs", "histories"], "all record contents and arrival orders",
 "The tools have no tests.",
 ["cmd/vanflow-tool/serve.go", "cmd/vanflow-tool/api.go", "store/cache.go", "store/dispatch.go"],
 [("dispatch into one indexed store, JSON rendering", "cmd/vanflow-tool/serve.go")],
 observe=["HTTP responses of the real binary connected to a scripted AMQP router"])
prop("T02", "A capture can be replayed faithfully",
 "Posting a capture taken from the serve command to the fixture command makes the fixture impersonate exactly the captured sources, so that another collector ends up with the same records, attribute for attribute and source for source. Entries the fixture cannot use are skipped without affecting the rest, and a malformed capture is refused without disturbing what is running.",
 ["inputs"], "all captures",
 "The tools have no tests.",
 ["cmd/vanflow-tool/fixture.go", "cmd/vanflow-tool/serve.go", "cmd/vanflow-tool/api.go"],
 [("grouping by source, one store and manager per source", "cmd/vanflow-tool/fixture.go")],
 observe=["HTTP and AMQP behaviour of the real binaries"])
prop("T03", "The fixture switches captures cleanly and survives any request",
 "After a new capture is posted, only its sources announce themselves and answer flushes, and the connections of earlier ones are closed. Replayed flows are published under fresh identities, paired as captured, and end with an end time; no request to the fixture's HTTP interface crashes it, flows whose counterpart is missing included.",
 ["histories", "inputs"], "all sequences of captures and flow requests",
 "The tools have no tests.",
 ["cmd/vanflow-tool/fixture.go"],
 [("one cancellable context per configuration", "cmd/vanflow-tool/fixture.go Start"), ("flow replay", "cmd/vanflow-tool/fixture.go fakeFlow")],
 observe=["AMQP traffic and connections, HTTP responses, process liveness"])
prop("T04", "The log tool prints every message of every source once",
 "The log command discovers all sources and prints each of their record messages, and heartbeats when enabled, exactly once as one JSON line, in order per source address, with every attribute value; kinds switched off by flags are not printed, and with flush-on-discover each discovered source is asked for a flush.",
 ["inputs", "configurations"], "all message contents, sources and flag combinations",
 "The tools have no tests.",
 ["cmd/vanflow-tool/log.go", "cmd/vanflow-tool/main.go"],
 [("handlers feeding one output stream", "cmd/vanflow-tool/log.go")],
 observe=["standard output of the real binary connected to a scripted AMQP router"])
prop("T05", "The tool never speaks to an unverified server unless told to",
 "When configured for TLS with verification, the tool exchanges no AMQP with a server whose certificate does not chain to the configured authority or does not match its name; it presents the configured client certificate. Only when verification is switched off does it talk to such a server.",
 ["configurations", "fault_sequences"], "all combinations of flags, connection files, authorities and certificates",
 "The tools have no tests.",
 ["cmd/vanflow-tool/main.go", "session/container.go"],
 [("TLS configuration from flags or connection file", "cmd/vanflow-tool/main.go tlsConfig.Parse")],
 observe=["TLS handshakes and AMQP bytes at a scripted server"])
prop("T06", "The tools hold a connection per known source, and end when told or cut off",
 "The serve and log commands hold one connection of their own and one for each source they know; the connection made for a source is closed once the source is forgotten after 30 s of silence. Every command ends promptly when interrupted, whatever it is doing and whatever state its connections are in. The commands ride out outages of up to 10 s, however long they were idle before, and end by themselves when the server stays unreachable for 100 s.",
 ["fault_sequences", "schedules"], "all comings and goings of sources, outages and interruption instants",
 "The tools have no tests.",
 ["cmd/vanflow-tool/serve.go", "cmd/vanflow-tool/log.go", "cmd/vanflow-tool/fixture.go", "cmd/vanflow-tool/main.go", "session/container.go"],
 [("a container per source", "cmd/vanflow-tool/serve.go Discovered"), ("shutdown on giving up", "cmd/vanflow-tool OnSessionError handlers"), ("limit of 60 s of retries", "cmd/vanflow-tool/main.go containerFactory")],
 observe=["connections at a scripted AMQP router", "the end of the process"])
# ------------------------------------------------------------------ vancap
prop("V01", "Vancap removes what it deployed and nothing else",
 "Whatever step of a capture fails or is interrupted (SIGINT), a deployment the API server created for vancap is deleted before vancap exits, even when the response to its creation was lost or an attempt to delete it fails temporarily; when the server refuses every attempt, that is reported as a failure. A deployment vancap did not create (its name was taken, or somebody put another in its place) is never deleted, and none is created where no network is installed. Failures and interruptions before the capture is complete are reported with a non-zero exit status and never by a crash, and an interrupted vancap ends within 40 s.",
 ["fault_sequences", "crash_points"], "all failing API calls and interruption instants",
 "Vancap has no tests.",
 ["vancap/main.go"],
 [("deferred delete with its own context", "vancap/main.go Run")],
 observe=["requests seen by a scripted Kubernetes API server", "exit status"])
prop("V02", "Vancap captures exactly what the collector served, from the configured cluster",
 "A successful capture writes exactly the bytes the deployed collector served into the output file, taken, once the collector has run for the given duration, from the pod of its own deployment in the configured namespace, through the API server of the cluster and with the credentials that the current context of the kubeconfig selects, whatever that server's URL (scheme, host name, port, path, proxy), whatever other pods there are and whatever else listens on local ports. It succeeds whenever nothing it needs fails. A capture that did not succeed - the collector answered with an error, or its response ended early - is not reported as success.",
 ["inputs", "configurations"], "all host names, namespaces, response bodies and failures",
 "Vancap has no tests.",
 ["vancap/main.go"],
 [("port-forward through the API server and copy to file", "vancap/main.go Run")],
 observe=["requests seen by a scripted Kubernetes API server", "output file"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
