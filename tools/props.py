#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the properties)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("D01", "Object store behaves as a map of values with reference counters",
  "For every history of operations, both the persistent and the in-memory object store answer like a plain map from hash to (value, references counter): a value is returned exactly as it was stored, adding a value that exists changes only its counter, counters grow and shrink by the requested amount and never go below zero, an object that was removed or never added is reported as not found. Reported totals of objects and of bytes, all of them and those with a non-zero counter, always match the content. This stays true if the store is used from many goroutines at once, and an operation that fails changes nothing.",
  ["inputs", "histories"], "all histories of get, set, increment, decrement, take, delete, iterate and iterate-with-deletion with any increments, over any keys and values, for both implementations",
  "The existing suite (which does not build here) does one or two fixed operations per method; it never mixes them, never compares the two implementations and never checks totals over a history.",
  ["data/cxds.go", "data/cxds/drive.go", "data/cxds/memory.go", "data/cxds/cxds.go"],
  [("persistent store", "data/cxds/drive.go"), ("in-memory store", "data/cxds/memory.go")],
  ["data.CXDS methods and Amount/Volume"])
p("D02", "Object store survives closing and crashes",
  "Whatever history of operations the persistent object store has completed, opening it again gives the same objects with the same values and reference counters, also if the process died without closing it. After an orderly closing the totals are the same too.",
  ["histories", "crash_points"], "all histories with any number of closings, and a copy of the file taken after any completed operation (process crash)",
  "Existing tests never reopen a non-trivial store and never open a file that was not closed.",
  ["data/cxds/drive.go", "data/cxds/cxds.go"],
  [("one transaction per operation", "data/cxds/drive.go"), ("statistics saved on close", "data/cxds/drive.go")],
  ["data/cxds NewDriveCXDS on the same file"])
p("D03", "Index behaves as an ordered tree of feeds, heads and roots",
  "For every history of operations the index of root objects answers like an ordered map feed -> head -> sequence number -> root: presence, lookups, lengths, error for a missing element and removals match, and walking in both directions visits exactly the present elements once in order, also if the walking function removes or adds feeds or roots; an error of that function is passed through, and times of creation and last access are kept.",
  ["inputs", "histories"], "all histories of transactions with additions, lookups, deletions and iterations with mutation, over any feeds, heads and sequence numbers",
  "Existing tests use one or two feeds and at most a handful of fixed roots, one method at a time.",
  ["data/idxdb.go", "data/idxdb/drive.go", "data/idxdb/memory.go", "data/data.go"],
  [("nested buckets", "data/idxdb/drive.go")], ["data.IdxDB Tx, Feeds, Heads, Roots"])
p("D04", "Index transactions are atomic and durable",
  "A transaction on the index that fails leaves no trace, a transaction that succeeds is kept entirely: after closing, or after the death of the process, opening the index again gives the state after the last successful transaction. Encoding a root record and decoding it back gives the same record, and a record cut short is an error.",
  ["histories", "crash_points", "fault_sequences"], "all histories of successful and failing transactions with any number of reopenings, and a copy of the file taken after any transaction",
  "Existing tests do not fail a transaction in the middle and do not reopen the file.",
  ["data/idxdb/drive.go", "data/data.go"],
  [("single bolt transaction per Tx", "data/idxdb/drive.go"), ("record codec", "data/data.go")], ["data/idxdb NewDriveIdxDB on the same file"])

p("D05", "Opening and closing of a database is all or nothing",
  "A file that is not a database of this version is refused with the proper error and stays as it is. If opening or closing fails, also because of the disk or because the file is in use, the file is released and the next opening works with all the data there was. Closing a database closes both stores, reports an error of any, and removes temporary files.",
  ["inputs", "fault_sequences", "configurations"], "all versions and contents of a file and all failures of opening, creating and closing",
  "Existing tests only open files that do not exist.",
  ["data/cxds/drive.go", "data/idxdb/drive.go", "data/idxdb/memory.go", "data/data.go"],
  [("version check and clean up", "data/cxds/drive.go"), ("version check", "data/idxdb/drive.go"), ("Close", "data/data.go")],
  ["NewDriveCXDS, NewDriveIdxDB, Close and the file"])
p("R01", "Registries and schemas survive encoding; reference depends on content only",
  "Encoding any registry of types and decoding it gives a registry with the same reference, the same names and equal schemas, and a schema found by name, by reference or in a field is the same schema. The reference does not depend on the order of registration, and registries with different types have different references.",
  ["inputs", "programs"], "all sets of Go types the registry accepts: structs, arrays, slices, strings, integers, floats, nested and recursive, with references of all three kinds and with tags",
  "Existing tests encode one fixed registry.",
  ["skyobject/registry/registry.go", "skyobject/registry/schema.go", "skyobject/registry/reg.go", "skyobject/registry/schema_helpers.go"],
  [("schemas by reflection", "skyobject/registry/reg.go"), ("encoding of sorted entities", "skyobject/registry/registry.go")], ["registry.NewRegistry, DecodeRegistry, Encode, Reference, SchemaByName"])
p("R02", "No bytes can crash a decoder",
  "Any bytes given to a decoder of registries, roots, root records, references trees or protocol messages are either decoded or rejected with an error; the process never panics, never loops forever and never allocates without bound. Walking, splitting or printing a tree whose objects are arbitrary bytes is an error at worst.",
  ["inputs"], "all byte strings: arbitrary ones and mutations of valid encodings",
  "Existing tests decode only valid encodings, plus an empty input here and there.",
  ["skyobject/registry/registry.go", "skyobject/registry/schema.go", "skyobject/registry/root.go", "skyobject/registry/refs.go", "skyobject/registry/refs_node.go", "skyobject/registry/walk.go", "skyobject/registry/split.go", "skyobject/registry/root_tree.go", "node/msg/msg.go", "data/data.go"],
  [("errors of the encoder", "skyobject/registry/schema.go"), ("message types table", "node/msg/msg.go")], ["registry.DecodeRegistry, DecodeRoot, Schema.Size, Root.Walk, Root.Tree, msg.Decode"])
p("R03", "A schema measures any encoded value exactly",
  "For any registered type and any value of it, the schema reports exactly the number of bytes the encoded value takes, also if other bytes follow, and reports an error if the encoding is cut short. Fields of the value are found by the schema at the places the encoder put them.",
  ["inputs", "programs"], "all accepted types and all their values, with every truncation",
  "Existing tests check sizes of a few fixed values.",
  ["skyobject/registry/schema.go", "skyobject/registry/schema_helpers.go", "skyobject/registry/reg.go"],
  [("size by kind", "skyobject/registry/schema.go")], ["Schema.Size, Schema.Fields, Field.Name"])
p("R04", "A references tree is a sequence of hashes",
  "A references tree of any degree and with any flags behaves as a plain list of hashes: after every history of appends, replacements, removals, slicing, clearing, rebuilding and changing the degree, its length, every index, every lookup by hash and iteration in both directions from any place agree with the list. Out of range indices and missing hashes are errors that change nothing.",
  ["inputs", "histories", "configurations"], "all histories of operations over any hashes (repeated ones too), degrees 2 and more, and all combinations of flags, loading and reloading at any moment",
  "Existing tests use fixed lengths and degrees and one operation after a construction; the tree is only a few levels deep, and combinations with removals are not reached.",
  ["skyobject/registry/refs.go", "skyobject/registry/refs_node.go", "skyobject/registry/refs_index.go", "skyobject/registry/refs_mod.go", "skyobject/registry/references.go"],
  [("merkle tree with lazy loading", "skyobject/registry/refs.go"), ("nodes", "skyobject/registry/refs_node.go")], ["Refs methods"])
p("R05", "A stored references tree loads back to the same sequence",
  "After any history the hash of a references tree identifies its content: a tree with the same hash, in this or in another process, opened from the store loads to exactly the same sequence of hashes, and everything it needs is in the store. A tree built by appending, replacing, slicing and changing the degree depends only on the sequence and the degree, not on the history; rebuilding gives it the minimal depth; and a blank hash means an empty tree and only it.",
  ["inputs", "histories", "configurations"], "all histories of operations, degrees and flags, with encoding and loading at any moment",
  "Existing tests reload only freshly built trees.",
  ["skyobject/registry/refs.go", "skyobject/registry/refs_node.go", "skyobject/registry/refs_append_test.go"],
  [("encoding of nodes", "skyobject/registry/refs_node.go"), ("hash update", "skyobject/registry/refs.go")], ["Refs.Hash after encoding, Refs.Init in another pack"])
p("R06", "Walking and splitting a tree visits exactly what it contains",
  "Walking a root visits every object and every node of references trees that can be reached from the root (a container visits the root and its registry first), and nothing else; splitting for parallel filling asks for exactly the same set. A walk that is told to stop stops, one told to skip deeper objects skips exactly those, and an error of the walking function is returned.",
  ["inputs", "programs"], "all graphs of objects of all accepted types: references, dynamic references, references trees, nested in structs, arrays and slices, blank and shared",
  "Existing tests walk one fixed root without arrays or slices of references.",
  ["skyobject/registry/walk.go", "skyobject/registry/split.go", "skyobject/registry/root.go", "skyobject/registry/ref.go", "skyobject/registry/dynamic.go", "skyobject/registry/refs_walk.go", "skyobject/registry/split_refs.go"],
  [("walk by schema", "skyobject/registry/walk.go"), ("split by schema", "skyobject/registry/split.go")], ["Root.Walk, Ref.Walk, Dynamic.Walk, Refs.Walk, Root.Split"])
p("R07", "References give back the value that was set",
  "A value set through a reference, a dynamic reference or an element of a references tree is read back equal to what was set, a blank reference reads as such, and the hash is the hash of the encoded value. Printing the tree of any root does not fail and shows every value of every object under its field name, at its place and in order.",
  ["inputs", "programs"], "all accepted types and values",
  "Existing tests set and get one fixed user.",
  ["skyobject/registry/ref.go", "skyobject/registry/dynamic.go", "skyobject/registry/pack.go", "skyobject/registry/root_tree.go", "skyobject/registry/root.go"],
  [("value codec", "skyobject/registry/pack.go"), ("tree printer", "skyobject/registry/root_tree.go")], ["Ref.SetValue/Value, Dynamic.SetValue/Value, Refs.AppendValues, Root.Tree"])

p("R08", "References report failures of their store and lose nothing",
  "While a reference, a dynamic reference or a references tree is used and its store fails at any access, reading or writing, the operation that meets the failure returns an error carrying it: it never succeeds with wrong or partial results, hangs or panics. After a failure the hash of the tree is still the hash of a complete stored tree, having the sequence from before the operation or the one from after it (or, for the removal of all equal elements, with some of them removed), and the tree works again once reset. A single reference keeps its previous hash. A walk that fails has visited exactly the beginning of what it visits otherwise, and a printed tree shows the failures at their places.",
  ["histories", "fault_sequences"], "all histories of operations over trees of any degree and with any flags, with the failure of any access to the store (that one only, or that and all following)",
  "Existing tests of references use a store that never fails.",
  ["skyobject/registry/refs.go", "skyobject/registry/refs_node.go", "skyobject/registry/refs_walk.go", "skyobject/registry/refs_mod.go", "skyobject/registry/ref.go", "skyobject/registry/dynamic.go", "skyobject/registry/root_tree.go"],
  [("nodes are saved before the root node", "skyobject/registry/refs.go"), ("Reset", "skyobject/registry/refs.go")], ["all methods of Refs, Ref and Dynamic with a Pack that fails"])

p("S01", "A saved root is complete, signed and chained",
  "When saving of a root succeeds, the root and everything reachable from it can be read back from the container, unchanged, its signature verifies against the owner's key, its hash is the hash of its encoding, and its sequence number and previous hash continue the chain of its head without gaps. A saved root is the last one of its head.",
  ["inputs", "histories"], "all histories of creating, changing and saving roots of several feeds and heads, with objects shared or dropped between versions",
  "No existing test of the container builds here, and those that exist save one or two roots.",
  ["skyobject/unpack.go", "skyobject/container.go", "skyobject/index.go", "skyobject/pack.go"],
  [("Save", "skyobject/unpack.go"), ("index", "skyobject/index.go")], ["Container.Save, Root, LastRoot, RootByHash, Walk"])
p("S02", "Reference counters are exact",
  "After every history the references counter of every stored object is the number of times the stored roots use it: saving, filling, deleting roots, heads and feeds, in any order and with objects shared between roots, keep the counters exact. So an object some stored root needs never has a zero counter, and after the last user is deleted it has.",
  ["histories", "inputs"], "all histories of saves, fillings and deletions over several feeds, heads and shared objects, with any cache configuration",
  "Existing tests compare the counters once, for one root; deletion with sharing is not tested at all.",
  ["skyobject/unpack.go", "skyobject/del_pack.go", "skyobject/container.go", "skyobject/cache.go", "skyobject/fill.go", "data/cxds.go"],
  [("increments at save", "skyobject/unpack.go"), ("increments of filler", "skyobject/fill.go"), ("decrements at delete", "skyobject/container.go")], ["CXDS reference counters compared with walks over all stored roots"])
p("S03", "Removing old roots and garbage keeps what is left readable",
  "Deleting a root, a head or a feed removes exactly that from the index and never makes any other root unreadable. Removing all roots but the last N of every head keeps exactly those, and removing ownerless objects removes exactly the objects no stored root uses.",
  ["histories", "inputs"], "all histories of saves, deletions and both clean-up utilities",
  "The utilities have no tests.",
  ["cxoutils/cxoutils.go", "skyobject/container.go", "skyobject/index.go", "data/cxds/drive.go"],
  [("RemoveRootObjects, RemoveObjects", "cxoutils/cxoutils.go"), ("DelRoot, DelHead, DelFeed", "skyobject/container.go")], ["cxoutils, Container.Walk of every stored root"])
p("S04", "Cache never changes answers",
  "For every cache configuration, including a disabled cache and both eviction policies, and every history of operations on objects, results and the final content of the store are the same as without the cache. The cache never exceeds its limits of items and bytes after an operation, apart from items that are being filled.",
  ["configurations", "histories"], "all limits, policies and clean-up ratios, all histories of get, set, increment, want, filling and eviction",
  "The cache has no tests (its test file is empty).",
  ["skyobject/cache.go", "skyobject/config.go"],
  [("write-through items with ranks", "skyobject/cache.go")], ["Container.Get/Set/Inc/Want/SetWanted/Finc against data.CXDS content"])
p("S05", "Container index agrees with what was saved, received and deleted",
  "For every history of saves, received roots and deletions, lists of feeds and heads, the last root and its sequence number, the active head and lookups by number or hash are exactly those of the stored roots, before and after reopening the container.",
  ["histories"], "all histories over several feeds and heads with roots arriving in any order, and reopening at any moment",
  "Existing tests never look at more than one head, nor at out-of-order roots, nor at the index after deletions.",
  ["skyobject/index.go", "skyobject/container.go", "data/idxdb/drive.go"],
  [("in-memory index over IdxDB", "skyobject/index.go")], ["Container.Feeds, Heads, LastRoot, LastRootSeq, ActiveHead, Root"])
p("S06", "Only authentic roots are accepted",
  "A root received from outside is accepted only if its signature is valid for its bytes and for the feed it claims, the feed is known, and the sequence, head and feed inside of it are the claimed ones; any altered byte is rejected without any change of state and without a panic. A root the container already has is recognised as such.",
  ["inputs", "histories"], "all mutations of encodings, signatures and claims, for any state of the container",
  "No existing test sends a malformed or forged root.",
  ["skyobject/index.go", "skyobject/container.go", "skyobject/registry/root.go", "node/conn.go"],
  [("signature check", "skyobject/index.go")], ["Container.ReceivedRoot, PreviewRoot"])
p("S07", "Filling transfers a root completely",
  "Filling a received root from any source that delivers the requested objects, in any order, with any parallelism and any delays, ends with the receiver having the root and every object of it, byte for byte, with the counters the sender would have; every missing object is requested, and nothing the receiver has is requested again.",
  ["schedules", "histories", "inputs"], "all graphs of objects, delivery orders, limits of parallelism and states of the receiver",
  "One existing test fills one fixed root once, in one order.",
  ["skyobject/fill.go", "skyobject/cache.go", "skyobject/registry/split.go", "skyobject/registry/split_refs.go"],
  [("Filler", "skyobject/fill.go"), ("wanted items", "skyobject/cache.go")], ["Container.Fill with a generated scheduler of deliveries"])
p("S08", "A failed filling leaves nothing behind",
  "If filling fails or is cancelled at any point, the root is not added, counters of all objects that existed before are unchanged, objects received in vain are ownerless, and a later filling of the same root succeeds. Filling always ends.",
  ["fault_sequences", "schedules"], "all points of failure: before, between and after any delivery, several fillings in a row",
  "No existing test fails a filling.",
  ["skyobject/fill.go", "skyobject/cache.go"],
  [("reject increments", "skyobject/fill.go")], ["Filler.Run/Close/Fail, CXDS counters"])
p("S09", "Preview reads without storing",
  "Previewing a root gives exactly the objects of the root, taken from the local store if they are there and from the remote side otherwise, and leaves the store, the counters and the index unchanged.",
  ["inputs", "histories"], "all graphs of objects and all subsets of them already present",
  "The existing test previews one fixed root into an empty container.",
  ["skyobject/preview.go", "skyobject/container.go"],
  [("Preview pack", "skyobject/preview.go")], ["Container.Preview with a counting getter"])
p("S10", "Statistics agree with content",
  "Statistics of a container can be taken at any moment and agree with the content: amounts and volumes of all and of used objects, cached objects, feeds, heads and roots with the first and the last root of every head.",
  ["histories"], "all histories, including feeds without roots, heads without roots and empty containers, before and after reopening",
  "No existing test reads the statistics.",
  ["skyobject/stat.go", "skyobject/cxds_stat.go", "skyobject/index_stat.go"],
  [("Stat", "skyobject/stat.go")], ["Container.Stat"])
p("S11", "Concurrent use of a container is linearizable",
  "Any number of goroutines can use one container at once: no data race, deadlock or lost update occurs, and the outcome, reference counters included, is the one of some sequential order of the same operations.",
  ["schedules"], "all interleavings of saves to different heads, reads, deletions and object operations",
  "Existing tests use the container from one goroutine.",
  ["skyobject/container.go", "skyobject/cache.go", "skyobject/index.go"],
  [("mutexes", "skyobject/cache.go")], ["Container under the race detector with a final-state oracle"])

p("S12", "A storage failure is reported and loses nothing",
  "If the database fails in the middle of any operation of a container, the operation reports an error or its effect is complete; the index changes entirely or not at all, nothing of the roots saved before is lost or altered, and as long as no failure was reported the reference counters are exact. The container can be used again, or opened again, when the database works.",
  ["fault_sequences", "histories"], "all histories of operations with a failure of any call of the database, single or lasting",
  "Existing tests use a database that never fails.",
  ["skyobject/cache.go", "skyobject/container.go", "skyobject/index.go", "skyobject/unpack.go", "skyobject/fill.go"],
  [("write-through and write-behind of the cache", "skyobject/cache.go"), ("one transaction per change of the index", "skyobject/index.go"), ("rollback of a pack", "skyobject/unpack.go")],
  ["error of the operation, index, values and counters of the database"])
p("S13", "No object larger than the limit is stored, whichever way it comes",
  "An object larger than MaxObjectSize is refused with ErrObjectIsTooLarge, an object of exactly this size is accepted, whichever way it comes: set, packed, received, filled, wanted, as a root or as a registry. A refused object leaves nothing behind, and a container with a limit set too low for its database says so when sizes are checked on opening.",
  ["inputs", "configurations"], "all sizes around all limits over all ways an object gets into a container",
  "Existing tests never approach the limit.",
  ["skyobject/cache.go", "skyobject/container.go", "skyobject/pack.go", "skyobject/fill.go", "skyobject/config.go"],
  [("size checks", "skyobject/cache.go"), ("checking of sizes on opening", "skyobject/container.go")],
  ["error of the operation and content of the database"])
p("N01", "Every protocol message survives encoding; anything else is rejected",
  "Encoding any protocol message and decoding it gives an equal message of the same type, with type byte and layout fixed by the protocol version. Truncated, extended or unknown messages are rejected with an error.",
  ["inputs"], "all messages of all types with all field values, all truncations and extensions",
  "Messages have no tests.",
  ["node/msg/msg.go"],
  [("type table and encoder", "node/msg/msg.go")], ["msg.Decode(m.Encode())"])
p("N02", "Published roots reach every subscriber and nobody else",
  "A root published by a node reaches every node that is subscribed to the feed, directly or through other subscribed nodes, and is there complete and readable; only the latest of several roots published in a row has to arrive, never an older one after a newer one. A subscriber that does not read for a while delays nobody else, and when it reads again it gets the newest root of every head, while the replaced roots do not pile up for it. A node that is not subscribed to a feed gets nothing of it.",
  ["histories", "schedules", "configurations"], "all small topologies, subscriptions and publication histories, over both transports",
  "Existing tests use two or three nodes and one feed.",
  ["node/node.go", "node/feeds.go", "node/feed.go", "node/head.go", "node/conn.go"],
  [("feeds loop", "node/feeds.go"), ("heads and filling", "node/head.go")], ["Container of every node after the network is quiet"])
p("N03", "Connections and subscriptions are what was agreed",
  "After any history of connecting, disconnecting, subscribing, unsubscribing, sharing and not sharing, both sides agree on connections and on feeds of a connection, the lists of connections, of feeds and of connections of a feed are exact, and callbacks are called once per event. Subscribing succeeds only if the peer shares the feed and does not reject. A connection the OnConnect callback rejects is closed on both sides; OnDisconnect is given the reason, which is nil only if the connection is closed by the node itself.",
  ["histories", "configurations"], "all histories of API calls over a few nodes and feeds",
  "Existing tests follow one fixed scenario.",
  ["node/node.go", "node/feeds.go", "node/feed.go", "node/conn.go", "node/transports.go"],
  [("connection registry", "node/node.go"), ("feeds loop", "node/feeds.go")], ["Node.Connections, ConnectionsOfFeed, Conn.Feeds, Node.Feeds"])
p("N04", "A misbehaving peer cannot harm a node",
  "Whatever bytes or messages in whatever order a peer sends, the node does not crash or block, keeps serving other peers, stores no object whose content does not match its hash and no root that is not authentic. A preview of a feed of such a peer shows an authentic root of the feed and objects that match their hashes, or an error, and stores nothing.",
  ["inputs", "histories", "fault_sequences"], "all sequences of well-formed, malformed and unexpected messages at any stage of a connection",
  "Existing tests use only well-behaved nodes.",
  ["node/conn.go", "node/handshake.go", "node/head.go", "node/msg/msg.go"],
  [("message handling", "node/conn.go"), ("handshake", "node/handshake.go")], ["a raw peer over the transport, an honest peer as the witness"])
p("N05", "Handshake admits only proper peers within the limits",
  "A connection is established only after a proper handshake: matching protocol version, known identity, no second connection with the same peer or with itself, and within the limits of connections; a refused or failed handshake leaves nothing behind and both sides learn of it. Requests end with the answer, an error or the configured time-out.",
  ["inputs", "configurations", "fault_sequences"], "all replies to a handshake including silence, all limits, versions and identities",
  "Existing tests only make successful handshakes.",
  ["node/handshake.go", "node/node.go", "node/transports.go", "node/conn.go"],
  [("handshake", "node/handshake.go"), ("limits", "node/node.go")], ["Node.Connections, errors of Connect"])
p("N06", "Peer exchange keeps only valid, distinct, bounded peers",
  "The list of peers of a swarm never exceeds its limit, holds every peer once under its own key, never the node itself nor an invalid address, and after any history of additions, removals and exchanges it is what the history implies. Peers not confirmed in time are forgotten, and nodes of a swarm connect to the peers they learn of, as many as limits of the swarm and of the node allow.",
  ["inputs", "histories", "configurations"], "all histories of added, removed and received peers with valid and invalid addresses",
  "Peer exchange has no tests.",
  ["node/swarm.go"],
  [("validation and cap", "node/swarm.go")], ["Swarm.AddPeer, RemovePeer, Peers"])
p("N07", "Remote control reports and does the same as the local API",
  "Every remote procedure of a node has the same effect and gives the same result as the local method it stands for, errors included; calls of a transport the node doesn't use are refused and harm nothing.",
  ["inputs", "histories"], "all histories of remote calls mixed with local ones",
  "Remote procedures have no tests.",
  ["node/rpc.go", "node/rpc_client.go"],
  [("RPC wrappers", "node/rpc.go")], ["RPCClient against Node"])
p("N08", "A node can be closed at any moment",
  "Closing a node at any moment, with connections, fillings, requests and remote control clients in any state, returns, ends the connections and every goroutine, releases the database and leaves stored data intact; closing again is harmless. A node that cannot start keeps neither addresses nor the database; a transport listens once, at the address it tells, and a failed attempt changes nothing.",
  ["schedules", "fault_sequences"], "closing at any point of handshakes, fillings and requests",
  "Existing tests close idle nodes only.",
  ["node/node.go", "node/conn.go", "node/feeds.go", "node/head.go"],
  [("Close", "node/node.go")], ["Node.Close, reopened container"])

p("N09", "A node fills newest roots from the peers that have them, within limits",
  "When roots of a head come from many peers in any order, the node fills one root of the head at a time and keeps only the newest of the waiting ones. Objects are requested only from peers that announced the root and have not failed since, one at a time from each and at most MaxFillingParallel plus one at once. The filling succeeds if the peers left can provide everything, ends with ErrNoConnectionsToFillFrom exactly when no such peer is left, with ErrTimeout not before MaxFillingTime, and with ErrMaxHeadsLimit if its head is dismissed as the oldest of more than MaxHeads. Every root the callback accepted ends with exactly one callback or is replaced by a newer one, and filled roots are announced to all subscribers.",
  ["schedules", "histories", "configurations"], "all orders of announcements, answers, refusals, disconnections and subscriptions of several peers, over several heads and limits",
  "Existing tests fill from one well-behaved peer.",
  ["node/head.go", "node/feed.go", "node/feeds.go", "node/node.go", "skyobject/fill.go"],
  [("loop of a head", "node/head.go"), ("limit of heads", "node/feed.go"), ("known roots of peers", "node/head.go")],
  ["OnRootReceived, OnRootFilled, OnFillingBreaks, requests the peers get"])
p("N10", "Discovery brings together nodes that share a feed",
  "A discovery server a node is connected to knows exactly the feeds the node shares as wanted ones and, if the node is public and listens on the transport, as offered at its listening address; after Share and DontShare, reconnections and concurrent use too. A node that starts to share a feed, or connects to a server, gets connected and subscribed to every node the server names for the feed, whatever the order, blanks and wrong entries of the answer, and to no other nodes or feeds. An answer about a feed that is not shared anymore changes nothing. A closed node leaves its servers.",
  ["histories", "schedules", "configurations"], "all histories of sharing, connecting to servers, dropping and closing over small numbers of nodes, feeds and servers",
  "Nothing of the discovery is tested.",
  ["node/transports.go", "node/node.go", "node/conn.go"],
  [("discovery callbacks", "node/transports.go"), ("Share and DontShare", "node/node.go")],
  ["lists the servers get, Connections and Feeds of nodes"])
p("N11", "A peer gets exactly one answer to every request, with what the node has",
  "However many requests a peer has sent without waiting, whatever numbers it gave them, every one gets exactly one answer under its number: a subscription is accepted exactly if the feed is shared and the callback agrees, a public node lists exactly the feeds it shares and any other refuses, a preview is the last root of the active head of a shared feed, peers are told in swarms only. An object the node has is sent, one it has not is sent as soon as the node gets it, and refused only after the response time-out, never sooner and never with other content. A request that waits delays no other one, of this or another peer. Callbacks tell every subscription a peer asks for and ends, once; nobody is subscribed to the blank feed.",
  ["inputs", "histories", "schedules"], "all histories of requests of several peers without waiting, mixed with changes of what the node has, over response time-outs",
  "Existing tests make single requests to idle nodes.",
  ["node/conn.go", "node/feeds.go", "skyobject/cache.go"],
  [("requests of a peer", "node/conn.go"), ("Want", "skyobject/cache.go")],
  ["messages raw peers get"])
p("C01", "Configurations are validated, applied and set by flags exactly",
  "Configurations with a value out of the documented range are refused, and nothing is created then; all others are accepted. Defaults are the documented ones. A command line flag sets the option it names and nothing else, options without a flag given keep their values, and a malformed value is an error. The database is created or opened where DB, InMemoryDB, DBPath and DataDir say, in this precedence, and nowhere else.",
  ["inputs", "configurations"], "all values of all options around their limits, all command lines, all combinations of places of the database",
  "There are no tests of configurations.",
  ["skyobject/config.go", "node/config.go", "skyobject/container.go", "node/node.go"],
  [("Validate and FromFlags", "skyobject/config.go"), ("Validate and FromFlags", "node/config.go"), ("place of the database", "skyobject/container.go")],
  ["Config.Validate, NewNode, NewContainer, flag.CommandLine, files created"])
p("C02", "The command line tool does and shows what the node does and has",
  "Every documented command of cxocli, with whatever spacing and letter case of keys, has exactly the effect on the node of the method it names, on the transport it names, and the same error; what it shows of feeds, connections, addresses, statistic and roots is what the node has. An unknown or cut command, missing, superfluous or malformed arguments are an error and change nothing. A failed command makes exit code 1 and a message on stderr; in a session it does not end the session, quit and exit do. Completion offers exactly the commands that exist, help names them all, and the history is kept from session to session.",
  ["inputs", "histories"], "all histories of commands, one per process or in sessions, all spellings and malformed variants, over states of a node with a peer, feeds, heads and roots",
  "The tool has no tests.",
  ["cmd/cxocli/cxocli.go", "node/rpc.go", "node/rpc_client.go"],
  [("choice of a command and its arguments", "cmd/cxocli/cxocli.go"), ("printing", "cmd/cxocli/cxocli.go")],
  ["output, exit code and files of the cxocli program; methods of the node"])
p("C03", "The daemon serves every feed it is asked for and keeps it over restarts",
  "cxod started with any valid flags uses them, accepts every subscription, fills the roots subscribers publish and gives the last one, complete, to everyone who subscribes to the feed. Interrupted, it exits with code 0; interrupted or killed at any moment after a root was filled, it has the root again when started with the same database, in memory it has nothing. A database is used by one daemon at a time; one that cannot open it exits with an error and harms nothing.",
  ["histories", "crash points", "configurations"], "all histories of publishing, subscribing, interrupting, killing and starting over places of the database and flags",
  "The program has no tests.",
  ["cmd/cxod/cxod.go", "node/config.go", "node/node.go"],
  [("acceptAllSubscriptions and waitInterrupt", "cmd/cxod/cxod.go"), ("flags", "node/config.go")],
  ["the cxod process, its RPC, in-process nodes connected to it"])
p("U01", "Rolling average is the mean of the last samples",
  "After any sequence of added samples the rolling average equals the arithmetic mean of the most recent ones, as many as the window holds (of all of them while there are fewer), up to rounding. Concurrent additions are never lost.",
  ["inputs", "histories", "schedules"], "all windows and sequences of samples, also added concurrently",
  "The averages have no tests; the only test of the package prints seven volumes.",
  ["skyobject/statutil/average.go"],
  [("ring of samples", "skyobject/statutil/average.go")], ["Float.Add/Value, Duration.Add/Value/AddStartTime"])
p("U02", "Human-readable amounts and volumes are right within rounding",
  "The text of any amount or volume, read back, is the value within half of the last shown digit, uses the largest unit that does not exceed the value (powers of 1024 for bytes, of 1000 for amounts), at most two digits after the point and no trailing zeroes.",
  ["inputs"], "all 32-bit values",
  "The existing test checks seven volumes and no amount.",
  ["skyobject/statutil/statutil.go"],
  [("String methods", "skyobject/statutil/statutil.go")], ["Volume.String, Amount.String"])
p("L01", "Logger prints exactly what is enabled, one message per line",
  "A debug message is printed if and only if debugging is on and one of its pins is enabled; all other messages are always printed. Every printed message is one write with the prefix, the mark of its kind, the text of the error and the arguments intact, and names the place of the call; command line flags set what they name.",
  ["inputs", "configurations", "schedules"], "all configurations, pins, errors, formats and arguments, sequences of calls and concurrent calls",
  "Existing tests check a few fixed messages and never the error methods.",
  ["node/log/log.go"],
  [("pins mask", "node/log/log.go")], ["log.Logger output"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
