#!/usr/bin/env python3
# Writes /verif/properties.jsonl (the list is kept here because it is easier to edit).
import json, os
P = []
def p(id, title, statement, over, quant, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": s, "where": ", ".join(files[:1])} for s in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": quant}, "why_tests_cant": why, "anchors": a})

S, I, H, C, F, X = "schedules", "inputs", "histories", "configurations", "fault_sequences", "crash_points"

# ---------------------------------------------------------------- ADNL
p("A01", "ADNL messages and queries arrive exactly as sent, from and to the right ids",
  "Every custom message or query a node hands to its subscribers, and every answer a query returns, is byte for byte one that the reported peer id really sent to the reported local id. Damaged, truncated, replaced or spliced datagrams never surface as a message, and a node with several keys and several peers never mixes up sender, receiver or content.",
  [S, I, F, C], "for every mix of concurrent messages between multi-key nodes, every loss, duplication, reordering, delay, truncation and bit corruption of datagrams, and every ADNL configuration",
  "unit tests encrypt and decrypt one packet; they never mix several keys, peers, channels, large and small messages and damaged packets on one socket",
  ["src/adnl/node/receiver.rs", "src/adnl/node/sender.rs", "src/adnl/channel.rs", "src/adnl/handshake.rs", "src/adnl/transfer.rs"],
  [("packet decryption and checksum", "Channel::decrypt, parse_handshake_packet"), ("sender/receiver attribution", "Node::check_packet, Node::process_message"), ("channel lookup when sending", "Node::send_message")],
  ["Node::channels_by_id, channels_by_peers, peers, incoming_transfers"], ["MessageSubscriber::try_consume_custom, QuerySubscriber::try_consume_query, Node::query_raw"])
p("A02", "No one can speak for a peer without holding that peer's key",
  "A host that holds no private key of peer P and is no party P talks to cannot make a node deliver as coming from P any message, query or answer that P did not send to it, nor change the address or channel the node uses for P, whatever packets it crafts, alters or replays. A packet that is refused leaves the node's knowledge of P as it was.",
  [I, H, F, S], "for every sequence of crafted, altered and replayed packets interleaved with honest traffic",
  "tests contain no attacker; each acceptance path (full key, short id, channel, signature present or absent) has to hold for every packet",
  ["src/adnl/node/receiver.rs", "src/adnl/handshake.rs", "src/adnl/channel.rs", "src/adnl/keystore.rs"],
  [("signature check of handshake packets", "Node::check_packet / verify"), ("channel key agreement", "Channel::new"), ("peer table update from packets", "Node::add_peer")],
  ["Node::peers, channels_by_peers"], ["subscribers, Node::get_peer_address"])
p("A03", "Large ADNL messages arrive whole when their datagrams arrive",
  "A message, query or answer of any size that is accepted for sending, is unlike any other in flight, and whose datagrams all reach the peer within the transfer timeout, in any order and interleaved with other traffic, is delivered complete, and exactly once if no datagram was duplicated. Losing some of its datagrams only loses that message.",
  [I, S, F], "for every message size, arrival order, interleaving with other transfers and loss of parts",
  "no test sends a message larger than one datagram; failures need particular sizes, orders and interleavings",
  ["src/adnl/node/sender.rs", "src/adnl/node/receiver.rs", "src/adnl/transfer.rs"],
  [("splitting", "build_part_message"), ("reassembly", "Transfer::add_part"), ("transfer table", "Node::process_message")],
  ["Node::incoming_transfers"], ["subscribers, Node::query_raw"])
p("A04", "Each ADNL query ends once, in time, with its own answer or nothing",
  "Every query call returns within its timeout (plus scheduling slack): with the answer the queried peer gave to that very query if that answer arrived in time, otherwise with no answer; it never returns another query's answer. Once calls have returned or were cancelled no query stays registered, and a query answered on a faultless network is never reported as timed out.",
  [S, F, H], "for every number of concurrent queries to several peers with equal payloads, lost, late, duplicated and reordered answers, cancelled callers and crashed peers",
  "needs many concurrent queries whose answers are late, duplicated or reordered relative to timeouts",
  ["src/adnl/queries_cache.rs", "src/adnl/node/mod.rs"],
  [("query registration and completion", "QueriesCache::add_query/update_query, PendingAdnlQuery::wait"), ("timeout", "Node::query_raw")],
  ["QueriesCache"], ["Node::query_raw, Node::metrics().query_count"])
p("A05", "With packet history on, no datagram is processed twice and none is lost",
  "With the packet history enabled, one run of a node processes a duplicated or replayed datagram of a peer it keeps knowing, and has not reset after unanswered queries, at most once, however late the copy comes and for packet numbers of any magnitude. A datagram that arrives once and is reordered by no more than a few dozen packets is always processed.",
  [S, F, H], "for every duplication and reordering of datagrams over long sequences of packets on ordinary and priority paths",
  "the unit tests of the history window use short hand-written sequences of small numbers",
  ["src/util/packets_history.rs", "src/adnl/node/receiver.rs", "src/adnl/peer.rs"],
  [("sliding window", "PacketsHistory::deliver_packet"), ("use for packets", "Node::check_packet")],
  ["Peer::receiver_state"], ["subscribers"])
p("A06", "Two nodes can talk again after losses, partitions, crashes and restarts",
  "Once the network heals and both nodes run, queries between nodes that know each other succeed again within a bounded time, whatever was lost, reordered, duplicated or delayed before: simultaneous or half-finished channel handshakes, crashes and restarts of either or both sides (each taking a second or more) with only their keys kept, long partitions, resets of a peer after unanswered queries.",
  [S, F, X, C], "for every fault sequence followed by a healed network, under every ADNL configuration",
  "stuck channel states need particular losses, crashes and resets inside the handshake",
  ["src/adnl/node/receiver.rs", "src/adnl/node/sender.rs", "src/adnl/node/mod.rs", "src/adnl/peer.rs", "src/adnl/channel.rs"],
  [("channel creation and confirmation", "Node::create_channel, Channel::is_still_valid/set_ready"), ("reinit dates", "Node::check_packet, Peer::try_reinit_sender"), ("reset on unanswered queries", "Node::query_raw, Node::reset_peer, Channel::update_drop_timeout")],
  ["Peer reinit dates and seqnos, Channel::ready"], ["Node::query_raw"])
p("A07", "Packets of a peer's previous life are refused, clocks within tolerance work",
  "After a node has accepted a packet from a restarted peer, packets from that peer's earlier incarnations are no longer accepted, nor are packets that name an earlier incarnation of the receiving node. Nodes whose wall clocks differ by less than the clock tolerance communicate, and packets dated further in the future than the tolerance, or carrying expired address lists, are refused.",
  [H, X, F, C], "for every capture and replay of packets across restarts and every clock offset and jump between nodes",
  "needs restarts, recorded packets and skewed clocks together",
  ["src/adnl/node/receiver.rs", "src/adnl/peer.rs", "src/util/address_list.rs"],
  [("reinit date comparison", "Node::check_packet, Peer::try_reinit_sender"), ("address list dates", "parse_address_list")],
  ["Peer::sender_state().reinit_date"], ["subscribers, Node::get_peer_address"])
p("A08", "No datagram can crash, wedge or silence a node",
  "Whatever datagrams arrive (random bytes, truncated, bit-flipped, replayed, hostile but correctly encrypted and signed contents from an authenticated peer, at any layer), no task of the node panics, and honest peers' queries and messages keep being served. Socket errors on single datagrams do not stop the receiver or the sender.",
  [I, F, H], "for every sequence of hostile or damaged datagrams and socket errors",
  "the input space is every byte string on every path through every layer",
  ["src/adnl/node/receiver.rs", "src/adnl/node/sender.rs", "src/adnl/handshake.rs", "src/adnl/channel.rs", "src/adnl/transfer.rs", "src/adnl/packet_view.rs", "src/proto", "src/rldp", "src/overlay", "src/dht"],
  [("receiver loop", "Node::start_receiver"), ("packet parsing", "IncomingPacketContents, Message"), ("sender loop", "Node::start_sender")],
  None, ["task panics, queries from honest peers"])
p("A09", "Large incoming transfers and channels leave nothing behind",
  "When traffic stops, every half-received large message is dropped within its timeout while one still making progress is kept, every removed peer takes its channels with it, and the number of channel entries never exceeds what the current peers justify. Repeated resets, restarts and reconnects do not accumulate state.",
  [H, F, X], "for every history of partial transfers, peer removals, resets and reconnects",
  "leaks show only over long histories with losses and reconnects",
  ["src/adnl/node/receiver.rs", "src/adnl/node/mod.rs", "src/adnl/transfer.rs"],
  [("transfer expiry task", "Node::process_message"), ("channel replacement and removal", "Node::create_channel, reset_peer, remove_peer")],
  ["Node::incoming_transfers, channels_by_id, channels_by_peers"], ["Node::metrics()"])
p("A10", "Peer filters are obeyed on every path",
  "With a peer filter installed, a peer the filter rejects is never added or used, whether it was announced by a packet, a DHT record or an overlay record or by the user, and no message or query from a peer that was never accepted is delivered. Peers it accepts work normally.",
  [I, S, C], "for every filter decision and every path by which a peer can become known",
  "each discovery path is reached only by multi-node exchanges",
  ["src/adnl/node/mod.rs", "src/adnl/node/receiver.rs", "src/adnl/peer.rs"],
  [("filter check", "Node::add_peer"), ("unknown peers refused", "Node::check_packet")],
  ["Node::peers"], ["PeerFilter::check, subscribers, Node::get_peer_address"])
p("A11", "Shutdown stops a node completely",
  "After shutdown the node's socket loops end: it sends no further datagrams and delivers no further message or query, sending reports an error or the query ends without an answer in time, and nothing panics or hangs, at whatever moment shutdown strikes. Other nodes and a restarted instance are unaffected.",
  [S, X], "for every instant of shutdown relative to in-flight packets, queries and transfers",
  "needs shutdown at arbitrary points of concurrent activity",
  ["src/adnl/node/mod.rs", "src/adnl/node/sender.rs", "src/adnl/node/receiver.rs"],
  [("cancellation", "Node::shutdown, start_sender, start_receiver")], ["CancellationToken"], ["datagrams on the wire, subscribers, Node::query_raw"])
# ---------------------------------------------------------------- RLDP
p("R01", "RLDP answers are exactly what the peer answered to that query",
  "Every answer returned by an RLDP query is byte for byte the answer the queried peer's handler produced for that query, and every query a handler sees is byte for byte one that the reported peer issued, for any payload size up to the limits, with or without compression, under loss, duplication, reordering, delay and corruption, with many transfers in flight at once. (Payloads that themselves end like a compressed message are outside the wire format and excluded.)",
  [I, S, F, C], "for every payload, compression setting, set of concurrent transfers and network fault sequence",
  "tests only round-trip the compression helper; fountain-coded transfers over a faulty network are never run",
  ["src/rldp/node.rs", "src/rldp/transfers_cache.rs", "src/rldp/incoming_transfer.rs", "src/rldp/outgoing_transfer.rs", "src/rldp/encoder.rs", "src/rldp/decoder.rs", "src/rldp/compression.rs"],
  [("decoding", "IncomingTransfer::process_chunk"), ("encoding", "OutgoingTransfer"), ("answer matching", "TransfersCache::query, receive loops")],
  ["TransfersCache::transfers"], ["rldp::Node::query, RLDP QuerySubscriber"])
p("R02", "RLDP queries succeed despite loss once the network is reasonable",
  "An RLDP query whose query and answer fit the limits and whose handler answers promptly is answered, as long as sending each takes less than the maximum query timeout, when the network loses, duplicates and reorders only a moderate share of datagrams, and a transfer interrupted by a short outage continues after it. Every query call ends within a bounded time, with an answer, no answer or an error.",
  [S, F, I], "for every payload size and moderate loss pattern, including short total outages within the timeout",
  "progress under loss depends on the interplay of windows, confirmations and timers",
  ["src/rldp/transfers_cache.rs", "src/rldp/outgoing_transfer.rs", "src/rldp/incoming_transfer.rs"],
  [("send/receive loops", "TransfersCache::query, send_loop"), ("windows and confirmations", "OutgoingTransferState, ReceiveContext")],
  ["OutgoingTransferState, IncomingTransfer"], ["rldp::Node::query"])
p("R03", "An RLDP query is handled at most once and size limits hold",
  "For one RLDP query call the remote handler runs at most once in one life of the remote node, however datagrams are lost, duplicated or delayed within the completion interval (twice the maximum query timeout). Transfers announcing more than the configured maximum answer or query size are refused without being assembled, and at most the configured number of queries per peer is outstanding while the excess waits and then proceeds.",
  [S, F, C], "for every interleaving of concurrent queries and every duplication or delay of their datagrams",
  "needs duplicated transfers arriving after completion and many concurrent callers",
  ["src/rldp/node.rs", "src/rldp/transfers_cache.rs"],
  [("completed transfer memory", "RldpTransfer::Done"), ("size checks", "IncomingTransfer"), ("per-peer semaphore", "rldp::Node::query / PeerState")],
  ["TransfersCache::transfers, per-peer semaphores"], ["QuerySubscriber invocations"])
p("R04", "RLDP state drains when transfers end",
  "When all RLDP queries have returned or been cancelled and the network is quiet, every transfer entry disappears within its timeout, whatever happened to the datagrams and whether the query was answered, rejected or failed. No transfer keeps sending datagrams after it completed, timed out or was cancelled.",
  [S, F, H], "for every history of completed, failed, rejected and interrupted transfers",
  "leaks arise only in particular races of completion against expiry",
  ["src/rldp/transfers_cache.rs"],
  [("expiry tasks", "TransfersCache::spawn tasks"), ("loop exit conditions", "send/receive loops")],
  ["TransfersCache::transfers"], ["rldp::Node::metrics(), datagrams on the wire"])
# ---------------------------------------------------------------- DHT
p("D01", "A value stored in the DHT can be found from other nodes",
  "A store places a copy on every known DHT peer that is up and reachable, and reports success only if some peer serves the value. While the value has not expired, a lookup returns it whenever one of the peers the lookup asks holds it and answers: its known peers closest to the key (all of them in a small network), and, when the lookup follows referrals, also the nodes those peers name. A node's published address can likewise be found by nodes that know only its id. Every store and lookup call returns after a bounded time, whatever other nodes answer.",
  [S, F, C, X], "for every topology, order of joins, loss pattern and crash of non-holders",
  "tests never run more than one DHT node",
  ["src/dht/node.rs", "src/dht/futures.rs", "src/dht/streams.rs", "src/dht/peers_iter.rs", "src/dht/buckets.rs", "src/dht/storage.rs"],
  [("store", "StoreValue future"), ("lookup", "DhtValuesStream, PeersIter"), ("answering", "dht QuerySubscriber")],
  ["Storage, Buckets"], ["dht::Node::values, find_address, store_value"])
p("D02", "The DHT never returns or stores a forged or foreign value",
  "Every value a lookup returns is for exactly the requested key, and is authorised by the key's owner through a valid signature or, for overlay records, by valid signatures of the listed nodes. No stored or received record that fails these rules is kept or served, whatever a malicious node answers or stores.",
  [I, H, F], "for every reply and store request of malicious nodes mixed with honest ones",
  "needs hostile peers that answer with well-formed but wrong records",
  ["src/dht/node.rs", "src/dht/entry.rs", "src/dht/storage.rs", "src/proto/dht.rs", "src/overlay/overlay_id.rs"],
  [("value validation on store", "Storage::insert, insert_signed_value, insert_overlay_nodes"), ("value validation on lookup", "dht::Node::parse_value_result")],
  ["Storage"], ["dht::Node::values, find_address, find_overlay_nodes, DHT answers"])
p("D03", "Stored DHT values only move forward and expire on time",
  "A node that holds a value for a signed key replaces it, until it expires, only by a valid value with a later expiry, and a confirmed store of a later value is served from then on, regardless of the order, duplication or delay of store requests. A value past its expiry is never served and is eventually dropped, also when the clock jumps.",
  [S, H, F], "for every arrival order of store requests and every clock advance",
  "needs concurrent reordered stores and time passing",
  ["src/dht/storage.rs"],
  [("replacement rule", "Storage::insert_signed_value"), ("expiry", "Storage::get_ref, Storage::gc")],
  ["Storage::storage"], ["DHT findValue answers"])
p("D04", "Overlay records in the DHT merge without losing or reviving nodes",
  "Stores of overlay-node lists for the same overlay, concurrent or not, are merged: every validly signed node record of a confirmed store stays listed until the list expires or a newer record of that node replaces it, no node is listed twice, an older record never replaces a newer one and no store shortens the list's life, whatever the order of arrival and the expiry each list carries.",
  [S, H, F], "for every set and order of concurrent overlay-node stores",
  "the merge outcome depends on arrival order and on concurrent updates",
  ["src/dht/storage.rs", "src/dht/node.rs"],
  [("merge", "Storage::insert_overlay_nodes")], ["Storage::storage"], ["dht::Node::find_overlay_nodes, findValue answers"])
p("D05", "Unanswering DHT peers are set aside, answering ones are not",
  "A DHT peer whose unanswered queries exceed the configured penalty threshold (two points per unanswered query, one back per answer) is treated as bad and skipped by lookups, also while other peers keep naming it; it is used again once it has answered enough queries. A peer that answers every query is never treated as bad, and useless, forged or malformed node records in one reply do not stop the node from taking up the valid ones.",
  [F, H, S, I], "for every pattern of answered and unanswered queries and every mix of valid and malformed records in replies",
  "needs histories of failures and hostile replies",
  ["src/dht/node.rs", "src/dht/mod.rs", "src/dht/buckets.rs"],
  [("penalties", "dht::Node::update_peer_status, is_bad_peer"), ("discovery", "find_more_dht_nodes, process_find_node")],
  ["Node::penalties, Buckets"], ["DHT nodes lists in answers, dht::Node::find_more_dht_nodes"])
p("D06", "Peer addresses learnt from the DHT are signed and never roll back",
  "A DHT node record received from others (given directly, in a reply or ahead of a query) is used, and offered on, only if it is signed by the node it describes, not expired and not from the future. Once a newer record of a node is known, an older one never replaces its address or record, and a newer record of a node that moved is taken up at once.",
  [I, H, S], "for every order of old, new, forged and expired node records",
  "needs stale signed records arriving after fresh ones through several paths",
  ["src/dht/node.rs", "src/dht/buckets.rs", "src/adnl/node/mod.rs", "src/util/address_list.rs"],
  [("record check", "dht::Node::add_dht_peer"), ("record table", "Buckets::insert"), ("address update", "adnl::Node::add_peer")],
  ["Buckets, Peer::addr"], ["Node::get_peer_address, DHT nodes lists"])
# ---------------------------------------------------------------- Overlay
p("O01", "A broadcast reaches every member of a connected overlay",
  "A broadcast of any supported size sent by one member is delivered by every other running member when the overlay's neighbour graph connects them and the network loses little; each member delivers the complete original payload.",
  [S, F, I, C], "for every connected topology, payload size (plain and fountain-coded), arrival order and moderate loss, with several broadcasts in flight",
  "no test creates an overlay with more than one node",
  ["src/overlay/overlay.rs", "src/overlay/node.rs", "src/rldp/encoder.rs", "src/rldp/decoder.rs"],
  [("sending", "Overlay::broadcast"), ("forwarding", "Overlay::receive_broadcast, receive_fec_broadcast, distribute_broadcast")],
  ["Overlay::owned_broadcasts, neighbours"], ["Overlay::wait_for_broadcast"])
p("O02", "A node delivers a broadcast at most once and forwards it boundedly",
  "However many copies arrive, over however many paths, a node hands each broadcast to the application at most once while it is fresh, never its own, and forwards each received part at most once to at most the configured number of neighbours. The total traffic caused by one broadcast is therefore bounded.",
  [S, F, C], "for every topology with cycles, duplication and reordering, and every broadcast size",
  "needs many nodes with cyclic neighbours and long fountain-coded broadcasts",
  ["src/overlay/overlay.rs", "src/util/packets_history.rs"],
  [("duplicate detection", "Overlay::owned_broadcasts, create_broadcast"), ("part history", "PacketsHistory in FEC transfers")],
  ["Overlay::owned_broadcasts"], ["Overlay::wait_for_broadcast, datagrams on the wire"])
p("O03", "Delivered broadcasts carry the true source and payload",
  "Every broadcast delivered to the application was issued by the identity it is attributed to, with exactly that payload, unless the source flag says anyone may send; forged, altered or expired broadcast packets, and packets of overlays the node does not serve, are never delivered.",
  [I, S, F], "for every altered, forged, re-signed or outdated broadcast packet mixed with honest ones",
  "needs a hostile member injecting packets among honest parts",
  ["src/overlay/overlay.rs", "src/proto/overlay.rs"],
  [("signature check", "Overlay::receive_broadcast, process_fec_broadcast"), ("data hash check", "FEC decoding"), ("date check", "Overlay::is_broadcast_outdated")],
  ["Overlay::owned_broadcasts"], ["Overlay::wait_for_broadcast"])
p("O04", "Forged broadcast packets cannot suppress or amplify real ones",
  "A member that sends forged or damaged broadcast packets cannot prevent an honest member's broadcast from being delivered, and packets that fail verification are neither delivered nor forwarded to neighbours.",
  [I, S, H], "for every timing and content of forged packets relative to the honest broadcast",
  "needs the forged packet to arrive before or among the honest ones",
  ["src/overlay/overlay.rs"],
  [("verification before bookkeeping", "Overlay::receive_broadcast, receive_fec_broadcast")],
  ["Overlay::owned_broadcasts"], ["Overlay::wait_for_broadcast, datagrams on the wire"])
p("O05", "Every received broadcast reaches a waiting consumer exactly once",
  "Each complete broadcast is handed to exactly one caller waiting for broadcasts, none is lost or stuck while a caller waits, and this stays so when waiting callers are cancelled, time out or run concurrently. Waiting never burns the executor.",
  [S, F], "for every interleaving of arriving broadcasts with concurrent, cancelled and timed-out waiters",
  "lost wake-ups need a particular interleaving of arrival, waiting and cancellation",
  ["src/overlay/broadcast_receiver.rs", "src/overlay/overlay.rs"],
  [("queue and wake-up", "BroadcastReceiver::push/pop")], ["BroadcastReceiver"], ["Overlay::wait_for_broadcast"])
p("O06", "Overlay traffic stays in its overlay and among its members",
  "Messages, queries and broadcasts of one overlay are only handed to that overlay's subscribers and consumers, also when a node serves several overlays, and a node outside an overlay cannot be reached through it. A peer removed from an overlay no longer receives that overlay's broadcasts and is not passed on to others.",
  [S, H, C], "for every set of overlays shared by a node and every sequence of joins, adds and removals",
  "needs several overlays and removals interleaved with broadcasts",
  ["src/overlay/node.rs", "src/overlay/overlay.rs"],
  [("routing by prefix", "overlay::Node subscribers"), ("ignored peers", "Overlay::remove_public_peer")],
  ["overlay::Node::overlays, Overlay::known_peers, neighbours, ignored_peers"], ["subscribers, Overlay::wait_for_broadcast, datagrams on the wire"])
p("O07", "Overlay peer exchange accepts and spreads only valid members",
  "Peers learnt by exchanging random peers, or from overlay records, are accepted only if their record is for that overlay and validly signed by the listed key; a node never lists itself as a peer and always offers a valid record of itself. Bad records in an answer do not hide the good ones, and an older record of a peer never replaces a newer one.",
  [I, S, H], "for every content of exchanged peer lists, honest or hostile",
  "needs hostile peer lists and several nodes exchanging peers",
  ["src/overlay/overlay.rs", "src/overlay/overlay_id.rs", "src/overlay/node.rs"],
  [("verification", "OverlayIdShort::verify_overlay_node"), ("exchange", "Overlay::exchange_random_peers, process_get_random_peers")],
  ["Overlay::known_peers, received_peers"], ["Overlay::exchange_random_peers, answers to getRandomPeers"])
p("O08", "Overlay bookkeeping stays bounded",
  "Broadcast records are discarded after the broadcast lifetime so that the log stays within its configured bound plus what arrived recently, unfinished fountain-coded broadcasts are dropped, and no broadcast is forgotten, and so delivered again, before its lifetime counted from its first arrival has passed.",
  [S, H, F], "for every history of complete, incomplete and duplicated broadcasts over long simulated time",
  "shows only over long histories with timers",
  ["src/overlay/overlay.rs"],
  [("broadcast gc", "Overlay gc task, spawn_broadcast_gc_task"), ("fec timeout task", "create_fec_recv_transfer")],
  ["Overlay::owned_broadcasts, finished_broadcasts"], ["Overlay::metrics()"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
import re
for x in P:
    assert re.match(r"^[A-Z][0-9]{2,3}$", x["id"]) and len(x["title"]) <= 80, (x["id"], len(x["title"]))
print(len(P), "properties")
